package h

// Small files, each showing some feature of the language. The harnesses put
// symbolic characters, tokens, gaps and comments into them.

var messageDocs = []string{
	`message A{}`,
	`message A{int32 a=1;}`,
	`message A{repeated .a.B b=0x1F[c=d];}`,
	`message A{optional B.c d = 012 [a=1,(b.c).d="x"];}`,
	`message A{required group B=1{int32 c=2;}}`,
	`message A{repeated group Bc=1{};group C=2{enum E{X=0;}}}`,
	`message A{map<string,.a.B>b=3[c=-1.5];}`,
	`message A{map<int32,bytes> m=1;}`,
	`message A{oneof b{int32 c=1;.B d=2[e=f];}}`,
	`message A{oneof b{option c=1;B.d c=1;;option d=2;}}`,
	`message A{extend B.C{optional int32 d=100;;}}`,
	`message A{message B{message C{bytes d=1;}}}`,
	`message A{enum B{C=0;}option d=true;;}`,
	`message A{extensions 1 to 5,9 to max;reserved 2,4 to 6;reserved "a",'b';}`,
	`message message{message message{}}`,
	`message A{required required required=1;}`,
	`message A{streams rpcs=1;reserve to=2;mapx max=3;oneofx o=4;optionalx p=5;}`,
	`message A{repeated inf a=1;groups group=2;syntax t=3;}`,
	`message A{};message B{;};`,
	`extend .a.B{repeated int32 a=1;}extend C{}`,
	`extend A{optional group B=1;required a.b c=2[d=e];}`,
	`message A{double a=1[packed=true,deprecated=false];}`,
}

var enumDocs = []string{
	`enum A{}`,
	`enum A{B=0;}`,
	`enum A{B=-1[c=d];C=0x1F;}`,
	`enum A{option allow_alias=true;B=1;C=1;;}`,
	`enum A{reserved 1,3 to 5,9 to max;reserved "B",'C';D=-0X2;}`,
	`enum A{B=017[(a.b).c="x",d=-1];};`,
	`enum enum{enum=0;options=1;reserve=2;max=3;}`,
	`message A{enum B{C=0;D=2147483647[e=1];option f=g;}}`,
	`enum A{_b1=1;Z_=2;}enum B{C=0;}`,
}

var serviceDocs = []string{
	`service A{}`,
	`service A{rpc B(C)returns(D);}`,
	`service A{rpc B(stream C)returns(stream .d.E);;}`,
	`service A{rpc B(.a.C)returns(D.e){}}`,
	`service A{rpc B(C)returns(D){option e=f;option g=1;;};}`,
	`service A{option a=b;rpc B(stream.C)returns(stream.D){;}}`,
	`service A{rpc B(C)returns(D){option (google.api.http)={get:"/v1"};}rpc E(F)returns(G);}`,
	`service service{rpc rpc(streams.A)returns(returns);}`,
	`service A{rpc B(C)returns(stream D){option (a).b={x:1};}option c=d;};`,
}

var optionDocs = []string{
	`option a=b;`,
	`option a.b.(c.d).e=true;`,
	`option (a).(b.c)="x\n\"y";`,
	`option a=-1;option b=+2.5e3;`,
	`option a=-inf;option b=nan;`,
	`option a=0x1f;option b=017;option c=.5;option d=1.;`,
	`option a='x''y';`,
	`option (.a.b)={c:1};`,
	`option a={b:1,c:-2;d{e:"x"}f:[1,2]};`,
	`option a={};option b=[];`,
	`option a=[1,-2,[x,{y:z}]];`,
	`option a={b:{c:{}},d{},e:[]};`,
	`option a={b:{c:1};d:2,};`,
	`option a="b" "c" 'd"e';`,
	`option a=b.c.d;option max=inf.a;`,
	`message A{option (b)={c:"d"};int32 e=1[f={g:[1]},(h)=-i];}`,
	`message A{oneof b{option c=[1];int32 d=1[e='f'"g"];}}`,
	`enum A{option b={c:1};D=1[e={f:1},(g).h=2.0];}`,
	`service A{option b=1e5;rpc B(C)returns(D){option e={f:{g:"h"}i:j};}}`,
	`extend A{optional B c=1[d=[e,f],(.g)=true];}`,
	`message A{map<int32,B> c=1[d={e:f;},g=1.5E-2];}`,
	`message A{map<int32,B> c=1[deprecated=true];oneof d{option (e).f=-1;}}`,
}

var fileDocs = []string{
	``,
	`syntax="proto3";`,
	`syntax='proto2';package a.b.c;`,
	`edition="2023";import "a";`,
	`syntax="proto3";edition='2024';;`,
	`import public "a/b.proto";import weak 'c';`,
	`package a;option b=c;message D{}enum E{}service F{}extend G{};`,
	"\uFEFF" + `syntax="proto3";package p;`,
	"\uFEFF" + `package p;`,
	`;;message A{};;`,
	`import "a";import 'b';package packages.imports;`,
	`option java_package="x";import "y";package z;`,
}

var rangeDocs = []string{
	`message A{reserved 1;}`,
	`message A{reserved 1,2 to 3,0x10 to max;}`,
	`message A{reserved "a";reserved 'b',"c_1";}`,
	`message A{reserved a,b;reserved c;}`,
	`message A{reserved 7 to 011,12;}`,
	`enum A{reserved 1 to max,5;B=0;}`,
	`enum A{reserved "B","C";D=0;}`,
	`message A{extensions 100 to max;extensions 1;}`,
	`message A{extensions 4,20 to 30,0X5 to 017;}`,
	`message A{extensions 4 to 8[declaration={number:4,full_name:".a.b",type:"c"}];}`,
	`message A{extensions 4[declaration={number:4 reserved:true},declaration={full_name:'.a' repeated:false}];}`,
	`message A{extensions 1,4[declaration={type:".x",repeated:true,number:9}];}`,
	`message A{extensions 4[declaration={}];reserved 1;}`,
	`message A{extensions 1 to 2,3[declaration={number:1,},declaration={number:2},declaration={number:3}];}`,
}

// commentDocs has comments at every kind of place.
var commentDocs = []string{
	"//a\nsyntax=\"proto3\";//b\n//c\npackage p;/*d*/ //e\nimport \"i\";//f\n",
	"//a\nedition=\"2023\"; //b\n//c\n",
	"/*a*/ //b\nmessage A{//c\n//d\nint32 a=1;//e\n//f\n}//g\n//h",
	"message A{//a\n}//b\nmessage B{/*c*/}/*d*/",
	"message A{//a\n//b\n}",
	"enum A{/*a*/ /*b*/B=1;/*c*/ //d\nC=2;//e\n/*f*/}//g",
	"service A{//a\n/*b*/rpc B(C)returns(D);//c\n//d\noption e=f;//g\n/*h*/}",
	"service A{/*a*/rpc/*b*/B/*c*/(C)//d\nreturns(/*e*/D){//f\n}//g\n}",
	"service A{rpc B(C)returns(/*a*/D)/*b*/{//c\noption e=f;/*d*/}/*e*/}",
	"message A{/*a*/oneof b{//c\n//d\nint32 e=1;//f\n/*g*/option h=1;/*i*/}//j\n}",
	"message A{//a\nrepeated group B=1{//b\n//c\nint32 d=2;//e\n}//f\n}",
	"message A{/*a*/map<int32,B>c=1;//b\n//d\nreserved 1;/*e*/ /*f*/extensions 2;//g\n}",
	"message A{extensions 1[//a\n//b\ndeclaration={//c\nnumber:1}//d\n,//e\ndeclaration={}//f\n]/*g*/;/*h*/}",
	"extend A{//a\n/*b*/optional int32 c=1;//d\n/*e*/}//f\n//g",
	"message A{/*a*/enum B{//b\nC=0;//c\n}/*d*/message E{//e\n}//f\n}",
	"message A{/*a*/;/*b*/ /*c*/;}/*d*/;//e\n;",
	"/*a\nb*/message A{}/*c\nd*/enum B{}//e",
	"//a\n\n/*b*/\nmessage A {\n\n  // c\n\n  int32 d = 1; // e\n\n  /* f */ // g\n}\n",
	"enum A{//a\nreserved 1;//b\n//c\noption d=e;//f\n;//g\n}",
	"extend A{//a\n;/*b*/\n//c\n}service B{//d\n;//e\n//f\n}",
	"package a;//b\noption c=d;/*e*/\nextend F{};//g\nenum H{}/*i*/;//j\nservice K{};",
	"//a\nmessage B{//c\nextend D{//e\nint32 f=1;//g\n//h\n}//i\n//j\n}",
}

// blockDocs has every kind of block with a semicolon behind it.
var blockDocs = []string{
	`message A{oneof b{};oneof c{int32 d=1;};}`,
	`service A{rpc B(C)returns(D){};rpc E(F)returns(G){option h=i;};};`,
	`enum A{};enum B{C=0;};service D{};`,
	`extend A{};extend B{int32 c=1;};`,
	`message A{message B{};enum C{};extend D{};group E=1{};};`,
	`message A{message B{int32 c=1;};enum C{D=0;};extend D{int32 e=1;};group E=1{int32 f=2;};};`,
	`service A{rpc B(C)returns(D);;};message E{map<int32,F>g=1;;reserved 1;;extensions 2;;option h=i;;};`,
	`syntax="proto3";;edition="2023";;import "a";;package b;;option c=d;;`,
	`message A{extensions 1[declaration={}];;oneof b{option c=d;int32 e=1;;}}`,
}

// twinDocs says everything twice.
var twinDocs = []string{
	`message A{int32 a=1[(b)=1,(b)=1];int32 a=1[(b)=1,(b)=1];}`,
	`message A{map<int32,B>c=1[d=1,d=1];map<int32,B>c=1[d=1,d=1];}`,
	`message A{oneof b{int32 c=1[d=1,d=1];int32 c=1[d=1,d=1];option e=1;option e=1;}oneof b{int32 c=1[d=1,d=1];option e=1;}}`,
	`message A{reserved 1,1,2 to 3,2 to 3;reserved 1,2 to 3;reserved "a","a";reserved "a","a";}`,
	`message A{extensions 1,1,2 to 3,2 to 3;extensions 1[declaration={number:1},declaration={number:1}];extensions 1[declaration={number:1}];}`,
	`enum A{B=0[c=1,c=1];B=0[c=1,c=1];option d=1;option d=1;reserved 1,1;reserved 1;;;}enum A{B=0[c=1];}`,
	`service A{rpc B(C)returns(C);rpc B(C)returns(C){option d=1;option d=1;}rpc B(C)returns(C){option d=1;};;}service A{rpc B(C)returns(C);}`,
	`import "a";import "a";import public "a";package b;package b;option c=1;option c=1;;;extend D{int32 e=1[f=1];}extend D{int32 e=1[f=1];}`,
	"//a\nimport \"b\";//a\n//a\nimport \"b\";//a\n//a\n//a\npackage c;//a\n//a\npackage c;//a\n",
	"message A{//a\n//a\n//a\nint32 b=1;//a\n//a\n//a\nint32 b=1;//a\n//a\n}//a\nmessage A{//a\n//a\nint32 b=1;//a\n}//a\n",
	"service A{//a\n//a\nrpc/*a*/B(C/*a*/)returns(C);//a\n//a\nrpc/*a*/B(C/*a*/)returns(C);//a\n}",
	`option a={b:1,b:1;c{b:1 b:1}};option a={b:[1,1],c:"a" "a" "a"};option (d.d).d.d="e""e";option a={b:1,b:1;c{b:1 b:1}};`,
	`message A{extensions 1[declaration={repeated:true,repeated:false,reserved:true,reserved:false}];extensions 1[declaration={number:1,number:2,type:"b",type:"c",full_name:"d",full_name:"e"}];}`,
}

func join(ds ...[]string) []string {
	var r []string
	for _, d := range ds {
		r = append(r, d...)
	}
	return r
}

var grammarDocs = join(messageDocs, enumDocs, serviceDocs, optionDocs, fileDocs, rangeDocs)
