package h

import (
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"verifharness/sym"
)

func init() {
	All["VisitParsed"] = VisitParsed
	All["VisitBuilt"] = VisitBuilt
}

// item is something a visitor can meet.
type item struct {
	kind  string
	what  any
	lead  []*parser.Comment // the comments attached to it
	other []*parser.Comment
	parts []*item
}

func list(cs ...*parser.Comment) []*parser.Comment {
	var r []*parser.Comment
	for _, c := range cs {
		if c != nil {
			r = append(r, c)
		}
	}
	return r
}

func bodyItems(b []parser.Visitee) []*item {
	var r []*item
	for _, x := range b {
		r = append(r, itemOf(x))
	}
	return r
}

// itemOf lists by the declared parts of each kind what a visitor must meet.
func itemOf(v parser.Visitee) *item {
	switch x := v.(type) {
	case *parser.Syntax:
		return &item{"syntax", x, x.Comments, list(x.InlineComment), nil}
	case *parser.Edition:
		return &item{"edition", x, x.Comments, list(x.InlineComment), nil}
	case *parser.Import:
		return &item{"import", x, x.Comments, list(x.InlineComment), nil}
	case *parser.Package:
		return &item{"package", x, x.Comments, list(x.InlineComment), nil}
	case *parser.Option:
		return &item{"option", x, x.Comments, list(x.InlineComment), nil}
	case *parser.Message:
		return &item{"message", x, x.Comments, list(x.InlineComment, x.InlineCommentBehindLeftCurly), bodyItems(x.MessageBody)}
	case *parser.Field:
		return &item{"field", x, x.Comments, list(x.InlineComment), nil}
	case *parser.GroupField:
		return &item{"group", x, x.Comments, list(x.InlineComment, x.InlineCommentBehindLeftCurly), bodyItems(x.MessageBody)}
	case *parser.MapField:
		return &item{"map", x, x.Comments, list(x.InlineComment), nil}
	case *parser.Oneof:
		i := &item{"oneof", x, x.Comments, list(x.InlineComment, x.InlineCommentBehindLeftCurly), nil}
		for _, f := range x.OneofFields {
			i.parts = append(i.parts, itemOf(f))
		}
		for _, o := range x.Options {
			i.parts = append(i.parts, itemOf(o))
		}
		return i
	case *parser.OneofField:
		return &item{"oneoffield", x, x.Comments, list(x.InlineComment), nil}
	case *parser.Enum:
		return &item{"enum", x, x.Comments, list(x.InlineComment, x.InlineCommentBehindLeftCurly), bodyItems(x.EnumBody)}
	case *parser.EnumField:
		return &item{"enumfield", x, x.Comments, list(x.InlineComment), nil}
	case *parser.Reserved:
		return &item{"reserved", x, x.Comments, list(x.InlineComment), nil}
	case *parser.Extensions:
		i := &item{"extensions", x, x.Comments, list(x.InlineComment, x.InlineCommentBehindLeftSquare), nil}
		for _, d := range x.Declarations {
			i.parts = append(i.parts, itemOf(d))
		}
		return i
	case *parser.Declaration:
		return &item{"declaration", x, x.Comments, list(x.InlineComment, x.InlineCommentBehindLeftCurly), nil}
	case *parser.Extend:
		return &item{"extend", x, x.Comments, list(x.InlineComment, x.InlineCommentBehindLeftCurly), bodyItems(x.ExtendBody)}
	case *parser.Service:
		return &item{"service", x, x.Comments, list(x.InlineComment, x.InlineCommentBehindLeftCurly), bodyItems(x.ServiceBody)}
	case *parser.RPC:
		i := &item{"rpc", x, x.Comments, list(x.InlineComment, x.InlineCommentBehindLeftCurly), nil}
		i.other = append(i.other, x.EmbeddedComments...)
		for _, o := range x.Options {
			i.parts = append(i.parts, itemOf(o))
		}
		return i
	case *parser.EmptyStatement:
		return &item{"empty", x, nil, list(x.InlineComment), nil}
	case *parser.Comment:
		return &item{"comment", x, nil, nil, nil}
	}
	return &item{kind: "unknown"}
}

func protoItems(p *parser.Proto) []*item {
	var r []*item
	if p.Syntax != nil {
		r = append(r, itemOf(p.Syntax))
	}
	if p.Edition != nil {
		r = append(r, itemOf(p.Edition))
	}
	return append(r, bodyItems(p.ProtoBody)...)
}

// visit is one call of the visitor.
type visit struct {
	kind string
	what any
	next bool
}

// recorder notes every call and declines what decide declines.
type recorder struct {
	log    []visit
	decide func(i int) bool
}

func (r *recorder) add(kind string, what any) bool {
	next := r.decide(len(r.log))
	r.log = append(r.log, visit{kind, what, next})
	return next
}

func (r *recorder) VisitComment(x *parser.Comment) {
	r.log = append(r.log, visit{"comment", x, false})
}
func (r *recorder) VisitDeclaration(x *parser.Declaration) bool { return r.add("declaration", x) }
func (r *recorder) VisitEdition(x *parser.Edition) bool         { return r.add("edition", x) }
func (r *recorder) VisitEmptyStatement(x *parser.EmptyStatement) bool {
	return r.add("empty", x)
}
func (r *recorder) VisitEnum(x *parser.Enum) bool             { return r.add("enum", x) }
func (r *recorder) VisitEnumField(x *parser.EnumField) bool   { return r.add("enumfield", x) }
func (r *recorder) VisitExtend(x *parser.Extend) bool         { return r.add("extend", x) }
func (r *recorder) VisitExtensions(x *parser.Extensions) bool { return r.add("extensions", x) }
func (r *recorder) VisitField(x *parser.Field) bool           { return r.add("field", x) }
func (r *recorder) VisitGroupField(x *parser.GroupField) bool { return r.add("group", x) }
func (r *recorder) VisitImport(x *parser.Import) bool         { return r.add("import", x) }
func (r *recorder) VisitMapField(x *parser.MapField) bool     { return r.add("map", x) }
func (r *recorder) VisitMessage(x *parser.Message) bool       { return r.add("message", x) }
func (r *recorder) VisitOneof(x *parser.Oneof) bool           { return r.add("oneof", x) }
func (r *recorder) VisitOneofField(x *parser.OneofField) bool { return r.add("oneoffield", x) }
func (r *recorder) VisitOption(x *parser.Option) bool         { return r.add("option", x) }
func (r *recorder) VisitPackage(x *parser.Package) bool       { return r.add("package", x) }
func (r *recorder) VisitReserved(x *parser.Reserved) bool     { return r.add("reserved", x) }
func (r *recorder) VisitRPC(x *parser.RPC) bool               { return r.add("rpc", x) }
func (r *recorder) VisitService(x *parser.Service) bool       { return r.add("service", x) }
func (r *recorder) VisitSyntax(x *parser.Syntax) bool         { return r.add("syntax", x) }

// matcher walks the log along what must be visited.
type matcher struct {
	log  []visit
	used []bool
}

func (m *matcher) find(from int, what any) int {
	for i := from; i < len(m.log); i++ {
		if m.log[i].what == what && !m.used[i] {
			return i
		}
	}
	return -1
}

// match accounts for the visits of the items, in order and behind the call at "after";
// the attached comments may come anywhere behind their owner. It returns the index
// of the last element visited.
func (m *matcher) match(items []*item, after int) int {
	for _, it := range items {
		i := m.find(after+1, it.what)
		sym.Assert(i >= 0, "each "+it.kind+" is visited, in order, behind its parent")
		sym.Assert(m.log[i].kind == it.kind, "each element is visited by the method for its kind")
		m.used[i] = true
		after = i
		if !m.log[i].next {
			continue
		}
		after = m.match(it.parts, i)
		j := i
		for _, c := range it.lead {
			k := m.find(j+1, c)
			sym.Assert(k >= 0, "each leading comment of a "+it.kind+" is visited, in order, behind it")
			m.used[k] = true
			j = k
		}
		for _, c := range it.other {
			k := m.find(i+1, c)
			sym.Assert(k >= 0, "each other comment of a "+it.kind+" is visited behind it")
			m.used[k] = true
		}
	}
	return after
}

func checkVisit(p *parser.Proto, decide func(int) bool) {
	r := &recorder{decide: decide}
	p.Accept(r)
	m := &matcher{r.log, make([]bool, len(r.log))}
	m.match(protoItems(p), -1)
	for i := range m.used {
		sym.Assert(m.used[i], "nothing else is visited")
	}
	sym.Reach("visited")
}

// decider prunes: all symbolic, one arbitrary element, or none.
func decider(how, limit int) func(int) bool {
	switch how {
	case 1: // each of the first elements is declined or not
		return func(i int) bool { return i >= limit || !sym.Bool("declined") }
	case 2: // one arbitrary element
		at := sym.Pick("declined", limit)
		return func(i int) bool { return i != at }
	}
	return func(int) bool { return true }
}

// bigDoc has every kind of element at every place, with comments.
const bigDoc = `//a
syntax="proto3";//b
//c
edition="2023";//d
/*e*/package p;//f
/*g*/import "i";//h
//i
option a=b;//j
/*k*/message A{//l
/*m*/int32 a=1;//n
/*o*/map<int32,B>c=2;//p
/*q*/repeated group G=3{//r
/*s*/int32 d=4;//t
}//u
/*v*/oneof e{//w
/*x*/int32 f=5;//y
/*z*/option g=h;//A
//zz
}//B
/*C*/enum E{//D
/*E*/F=0;//F
/*G*/option h=i;//H
/*I*/reserved 1;//J
;//K
//L
}//M
/*N*/message I{//O
}//P
/*Q*/extend J{//R
/*S*/int32 k=6;//T
;//U
//V
}//W
/*X*/extensions 7[//Y
/*Z*/declaration={//0
number:7}//1
];//2
/*3*/reserved "r";//4
/*5*/option l=m;//6
;//7
//8
}//9
/*!*/service S{//@
/*#*/rpc R(/*$*/T)returns(U){//%
option n=o;
}//^
/*&*/option p=q;//(
;//)
//[
}//]
/*{*/extend V{//}
/*<*/int32 w=8;//>
}//,
;//.
//?
`

// VisitParsed: the tree of a file, walked with arbitrary pruning.
func VisitParsed() {
	docs := join([]string{bigDoc}, commentDocs, grammarDocs)
	if sym.Param("big", 0) == 1 {
		docs = docs[:1]
	}
	doc := pickDoc(docs)
	m := mode{perm: true, body: sym.Choice("body comments", 2) == 1}
	p, err := parse(doc, m)
	if err != nil {
		return // another property's matter
	}
	show(doc)
	checkVisit(p, decider(sym.Param("how", 2), sym.Param("limit", 130)))
}

// maker builds trees of arbitrary shape.
type maker struct{ comments int }

func (k *maker) coms() []*parser.Comment {
	var r []*parser.Comment
	for n := sym.Choice("comments", k.comments+1); n > 0; n-- {
		r = append(r, &parser.Comment{Raw: "/*l*/"})
	}
	return r
}

func (k *maker) com(name string) *parser.Comment {
	if sym.Bool(name) {
		return &parser.Comment{Raw: "//i"}
	}
	return nil
}

const kinds = 20

// any is an arbitrary statement of any kind, holding the parts.
func (k *maker) any(kind int, parts []parser.Visitee) parser.Visitee {
	switch kind {
	case 0:
		return &parser.Option{Comments: k.coms(), InlineComment: k.com("inline")}
	case 1:
		return &parser.Message{MessageBody: parts, Comments: k.coms(), InlineComment: k.com("inline"), InlineCommentBehindLeftCurly: k.com("curly")}
	case 2:
		return &parser.Enum{EnumBody: parts, Comments: k.coms(), InlineComment: k.com("inline"), InlineCommentBehindLeftCurly: k.com("curly")}
	case 3:
		return &parser.Extend{ExtendBody: parts, Comments: k.coms(), InlineComment: k.com("inline"), InlineCommentBehindLeftCurly: k.com("curly")}
	case 4:
		return &parser.Service{ServiceBody: parts, Comments: k.coms(), InlineComment: k.com("inline"), InlineCommentBehindLeftCurly: k.com("curly")}
	case 5:
		return &parser.GroupField{MessageBody: parts, Comments: k.coms(), InlineComment: k.com("inline"), InlineCommentBehindLeftCurly: k.com("curly")}
	case 6:
		x := &parser.Oneof{Comments: k.coms(), InlineComment: k.com("inline"), InlineCommentBehindLeftCurly: k.com("curly")}
		for range parts {
			if sym.Bool("option") {
				x.Options = append(x.Options, &parser.Option{Comments: k.coms()})
			} else {
				x.OneofFields = append(x.OneofFields, &parser.OneofField{Comments: k.coms(), InlineComment: k.com("inline")})
			}
		}
		return x
	case 7:
		x := &parser.RPC{RPCRequest: &parser.RPCRequest{}, RPCResponse: &parser.RPCResponse{}, Comments: k.coms(), InlineComment: k.com("inline"),
			InlineCommentBehindLeftCurly: k.com("curly"), EmbeddedComments: k.coms()}
		for range parts {
			x.Options = append(x.Options, &parser.Option{Comments: k.coms(), InlineComment: k.com("inline")})
		}
		return x
	case 8:
		x := &parser.Extensions{Comments: k.coms(), InlineComment: k.com("inline"), InlineCommentBehindLeftSquare: k.com("square")}
		for range parts {
			x.Declarations = append(x.Declarations, &parser.Declaration{Comments: k.coms(), InlineComment: k.com("inline"), InlineCommentBehindLeftCurly: k.com("curly")})
		}
		return x
	case 9:
		return &parser.Comment{Raw: "//b"}
	case 10:
		return &parser.Field{Comments: k.coms(), InlineComment: k.com("inline")}
	case 11:
		return &parser.MapField{Comments: k.coms(), InlineComment: k.com("inline")}
	case 12:
		return &parser.EnumField{Comments: k.coms(), InlineComment: k.com("inline")}
	case 13:
		return &parser.Reserved{Comments: k.coms(), InlineComment: k.com("inline")}
	case 14:
		return &parser.EmptyStatement{InlineComment: k.com("inline")}
	case 15:
		return &parser.Import{Comments: k.coms(), InlineComment: k.com("inline")}
	case 16:
		return &parser.Package{Comments: k.coms(), InlineComment: k.com("inline")}
	case 17:
		return &parser.OneofField{Comments: k.coms(), InlineComment: k.com("inline")}
	case 18:
		return &parser.Declaration{Comments: k.coms(), InlineComment: k.com("inline"), InlineCommentBehindLeftCurly: k.com("curly")}
	}
	return &parser.Syntax{Comments: k.coms(), InlineComment: k.com("inline")}
}

// VisitBuilt: arbitrary trees that need not come from a file.
func VisitBuilt() {
	k := &maker{comments: sym.Param("comments", 2)}
	plain := &maker{}
	parts := make([]parser.Visitee, sym.Choice("parts", sym.Param("parts", 2)+1))
	for i := range parts {
		if sym.Param("plain", 0) == 1 {
			parts[i] = plain.any(10, nil)
		} else {
			parts[i] = plain.any(sym.Choice("part", kinds), make([]parser.Visitee, 1))
		}
	}
	for i := range parts {
		// what has a body may not hold nothing
		clear(parts[i])
	}
	p := &parser.Proto{Meta: &parser.ProtoMeta{}}
	if sym.Choice("header", 2) == 1 {
		p.Syntax = &parser.Syntax{Comments: k.coms(), InlineComment: k.com("inline")}
		p.Edition = &parser.Edition{Comments: k.coms(), InlineComment: k.com("inline")}
	} else {
		p.ProtoBody = []parser.Visitee{k.any(sym.Choice("kind", kinds), parts), plain.any(14, nil)}
	}
	checkVisit(p, decider(sym.Param("how", 1), sym.Param("limit", 6)))
}

// clear empties the bodies of a statement.
func clear(v parser.Visitee) {
	switch x := v.(type) {
	case *parser.Message:
		x.MessageBody = nil
	case *parser.Enum:
		x.EnumBody = nil
	case *parser.Extend:
		x.ExtendBody = nil
	case *parser.Service:
		x.ServiceBody = nil
	case *parser.GroupField:
		x.MessageBody = nil
	}
}
