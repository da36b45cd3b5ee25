package h

import (
	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/interpret/unordered"
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
	"verifharness/sym"
)

func init() {
	All["UnorderParsed"] = UnorderParsed
	All["UnorderBuilt"] = UnorderBuilt
	All["UnorderHole"] = UnorderHole
	All["Reuse"] = Reuse
	All["Edited"] = Edited
}

// part keeps from a body what is of one kind.
func part[T any](body []parser.Visitee) []T {
	var r []T
	for _, v := range body {
		if x, ok := v.(T); ok {
			r = append(r, x)
		}
	}
	return r
}

// holds tells that a list of the unordered form is that part of the body.
func holds[T comparable](list []T, body []parser.Visitee, what string) int {
	want := part[T](body)
	sym.Assert(len(list) == len(want), "the list of "+what+" is complete")
	for i := range want {
		sym.Assert(list[i] == want[i], "the list of "+what+" is in order")
	}
	return len(want)
}

func sameComs(a, b []*parser.Comment) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func carried(what string, lead, lead2 []*parser.Comment, inline, inline2, curly, curly2 *parser.Comment, m, m2 meta.Meta) {
	sym.Assert(sameComs(lead, lead2), "the leading comments of a "+what+" are carried over")
	sym.Assert(inline == inline2, "the inline comment of a "+what+" is carried over")
	sym.Assert(curly == curly2, "the opening comment of a "+what+" is carried over")
	sym.Assert(m == m2, "the positions of a "+what+" are carried over")
}

func sameEnum(u *unordered.Enum, x *parser.Enum) {
	sym.Assert(u != nil && u.EnumBody != nil, "an enum has an unordered form")
	sym.Assert(u.EnumName == x.EnumName, "the name of an enum is carried over")
	carried("enum", u.Comments, x.Comments, u.InlineComment, x.InlineComment, u.InlineCommentBehindLeftCurly, x.InlineCommentBehindLeftCurly, u.Meta, x.Meta)
	b := u.EnumBody
	n := holds(b.Options, x.EnumBody, "options") + holds(b.EnumFields, x.EnumBody, "enum values") +
		holds(b.Reserveds, x.EnumBody, "reserved statements") + holds(b.EmptyStatements, x.EnumBody, "empty statements")
	sym.Assert(n == len(x.EnumBody), "nothing of an enum is dropped")
}

func sameMessage(u *unordered.Message, x *parser.Message) {
	sym.Assert(u != nil && u.MessageBody != nil, "a message has an unordered form")
	sym.Assert(u.MessageName == x.MessageName, "the name of a message is carried over")
	carried("message", u.Comments, x.Comments, u.InlineComment, x.InlineComment, u.InlineCommentBehindLeftCurly, x.InlineCommentBehindLeftCurly, u.Meta, x.Meta)
	b, body := u.MessageBody, x.MessageBody
	n := holds(b.Fields, body, "fields") + holds(b.Options, body, "options") + holds(b.Oneofs, body, "oneofs") +
		holds(b.Maps, body, "map fields") + holds(b.Groups, body, "groups") + holds(b.Reserves, body, "reserved statements") +
		holds(b.Extends, body, "extends") + holds(b.EmptyStatements, body, "empty statements") + holds(b.Extensions, body, "extensions")
	enums, messages := part[*parser.Enum](body), part[*parser.Message](body)
	sym.Assert(len(b.Enums) == len(enums), "the list of enums is complete")
	for i := range enums {
		sameEnum(b.Enums[i], enums[i])
	}
	sym.Assert(len(b.Messages) == len(messages), "the list of messages is complete")
	for i := range messages {
		sameMessage(b.Messages[i], messages[i])
	}
	sym.Assert(n+len(enums)+len(messages) == len(body), "nothing of a message is dropped")
}

func sameService(u *unordered.Service, x *parser.Service) {
	sym.Assert(u != nil && u.ServiceBody != nil, "a service has an unordered form")
	sym.Assert(u.ServiceName == x.ServiceName, "the name of a service is carried over")
	carried("service", u.Comments, x.Comments, u.InlineComment, x.InlineComment, u.InlineCommentBehindLeftCurly, x.InlineCommentBehindLeftCurly, u.Meta, x.Meta)
	b, body := u.ServiceBody, x.ServiceBody
	n := holds(b.Options, body, "options") + holds(b.RPCs, body, "rpcs") + holds(b.EmptyStatements, body, "empty statements")
	sym.Assert(n == len(body), "nothing of a service is dropped")
}

func sameExtend(u *unordered.Extend, x *parser.Extend) {
	sym.Assert(u != nil && u.ExtendBody != nil, "an extend has an unordered form")
	sym.Assert(u.MessageType == x.MessageType, "the name of an extend is carried over")
	carried("extend", u.Comments, x.Comments, u.InlineComment, x.InlineComment, u.InlineCommentBehindLeftCurly, x.InlineCommentBehindLeftCurly, u.Meta, x.Meta)
	b, body := u.ExtendBody, x.ExtendBody
	n := holds(b.Fields, body, "fields") + holds(b.EmptyStatements, body, "empty statements")
	sym.Assert(n == len(body), "nothing of an extend is dropped")
}

func sameProto(u *unordered.Proto, x *parser.Proto) {
	sym.Assert(u != nil && u.ProtoBody != nil, "a file has an unordered form")
	sym.Assert(u.Syntax == x.Syntax, "the syntax is carried over")
	sym.Assert(u.Edition == x.Edition, "the edition is carried over")
	b, body := u.ProtoBody, x.ProtoBody
	n := holds(b.Imports, body, "imports") + holds(b.Packages, body, "packages") + holds(b.Options, body, "options") +
		holds(b.EmptyStatements, body, "empty statements")
	enums, messages := part[*parser.Enum](body), part[*parser.Message](body)
	extends, services := part[*parser.Extend](body), part[*parser.Service](body)
	sym.Assert(len(b.Enums) == len(enums), "the list of enums is complete")
	for i := range enums {
		sameEnum(b.Enums[i], enums[i])
	}
	sym.Assert(len(b.Messages) == len(messages), "the list of messages is complete")
	for i := range messages {
		sameMessage(b.Messages[i], messages[i])
	}
	sym.Assert(len(b.Extends) == len(extends), "the list of extends is complete")
	for i := range extends {
		sameExtend(b.Extends[i], extends[i])
	}
	sym.Assert(len(b.Services) == len(services), "the list of services is complete")
	for i := range services {
		sameService(b.Services[i], services[i])
	}
	sym.Assert(n+len(enums)+len(messages)+len(extends)+len(services) == len(body), "nothing of a file is dropped")
}

// what may stand where
const (
	inProto = iota
	inMessage
	inEnum
	inExtend
	inService
)

func belongs(v parser.Visitee, where int) bool {
	switch v.(type) {
	case *parser.Import, *parser.Package:
		return where == inProto
	case *parser.Option:
		return where != inExtend
	case *parser.Message, *parser.Enum, *parser.Extend:
		return where == inProto || where == inMessage
	case *parser.Service:
		return where == inProto
	case *parser.Field:
		return where == inMessage || where == inExtend
	case *parser.MapField, *parser.GroupField, *parser.Oneof, *parser.Extensions:
		return where == inMessage
	case *parser.Reserved:
		return where == inMessage || where == inEnum
	case *parser.EnumField:
		return where == inEnum
	case *parser.RPC:
		return where == inService
	case *parser.EmptyStatement:
		return true
	}
	return false
}

// sound: every statement stands where it may.
func sound(body []parser.Visitee, where int) bool {
	for _, v := range body {
		if !belongs(v, where) {
			return false
		}
		switch x := v.(type) {
		case *parser.Message:
			if !sound(x.MessageBody, inMessage) {
				return false
			}
		case *parser.Enum:
			if !sound(x.EnumBody, inEnum) {
				return false
			}
		case *parser.Extend:
			// within a message an extend is kept as it is
			if where == inProto && !sound(x.ExtendBody, inExtend) {
				return false
			}
		case *parser.Service:
			if !sound(x.ServiceBody, inService) {
				return false
			}
		}
	}
	return true
}

func checkUnordered(p *parser.Proto) {
	u, err := protoparser.UnorderedInterpret(p)
	if !sound(p.ProtoBody, inProto) {
		sym.Assert(err != nil, "what cannot belong there is reported")
		sym.Assert(u == nil, "not both a result and an error")
		sym.Reach("foreign")
		return
	}
	sym.Assert(err == nil, "a tree of statements has an unordered form")
	sameProto(u, p)
	sym.Reach("unordered")
}

// UnorderParsed: the trees of files, with an arbitrary word changed.
func UnorderParsed() {
	doc := pickDoc(join(grammarDocs, commentDocs, []string{bigDoc, manyDoc}))
	p, err := parse(doc, mode{perm: true})
	if err != nil {
		return
	}
	show(doc)
	checkUnordered(p)
}

// UnorderHole: a file with an arbitrary character changed.
func UnorderHole() {
	doc := pickDoc(families[sym.Param("family", 6)])
	del := sym.Param("del", 1)
	if len(doc) < del {
		return
	}
	text := holed(doc, del, 1, true)
	p, err := parse(text, mode{perm: true})
	if err != nil {
		sym.Reach("rejected")
		return
	}
	show(text)
	checkUnordered(p)
}

// manyDoc has several statements of each kind, mixed.
const manyDoc = `syntax="proto3";package p;import "a";;option a=1;message A{int32 a=1;enum B{A=0;B=1;option c=d;reserved 1;;C=2;option e=f;reserved 2;}
int32 b=2;message C{int32 c=3;message D{}message E{enum F{A=0;}}message G{}}map<int32,int32>d=4;oneof e{int32 f=5;}option g=h;reserved 6;
extensions 7;extend H{int32 i=8;;int32 j=9;}repeated group I=10{int32 k=11;}enum J{A=0;}map<int32,int32>l=12;oneof m{int32 n=13;}option o=p;
reserved 14;extensions 15;extend K{}repeated group L=16{}message M{};int32 q=17;}extend N{int32 r=1;;int32 s=2;;}import "b";package q;option t=u;
service S{rpc A(B)returns(C);option v=w;;rpc D(E)returns(F);option x=y;;rpc G(H)returns(I);}enum O{A=0;B=1;reserved 1;C=2;}message P{int32 a=1;}
service T{}extend Q{}enum U{A=1;};message V{}service W{rpc A(B)returns(C);}import "c";option z=a;;`

func (k *maker) named(kind int, parts []parser.Visitee, i int) parser.Visitee {
	v := k.any(kind, parts)
	name := string([]byte{sym.ByteRange("name", 'a', 'z')})
	m := meta.Meta{Pos: meta.Position{Offset: sym.Pick("pos", 100)}, LastPos: meta.Position{Line: sym.Pick("end", 100)}}
	switch x := v.(type) {
	case *parser.Message:
		x.MessageName, x.Meta = name, m
	case *parser.Enum:
		x.EnumName, x.Meta = name, m
	case *parser.Extend:
		x.MessageType, x.Meta = name, m
	case *parser.Service:
		x.ServiceName, x.Meta = name, m
	}
	return v
}

// UnorderBuilt: arbitrary trees, also such that no file has.
func UnorderBuilt() {
	k := &maker{comments: sym.Param("comments", 1)}
	plain := &maker{}
	if sym.Param("nil", 0) == 1 {
		checkNil()
		return
	}
	kind := func(n string) int { return sym.Choice(n, kinds) }
	// a body of arbitrary statements
	many := func(n int) []parser.Visitee {
		var r []parser.Visitee
		for i := 0; i < n; i++ {
			v := bare(kind("kind"))
			r = append(r, v)
		}
		return r
	}
	n := sym.Param("n", 3)
	var body []parser.Visitee
	switch sym.Param("depth", 1) {
	case 0:
		body = many(n)
	case 1:
		x := k.named(1+sym.Choice("container", 4), nil, 0)
		setBody(x, many(n))
		body = []parser.Visitee{bare(14), x, plain.any(0, nil)}
	case 2:
		y := k.named(1+sym.Choice("inner", 4), nil, 1)
		setBody(y, many(n))
		x := k.named(1+sym.Choice("outer", 4), nil, 0)
		setBody(x, []parser.Visitee{bare(14), y, bare(0)})
		body = []parser.Visitee{x}
	}
	p := &parser.Proto{ProtoBody: body}
	if sym.Bool("syntax") {
		p.Syntax = &parser.Syntax{}
	}
	if sym.Bool("edition") {
		p.Edition = &parser.Edition{}
	}
	checkUnordered(p)
}

// bare is a statement without anything.
func bare(kind int) parser.Visitee {
	switch kind {
	case 0:
		return &parser.Option{}
	case 1:
		return &parser.Message{}
	case 2:
		return &parser.Enum{}
	case 3:
		return &parser.Extend{}
	case 4:
		return &parser.Service{}
	case 5:
		return &parser.GroupField{}
	case 6:
		return &parser.Oneof{}
	case 7:
		return &parser.RPC{}
	case 8:
		return &parser.Extensions{}
	case 9:
		return &parser.Comment{}
	case 10:
		return &parser.Field{}
	case 11:
		return &parser.MapField{}
	case 12:
		return &parser.EnumField{}
	case 13:
		return &parser.Reserved{}
	case 14:
		return &parser.EmptyStatement{}
	case 15:
		return &parser.Import{}
	case 16:
		return &parser.Package{}
	case 17:
		return &parser.OneofField{}
	case 18:
		return &parser.Declaration{}
	}
	return nil
}

func setBody(v parser.Visitee, body []parser.Visitee) {
	switch x := v.(type) {
	case *parser.Message:
		x.MessageBody = body
	case *parser.Enum:
		x.EnumBody = body
	case *parser.Extend:
		x.ExtendBody = body
	case *parser.Service:
		x.ServiceBody = body
	}
}

// checkNil: a nil tree gives nil.
func checkNil() {
	p, err := protoparser.UnorderedInterpret(nil)
	sym.Assert(p == nil && err == nil, "a nil file gives nil")
	e, err := unordered.InterpretEnum(nil)
	sym.Assert(e == nil && err == nil, "a nil enum gives nil")
	m, err := unordered.InterpretMessage(nil)
	sym.Assert(m == nil && err == nil, "a nil message gives nil")
	x, err := unordered.InterpretExtend(nil)
	sym.Assert(x == nil && err == nil, "a nil extend gives nil")
	s, err := unordered.InterpretService(nil)
	sym.Assert(s == nil && err == nil, "a nil service gives nil")
	sym.Reach("nil")
}

// Reuse: visiting and interpreting write nothing into a tree, whatever is in it.
func Reuse() {
	k := &maker{comments: sym.Param("comments", 1)}
	var body []parser.Visitee
	for n := sym.Param("n", 1); n > 0; n-- {
		body = append(body, k.any(sym.Choice("kind", kinds), nil))
	}
	if sym.Param("depth", 1) == 1 {
		x := k.any(1+sym.Choice("container", 4), nil)
		setBody(x, body)
		body = []parser.Visitee{x}
	}
	p := &parser.Proto{ProtoBody: body, Meta: &parser.ProtoMeta{}}
	sym.Frozen("visiting", func(bool) { p.Accept(&recorder{decide: func(int) bool { return true }}) })
	sym.Frozen("interpreting", func(bool) { protoparser.UnorderedInterpret(p) })
	sym.Reach("used")
}

// Edited: a tree that has been visited and interpreted is changed; what comes
// out then is what the tree is then.
func Edited() {
	stmt := func(n string) parser.Visitee { return bare(sym.Choice(n, 19)) }
	use := func(p *parser.Proto) {
		checkUnordered(p)
		checkVisit(p, func(int) bool { return true })
	}
	y := bare(1 + sym.Choice("inner", 4))
	yb := []parser.Visitee{stmt("kind"), bare(14)}
	setBody(y, yb)
	x := bare(1 + sym.Choice("outer", 4))
	xb := []parser.Visitee{bare(0), y, bare(14)}
	setBody(x, xb)
	p := &parser.Proto{ProtoBody: []parser.Visitee{x, bare(1)}}
	use(p)
	switch sym.Choice("edit", 6) {
	case 0:
		setBody(y, yb[:1])
	case 1:
		yb[0] = stmt("new kind")
	case 2:
		setBody(y, append(yb, stmt("new kind")))
	case 3:
		setBody(x, []parser.Visitee{bare(14), y})
	case 4:
		xb[0], xb[1] = xb[1], xb[0]
	case 5:
		p.ProtoBody = []parser.Visitee{bare(2), bare(1), x}
	}
	use(p)
}
