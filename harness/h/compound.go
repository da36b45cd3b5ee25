package h

import (
	"strings"

	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"verifharness/ref"
	"verifharness/sym"
)

func init() {
	All["Compound"] = Compound
	All["Single"] = Single
}

// reading follows the grammar of a compound along the tokens of a text.
type reading struct {
	c    *ref.Cursor
	text string
	pos  ref.Pos
	ok   bool
	one  bool // a single literal, or none at all
	bits []string
}

func (r *reading) peek(way int) expected {
	t := *r.c
	return expect(&t, &lexModes[way])
}

const (
	plainly = 0
	literal = 2
)

// ident { "." ident }
func (r *reading) idents() bool {
	for {
		e := expect(r.c, &lexModes[plainly])
		if e.tok != scanner.TIDENT {
			return false
		}
		if r.text == "" {
			r.pos = e.pos
		}
		r.text += e.text
		if r.peek(plainly).tok != scanner.TDOT {
			return true
		}
		expect(r.c, &lexModes[plainly])
		r.text += "."
	}
}

func (r *reading) typeName() bool {
	if e := r.peek(plainly); e.tok == scanner.TDOT {
		expect(r.c, &lexModes[plainly])
		r.text, r.pos = ".", e.pos
	}
	return r.idents()
}

func (r *reading) constant(perm bool) bool {
	e := r.peek(literal)
	r.pos = e.pos
	switch e.tok {
	case scanner.TIDENT:
		return r.idents()
	case scanner.TSTRLIT, scanner.TBOOLLIT, scanner.TINTLIT, scanner.TFLOATLIT:
	default:
		if e.text != "+" && e.text != "-" {
			return false
		}
		expect(r.c, &lexModes[literal])
		r.text = e.text
		n := expect(r.c, &lexModes[literal])
		r.text += n.text
		return n.tok == scanner.TINTLIT || n.tok == scanner.TFLOATLIT
	}
	expect(r.c, &lexModes[literal])
	r.text = e.text
	if e.tok == scanner.TSTRLIT && perm {
		for r.peek(literal).tok == scanner.TSTRLIT {
			r.bits = append(r.bits, expect(r.c, &lexModes[literal]).text)
		}
	}
	return true
}

// Compound: the readers of identifiers, types, constants and empty statements
// take exactly what the grammar says, and leave the rest unread.
func Compound() {
	var text string
	if sym.Param("slots", 0) == 1 {
		ws := []string{"a", "b1", ".", "-", "+", "1", "1.5", ".5", "\"x\"", "'y'", "true", "inf", ";", "\n", "//c\n", "/*\n*/", "\"", "0x1", "="}
		for i := 0; i < sym.Param("n", 3); i++ {
			_, w := sym.Slot("word", ws)
			text += w
		}
	} else {
		text = letters(sym.Param("n", 3))
	}
	show(text)
	l := newLexer(text)
	r := &reading{c: &ref.Cursor{S: text, P: ref.Pos{Off: 0, Line: 1, Col: 1}}}
	var got string
	var pos scanner.Position
	var err error
	switch sym.Choice("reader", 6) {
	case 0:
		got, pos, err = l.ReadFullIdent()
		r.ok = r.idents()
	case 1:
		got, pos, err = l.ReadMessageType()
		r.ok = r.typeName()
	case 2:
		got, pos, err = l.ReadEnumType()
		r.ok = r.typeName()
	case 3:
		got, pos, err = l.ReadConstant(false)
		r.ok = r.constant(false)
	case 4:
		got, pos, err = l.ReadConstant(true)
		r.ok = r.constant(true)
	case 5:
		err = l.ReadEmptyStatement()
		r.ok = r.peek(plainly).tok == scanner.TSEMICOLON
		sym.Assert((err == nil) == r.ok, "an empty statement is a semicolon")
		if r.ok {
			expect(r.c, &lexModes[plainly])
		}
		r.rest(l)
		return
	}
	sym.Assert(err == nil || !r.ok, "what the grammar allows is read")
	sym.Assert(err != nil || r.ok, "what the grammar does not allow is an error")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Assert(pos.Offset == r.pos.Off && pos.Line == r.pos.Line && pos.Column == r.pos.Col, "the position is that of its beginning")
	if len(r.bits) == 0 {
		sym.Assert(got == r.text, "it is what was written")
	} else {
		want, ok := decode(r.text)
		for _, b := range r.bits {
			d, k := decode(b)
			want, ok = want+d, ok && k
		}
		if ok {
			d, k := decode(got)
			sym.Assert(k && d == want, "adjacent literals denote their concatenation")
		}
	}
	sym.Reach("read")
	r.rest(l)
}

// rest checks that what follows is still unread.
func (r *reading) rest(l *lexer.Lexer) {
	m := &lexModes[[]int{0, 1, 2, 5}[sym.Choice("way", 4)]] // also telling the comments
	e := expect(r.c, m)
	m.next(l)
	checkToken(l, e, true)
	if !e.broken && e.tok != scanner.TEOF {
		e = expect(r.c, m)
		m.next(l)
		checkToken(l, e, true)
	}
	sym.Reach("rest")
}

// the parsers of single statements, the body each belongs to, and the statements
type single struct {
	kind      string
	pre, post string
	call      func(p *parser.Parser) (parser.Visitee, error)
	stmts     []string
}

var singles = []single{
	{"import", ``, ``, func(p *parser.Parser) (parser.Visitee, error) { return p.ParseImport() }, []string{`import public "a";`, `import 'b';`, `import weak "c.proto";`}},
	{"package", ``, ``, func(p *parser.Parser) (parser.Visitee, error) { return p.ParsePackage() }, []string{`package a.b;`, `package c;`}},
	{"option", ``, ``, func(p *parser.Parser) (parser.Visitee, error) { return p.ParseOption() }, []string{`option a=-1;`, `option (a.b).c={d:1,e{f:"g"}};`, `option a=["x","y"];`, `option a="b" 'c';`}},
	{"message", ``, ``, func(p *parser.Parser) (parser.Visitee, error) { return p.ParseMessage() }, []string{`message A{}`, `message A{int32 b=1;}`, `message A{oneof b{c d=1;}enum E{F=0;}};`, `message A{message B{;};}`}},
	{"enum", ``, ``, func(p *parser.Parser) (parser.Visitee, error) { return p.ParseEnum() }, []string{`enum A{B=0;}`, `enum A{B=-1[c=d];option e=f;reserved 1;};`}},
	{"service", ``, ``, func(p *parser.Parser) (parser.Visitee, error) { return p.ParseService() }, []string{`service A{rpc B(C)returns(D);}`, `service A{option a=b;rpc B(stream C)returns(stream .d.E){option f=g;};}`}},
	{"extend", ``, ``, func(p *parser.Parser) (parser.Visitee, error) { return p.ParseExtend() }, []string{`extend .a.B{int32 a=1;}`, `extend A{};`}},
	{"field", `message M{`, `}`, func(p *parser.Parser) (parser.Visitee, error) { return p.ParseField() }, []string{`int32 a=1;`, `repeated .a.B b=0x2[c=d,(e).f=-1];`, `required string c=3;`}},
	{"map", `message M{`, `}`, func(p *parser.Parser) (parser.Visitee, error) { return p.ParseMapField() }, []string{`map<string,.a.B>b=3[c=-1.5];`, `map<int32,int32>c=1;`}},
	{"group", `message M{`, `}`, func(p *parser.Parser) (parser.Visitee, error) { return p.ParseGroupField() }, []string{`repeated group B=1{int32 c=2;}`, `group C=2{};`}},
	{"oneof", `message M{`, `}`, func(p *parser.Parser) (parser.Visitee, error) { return p.ParseOneof() }, []string{`oneof a{int32 b=1;option c=d;.e.F g=2[h=i];}`, `oneof a{};`}},
	{"reserved", `message M{`, `}`, func(p *parser.Parser) (parser.Visitee, error) { return p.ParseReserved() }, []string{`reserved 1,2 to 3,9 to max;`, `reserved "a",'b';`, `reserved a,b;`}},
	{"extensions", `message M{`, `}`, func(p *parser.Parser) (parser.Visitee, error) { return p.ParseExtensions() }, []string{`extensions 1,4 to 5;`, `extensions 4[declaration={number:4,full_name:".a"},declaration={reserved:true}];`}},
	{"declaration", `message M{extensions 1[`, `];}`, func(p *parser.Parser) (parser.Visitee, error) { return p.ParseDeclaration() }, []string{`declaration={number:4,type:".a",repeated:true}`, `declaration={}`}},
	{"syntax", ``, ``, func(p *parser.Parser) (parser.Visitee, error) { return p.ParseSyntax() }, []string{`syntax="proto3";`, `syntax='proto2';`}},
	{"edition", ``, ``, func(p *parser.Parser) (parser.Visitee, error) { return p.ParseEdition() }, []string{`edition="2023";`, `edition='2024';`}},
}

// statementOf is what a parser of single statements yields.
func statementOf(v parser.Visitee) *ref.Node {
	p := &parser.Proto{}
	switch x := v.(type) {
	case *parser.Syntax:
		p.Syntax = x
	case *parser.Edition:
		p.Edition = x
	default:
		p.ProtoBody = []parser.Visitee{v}
	}
	c := ref.Conv{File: fileName}
	return c.Proto(p).Kids[0]
}

// inFile is the statement as part of a file; nil if the file is refused or has another shape.
func (k *single) inFile(s string, m mode) *ref.Node {
	p, err := parse(k.pre+s+k.post, m)
	if err != nil {
		return nil
	}
	t := tree(p)
	for n := k.pre; n != ""; {
		if len(t.Kids) != 1 {
			return nil
		}
		t = t.Kids[0]
		n = ""
		if k.kind == "declaration" && t.Kind == "message" {
			n = k.pre
		}
	}
	kids := t.Kids
	if k.kind == "declaration" && len(kids) == 2 {
		kids = kids[1:]
	}
	if len(kids) != 1 || kids[0].Kind != k.kind {
		return nil
	}
	return kids[0]
}

// refused checks that what no file accepts is not accepted on its own, unless
// a part of it is, and the rest remains unread.
func (k *single) refused(s string, m mode) {
	show(s)
	l := newLexer(s)
	v, err := k.call(parser.NewParser(l, parser.WithPermissive(m.perm)))
	if err != nil || empty(v) {
		sym.Reach("refused")
		return
	}
	l.Next()
	s = s[:l.Pos.Offset]
	for _, kw := range []string{"message", "enum", "option", "oneof", "map", "reserved", "extensions", "extend", "group", "repeated group", "required group"} {
		if k.kind == "field" && strings.HasPrefix(strings.TrimSpace(s), kw) {
			return
		}
	}
	kid := k.inFile(s+"\n", m)
	sym.Assert(kid != nil, "what no file accepts is refused on its own")
	d := ref.Diff(statementOf(v), kid, ref.Shape)
	sym.Assert(d == "", "a statement on its own is what it is in a file: "+d)
	sym.Reach("a part")
}

// empty: the optional statements are absent without an error.
func empty(v parser.Visitee) bool {
	switch x := v.(type) {
	case *parser.Syntax:
		return x == nil
	case *parser.Edition:
		return x == nil
	}
	return false
}

// Single: a parser of single statements takes exactly the statement, which is what it is in a file.
func Single() {
	k := &singles[sym.Choice("kind", len(singles))]
	m := chooseMode(sym.Param("modes", 1) == 1, false)
	s := k.stmts[sym.Choice("stmt", len(k.stmts))]
	switch sym.Param("how", 0) {
	case 0:
		s = holed(s, sym.Param("del", 1), sym.Param("n", 1), true)
	case 1:
		s = retoken(s, sym.Choice("insert", 2) == 1)
	}
	kid := k.inFile(s, m)
	if kid == nil {
		k.refused(s, m)
		return
	}
	text := s + []string{"", "a", " message B{}", "\n1.5 ", "}", "]", " //c\n}/*d*/"}[sym.Choice("rest", 7)]
	show(text)
	l := newLexer(text)
	c := &ref.Cursor{S: text, P: ref.Pos{Off: 0, Line: 1, Col: 1}}
	c.Advance(len(s))
	r := &reading{c: c}
	v, err := k.call(parser.NewParser(l, parser.WithPermissive(m.perm)))
	sym.Assert(err == nil, "a statement is accepted on its own")
	d := ref.Diff(statementOf(v), kid, ref.Shape)
	sym.Assert(d == "", "a statement on its own is what it is in a file: "+d)
	sym.Reach("accepted")
	r.rest(l)
}
