package h

import (
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"verifharness/sym"
)

func init() {
	All["Owned"] = Owned
	All["Lists"] = Lists
}

// holdings are the parts of a tree, by address, and its lists.
type holdings struct {
	parts []interface{}
	lists []holding
}

// holding is one list of the tree: grow appends something of its own to it, and same
// tells whether it is what it was then.
type holding struct {
	grow func()
	same func() bool
}

func (h *holdings) part(x interface{}) { h.parts = append(h.parts, x) }

func (h *holdings) coms(s *[]*parser.Comment) {
	was := append([]*parser.Comment(nil), *s...)
	for _, x := range was {
		h.part(x)
	}
	own := &parser.Comment{}
	h.lists = append(h.lists, holding{func() { *s = append(*s, own) }, func() bool {
		for i, x := range was {
			if (*s)[i] != x {
				return false
			}
		}
		return (*s)[len(was)] == own
	}})
}

func (h *holdings) com(x *parser.Comment) {
	if x != nil {
		h.part(x)
	}
}

func (h *holdings) body(s *[]parser.Visitee) {
	was := append([]parser.Visitee(nil), *s...)
	for _, x := range was {
		h.stmt(x)
	}
	own := &parser.EmptyStatement{}
	h.lists = append(h.lists, holding{func() { *s = append(*s, own) }, func() bool {
		for i, x := range was {
			if (*s)[i] != x {
				return false
			}
		}
		return (*s)[len(was)] == parser.Visitee(own)
	}})
}

func (h *holdings) options(s *[]*parser.Option) {
	was := append([]*parser.Option(nil), *s...)
	for _, x := range was {
		h.stmt(x)
	}
	own := &parser.Option{}
	h.lists = append(h.lists, holding{func() { *s = append(*s, own) }, func() bool {
		for i, x := range was {
			if (*s)[i] != x {
				return false
			}
		}
		return (*s)[len(was)] == own
	}})
}

func (h *holdings) fieldOptions(s *[]*parser.FieldOption) {
	was := append([]*parser.FieldOption(nil), *s...)
	for _, x := range was {
		h.part(x)
	}
	own := &parser.FieldOption{}
	h.lists = append(h.lists, holding{func() { *s = append(*s, own) }, func() bool {
		for i, x := range was {
			if (*s)[i] != x {
				return false
			}
		}
		return (*s)[len(was)] == own
	}})
}

func (h *holdings) valueOptions(s *[]*parser.EnumValueOption) {
	was := append([]*parser.EnumValueOption(nil), *s...)
	for _, x := range was {
		h.part(x)
	}
	own := &parser.EnumValueOption{}
	h.lists = append(h.lists, holding{func() { *s = append(*s, own) }, func() bool {
		for i, x := range was {
			if (*s)[i] != x {
				return false
			}
		}
		return (*s)[len(was)] == own
	}})
}

func (h *holdings) ranges(s *[]*parser.Range) {
	was := append([]*parser.Range(nil), *s...)
	for _, x := range was {
		h.part(x)
	}
	own := &parser.Range{}
	h.lists = append(h.lists, holding{func() { *s = append(*s, own) }, func() bool {
		for i, x := range was {
			if (*s)[i] != x {
				return false
			}
		}
		return (*s)[len(was)] == own
	}})
}

func (h *holdings) oneofFields(s *[]*parser.OneofField) {
	was := append([]*parser.OneofField(nil), *s...)
	for _, x := range was {
		h.stmt(x)
	}
	own := &parser.OneofField{}
	h.lists = append(h.lists, holding{func() { *s = append(*s, own) }, func() bool {
		for i, x := range was {
			if (*s)[i] != x {
				return false
			}
		}
		return (*s)[len(was)] == own
	}})
}

func (h *holdings) declarations(s *[]*parser.Declaration) {
	was := append([]*parser.Declaration(nil), *s...)
	for _, x := range was {
		h.stmt(x)
	}
	own := &parser.Declaration{}
	h.lists = append(h.lists, holding{func() { *s = append(*s, own) }, func() bool {
		for i, x := range was {
			if (*s)[i] != x {
				return false
			}
		}
		return (*s)[len(was)] == own
	}})
}

func (h *holdings) names(s *[]string) {
	was := append([]string(nil), *s...)
	own := "own" + string(rune('a'+len(h.lists)))
	h.lists = append(h.lists, holding{func() { *s = append(*s, own) }, func() bool {
		for i, x := range was {
			if (*s)[i] != x {
				return false
			}
		}
		return (*s)[len(was)] == own
	}})
}

func (h *holdings) proto(p *parser.Proto) {
	h.part(p)
	if p.Meta != nil {
		h.part(p.Meta)
	}
	if x := p.Syntax; x != nil {
		h.part(x)
		h.coms(&x.Comments)
		h.com(x.InlineComment)
	}
	if x := p.Edition; x != nil {
		h.part(x)
		h.coms(&x.Comments)
		h.com(x.InlineComment)
	}
	h.body(&p.ProtoBody)
}

func (h *holdings) stmt(v parser.Visitee) {
	h.part(v)
	switch x := v.(type) {
	case *parser.Import:
		h.coms(&x.Comments)
		h.com(x.InlineComment)
	case *parser.Package:
		h.coms(&x.Comments)
		h.com(x.InlineComment)
	case *parser.Option:
		h.coms(&x.Comments)
		h.com(x.InlineComment)
	case *parser.Message:
		h.coms(&x.Comments)
		h.com(x.InlineComment)
		h.com(x.InlineCommentBehindLeftCurly)
		h.body(&x.MessageBody)
	case *parser.Field:
		h.coms(&x.Comments)
		h.com(x.InlineComment)
		h.fieldOptions(&x.FieldOptions)
	case *parser.GroupField:
		h.coms(&x.Comments)
		h.com(x.InlineComment)
		h.com(x.InlineCommentBehindLeftCurly)
		h.body(&x.MessageBody)
	case *parser.MapField:
		h.coms(&x.Comments)
		h.com(x.InlineComment)
		h.fieldOptions(&x.FieldOptions)
	case *parser.Oneof:
		h.coms(&x.Comments)
		h.com(x.InlineComment)
		h.com(x.InlineCommentBehindLeftCurly)
		h.oneofFields(&x.OneofFields)
		h.options(&x.Options)
	case *parser.OneofField:
		h.coms(&x.Comments)
		h.com(x.InlineComment)
		h.fieldOptions(&x.FieldOptions)
	case *parser.Enum:
		h.coms(&x.Comments)
		h.com(x.InlineComment)
		h.com(x.InlineCommentBehindLeftCurly)
		h.body(&x.EnumBody)
	case *parser.EnumField:
		h.coms(&x.Comments)
		h.com(x.InlineComment)
		h.valueOptions(&x.EnumValueOptions)
	case *parser.Reserved:
		h.coms(&x.Comments)
		h.com(x.InlineComment)
		h.ranges(&x.Ranges)
		h.names(&x.FieldNames)
	case *parser.Extensions:
		h.coms(&x.Comments)
		h.com(x.InlineComment)
		h.com(x.InlineCommentBehindLeftSquare)
		h.ranges(&x.Ranges)
		h.declarations(&x.Declarations)
	case *parser.Declaration:
		h.coms(&x.Comments)
		h.com(x.InlineComment)
		h.com(x.InlineCommentBehindLeftCurly)
	case *parser.Extend:
		h.coms(&x.Comments)
		h.com(x.InlineComment)
		h.com(x.InlineCommentBehindLeftCurly)
		h.body(&x.ExtendBody)
	case *parser.Service:
		h.coms(&x.Comments)
		h.com(x.InlineComment)
		h.com(x.InlineCommentBehindLeftCurly)
		h.body(&x.ServiceBody)
	case *parser.RPC:
		h.coms(&x.Comments)
		h.com(x.InlineComment)
		h.com(x.InlineCommentBehindLeftCurly)
		h.coms(&x.EmbeddedComments)
		h.options(&x.Options)
		if x.RPCRequest != nil {
			h.part(x.RPCRequest)
		}
		if x.RPCResponse != nil {
			h.part(x.RPCResponse)
		}
	case *parser.EmptyStatement:
		h.com(x.InlineComment)
	}
}

// Owned: no part of a tree is in two places of it, and what is done to one list
// of it leaves the others alone.
func Owned() {
	m := chooseMode(sym.Param("modes", 0) == 1, true)
	var text string
	doc := pickDoc(families[sym.Param("family", 7)])
	switch sym.Param("how", -1) {
	case -1:
		if doc == "" {
			return
		}
		text = holed(doc, 1, 1, true)
	case -2:
		text = retoken(doc, sym.Choice("insert", 2) == 1)
	default:
		t, ok := relaid(doc, sym.Param("how", 0))
		if !ok {
			return
		}
		text = t
	}
	show(text)
	owned(text, m)
}

// repeated is a statement with a list of any length: its text is open, a list of items, and close.
type repeated struct {
	pre, open, item, sep, close, post string
	none                              bool // the list may be empty
}

var repeats = []repeated{
	{"message M{", "reserved ", "\"a\"", ",", ";", "}", false},
	{"message M{", "reserved ", "1", ",", ";", "}", false},
	{"message M{", "extensions ", "1", ",", ";", "}", false},
	{"message M{", "extensions 1[", "declaration={}", ",", "];", "}", false},
	{"message M{", "A b=1[", "c=1", ",", "];", "}", false},
	{"message M{", "map<string,A>b=1[", "c=1", ",", "];", "}", false},
	{"message M{oneof o{", "A b=1[", "c=1", ",", "];", "}}", false},
	{"enum E{", "A=1[", "c=1", ",", "];", "}", false},
	{"message M{", "", "//c\n", "", "A b=1;", "}", true},
	{"enum E{", "", "//c\n", "", "A=1;", "}", true},
	{"", "message M{", "//c\n", "", "}", "", true},
	{"", "message M{", "A b=1;", "", "}", "", true},
	{"", "enum E{", "A=1;", "", "}", "", true},
	{"", "extend M{", "A b=1;", "", "}", "", true},
	{"", "service S{", "rpc A(B)returns(C);", "", "}", "", true},
	{"service S{", "rpc A(B)returns(C){", "option a=1;", "", "}", "}", true},
	{"service S{", "rpc A(B", "/*c*/", "", ")returns(C);", "}", true},
	{"message M{", "oneof o{", "A b=1;", "", "}", "}", true},
	{"message M{", "oneof o{", "option a=1;", "", "}", "}", true},
	{"message M{", "optional group G=1{", "A b=1;", "", "}", "}", true},
}

func (r *repeated) times(n int) string {
	if n == 0 && !r.none {
		return ""
	}
	s := r.open
	for i := 0; i < n; i++ {
		if i > 0 {
			s += r.sep
		}
		s += r.item
	}
	return s + r.close
}

// Lists: three statements of one kind, each with a list of any length, and an arbitrary character
// between them.
func Lists() {
	m := chooseMode(false, true)
	r := &repeats[sym.Choice("kind", len(repeats))]
	n := sym.Param("n", 3) + 1
	text := r.pre + r.times(sym.Choice("first", n))
	text += string([]byte{sym.ByteRange("c", 0, 127)})
	text += r.times(sym.Choice("second", n)) + r.times(sym.Choice("third", 3)) + r.post
	show(text)
	owned(text, m)
}

// owned checks the parts and the lists of the tree of a text.
func owned(text string, m mode) {
	p, err := parse(text, m)
	if err != nil || p == nil {
		sym.Reach("rejected")
		return
	}
	h := &holdings{}
	h.proto(p)
	if sym.Param("two", 0) == 1 {
		if p, err = parse(text, m); err != nil {
			return
		}
		h.proto(p)
	}
	for i, x := range h.parts {
		for _, y := range h.parts[:i] {
			sym.Assert(x != y, "no part is in two places of a tree or in two trees")
		}
	}
	for _, l := range h.lists {
		l.grow()
	}
	for _, l := range h.lists {
		sym.Assert(l.same(), "what is appended to one list leaves the others alone")
	}
	sym.Reach("accepted")
}
