package ref

import (
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

// Conv brings a tree of the repository into the common form.
type Conv struct {
	File     string // the file name every position must carry
	BadFile  bool
	Stranger string // the kind of something that has no place where it stands
}

func (c *Conv) pos(p meta.Position) Pos {
	if p.Filename != c.File && p != (meta.Position{}) {
		c.BadFile = true
	}
	return Pos{p.Offset, p.Line, p.Column}
}

func (c *Conv) meta(n *Node, m meta.Meta) {
	n.Pos, n.End = c.pos(m.Pos), c.pos(m.LastPos)
}

func (c *Conv) com(x *parser.Comment) *Com {
	if x == nil {
		return nil
	}
	return &Com{x.Raw, c.pos(x.Meta.Pos), c.pos(x.Meta.LastPos)}
}

func (c *Conv) coms(xs []*parser.Comment) []Com {
	var r []Com
	for _, x := range xs {
		if x == nil {
			c.Stranger = "nil comment"
			continue
		}
		r = append(r, *c.com(x))
	}
	return r
}

func (c *Conv) around(n *Node, lead []*parser.Comment, inline, curly *parser.Comment) {
	n.Lead, n.Inline, n.Curly = c.coms(lead), c.com(inline), c.com(curly)
}

// Proto converts a whole file.
func (c *Conv) Proto(p *parser.Proto) *Node {
	root := &Node{Kind: "proto"}
	if p.Meta == nil || p.Meta.Filename != c.File {
		c.BadFile = true
	}
	if x := p.Syntax; x != nil {
		n := &Node{Kind: "syntax", Attr: []string{x.ProtobufVersion, x.ProtobufVersionQuote}}
		c.meta(n, x.Meta)
		c.around(n, x.Comments, x.InlineComment, nil)
		root.Kids = append(root.Kids, n)
	}
	if x := p.Edition; x != nil {
		n := &Node{Kind: "edition", Attr: []string{x.Edition, x.EditionQuote}}
		c.meta(n, x.Meta)
		c.around(n, x.Comments, x.InlineComment, nil)
		root.Kids = append(root.Kids, n)
	}
	c.body(root, p.ProtoBody)
	return root
}

func (c *Conv) body(n *Node, b []parser.Visitee) {
	for _, x := range b {
		n.Kids = append(n.Kids, c.Stmt(x))
	}
}

func labelOf(rep, req, opt bool) string {
	s := ""
	if rep {
		s += "repeated"
	}
	if req {
		s += "required"
	}
	if opt {
		s += "optional"
	}
	return s
}

func boolOf(b bool, t, f string) string {
	if b {
		return t
	}
	return f
}

func (c *Conv) option(x *parser.Option) *Node {
	if x == nil {
		c.Stranger = "nil option"
		return &Node{Kind: "nil"}
	}
	n := &Node{Kind: "option", Attr: []string{x.OptionName, canon(x.Constant)}}
	c.meta(n, x.Meta)
	c.around(n, x.Comments, x.InlineComment, nil)
	return n
}

// canon drops the line breaks that may follow a separator in a recorded
// aggregate; a literal cannot contain one.
func canon(s string) string {
	r, from := "", 0
	for i := 1; i < len(s); i++ {
		if s[i] == '\n' && (s[i-1] == ';' || s[i-1] == ',') {
			r += s[from:i]
			from = i + 1
		}
	}
	return r + s[from:]
}

func (c *Conv) fieldOptions(n *Node, os []*parser.FieldOption) {
	for _, o := range os {
		n.Kids = append(n.Kids, &Node{Kind: "fieldoption", Attr: []string{o.OptionName, canon(o.Constant)}})
	}
}

func (c *Conv) ranges(n *Node, rs []*parser.Range) {
	for _, r := range rs {
		n.Kids = append(n.Kids, &Node{Kind: "range", Attr: []string{r.Begin, r.End}})
	}
}

// Stmt converts one statement.
func (c *Conv) Stmt(v parser.Visitee) *Node {
	n := &Node{}
	switch x := v.(type) {
	case *parser.Import:
		n.Kind = "import"
		mod := "?"
		switch x.Modifier {
		case parser.ImportModifierNone:
			mod = ""
		case parser.ImportModifierPublic:
			mod = "public"
		case parser.ImportModifierWeak:
			mod = "weak"
		}
		n.attr(mod, x.Location)
		c.meta(n, x.Meta)
		c.around(n, x.Comments, x.InlineComment, nil)
	case *parser.Package:
		n.Kind = "package"
		n.attr(x.Name)
		c.meta(n, x.Meta)
		c.around(n, x.Comments, x.InlineComment, nil)
	case *parser.Option:
		return c.option(x)
	case *parser.Message:
		n.Kind = "message"
		n.attr(x.MessageName)
		c.body(n, x.MessageBody)
		c.meta(n, x.Meta)
		c.around(n, x.Comments, x.InlineComment, x.InlineCommentBehindLeftCurly)
	case *parser.Field:
		n.Kind = "field"
		n.attr(labelOf(x.IsRepeated, x.IsRequired, x.IsOptional), x.Type, x.FieldName, x.FieldNumber)
		c.fieldOptions(n, x.FieldOptions)
		c.meta(n, x.Meta)
		c.around(n, x.Comments, x.InlineComment, nil)
	case *parser.GroupField:
		n.Kind = "group"
		n.attr(labelOf(x.IsRepeated, x.IsRequired, x.IsOptional), x.GroupName, x.FieldNumber)
		c.body(n, x.MessageBody)
		c.meta(n, x.Meta)
		c.around(n, x.Comments, x.InlineComment, x.InlineCommentBehindLeftCurly)
	case *parser.MapField:
		n.Kind = "map"
		n.attr(x.KeyType, x.Type, x.MapName, x.FieldNumber)
		c.fieldOptions(n, x.FieldOptions)
		c.meta(n, x.Meta)
		c.around(n, x.Comments, x.InlineComment, nil)
	case *parser.Oneof:
		n.Kind = "oneof"
		n.attr(x.OneofName)
		for _, f := range x.OneofFields {
			n.Kids = append(n.Kids, c.Stmt(f))
		}
		for _, o := range x.Options {
			n.Kids = append(n.Kids, c.option(o))
		}
		c.meta(n, x.Meta)
		c.around(n, x.Comments, x.InlineComment, x.InlineCommentBehindLeftCurly)
	case *parser.OneofField:
		n.Kind = "oneoffield"
		n.attr(x.Type, x.FieldName, x.FieldNumber)
		c.fieldOptions(n, x.FieldOptions)
		c.meta(n, x.Meta)
		c.around(n, x.Comments, x.InlineComment, nil)
	case *parser.Enum:
		n.Kind = "enum"
		n.attr(x.EnumName)
		c.body(n, x.EnumBody)
		c.meta(n, x.Meta)
		c.around(n, x.Comments, x.InlineComment, x.InlineCommentBehindLeftCurly)
	case *parser.EnumField:
		n.Kind = "enumfield"
		n.attr(x.Ident, x.Number)
		for _, o := range x.EnumValueOptions {
			n.Kids = append(n.Kids, &Node{Kind: "fieldoption", Attr: []string{o.OptionName, canon(o.Constant)}})
		}
		c.meta(n, x.Meta)
		c.around(n, x.Comments, x.InlineComment, nil)
	case *parser.Reserved:
		n.Kind = "reserved"
		c.ranges(n, x.Ranges)
		for _, s := range x.FieldNames {
			n.Kids = append(n.Kids, &Node{Kind: "name", Attr: []string{s}})
		}
		c.meta(n, x.Meta)
		c.around(n, x.Comments, x.InlineComment, nil)
	case *parser.Extensions:
		n.Kind = "extensions"
		c.ranges(n, x.Ranges)
		for _, d := range x.Declarations {
			n.Kids = append(n.Kids, c.Stmt(d))
		}
		c.meta(n, x.Meta)
		c.around(n, x.Comments, x.InlineComment, x.InlineCommentBehindLeftSquare)
	case *parser.Declaration:
		n.Kind = "declaration"
		n.attr(x.Number, x.FullName, x.Type, boolOf(x.Repeated, "true", "false"), boolOf(x.Reserved, "true", "false"))
		c.meta(n, x.Meta)
		c.around(n, x.Comments, x.InlineComment, x.InlineCommentBehindLeftCurly)
	case *parser.Extend:
		n.Kind = "extend"
		n.attr(x.MessageType)
		c.body(n, x.ExtendBody)
		c.meta(n, x.Meta)
		c.around(n, x.Comments, x.InlineComment, x.InlineCommentBehindLeftCurly)
	case *parser.Service:
		n.Kind = "service"
		n.attr(x.ServiceName)
		c.body(n, x.ServiceBody)
		c.meta(n, x.Meta)
		c.around(n, x.Comments, x.InlineComment, x.InlineCommentBehindLeftCurly)
	case *parser.RPC:
		n.Kind = "rpc"
		n.attr(x.RPCName)
		if x.RPCRequest == nil || x.RPCResponse == nil {
			c.Stranger = "nil rpc type"
			return n
		}
		q := &Node{Kind: "request", Attr: []string{boolOf(x.RPCRequest.IsStream, "stream", ""), x.RPCRequest.MessageType}}
		c.meta(q, x.RPCRequest.Meta)
		r := &Node{Kind: "response", Attr: []string{boolOf(x.RPCResponse.IsStream, "stream", ""), x.RPCResponse.MessageType}}
		c.meta(r, x.RPCResponse.Meta)
		n.Kids = append(n.Kids, q, r)
		for _, o := range x.Options {
			n.Kids = append(n.Kids, c.option(o))
		}
		c.meta(n, x.Meta)
		c.around(n, x.Comments, x.InlineComment, x.InlineCommentBehindLeftCurly)
		n.Emb = c.coms(x.EmbeddedComments)
	case *parser.EmptyStatement:
		n.Kind = "empty"
		n.Inline = c.com(x.InlineComment)
	case *parser.Comment:
		n.Kind = "comment"
		n.attr(x.Raw)
		c.meta(n, x.Meta)
	case nil:
		c.Stranger = "nil"
		n.Kind = "nil"
	default:
		c.Stranger = "unknown"
		n.Kind = "unknown"
	}
	return n
}
