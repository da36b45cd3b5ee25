package h

import (
	"strconv"

	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
	"verifharness/sym"
)

func init() {
	All["CommentViews"] = CommentViews
	All["Versions"] = Versions
	All["Setters"] = Setters
	All["Printed"] = Printed
}

// lookAt checks what a comment says about itself.
func lookAt(c *parser.Comment) {
	block := len(c.Raw) > 1 && c.Raw[1] == '*'
	sym.Assert(c.IsCStyle() == block, "a comment knows its style")
	lines := c.Lines()
	sym.Assert(len(lines) > 0, "a comment has a line")
	whole := ""
	for i, l := range lines {
		for k := 0; k < len(l); k++ {
			sym.Assert(l[k] != '\n', "a line of a comment is one line")
		}
		if i > 0 {
			whole += "\n"
		}
		whole += l
	}
	if block {
		whole = "/*" + whole + "*/"
	} else {
		whole = "//" + whole
	}
	sym.Assert(whole == c.Raw, "the lines of a comment are its text")
	sym.Reach("seen")
}

// CommentViews: a comment of arbitrary characters, as the parser records it.
func CommentViews() {
	in := ""
	for i := 0; i < sym.Param("n", 3); i++ {
		if sym.Param("runes", 0) == 1 {
			in += string(sym.Rune("r", 0x80, 0x10FFFF))
		}
		in += char(sym.Param("wide", 1) == 1)
	}
	text := ""
	if sym.Choice("block", 2) == 1 {
		text = "/*" + in + "*/"
	} else {
		text = "//" + in + "\n"
	}
	text += "message A{}"
	show(text)
	p, err := parse(text, mode{perm: true, body: true})
	if err != nil || len(p.ProtoBody) == 0 {
		sym.Reach("rejected")
		return
	}
	if x, ok := p.ProtoBody[0].(*parser.Message); ok {
		for _, c := range x.Comments {
			lookAt(c)
		}
	}
}

// Versions: the number of an arbitrary syntax version.
func Versions() {
	in := chars(sym.Param("n", 2), true)
	doc := `syntax="proto3";`
	at := offset("at", len(doc))
	text := doc[:at] + in + doc[at+sym.Choice("del", 2):]
	show(text)
	p, err := parse(text, mode{perm: true})
	if err != nil || p.Syntax == nil {
		sym.Reach("rejected")
		return
	}
	v := 0
	switch p.Syntax.ProtobufVersion {
	case "proto2":
		v = 2
	case "proto3":
		v = 3
	}
	sym.Assert(p.Syntax.Version() == v, "the version is the one written")
	sym.Reach("seen")
}

// Setters: an inline comment is set, and nothing else.
func Setters() {
	k := &maker{comments: 1}
	v := k.any(sym.Choice("kind", kinds), nil)
	x, ok := v.(parser.HasInlineCommentSetter)
	if !ok {
		sym.Reach("none")
		return
	}
	was := itemOf(v)
	c := &parser.Comment{Raw: "//new"}
	x.SetInlineComment(c)
	sym.Assert(inlineOf(v) == c, "the inline comment is set")
	if sym.Choice("unset", 2) == 1 {
		x.SetInlineComment(nil)
		sym.Assert(inlineOf(v) == nil, "the inline comment is taken away")
	}
	now := itemOf(v)
	sym.Assert(sameComs(was.lead, now.lead), "the leading comments stay")
	sym.Assert(sameComs(without(was.other, c), without(now.other, c)), "the other comments stay")
	sym.Reach("seen")
}

// without drops the old and the new inline comment.
func without(l []*parser.Comment, c *parser.Comment) []*parser.Comment {
	var r []*parser.Comment
	for _, x := range l {
		if x.Raw != "//i" && x != c {
			r = append(r, x)
		}
	}
	return r
}

func inlineOf(v parser.Visitee) *parser.Comment {
	switch x := v.(type) {
	case *parser.Syntax:
		return x.InlineComment
	case *parser.Edition:
		return x.InlineComment
	case *parser.Import:
		return x.InlineComment
	case *parser.Package:
		return x.InlineComment
	case *parser.Option:
		return x.InlineComment
	case *parser.Message:
		return x.InlineComment
	case *parser.Field:
		return x.InlineComment
	case *parser.GroupField:
		return x.InlineComment
	case *parser.MapField:
		return x.InlineComment
	case *parser.Oneof:
		return x.InlineComment
	case *parser.OneofField:
		return x.InlineComment
	case *parser.Enum:
		return x.InlineComment
	case *parser.EnumField:
		return x.InlineComment
	case *parser.Reserved:
		return x.InlineComment
	case *parser.Extensions:
		return x.InlineComment
	case *parser.Declaration:
		return x.InlineComment
	case *parser.Extend:
		return x.InlineComment
	case *parser.Service:
		return x.InlineComment
	case *parser.RPC:
		return x.InlineComment
	case *parser.EmptyStatement:
		return x.InlineComment
	}
	return nil
}

// Printed: a position prints as file, line and column.
func Printed() {
	file := chars(sym.Choice("length", 3), true)
	line := sym.Choice("line", 120)
	col := sym.Choice("column", 120)
	s := meta.Position{Filename: file, Line: line, Column: col, Offset: 7}.String()
	if file == "" {
		file = "<input>"
	}
	sym.Assert(s == file+":"+strconv.Itoa(line)+":"+strconv.Itoa(col), "a position prints as file, line and column")
	sym.Reach("seen")
}
