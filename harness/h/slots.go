package h

import (
	"verifharness/ref"
	"verifharness/sym"
)

// context is a place in a file for a sequence of arbitrary words.
type context struct {
	pre, post string
	words     []string
}

func ctx(pre, post string, ws ...string) context { return context{pre, post, ws} }

var contexts = []context{
	// messages and fields
	0: ctx(`message A{`, `}`, "repeated", "optional", "required", "a", "B", "=", "1", ";", "[", "]", ".", "{", "}", "group", "map", "oneof"),
	1: ctx(`message A{map<`, `;}`, "int32", "string", "double", "a", ",", ".", ">", "=", "1", "["),
	2: ctx(`message A{oneof b{`, `}}`, "a", "b", ".", "=", "1", ";", "option", "repeated", "group", "}", "{", "[", "]"),
	3: ctx(`extend `, `}`, "a", ".", "{", "}", ";", "optional", "B", "=", "1", "group"),
	4: ctx(`message A{a b=1`, `;}`, "[", "]", "a", "=", "1", ",", "(", ")", ".", "-", "{", "}", ";"),
	5: ctx(`message `, ``, "message", "A", "{", "}", ";", "enum", "oneof", "extend", "1"),
	// enums
	6: ctx(`enum A{`, `}`, "a", "=", "-", "1", ";", "[", "]", "option", "reserved", "}", "{", "to", "max", "\"x\"", ","),
	7: ctx(`enum A{a=1`, `;}`, "[", "]", "a", "=", "1", ",", "(", ")", ".", "-", "+", "\"x\""),
	// services
	8:  ctx(`service A{`, `}`, "rpc", "a", "(", ")", "stream", "returns", ".", ";", "{", "}", "option", "="),
	9:  ctx(`service A{rpc a(`, `;}`, "a", "stream", ".", ")", "returns", "(", "{", "}", ";"),
	10: ctx(`service A{rpc a(b)returns(c)`, `}`, "{", "}", ";", "option", "a", "=", "1", "rpc"),
	// options
	11: ctx(`option `, `;`, "a", "(", ")", ".", "=", "1", "-", "\"x\"", "{", "}", "[", "]"),
	12: ctx(`option a=`, `;`, "a", "{", "}", "[", "]", ":", ",", ";", "1", "-", "'y'", "\"x\""),
	13: ctx(`option a={`, `};`, "a", "{", "}", "[", "]", ":", ",", ";", "1", "-", "\"x\""),
	14: ctx(`option a=`, `;`, "+", "-", "inf", "nan", "true", ".5", "1.", "1e5", "0x1f", "07", "a", ".", "09", "'y'", "\"x\""),
	// files
	15: ctx(``, ``, "syntax", "edition", "=", "\"proto3\"", "'2023'", ";", "package", "a", ".", "import", "weak", "message", "{", "}"),
	16: ctx(`import `, `;`, "public", "weak", "\"x\"", "'y'", "a", ";", ".", "import"),
	17: ctx(`package `, `;`, "a", ".", "package", ";", "import", "1", "\"x\""),
	18: ctx(`syntax=`, ``, "\"proto3\"", "\"proto2\"", "'proto3'", "\"2023\"", "proto3", ";", "edition", "=", "package", "a"),
	// ranges
	19: ctx(`message A{reserved `, `}`, "1", "to", "max", ",", "\"a\"", "'b'", "c", ";", "0x2", "-", "reserved"),
	20: ctx(`enum A{reserved `, `}`, "1", "to", "max", ",", "\"a\"", "-", ";", "a", "="),
	21: ctx(`message A{extensions `, `;}`, "1", "to", "max", ",", "\"a\"", "[", "]", ";", "declaration", "=", "{", "}"),
	22: ctx(`message A{extensions 1[declaration={`, `}];}`, "number", "type", "full_name", "repeated", "reserved", ":", ",", "1", "\"a\"", "'b'", "true", "false", "}"),
	23: ctx(`message A{extensions 1[declaration={`, `];}`, "number", ":", ",", "1", "}", "declaration", "=", "{", "]", ";"),
}

func init() { All["Slots"] = Slots }

// slots is a text of the context.
func slots(c *context, n int) string {
	text := c.pre
	for i := 0; i < n; i++ {
		if i > 0 {
			text += " "
		}
		_, w := sym.Slot("word", c.words)
		text += w
	}
	return text + c.post
}

// Slots: n arbitrary words at a place of a file, and the rest of the file.
func Slots() {
	c := &contexts[sym.Param("context", 0)]
	n := sym.Param("n", 3)
	m := chooseMode(sym.Param("modes", 0) == 1, false)
	m.perm = m.perm != (sym.Param("strict", 0) == 1)
	text := slots(c, n)
	show(text)
	judge(text, m, sym.Param("what", ref.Shape))
}
