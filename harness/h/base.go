// Package h holds the harnesses: ordinary Go functions over symbolic inputs that
// state the properties as assertions. The engine runs them symbolically; the
// same code runs natively to replay what the solver found.
package h

import (
	"strings"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"verifharness/ref"
	"verifharness/sym"
)

// All lists the harnesses by name.
var All = map[string]func(){}

const fileName = "f.proto"

type mode struct{ perm, body bool }

func parse(text string, m mode) (*parser.Proto, error) {
	return protoparser.Parse(strings.NewReader(text),
		protoparser.WithPermissive(m.perm), protoparser.WithBodyIncludingComments(m.body), protoparser.WithFilename(fileName))
}

func tree(p *parser.Proto) *ref.Node {
	c := ref.Conv{File: fileName}
	n := c.Proto(p)
	if c.Stranger != "" {
		sym.Assert(false, "every part of the tree is of a known kind: "+c.Stranger)
	}
	return n
}

// judge compares what the parser makes of a text with the reference.
func judge(text string, m mode, what int) {
	p, err := parse(text, m)
	r := ref.Parse(text, m.perm, m.body)
	if err != nil {
		sym.Assert(p == nil, "no tree together with an error")
		sym.Assert(!r.OK, "a grammatical text is accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(p != nil, "a tree when there is no error")
	sym.Assert(r.OK, "an ungrammatical text is rejected")
	sym.Reach("accepted")
	if what == 0 {
		return
	}
	c := ref.Conv{File: fileName}
	n := c.Proto(p)
	sym.Assert(c.Stranger == "", "every part of the tree is of a known kind")
	if what&ref.Places != 0 {
		sym.Assert(!c.BadFile, "every position carries the file name")
	}
	d := ref.Diff(n, r.Root, what)
	sym.Assert(d == "", "the tree is what was written: "+d)
}

func chooseMode(perms, bodies bool) mode {
	m := mode{perm: true}
	if perms {
		m.perm = sym.Choice("permissive", 2) == 1
	}
	if bodies {
		m.body = sym.Choice("body comments", 2) == 1
	}
	return m
}

// pickDoc selects one of the files.
func pickDoc(docs []string) string {
	if i := sym.Param("only", -1); i >= 0 {
		return docs[i]
	}
	return docs[sym.Choice("doc", len(docs))]
}

// punctuation, word characters, quotes and blanks that matter to the lexer.
const sharp = "\x00\t\n .,;:=+-(){}[]<>/*\"'\\_aexnt0179AEXZ~"

// char is an arbitrary character: any of ASCII, or of the interesting ones.
func char(wide bool) string {
	if wide {
		return string([]byte{sym.ByteRange("c", 0, 127)})
	}
	return string([]byte{sym.Byte("c", sharp)})
}

func chars(n int, wide bool) string {
	s := ""
	for i := 0; i < n; i++ {
		s += char(wide)
	}
	return s
}

// holed puts n symbolic characters at an arbitrary place of doc, replacing del
// characters.
func holed(doc string, del, n int, wide bool) string {
	at := offset("at", len(doc)-del+1)
	return doc[:at] + chars(n, wide) + doc[at+del:]
}

// vocabulary of token mutations.
var words = []string{
	"", "a", "B", "message", "enum", "service", "rpc", "returns", "stream", "option", "oneof", "map", "group", "extend",
	"extensions", "reserved", "repeated", "required", "optional", "import", "package", "syntax", "edition", "weak", "public",
	"to", "max", "true", "inf", "nan", "int32", "string", "declaration", "number", "type", "full_name",
	"1", "0x1F", "07", "1.5", ".5", "\"x\"", "'y'", ";", "=", "{", "}", "[", "]", "(", ")", "<", ">", ",", ".", ":", "-", "+",
	"//c\n", "/*c*/", "\n", "/", "\"", "#",
}

// byLength groups words, so that a slot needs no padding.
func byLength(ws []string) [][]string {
	var r [][]string
	for n := 0; n < 16; n++ {
		var g []string
		for _, w := range ws {
			if len(w) == n {
				g = append(g, w)
			}
		}
		if g != nil {
			r = append(r, g)
		}
	}
	return r
}

var wordGroups = byLength(words)

// word is an arbitrary word of a vocabulary.
func word(groups [][]string) string {
	g := groups[sym.Choice("length", len(groups))]
	if len(g) == 1 {
		return g[0]
	}
	_, w := sym.Slot("word", g)
	return w
}

// cut splits a text into its tokens; seps[i] stands before toks[i], and the last behind all.
func cut(doc string) (toks, seps []string) {
	ts := ref.Lex(doc)
	from := 0
	for i := range ts {
		t := &ts[i]
		seps = append(seps, doc[from:t.Pos.Off])
		if t.Kind == ref.EOF || t.Kind == ref.Bad {
			break
		}
		from = t.Pos.Off + len(t.Text)
		toks = append(toks, t.Text)
	}
	return
}

// retoken replaces (or precedes) one token of doc by an arbitrary word.
func retoken(doc string, insert bool) string {
	toks, seps := cut(doc)
	n := len(toks)
	if insert {
		n++
	}
	if n == 0 {
		return doc
	}
	at := sym.Choice("token", n)
	w := word(wordGroups)
	s := ""
	for i, t := range toks {
		s += seps[i]
		if i == at {
			s += " " + w + " "
			if !insert {
				continue
			}
		}
		s += t
	}
	if at == len(toks) {
		s += " " + w
	}
	return s + seps[len(toks)]
}

func show(text string) { sym.Input("text", text) }

// offset is an arbitrary number in 0..n-1, however large n is.
func offset(name string, n int) int {
	if n <= 200 {
		return sym.Choice(name, n)
	}
	hi := sym.Choice(name+" page", (n+199)/200)
	m := 200
	if hi == n/200 {
		m = n % 200
	}
	return hi*200 + sym.Choice(name, m)
}
