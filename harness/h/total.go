package h

import (
	"strings"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"verifharness/sym"
)

func init() {
	All["Bytes"] = Bytes
	All["ByteHole"] = ByteHole
	All["Total"] = Total
}

// usable uses a result in every way.
func usable(p *parser.Proto, err error, m mode) {
	if err != nil {
		sym.Assert(p == nil, "not both a tree and an error")
		sym.Assert(len(err.Error()) > 0, "the error has a text")
		sym.Reach("rejected")
		return
	}
	sym.Assert(p != nil, "a tree or an error")
	sym.Reach("accepted")
	p.Accept(&recorder{decide: func(int) bool { return true }})
	u, err := protoparser.UnorderedInterpret(p)
	sym.Assert((u == nil) == (err != nil), "the unordered form or an error")
	if !m.body {
		sym.Assert(err == nil, "the tree can be interpreted")
	}
}

func anyByte(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.ByteRange("b", 0, 255)
	}
	return string(b)
}

// Bytes: n arbitrary bytes, at the start of a file or in one of the contexts.
func Bytes() {
	c := sym.Param("context", -1)
	pre, post := "", ""
	if c >= 0 {
		pre, post = contexts[c].pre, contexts[c].post
	}
	if sym.Param("open", 0) == 1 {
		post = ""
	}
	m := chooseMode(true, true)
	text := pre + anyByte(sym.Param("n", 2)) + post
	show(text)
	p, err := parse(text, m)
	usable(p, err, m)
}

// ByteHole: a file with an arbitrary byte at an arbitrary place.
func ByteHole() {
	doc := pickDoc(families[sym.Param("family", 7)])
	m := chooseMode(sym.Param("modes", 1) == 1, true)
	del := sym.Param("del", 1)
	if len(doc) < del {
		return
	}
	at := offset("at", len(doc)-del+1)
	text := doc[:at] + anyByte(sym.Param("n", 1))
	if sym.Param("cut", 0) == 0 {
		text += doc[at+del:]
	}
	show(text)
	p, err := protoparser.Parse(strings.NewReader(text), protoparser.WithPermissive(m.perm), protoparser.WithBodyIncludingComments(m.body))
	usable(p, err, m)
}

// Total: the texts of Retoken (how=0), Slots (1), Cut (2).
func Total() {
	m := chooseMode(sym.Param("modes", 0) == 1, sym.Param("bodies", 0) == 1)
	text := ""
	switch sym.Param("how", 0) {
	case 0:
		text = retoken(pickDoc(families[sym.Param("family", 0)]), sym.Choice("insert", 2) == 1)
	case 1:
		text = slots(&contexts[sym.Param("context", 0)], sym.Param("n", 3))
	case 2: // cut off, ended by the beginning of something
		doc := pickDoc(families[sym.Param("family", 0)])
		text = doc[:offset("at", len(doc)+1)] + word(tailGroups)
	}
	show(text)
	p, err := parse(text, m)
	usable(p, err, m)
}

var tailGroups = byLength([]string{"", "/", "//", "/*", "/**", "\"", "'", "\"\\", ".", "..", "-", "a.", "0x", "1e", "\n", "\r", "\x80", "\xe2", "\xe2\x82", "\uFEFF", "\x00", "/*\xff"})
