package h

import (
	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	"strconv"
	"strings"

	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
	"verifharness/ref"
	"verifharness/sym"
)

func init() {
	All["Places"] = Places
	All["Trouble"] = Trouble
}

// truePos is the position of an offset of the text.
func truePos(text string, off int) (line, col int) {
	line, col = 1, 1
	for i := 0; i < off; i++ {
		switch {
		case text[i] == '\n':
			line++
			col = 1
		case text[i]&0xC0 != 0x80:
			col++
		}
	}
	return
}

// trouble checks the error with which a text is rejected.
func trouble(text string, m mode) {
	p, err := parse(text, m)
	if err == nil {
		sym.Assert(p != nil, "a tree or an error")
		sym.Reach("accepted")
		return
	}
	sym.Assert(p == nil, "no tree together with an error")
	r := ref.Parse(text, m.perm, m.body)
	if r.OK {
		return // another property's matter
	}
	sym.Reach("rejected")
	s := err.Error()
	sym.Assert(len(s) > 0, "the error has a text")
	e, ok := err.(*meta.Error)
	if !ok { // made of several
		const mark = "Pos=" + fileName + ":"
		sym.Assert(strings.Contains(s, mark), "the error carries the file name")
		for i := strings.Index(s, mark); i >= 0; i = strings.Index(s, mark) {
			s = s[i+len(mark):]
			line, rest := number(s)
			sym.Assert(line > 0 && len(rest) > 0 && rest[0] == ':', "the error has a line")
			col, _ := number(rest[1:])
			sym.Assert(truePlace(text, line, col, r.BadTo), "the error lies inside the text, no further than the trouble")
		}
		return
	}
	off := e.Pos.Offset
	sym.Assert(off >= 0 && off <= len(text), "the error is inside the text")
	line, col := truePos(text, off)
	sym.Assert(e.Pos.Line == line && e.Pos.Column == col, "line and column of the error agree with the text")
	sym.Assert(e.Pos.Filename == fileName, "the error carries the file name")
	sym.Assert(off <= r.BadTo, "the error lies no further than the trouble")
	sym.Assert(strings.Contains(e.Found, "Pos="+fileName+":"+strconv.Itoa(line)+":"+strconv.Itoa(col)) || !strings.Contains(e.Found, "Pos="), "the text of the error has the same position")
}

func number(s string) (int, string) {
	n, i := 0, 0
	for ; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n, s[i:]
}

// truePlace tells whether some character of the text up to the limit, or its end, is there.
func truePlace(text string, line, col, limit int) bool {
	l, c := 1, 1
	for i := 0; i <= len(text) && i <= limit; i++ {
		if l == line && c == col {
			return true
		}
		if i == len(text) {
			break
		}
		switch {
		case text[i] == '\n':
			l++
			c = 1
		case text[i]&0xC0 != 0x80:
			c++
		}
	}
	return false
}

// Trouble: the texts of the other harnesses.
func Trouble() {
	m := chooseMode(sym.Param("modes", 1) == 1, false)
	var text string
	switch sym.Param("how", 0) {
	case 0:
		doc := pickDoc(families[sym.Param("family", 0)])
		del := sym.Param("del", 1)
		if len(doc) < del {
			return
		}
		text = holed(doc, del, sym.Param("n", 1), true)
	case 1:
		doc := pickDoc(families[sym.Param("family", 0)])
		text = retoken(doc, sym.Choice("insert", 2) == 1)
	case 2:
		text = slots(&contexts[sym.Param("context", 0)], sym.Param("n", 3))
	case 3: // an odd layout
		doc := pickDoc(families[sym.Param("family", 0)])
		toks, seps := cut(doc)
		if len(toks) == 0 {
			return
		}
		bad := sym.Choice("bad", len(toks))
		fill := []string{"\n", "\r\n\t", "/*\u00e9\n*/", "//\u20ac\n", "\n\n "}[sym.Choice("filler", 5)]
		for i, t := range toks {
			text += seps[i]
			text += fill
			if i == bad {
				text += string([]byte{sym.ByteRange("c", 32, 126)})
				continue
			}
			text += t
		}
		text += seps[len(toks)]
	case 4: // cut off
		doc := pickDoc(families[sym.Param("family", 0)])
		text = doc[:offset("at", len(doc)+1)] + string([]byte{sym.ByteRange("c", 9, 126)})
	}
	show(text)
	trouble(text, m)
}

// Places: advancing over any characters and reverting them.
func Places() {
	var rs []rune
	text := ""
	for i := 0; i < sym.Param("n", 3); i++ {
		r := rune(0)
		switch sym.Choice("kind", 3) {
		case 0:
			r = rune(sym.ByteRange("c", 0, 127))
		case 1:
			r = sym.Rune("r", 0x80, 0xD7FF)
		case 2:
			r = sym.Rune("r", 0xE000, 0x10FFFF)
		}
		rs = append(rs, r)
		text += string(r)
	}
	show(text)
	p := scanner.NewPosition()
	start := *p
	at := func(q scanner.Position, n int, what string) {
		off := len(string(rs[:n]))
		line, col := truePos(text, off)
		sym.Assert(q.Offset == off && q.Line == line && q.Column == col, what)
	}
	at(*p, 0, "it starts at the first character")
	if len(rs) > 0 {
		at(scanner.NewPosition().AdvancedBulk(text), len(rs)-1, "advancing in a row ends at the last character")
	}
	for i, r := range rs {
		p.Advance(r)
		at(*p, i+1, "advancing passes one character")
	}
	k := sym.Choice("back", len(rs)+1)
	for i := len(rs) - 1; i >= k; i-- {
		p.Revert(rs[i])
		at(*p, i, "reverting goes back by one character")
	}
	for i := k; i < len(rs); i++ {
		p.Advance(rs[i])
		at(*p, i+1, "advancing again passes one character")
	}
	sym.Assert(start.Offset == 0 && start.Line == 1 && start.Column == 1, "a position taken before stays as it is")
	sym.Reach("done")
}
