package h

import (
	"strings"

	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
	"verifharness/ref"
	"verifharness/sym"
)

func init() {
	All["LexChars"] = LexChars
	All["LexHole"] = LexHole
	All["LexLong"] = LexLong
	All["LexOps"] = LexOps
	All["LexWord"] = LexWord
	All["ScanModes"] = ScanModes
}

// what each way of reading recognises besides identifiers and punctuation
type lexMode struct {
	name                         string
	num, str, boolean, kw, comms bool
	next                         func(l *lexer.Lexer)
}

var lexModes = []lexMode{
	{"Next", false, false, false, false, false, (*lexer.Lexer).Next},
	{"NextKeyword", false, false, false, true, false, (*lexer.Lexer).NextKeyword},
	{"NextLit", true, true, true, false, false, (*lexer.Lexer).NextLit},
	{"NextNumberLit", true, false, false, false, false, (*lexer.Lexer).NextNumberLit},
	{"NextStrLit", false, true, false, false, false, (*lexer.Lexer).NextStrLit},
	{"NextComment", false, false, false, false, true, (*lexer.Lexer).NextComment},
	{"NextKeywordOrStrLit", false, true, false, true, false, (*lexer.Lexer).NextKeywordOrStrLit},
}

var keywords = []string{
	"syntax", "edition", "service", "rpc", "returns", "message", "extend", "import", "package", "option", "repeated", "required",
	"optional", "weak", "public", "oneof", "map", "reserved", "extensions", "number", "full_name", "type", "declaration", "enum",
	"stream", "group",
}

var keywordTokens = []scanner.Token{
	scanner.TSYNTAX, scanner.TEDITION, scanner.TSERVICE, scanner.TRPC, scanner.TRETURNS, scanner.TMESSAGE, scanner.TEXTEND, scanner.TIMPORT,
	scanner.TPACKAGE, scanner.TOPTION, scanner.TREPEATED, scanner.TREQUIRED, scanner.TOPTIONAL, scanner.TWEAK, scanner.TPUBLIC,
	scanner.TONEOF, scanner.TMAP, scanner.TRESERVED, scanner.TEXTENSIONS, scanner.TNUMBER, scanner.TFULLNAME, scanner.TTYPE,
	scanner.TDECLARATION, scanner.TENUM, scanner.TSTREAM, scanner.TGROUP,
}

func punctToken(c byte) scanner.Token {
	switch c {
	case ';':
		return scanner.TSEMICOLON
	case ':':
		return scanner.TCOLON
	case '=':
		return scanner.TEQUALS
	case '"', '\'':
		return scanner.TQUOTE
	case '(':
		return scanner.TLEFTPAREN
	case ')':
		return scanner.TRIGHTPAREN
	case '{':
		return scanner.TLEFTCURLY
	case '}':
		return scanner.TRIGHTCURLY
	case '[':
		return scanner.TLEFTSQUARE
	case ']':
		return scanner.TRIGHTSQUARE
	case '<':
		return scanner.TLESS
	case '>':
		return scanner.TGREATER
	case ',':
		return scanner.TCOMMA
	case '.':
		return scanner.TDOT
	case '-':
		return scanner.TMINUS
	}
	return scanner.TILLEGAL
}

// expected is the token a way of reading must yield from the cursor on. If it is
// malformed (not just a character without meaning), broken is set.
type expected struct {
	tok    scanner.Token
	text   string
	pos    ref.Pos
	end    int
	broken bool
}

func expect(c *ref.Cursor, m *lexMode) expected {
	s := c.S
	for {
		i := c.P.Off
		if i < len(s) && s[i] == '/' {
			if m.comms {
				p := c.P
				coms, bad := one(c)
				if bad {
					return expected{tok: scanner.TILLEGAL, pos: p, broken: true}
				}
				return expected{tok: scanner.TCOMMENT, text: coms, pos: p, end: c.P.Off}
			}
			if _, bad := one(c); bad {
				return expected{tok: scanner.TILLEGAL, pos: c.P, broken: true}
			}
			continue
		}
		if i >= len(s) || !c.Space() {
			break
		}
	}
	e := expected{pos: c.P}
	i := c.P.Off
	if i == len(s) {
		e.tok = scanner.TEOF
		e.end = i
		return e
	}
	k, j := ref.Next(s, i, m.num, m.str)
	e.end = j
	if j > i {
		e.text = s[i:j]
	}
	switch k {
	case ref.Ident:
		e.tok = scanner.TIDENT
		switch {
		case m.boolean && (e.text == "true" || e.text == "false"):
			e.tok = scanner.TBOOLLIT
		case m.num && (e.text == "inf" || e.text == "nan"):
			e.tok = scanner.TFLOATLIT
		case m.kw:
			for n := range keywords {
				if e.text == keywords[n] {
					e.tok = keywordTokens[n]
				}
			}
		}
	case ref.Int:
		e.tok = scanner.TINTLIT
	case ref.Float:
		e.tok = scanner.TFLOATLIT
	case ref.Str:
		e.tok = scanner.TSTRLIT
	default:
		if j == i {
			e.tok, e.broken = scanner.TILLEGAL, true
			return e
		}
		e.tok = punctToken(s[i])
		if j-i == 3 && e.text == "\uFEFF" {
			e.tok = scanner.TBOM
		}
	}
	c.Advance(j)
	return e
}

// one reads the comment at the cursor.
func one(c *ref.Cursor) (string, bool) {
	i := c.P.Off
	j := ref.CommentEnd(c.S, i)
	if j < 0 {
		return "", true
	}
	c.Advance(j)
	return c.S[i:j], false
}

func posIs(l *lexer.Lexer, p ref.Pos) bool {
	return l.Pos.Offset == p.Off && l.Pos.Line == p.Line && l.Pos.Column == p.Col
}

// backAt tells whether the position is the one the cursor stands at. The line break
// that ends a line comment may count as read together with the comment.
func backAt(l *lexer.Lexer, c *ref.Cursor, comment bool) bool {
	if comment && c.P.Off < len(c.S) && c.S[c.P.Off] == '\n' {
		t := *c
		t.Advance(c.P.Off + 1)
		if posIs(l, t.P) {
			return true
		}
	}
	return posIs(l, c.P)
}

// checkToken compares what the lexer read with what it must be.
func checkToken(l *lexer.Lexer, e expected, places bool) {
	sym.Assert(l.Token == e.tok, "the kind of token is the right one")
	if !e.broken {
		sym.Assert(l.Text == e.text, "the text of the token is that of the source")
	}
	if places {
		sym.Assert(posIs(l, e.pos), "the position is that of the token")
		sym.Assert(l.Pos.Filename == fileName, "the position carries the file name")
	}
}

func newLexer(text string) *lexer.Lexer {
	l := lexer.NewLexer(strings.NewReader(text), lexer.WithFilename(fileName))
	l.Error = func(*lexer.Lexer, error) {}
	return l
}

func walkTokens(text string, places bool) {
	m := &lexModes[sym.Choice("way", len(lexModes))]
	l := newLexer(text)
	told := 0
	var last error
	l.Error = func(k *lexer.Lexer, err error) {
		sym.Assert(k == l, "the callback gets the lexer")
		told++
		last = err
	}
	sym.Assert(l.LatestErr() == nil, "no error before anything is read")
	c := &ref.Cursor{S: text, P: ref.Pos{Off: 0, Line: 1, Col: 1}}
	for n := 0; ; n++ {
		sym.Assert(n <= len(text), "the text ends")
		at := c.P.Off
		e := expect(c, m)
		m.next(l)
		checkToken(l, e, places)
		sym.Assert(l.IsEOF() == (e.tok == scanner.TEOF), "the end is where the text ends")
		if e.broken {
			sym.Assert(told == 1 && last != nil, "what is malformed is told once")
			sym.Assert(l.LatestErr() == last, "the latest error is the one told")
			if e, ok := last.(*meta.Error); ok && sym.Param("errs", 0) == 1 {
				sym.Assert(at <= e.Pos.Offset && e.Pos.Offset <= len(text), "the error is behind the last token")
				line, col := truePos(text, e.Pos.Offset)
				sym.Assert(e.Pos.Line == line && e.Pos.Column == col, "the position of the error is a true one")
				sym.Assert(e.Pos.Filename == fileName, "the error carries the file name")
				sym.Assert(e.Error() != "", "the error has a text")
			}
			sym.Reach("malformed")
			return
		}
		if e.tok == scanner.TEOF {
			sym.Assert(told == 0 && l.LatestErr() == nil, "a well-formed text has no error")
			sym.Reach("end")
			return
		}
		if n < sym.Param("turns", 0) {
			m = &lexModes[sym.Choice("turn", len(lexModes))] // another way from here on
		}
	}
}

// alphabets for texts over few characters
var alphabets = []string{
	"",
	sharp,
	"0179.eExXfF+- ",
	"\"'\\anx07\n u",
	"/*\n a\"",
	"ab_Z09 .\n\t-;",
}

func letters(n int) string {
	a := alphabets[sym.Param("alphabet", 0)]
	runes := sym.Param("runes", 0)
	s := ""
	for i := 0; i < n; i++ {
		if a == "" {
			s += string([]byte{sym.ByteRange("c", 0, 127)})
		} else {
			s += string([]byte{sym.Byte("c", a)})
		}
		if i < runes {
			s += string(sym.Rune("r", 0x80, 0x10FFFF))
		}
	}
	return s
}

// LexChars: n arbitrary characters.
func LexChars() {
	text := letters(sym.Param("n", 3))
	show(text)
	walkTokens(text, sym.Param("places", 0) == 1)
}

var lexDocs = []string{
	"\"\\a\\b\\f\\n\\r\\t\\v\\\\\\'\\\"\\?\"", `"\x1F\X7e\123\7"`, `"\u12aB\U0010FFFF"`, `'a"b\'c'"d'e"`,
	"0x1F2e3 0XABC 01234567 1234567890", "1.5e+10 .25E-3 1e9 5. 0.0 00", "-1 +2.5 inf nan infinity nano",
	"true false truth falsehood", "// line comment\nx //\n//", "/* block ** comment */y/**//*/*/ z",
	"a.b_c.D1 __x x_ ;:=(){}[]<>,.-", "\t\r\n\v\f x", "x\u00a0y\u2003z\u3000", "\uFEFFx",
}

func init() {
	s := ""
	for i, k := range keywords {
		s += k + " "
		if i%3 == 2 {
			lexDocs = append(lexDocs, s)
			s = ""
		}
	}
	lexDocs = append(lexDocs, s)
}

// LexHole: longer texts with arbitrary characters at an arbitrary place.
func LexHole() {
	doc := pickDoc(lexDocs)
	del, n := sym.Param("del", 1), sym.Param("n", 1)
	at := offset("at", len(doc)-del+1)
	in := chars(n, true)
	if sym.Param("rune", 0) == 1 {
		in = string(sym.Rune("r", 0x80, 0x10FFFF))
	}
	// keep to whole characters
	sym.Assume(at == len(doc) || doc[at]&0xC0 != 0x80)
	sym.Assume(at+del >= len(doc) || doc[at+del]&0xC0 != 0x80)
	text := doc[:at] + in + doc[at+del:]
	show(text)
	walkTokens(text, sym.Param("places", 0) == 1)
}

// LexOps: reading interleaved with looking ahead and putting back.
func LexOps() {
	var text string
	if k := sym.Param("slots", 0); k > 0 {
		ws := []string{"a", "true", "rpc", "1", ".5", "\"x\"", ";", "{", "-", "\n", "//c\n", "/*\n*/", "\"", "\u00e9", "0x"}
		if k == 3 {
			ws = []string{"a", "/*\n*/", "//c\n", "/**/", ";"}
		}
		if k == 2 {
			ws = []string{"a", "1", "\"x\"", ";", "\n", "//c\n", "/*\n*/", "\u00e9\n"}
		}
		if k == 4 {
			n := []int{33, 65, 129, 257, 1025, 4097}[sym.Choice("size", sym.Param("sizes", 5))]
			ws = []string{strings.Repeat("a", n), "1" + strings.Repeat("0", n), "\"" + strings.Repeat("x", n) + "\"", ";", "/*" + strings.Repeat("\n", n) + "*/",
				strings.Repeat(" ", n) + ";", strings.Repeat("\u00e9", n), "//" + strings.Repeat("c", n) + "\n"}
		}
		for i := 0; i < sym.Param("n", 3); i++ {
			if k == 4 {
				text += ws[sym.Choice("word", len(ws))]
				continue
			}
			_, w := sym.Slot("word", ws)
			text += w
		}
	} else {
		text = letters(sym.Param("n", 3))
	}
	show(text)
	l := newLexer(text)
	c := &ref.Cursor{S: text, P: ref.Pos{Off: 0, Line: 1, Col: 1}}
	before := *c
	wasComment, beforeComment := false, false // the token before the cursor is a comment
	canUn := false                            // the last operation read a token
	broken := false
	ops := sym.Param("ops", 3)
	ways := lexModes
	if sym.Param("few", 0) == 1 {
		ways = []lexMode{lexModes[0], lexModes[2], lexModes[5]}
	}
	for i := 0; i < ops; i++ {
		switch op := sym.Choice("op", 6+len(ways)); op {
		case 0: // put back
			if !canUn {
				return
			}
			l.UnNext()
			*c = before
			wasComment = beforeComment
			sym.Assert(backAt(l, c, wasComment), "putting back restores the position")
			canUn, broken = false, false
			sym.Reach("put back")
		case 1:
			t := *c
			e := expect(&t, &lexModes[0])
			sym.Assert(l.Peek() == e.tok, "peeking shows the next token")
			canUn = false
		case 2, 3:
			t := *c
			var e expected
			for k := 0; k < op; k++ {
				e = expect(&t, &lexModes[0])
				if e.broken {
					return
				}
			}
			sym.Assert(l.PeekN(op) == e.tok, "peeking shows the nth next token")
			canUn = false
		case 4, 5: // conditionally consume
			t := *c
			e := expect(&t, &lexModes[0])
			want := scanner.TSEMICOLON
			if op == 5 {
				want = scanner.TIDENT
			}
			l.ConsumeToken(want)
			before = *c
			canUn = e.tok == want
			if canUn {
				checkToken(l, e, true)
				*c = t
				beforeComment, wasComment = wasComment, false
			}
		default:
			m := &ways[op-6]
			before, beforeComment = *c, wasComment
			e := expect(c, m)
			wasComment = e.tok == scanner.TCOMMENT
			m.next(l)
			checkToken(l, e, true)
			canUn, broken = true, e.broken
		}
		if broken && i+1 < ops {
			// how much of a malformed token was read is not specified: put it back
			l.UnNext()
			*c = before
			wasComment = beforeComment
			sym.Assert(backAt(l, c, wasComment), "putting back restores the position")
			canUn, broken = false, false
		}
	}
	if broken {
		return
	}
	for n := 0; n <= len(text); n++ {
		e := expect(c, &lexModes[0])
		l.Next()
		checkToken(l, e, true)
		if e.broken {
			sym.Reach("end")
			return
		}
		if e.tok == scanner.TEOF {
			break
		}
	}
	sym.Reach("end")
	if sym.Param("mids", 0) == 1 {
		midComments(l, text)
	}
}

// midComments: the comments between two places are told once each, in their order,
// however often they were read.
func midComments(l *lexer.Lexer, text string) {
	from, to := int(sym.ByteRange("from", 0, byte(len(text)))), int(sym.ByteRange("to", 0, byte(len(text))))
	var a, b scanner.Position
	a.Offset, b.Offset = from, to
	got := l.FindMidComments(a, b)
	c := &ref.Cursor{S: text, P: ref.Pos{Off: 0, Line: 1, Col: 1}}
	n := 0
	for {
		e := expect(c, &lexModes[5])
		if e.broken || e.tok == scanner.TEOF {
			break
		}
		if e.tok != scanner.TCOMMENT || e.pos.Off <= from || e.pos.Off >= to {
			continue
		}
		sym.Assert(n < len(got), "no comment between two places is missing")
		g := got[n]
		sym.Assert(g.Literal == e.text, "a comment between two places has its text")
		sym.Assert(g.Pos.Offset == e.pos.Off && g.Pos.Line == e.pos.Line && g.Pos.Column == e.pos.Col, "a comment between two places has its position")
		n++
	}
	sym.Assert(n == len(got), "no comment between two places is told twice")
	if n > 0 {
		sym.Reach("comments between")
	}
}

// LexWord: a word of 1 to n letters, digits and underscores, any character behind it, and something more.
func LexWord() {
	text := anyWord(sym.Param("least", 1) + sym.Choice("length", sym.Param("n", 4)-sym.Param("least", 1)+1))
	if sym.Param("join", 1) == 1 {
		text += char(true) + []string{"", "a", "1", "\"b\""}[sym.Choice("rest", 4)]
	}
	show(text)
	walkTokens(text, sym.Param("places", 0) == 1)
}

// ScanModes: the scanner itself, with any set of modes.
func ScanModes() {
	text := letters(sym.Param("n", 3))
	if sym.Param("word", 0) > 0 {
		text = anyWord(1+sym.Choice("length", sym.Param("word", 0))) + char(false)
	}
	show(text)
	set := sym.Choice("modes", 32)
	m := &lexMode{num: set&1 != 0, str: set&2 != 0, boolean: set&4 != 0, kw: set&8 != 0, comms: set&16 != 0}
	s := scanner.NewScanner(strings.NewReader(text), scanner.WithFilename(fileName))
	for i, bit := range []scanner.Mode{scanner.ScanNumberLit, scanner.ScanStrLit, scanner.ScanBoolLit, scanner.ScanKeyword, scanner.ScanComment} {
		if set>>uint(i)&1 != 0 {
			s.Mode |= bit
		}
	}
	c := &ref.Cursor{S: text, P: ref.Pos{Off: 0, Line: 1, Col: 1}}
	all := ""
	for n := 0; ; n++ {
		sym.Assert(n <= len(text), "the text ends")
		e := expect(c, m)
		tok, got, pos, err := s.Scan()
		sym.Assert(tok == e.tok, "the kind of token is the right one")
		sym.Assert(e.broken || got == e.text, "the text of the token is that of the source")
		sym.Assert(pos.Offset == e.pos.Off && pos.Line == e.pos.Line && pos.Column == e.pos.Col && pos.Filename == fileName, "the position is that of the token")
		if e.broken {
			sym.Assert(err != nil, "what is malformed is an error")
			sym.Reach("malformed")
			return
		}
		if e.tok == scanner.TEOF {
			sym.Assert(err == nil, "the end is no error")
			sym.Reach("end")
			return
		}
		if e.tok != scanner.TILLEGAL {
			sym.Assert(err == nil, "a token is no error")
		}
		raw := string(s.LastScanRaw())
		sym.Assert(strings.Contains(raw, got), "what was scanned last has the token in it")
		all += raw
		sym.Assert(len(all) <= len(text) && text[:len(all)] == all, "what was scanned is the text")
	}
}

// the forms of tokens and gaps that have no limit to their length
var longForms = []struct{ head, unit, tail string }{
	{"", "a", " "}, {"", "_1", "."}, {"//", "c", "\n"}, {"//", "\u00e9", "\n"}, {"/*", "\u20ac", "*/"}, {"/*", "x\n", "*/"}, {"/*", "*", "*/"},
	{"\"", "x", "\""}, {"'", "\\n", "'"}, {"", "1", " "}, {"", "07", ";"}, {"0x", "aF", " "}, {"1.", "0", "e5 "}, {"1e", "9", " "}, {".", "5", "-"},
	{"", " ", ""}, {"", "\n", ""}, {"", "\t\r\n", ""}, {"", ";", ""}, {"", "//\n", ""}, {"", "/**/", ""}, {"", "a.", ""}, {"", "\"\"", ""},
}

// LexLong: tokens, gaps and texts that are long, with an arbitrary character
// somewhere in them.
func LexLong() {
	f := longForms[sym.Choice("form", sym.Param("forms", len(longForms)))]
	sizes := []int{15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537}
	from, to := sym.Param("from", 0), sym.Param("to", len(sizes))
	n := sizes[from+sym.Choice("size", to-from)]
	if n > 60000 && f.head == "" && strings.TrimSpace(f.unit) == "" {
		return // the lexer goes one call deeper for each of them, too deep for the engine
	}
	text := "b " + f.head
	if sym.Param("hole", 0) == 1 {
		k := []int{0, 1, n / 2, n - 2, n - 1}[sym.Choice("hole", 5)]
		text += strings.Repeat(f.unit, k) + chars(1, true) + strings.Repeat(f.unit, n-1-k)
	} else {
		text += strings.Repeat(f.unit, n)
	}
	text += f.tail + "b \"c\" 1 //d"
	show(text)
	walkTokens(text, sym.Param("places", 0) == 1)
}
