// Package ref is an independent reading of the documented grammar: what a
// .proto text means, against which the parser of the repository is compared.
// It tokenises the whole text once, without modes or look-ahead, and parses the
// token list by recursive descent.
package ref

import "unicode/utf8"

// Kind is the kind of a token.
type Kind int

// Token kinds.
const (
	EOF Kind = iota
	Ident
	Int
	Float
	Str
	Punct
	Bad
)

// Pos is a place in the text.
type Pos struct{ Off, Line, Col int }

// Com is a comment; End is the place of its last character.
type Com struct {
	Text     string
	Pos, End Pos
}

// Tok is a token with the comments in front of it.
type Tok struct {
	Kind Kind
	Text string
	Pos  Pos
	Coms []Com
}

func isSpace(r rune) bool {
	switch r {
	case ' ', '\t', '\n', '\v', '\f', '\r', 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000:
		return true
	}
	return 0x2000 <= r && r <= 0x200a
}

func isAlpha(c byte) bool { return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || c == '_' }
func isDigit(c byte) bool { return '0' <= c && c <= '9' }
func isOct(c byte) bool   { return '0' <= c && c <= '7' }
func isHex(c byte) bool {
	return '0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F'
}

func isPunct(c byte) bool {
	switch c {
	case ';', ':', '=', '(', ')', '{', '}', '[', ']', '<', '>', ',', '.', '-', '+':
		return true
	}
	return false
}

// at is the byte at i, or 0 (which no token contains) behind the end.
func at(s string, i int) byte {
	if i < len(s) {
		return s[i]
	}
	return 0
}

// scanNumber gives the end of the number starting at i, or -1.
func scanNumber(s string, i int) (Kind, int) {
	if s[i] == '0' {
		c := at(s, i+1)
		if c == 'x' || c == 'X' {
			j := i + 2
			for isHex(at(s, j)) {
				j++
			}
			if j == i+2 {
				return Bad, -1
			}
			return Int, j
		}
		if isDigit(c) {
			// a leading zero makes it octal
			j := i + 1
			for isOct(at(s, j)) {
				j++
			}
			return Int, j
		}
	}
	j := i
	for isDigit(at(s, j)) {
		j++
	}
	k := Int
	if at(s, j) == '.' {
		k = Float
		j++
		n := j
		for isDigit(at(s, j)) {
			j++
		}
		if n == i+1 && n == j {
			return Bad, -1 // a lone dot
		}
	}
	if c := at(s, j); c == 'e' || c == 'E' {
		k = Float
		j++
		if c := at(s, j); c == '+' || c == '-' {
			j++
		}
		if !isDigit(at(s, j)) {
			return Bad, -1
		}
		for isDigit(at(s, j)) {
			j++
		}
	}
	return k, j
}

// scanString gives the end of the string literal starting at i, or -1.
func scanString(s string, i int, q byte) int {
	for j := i + 1; j < len(s); j++ {
		c := s[j]
		if c == q {
			return j + 1
		}
		if c == '\n' || c == 0 {
			return -1
		}
		if c == '\\' {
			j++
			if j < len(s) && (s[j] == '\n' || s[j] == 0) {
				return -1
			}
		}
	}
	return -1
}

func str1(i, j int) (Kind, int) {
	if j < 0 {
		return Bad, i
	}
	return Str, j
}

// scanComment gives the end of the comment starting at i (without the line
// break of a line comment), or -1.
func scanComment(s string, i int) int {
	switch at(s, i+1) {
	case '/':
		j := i + 2
		for j < len(s) && s[j] != '\n' {
			j++
		}
		return j
	case '*':
		for j := i + 2; j+1 < len(s); j++ {
			if s[j] == '*' && s[j+1] == '/' {
				return j + 2
			}
		}
	}
	return -1
}

// Next gives the kind and the end of the token starting at i, where there is
// neither blank nor comment. Numbers and strings are read only when wanted.
func Next(s string, i int, num, str bool) (Kind, int) {
	c := s[i]
	switch {
	case isAlpha(c):
		j := i + 1
		for isAlpha(at(s, j)) || isDigit(at(s, j)) {
			j++
		}
		return Ident, j
	case num && (isDigit(c) || c == '.'):
		k, j := scanNumber(s, i)
		if j < 0 {
			return Bad, i
		}
		return k, j
	case str && c == '"':
		return str1(i, scanString(s, i, '"'))
	case str && c == '\'':
		return str1(i, scanString(s, i, '\''))
	case isPunct(c):
		return Punct, i + 1
	}
	_, n := utf8.DecodeRuneInString(s[i:])
	return Bad, i + n
}

// Cursor walks over a text keeping line and column.
type Cursor struct {
	S string
	P Pos
}

// Advance moves to the byte offset j.
func (c *Cursor) Advance(j int) {
	for c.P.Off < j {
		b := c.S[c.P.Off]
		n := 1
		if b >= utf8.RuneSelf {
			_, n = utf8.DecodeRuneInString(c.S[c.P.Off:])
		}
		c.P.Off += n
		if b == '\n' {
			c.P.Line++
			c.P.Col = 1
		} else {
			c.P.Col++
		}
	}
}

// PosAt is the place of the byte offset off.
func PosAt(s string, off int) Pos {
	c := Cursor{s, Pos{0, 1, 1}}
	c.Advance(off)
	return c.P
}

// Blank skips blanks and collects comments; bad tells that a comment is malformed.
func (c *Cursor) Blank() (coms []Com, bad bool) {
	s := c.S
	for c.P.Off < len(s) {
		i := c.P.Off
		b := s[i]
		if b == '/' {
			j := scanComment(s, i)
			if j < 0 {
				return coms, true
			}
			com := Com{Text: s[i:j], Pos: c.P}
			l := j - 1
			for l > i && s[l]&0xC0 == 0x80 {
				l--
			}
			c.Advance(l)
			com.End = c.P
			c.Advance(j)
			coms = append(coms, com)
			continue
		}
		r, n := rune(b), 1
		if b >= utf8.RuneSelf {
			r, n = utf8.DecodeRuneInString(s[i:])
		}
		if !isSpace(r) {
			return coms, false
		}
		c.Advance(i + n)
	}
	return coms, false
}

const bom = "\uFEFF"

// Start places a cursor behind the byte order mark.
func Start(s string) Cursor {
	c := Cursor{s, Pos{0, 1, 1}}
	if len(s) >= 3 && s[0] == bom[0] && s[:3] == bom {
		c.Advance(3)
	}
	return c
}

// Tok reads the next token; it stays at the end and at anything illegal.
func (c *Cursor) Tok() Tok {
	coms, bad := c.Blank()
	t := Tok{Pos: c.P, Coms: coms}
	i := c.P.Off
	if bad {
		t.Kind = Bad
		return t
	}
	if i == len(c.S) {
		return t
	}
	k, j := Next(c.S, i, true, true)
	if k == Bad && c.S[i] == '.' {
		k, j = Punct, i+1
	}
	t.Kind = k
	if k != Bad {
		t.Text = c.S[i:j]
		c.Advance(j)
	}
	return t
}

// Lex tokenises a text up to its first illegal token.
func Lex(s string) []Tok {
	c := Start(s)
	var toks []Tok
	for {
		t := c.Tok()
		toks = append(toks, t)
		if t.Kind == EOF || t.Kind == Bad {
			return toks
		}
	}
}

// Space skips one blank character.
func (c *Cursor) Space() bool {
	i := c.P.Off
	r, n := rune(c.S[i]), 1
	if c.S[i] >= utf8.RuneSelf {
		r, n = utf8.DecodeRuneInString(c.S[i:])
	}
	if !isSpace(r) {
		return false
	}
	c.Advance(i + n)
	return true
}

// CommentEnd gives the end of the comment at i, or -1.
func CommentEnd(s string, i int) int { return scanComment(s, i) }
