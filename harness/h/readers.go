package h

import (
	"errors"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
	"io"
	"log"
	"strings"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"verifharness/ref"
	"verifharness/sym"
)

func init() {
	All["Chunks"] = Chunks
	All["Failing"] = Failing
	All["FailingTokens"] = FailingTokens
	All["Options"] = Options
	All["Again"] = Again
	All["Debug"] = Debug
	All["FileName"] = FileName
}

var errBroken = errors.New("broken")

// pieces delivers a text in pieces, and possibly fails.
type pieces struct {
	text   string
	sizes  []int // of the pieces, then as much as fits
	at     int
	fail   int // fails after this many bytes; -1: never
	err    error
	with   bool // the last bytes come together with the end or the error
	empty  bool // every other read delivers nothing
	toggle bool
}

func (r *pieces) Read(p []byte) (int, error) {
	if r.empty {
		r.toggle = !r.toggle
		if r.toggle {
			return 0, nil
		}
	}
	end, err := len(r.text), io.EOF
	if r.fail >= 0 {
		end, err = r.fail, r.err
	}
	n := end - r.at
	if len(r.sizes) > 0 {
		if r.sizes[0] < n {
			n = r.sizes[0]
		}
		r.sizes = r.sizes[1:]
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.text[r.at:r.at+n])
	r.at += n
	if r.at < end {
		return n, nil
	}
	if n > 0 && !r.with {
		return n, nil
	}
	return n, err
}

// some texts for the harnesses below, with an arbitrary character somewhere
func someText() string {
	docs := families[sym.Param("family", 7)]
	if sym.Param("big", 0) == 1 {
		docs = []string{bigDoc}
	}
	doc := ""
	if sym.Param("text", 0) != 3 {
		doc = pickDoc(docs)
	}
	switch sym.Param("text", 0) {
	case 0: // as it is
		return doc
	case 1: // a character of several bytes somewhere
		at := offset("at", len(doc)+1)
		return doc[:at] + "\u20ac" + doc[at:]
	case 2: // any character somewhere
		if len(doc) == 0 {
			return doc
		}
		return holed(doc, 1, 1, true)
	case 4: // cut off
		return doc[:offset("at", len(doc)+1)]
	}
	// the buffer of a usual reader ends somewhere in the text
	doc = "package a;//\u20ac\U0001F600\nimport \"\u00e9\";"
	at := offset("at", len(doc)+2)
	pad := ""
	for n := 4096 - at; n > 0; {
		k := 64
		if n < 2*k {
			k = n
		}
		line := make([]byte, k)
		for i := range line {
			line[i] = '-'
		}
		line[0], line[1], line[k-1] = '/', '/', '\n'
		pad += string(line)
		n -= k
	}
	return pad + doc
}

func sameResult(what string, p, q *parser.Proto, perr, qerr error, file string, how int) {
	sym.Assert((perr == nil) == (qerr == nil), what+" has the same outcome")
	sym.Assert((p == nil) == (q == nil), what+" has the same kind of result")
	if p == nil || q == nil {
		sameError(what, perr, qerr, fileName == file)
		sym.Reach("rejected")
		return
	}
	c, d := ref.Conv{File: fileName}, ref.Conv{File: file}
	s := ref.Diff(c.Proto(p), d.Proto(q), how)
	sym.Assert(s == "", what+" gives the same tree: "+s)
	sym.Assert(c.BadFile == d.BadFile, what+" carries the file name alike")
	sym.Reach("accepted")
}

// sameError compares what the errors of two runs over the same text tell, their
// place in the sources of the parser aside.
func sameError(what string, perr, qerr error, words bool) {
	a, ok := perr.(*meta.Error)
	b, okay := qerr.(*meta.Error)
	sym.Assert(ok == okay, what+" has the same kind of error")
	if !ok || !okay {
		return
	}
	sym.Assert(a.Pos.Offset == b.Pos.Offset && a.Pos.Line == b.Pos.Line && a.Pos.Column == b.Pos.Column, what+" has the error at the same place")
	sym.Assert(a.Expected == b.Expected, what+" has the same text expected")
	if words {
		sym.Assert(a.Found == b.Found, what+" has the same text found")
	}
}

const everything = ref.Shape | ref.Places | ref.Remarks

func parseFrom(r io.Reader, m mode) (*parser.Proto, error) {
	return protoparser.Parse(r, protoparser.WithPermissive(m.perm), protoparser.WithBodyIncludingComments(m.body), protoparser.WithFilename(fileName))
}

// Chunks: however the reader splits the text, the result is the same.
func Chunks() {
	text := someText()
	m := mode{perm: true, body: true}
	r := &pieces{text: text, fail: -1}
	plain := sym.Param("plain", 0) == 1
	if !plain && sym.Choice("bytewise", 2) == 1 {
		r.sizes = make([]int, len(text))
		for i := range r.sizes {
			r.sizes[i] = 1
		}
	} else {
		for i := 0; i < sym.Param("pieces", 1); i++ {
			r.sizes = append(r.sizes, 1+offset("size", len(text)+1))
		}
	}
	if !plain {
		r.with = sym.Choice("end with data", 2) == 1
		r.empty = sym.Choice("empty reads", 2) == 1
	}
	show(text)
	p, perr := parse(text, m)
	q, qerr := parseFrom(r, m)
	sameResult("a text in pieces", p, q, perr, qerr, fileName, everything)
}

// Failing: a reader that fails makes the parse fail, whatever was read before.
func Failing() {
	text := someText()
	m := mode{perm: sym.Param("strict", 0) == 0, body: true}
	from := 0
	if n := sym.Param("near", 0); n > 0 && len(text) > n {
		from = len(text) - n // only the last n bytes
	}
	r := &pieces{text: text, fail: from + offset("fail", len(text)+1-from)}
	switch sym.Choice("error", sym.Param("errors", 3)) {
	case 0:
		r.err = errBroken
	case 1:
		r.err = io.ErrUnexpectedEOF
	case 2:
		r.err = io.ErrClosedPipe
	}
	r.with = sym.Choice("end with data", 2) == 1
	r.empty = sym.Param("empty", 0) == 1
	show(text)
	p, err := parseFrom(r, m)
	sym.Assert(err != nil, "a failing reader makes the parse fail")
	sym.Assert(p == nil, "no tree from the part read")
	sym.Reach("failed")
}

// Options: whatever options are given, in any order and any number of times, only
// the last of each kind counts, and one not given is as documented.
func Options() {
	text := someText()
	type set struct {
		debug, perm, body bool
		file              string
	}
	want := set{perm: true}
	files := []string{"", "a.proto", "a\n.proto:1"}
	n := sym.Param("n", 3)
	low := sym.Param("low", 0) == 1
	if low {
		want.perm = false
	}
	var opts []protoparser.Option
	var lexOpts []lexer.Option
	var parserOpts []parser.ConfigOption
	for i := 0; i < n; i++ {
		k := sym.Choice("option", 6)
		if k == 5 { // no more
			break
		}
		v := k < 3 && sym.ByteRange("on", 0, 1) == 1
		switch k {
		case 0:
			want.debug = v
			opts = append(opts, protoparser.WithDebug(v))
			lexOpts = append(lexOpts, lexer.WithDebug(v))
		case 1:
			want.perm = v
			opts = append(opts, protoparser.WithPermissive(v))
			parserOpts = append(parserOpts, parser.WithPermissive(v))
		case 2:
			want.body = v
			opts = append(opts, protoparser.WithBodyIncludingComments(v))
			parserOpts = append(parserOpts, parser.WithBodyIncludingComments(v))
		default:
			want.file = files[k-3]
			if k == 4 {
				want.file = files[1+sym.Choice("file", 2)]
			}
			opts = append(opts, protoparser.WithFilename(want.file))
			lexOpts = append(lexOpts, lexer.WithFilename(want.file))
		}
	}
	show(text)
	if sym.Native() {
		log.SetOutput(io.Discard)
	}
	p, perr := parse(text, mode{perm: want.perm, body: want.body})
	var q *parser.Proto
	var qerr error
	if low {
		q, qerr = parser.NewParser(lexer.NewLexer(strings.NewReader(text), lexOpts...), parserOpts...).ParseProto()
	} else {
		q, qerr = protoparser.Parse(strings.NewReader(text), opts...)
	}
	if q != nil {
		sym.Assert(q.Meta != nil && q.Meta.Filename == want.file, "the file name is in the meta information")
	}
	sameResult("these options", p, q, perr, qerr, want.file, everything)
}

// FailingTokens: the tokens of a failing reader.
func FailingTokens() {
	text := someText()
	m := &lexModes[sym.Choice("way", len(lexModes))]
	r := &pieces{text: text, fail: offset("fail", len(text)+1), err: errBroken, with: sym.Choice("end with data", 2) == 1}
	show(text)
	l, k := lexer.NewLexer(r), newLexer(text)
	var last error
	l.Error = func(_ *lexer.Lexer, err error) { last = err }
	// a token is compared when the next one has been read: the last one may be cut off
	var tok scanner.Token
	var got string
	for n := 0; ; n++ {
		sym.Assert(n <= len(text)+1, "the text ends")
		m.next(l)
		sym.Assert(!l.IsEOF(), "a failing reader is not at the end of the text")
		if n > 0 && l.LatestErr() == nil && l.Pos.Offset < r.fail {
			m.next(k)
			sym.Assert(k.Token == tok && k.Text == got, "the tokens before the failure are those of the text")
		}
		if l.LatestErr() == errBroken {
			break
		}
		tok, got = l.Token, l.Text
	}
	sym.Assert(l.Token == scanner.TILLEGAL, "the failure is no token")
	sym.Assert(last == errBroken, "the failure of the reader is told as it is")
	m.next(l)
	sym.Assert(!l.IsEOF() && l.LatestErr() == errBroken, "a failing reader stays failed")
	sym.Reach("failed")
}

// Again: parsing touches nothing that exists before, and does not depend on
// what was parsed; using a tree does not change it.
func Again() {
	text := someText()
	m := chooseMode(true, true)
	show(text)
	var p *parser.Proto
	var perr error
	sym.Frozen("parsing", func(keep bool) {
		q, err := parseAlone(text, m)
		if keep {
			p, perr = q, err
		}
	})
	if perr != nil {
		sym.Reach("rejected")
	}
	if sym.Param("between", 1) == 1 {
		other := []string{bigDoc, "message A{//", "syntax=\"proto3\";//a\n/*b*/enum C{D=1;//e\n}", "\"", ""}[sym.Choice("between", 5)]
		parse(other, mode{perm: sym.Choice("other mode", 2) == 1, body: true})
	}
	q, qerr := parse(text, m)
	sameResult("parsing again", p, q, perr, qerr, fileName, everything)
	if p == nil {
		return
	}
	sym.Frozen("visiting", func(bool) { p.Accept(&recorder{decide: func(int) bool { return true }}) })
	sym.Frozen("interpreting", func(bool) { protoparser.UnorderedInterpret(p) })
	sameResult("a tree after its use", p, q, nil, nil, fileName, everything)
}

func parseAlone(text string, m mode) (*parser.Proto, error) { return parse(text, m) }

// Debug: debug output changes nothing.
func Debug() {
	text := someText()
	m := chooseMode(true, true)
	show(text)
	if sym.Native() {
		log.SetOutput(io.Discard)
	}
	p, perr := parse(text, m)
	q, qerr := protoparser.Parse(strings.NewReader(text), protoparser.WithDebug(true),
		protoparser.WithPermissive(m.perm), protoparser.WithBodyIncludingComments(m.body), protoparser.WithFilename(fileName))
	sameResult("debug output", p, q, perr, qerr, fileName, everything)
}

// FileName: the file name changes nothing else.
func FileName() {
	text := someText()
	m := chooseMode(true, true)
	show(text)
	file := ""
	for i := 0; i < sym.Param("chars", 2); i++ {
		file += string([]byte{sym.ByteRange("f", 1, 255)})
	}
	p, perr := parse(text, m)
	q, qerr := protoparser.Parse(strings.NewReader(text),
		protoparser.WithPermissive(m.perm), protoparser.WithBodyIncludingComments(m.body), protoparser.WithFilename(file))
	if q != nil {
		sym.Assert(q.Meta != nil && q.Meta.Filename == file, "the file name is in the meta information")
		d := ref.Conv{File: file}
		d.Proto(q)
		sym.Assert(!d.BadFile, "every position carries the file name")
	}
	sameResult("another file name", p, q, perr, qerr, file, everything)
}
