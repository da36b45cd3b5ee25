package h

import (
	"verifharness/ref"
	"verifharness/sym"
)

func init() {
	All["Gaps"] = Gaps
	All["Remark"] = Remark
	All["Bodies"] = Bodies
	All["Modes"] = Modes
}

// gapFillers may stand between any two tokens.
var gapFillers = []string{
	" ", "\n", "\t", "\r\n", "\v\f ", "/*c*/", "//c\n", "/**/", "//\n", "/*\u00e9*/\n", "//;}\n//\"\n", "\n\n/*\n{\n*/ ", "/***/", "//\u00e9\n",
}

var gapGroups = byLength(gapFillers)

// glue tells whether two tokens need something between them.
func glue(a, b string) bool {
	return wordy(a[len(a)-1]) && wordy(b[0])
}

func wordy(c byte) bool {
	return c == '_' || c == '.' || c == '"' || c == '\'' || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
}

// relaid is the doc with an arbitrary filler in one gap, in two, or in all.
func relaid(doc string, how int) (string, bool) {
	toks, seps := cut(doc)
	n := len(toks)
	if n == 0 {
		return "", false
	}
	at, at2, first, second := -1, -1, "", ""
	switch how {
	case 0:
		at = sym.Choice("gap", n+1)
		first = word(gapGroups)
	case 1:
		at = sym.Choice("gap", n)
		at2 = at + 1 + sym.Choice("gap2", n-at)
		first = gapFillers[sym.Choice("filler", len(gapFillers))]
		second = word(gapGroups)
	case 2: // everywhere
		first = gapFillers[sym.Choice("filler", len(gapFillers))]
	case 6: // everywhere, the same
		first = "//c\n"
	case 3: // nothing but what is needed
	case 4: // an arbitrary character within a comment
		at = sym.Choice("gap", n+1)
		c := string([]byte{sym.ByteRange("c", 0, 127)})
		if sym.Choice("block", 2) == 1 {
			first = "/*" + c + " */"
		} else {
			first = "//" + c + "\n"
		}
	case 5: // a comment ending in any rune
		at = sym.Choice("gap", n+1)
		c := string(sym.Rune("c", 0x80, 0x10FFFF))
		switch sym.Choice("kind", 3) {
		case 0:
			first = "//" + c + "\n"
		case 1:
			first = "/*" + c + "*/"
		case 2:
			first = "//c\n/*" + c + "\n*/"
		}
	}
	s := ""
	for i := 0; i <= n; i++ {
		sep := seps[i]
		if how == 2 || how == 3 || how == 6 {
			sep = ""
		}
		switch {
		case how == 2, how == 6, i == at:
			sep += first
		case i == at2:
			sep += second
		}
		if i > 0 && i < n && sep == "" && glue(toks[i-1], toks[i]) {
			sep = " "
		}
		s += sep
		if i < n {
			s += toks[i]
		}
	}
	return s, true
}

// Gaps: whitespace and comments between tokens change nothing but positions and comments.
func Gaps() {
	doc := pickDoc(families[sym.Param("family", 0)])
	m := chooseMode(sym.Param("modes", 1) == 1, false)
	text, ok := relaid(doc, sym.Param("how", 0))
	if !ok {
		return
	}
	show(text)
	p, perr := parse(doc, m)
	q, qerr := parse(text, m)
	sym.Assert((perr == nil) == (qerr == nil), "the layout does not matter for acceptance")
	if p == nil || q == nil {
		sym.Reach("rejected")
		return
	}
	s := ref.Diff(tree(p), tree(q), ref.Shape)
	sym.Assert(s == "", "the layout does not matter for the tree: "+s)
	sym.Reach("accepted")
}

// Remark: comments and positions, with an arbitrary layout.
func Remark() {
	doc := pickDoc(families[sym.Param("family", 7)])
	m := mode{perm: true, body: sym.Choice("body comments", 2) == 1}
	text, ok := relaid(doc, sym.Param("how", 0))
	if !ok {
		return
	}
	show(text)
	judge(text, m, sym.Param("what", everything))
}

// Bodies: the option to keep comments in bodies adds comments to them and does nothing else.
func Bodies() {
	doc := pickDoc(families[sym.Param("family", 7)])
	text, ok := relaid(doc, sym.Param("how", 0))
	if !ok {
		return
	}
	show(text)
	p, perr := parse(text, mode{perm: true})
	q, qerr := parse(text, mode{perm: true, body: true})
	sym.Assert((perr == nil) == (qerr == nil), "the option does not matter for acceptance")
	if p == nil || q == nil {
		sym.Reach("rejected")
		return
	}
	a, b := tree(p), tree(q)
	sym.Assert(ref.Strip(a) == 0, "no comments in bodies unless asked for")
	ref.Strip(b)
	s := ref.Diff(a, b, everything)
	sym.Assert(s == "", "the option adds nothing but comments to bodies: "+s)
	sym.Reach("accepted")
}

// Modes: what strict parsing accepts, permissive parsing accepts with the same tree.
func Modes() {
	var text string
	switch sym.Param("how", 0) {
	case 0:
		doc := pickDoc(families[sym.Param("family", 0)])
		del := sym.Param("del", 1)
		if len(doc) < del {
			return
		}
		text = holed(doc, del, 1, true)
	case 1:
		text = retoken(pickDoc(families[sym.Param("family", 0)]), sym.Choice("insert", 2) == 1)
	case 2:
		text = slots(&contexts[sym.Param("context", 0)], sym.Param("n", 3))
	}
	show(text)
	body := sym.Param("body", 0) == 1
	p, err := parse(text, mode{perm: false, body: body})
	if err != nil {
		sym.Reach("rejected")
		return
	}
	q, err := parse(text, mode{perm: true, body: body})
	sym.Assert(err == nil, "what strict parsing accepts, permissive parsing accepts")
	// strictly, a semicolon after a block is an empty statement
	a, what := tree(p), everything
	if ref.DropSemicolons(a, text) {
		what = ref.Shape
	}
	s := ref.Diff(a, tree(q), what)
	sym.Assert(s == "", "both ways of parsing give the same tree: "+s)
	sym.Reach("accepted")
}
