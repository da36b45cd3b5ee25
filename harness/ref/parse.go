package ref

// Node is a statement (or part of one) of a file, in a form common to the
// reference and the tree of the repository.
type Node struct {
	Kind     string
	Attr     []string
	Kids     []*Node
	Pos, End Pos // the zero Pos: none is recorded
	Lead     []Com
	Inline   *Com
	Curly    *Com // behind the opening brace (or square bracket)
	Emb      []Com
}

// P is a parse in progress.
type P struct {
	cur  Cursor
	toks []Tok
	skip []int // comments of a token already used
	i    int
	perm bool
	body bool

	bad   bool
	badAt Pos
	badTo int
}

// Result is what a text means.
type Result struct {
	OK    bool
	Root  *Node
	BadAt Pos // where the text stops being the beginning of an acceptable one
	BadTo int // the last character of the token that begins there
}

// Parse reads a file.
func Parse(s string, permissive, bodyComments bool) Result {
	p := &P{cur: Start(s), perm: permissive, body: bodyComments}
	root := p.file()
	if p.bad {
		return Result{BadAt: p.badAt, BadTo: p.badTo}
	}
	return Result{OK: true, Root: root}
}

func (p *P) fail() {
	if !p.bad {
		p.bad = true
		t := p.tok()
		p.badAt = t.Pos
		p.badTo = t.Pos.Off
		if len(t.Text) > 1 {
			p.badTo += len(t.Text) - 1
		}
	}
}

// tok is the current token, read when first needed.
func (p *P) tok() *Tok {
	for len(p.toks) <= p.i {
		p.toks = append(p.toks, p.cur.Tok())
		p.skip = append(p.skip, 0)
	}
	return &p.toks[p.i]
}

func (p *P) isSym(s string) bool {
	t := p.tok()
	return t.Kind == Punct && t.Text == s
}

func (p *P) isKw(s string) bool {
	t := p.tok()
	return t.Kind == Ident && t.Text == s
}

func (p *P) take(k Kind) string {
	t := p.tok()
	if p.bad || t.Kind != k {
		p.fail()
		return ""
	}
	p.i++
	return t.Text
}

func (p *P) sym(s string) {
	if p.bad || !p.isSym(s) {
		p.fail()
		return
	}
	p.i++
}

func (p *P) ident() string { return p.take(Ident) }

// lead are the comments in front of the current token that are not used yet.
func (p *P) lead() []Com { return p.tok().Coms[p.skip[p.i]:] }

// inline takes the comment that begins on the line of the token just read.
func (p *P) inline() *Com {
	if p.bad {
		return nil
	}
	c := p.lead()
	if len(c) == 0 || c[0].Pos.Line != p.toks[p.i-1].Pos.Line {
		return nil
	}
	p.skip[p.i]++
	return &c[0]
}

func (p *P) lastPos() Pos {
	if p.bad {
		return Pos{}
	}
	return p.toks[p.i-1].Pos
}

func (n *Node) attr(a ...string) { n.Attr = append(n.Attr, a...) }

func (p *P) file() *Node {
	root := &Node{Kind: "proto"}
	for _, kw := range []string{"syntax", "edition"} {
		if !p.isKw(kw) {
			continue
		}
		n := &Node{Kind: kw, Pos: p.tok().Pos, Lead: p.lead()}
		p.i++
		p.sym("=")
		v := p.tok().Text
		ok := p.tok().Kind == Str && len(v) > 2
		if ok && kw == "syntax" {
			ok = v[1:len(v)-1] == "proto2" || v[1:len(v)-1] == "proto3"
		}
		if ok && kw == "edition" {
			ok = decimal(v[1 : len(v)-1])
		}
		if !ok {
			p.fail()
			return root
		}
		p.i++
		n.attr(v[1:len(v)-1], v)
		p.sym(";")
		n.End = p.lastPos()
		n.Inline = p.inline()
		root.Kids = append(root.Kids, n)
	}
	for !p.bad {
		lead := p.lead()
		if p.tok().Kind == EOF {
			if p.body {
				root.comments(lead)
			}
			return root
		}
		p.item(root, lead, p.topLevel)
	}
	return root
}

func decimal(s string) bool {
	if s[0] < '1' || s[0] > '9' {
		return false
	}
	for i := 1; i < len(s); i++ {
		if !isDigit(s[i]) {
			return false
		}
	}
	return true
}

func (n *Node) comments(cs []Com) {
	for i := range cs {
		n.Kids = append(n.Kids, &Node{Kind: "comment", Attr: []string{cs[i].Text}, Pos: cs[i].Pos, End: cs[i].End})
	}
}

// item reads one statement of a body.
func (p *P) item(n *Node, lead []Com, stmt func(*Node)) {
	k := &Node{Pos: p.tok().Pos}
	if p.isSym(";") {
		if p.body {
			n.comments(lead)
		}
		p.i++
		k.Kind, k.Pos = "empty", Pos{}
	} else {
		k.Lead = lead
		stmt(k)
		if p.bad {
			return
		}
		k.End = p.lastPos()
	}
	k.Inline = p.inline()
	n.Kids = append(n.Kids, k)
}

// block reads a body in braces; with permission a semicolon may follow.
func (p *P) block(n *Node, stmt func(*Node)) {
	p.sym("{")
	n.Curly = p.inline()
	for !p.bad {
		lead := p.lead()
		if p.isSym("}") {
			if p.body {
				n.comments(lead)
			}
			p.i++
			p.afterBlock()
			return
		}
		p.item(n, lead, stmt)
	}
}

func (p *P) afterBlock() {
	if p.perm && p.isSym(";") {
		p.i++
	}
}

func (p *P) topLevel(n *Node) {
	if p.tok().Kind != Ident {
		p.fail()
		return
	}
	switch p.tok().Text {
	case "import":
		p.i++
		n.Kind = "import"
		mod := ""
		if p.isKw("public") || p.isKw("weak") {
			mod = p.ident()
		}
		n.attr(mod, p.take(Str))
		p.sym(";")
	case "package":
		p.i++
		n.Kind = "package"
		n.attr(p.fullIdent())
		p.sym(";")
	case "option":
		p.option(n)
	case "message":
		p.message(n)
	case "enum":
		p.enum(n)
	case "service":
		p.service(n)
	case "extend":
		p.extend(n)
	default:
		p.fail()
	}
}

func (p *P) fullIdent() string {
	s := p.ident()
	for !p.bad && p.isSym(".") {
		p.i++
		s += "." + p.ident()
	}
	return s
}

func (p *P) messageType() string {
	s := ""
	if !p.bad && p.isSym(".") {
		s = "."
		p.i++
	}
	return s + p.fullIdent()
}

// scalars are the names of the scalar types; only some may be map keys.
func isKeyType(s string) bool {
	switch s {
	case "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64",
		"sfixed32", "sfixed64", "bool", "string":
		return true
	}
	return false
}

func isScalar(s string) bool {
	return isKeyType(s) || s == "double" || s == "float" || s == "bytes"
}

func (p *P) typ() string {
	if t := p.tok(); t.Kind == Ident && isScalar(t.Text) {
		return p.ident()
	}
	return p.messageType()
}

func (p *P) message(n *Node) {
	n.Kind = "message"
	p.i++
	n.attr(p.ident())
	p.block(n, p.messageItem)
}

func (p *P) messageItem(n *Node) {
	if p.tok().Kind == Ident {
		switch p.tok().Text {
		case "enum":
			p.enum(n)
			return
		case "message":
			p.message(n)
			return
		case "option":
			p.option(n)
			return
		case "oneof":
			p.oneof(n)
			return
		case "map":
			p.mapField(n)
			return
		case "extend":
			p.extend(n)
			return
		case "reserved":
			p.reserved(n)
			return
		case "extensions":
			p.extensions(n)
			return
		}
	}
	p.field(n, true)
}

func (p *P) label() string {
	if p.isKw("repeated") || p.isKw("required") || p.isKw("optional") {
		return p.ident()
	}
	return ""
}

func (p *P) field(n *Node, groups bool) {
	n.Kind = "field"
	label := p.label()
	typ := p.typ()
	name := p.ident()
	p.sym("=")
	num := p.take(Int)
	if groups && !p.bad && typ == "group" && name[0] >= 'A' && name[0] <= 'Z' && p.isSym("{") {
		n.Kind = "group"
		n.attr(label, name, num)
		p.block(n, p.messageItem)
		return
	}
	n.attr(label, typ, name, num)
	p.fieldOptions(n)
	p.sym(";")
}

// fieldOptions reads an optional list of options in square brackets.
func (p *P) fieldOptions(n *Node) {
	if p.bad || !p.isSym("[") {
		return
	}
	p.i++
	for {
		o := &Node{Kind: "fieldoption"}
		name := p.optionName()
		p.sym("=")
		o.attr(name, p.value())
		n.Kids = append(n.Kids, o)
		if p.bad || !p.isSym(",") {
			break
		}
		p.i++
	}
	p.sym("]")
}

func (p *P) mapField(n *Node) {
	n.Kind = "map"
	p.i++
	p.sym("<")
	if !p.bad && !(p.tok().Kind == Ident && isKeyType(p.tok().Text)) {
		p.fail()
	}
	key := p.ident()
	p.sym(",")
	typ := p.typ()
	p.sym(">")
	name := p.ident()
	p.sym("=")
	n.attr(key, typ, name, p.take(Int))
	p.fieldOptions(n)
	p.sym(";")
}

// oneof: the tree keeps fields and options apart and has no place for empty statements.
func (p *P) oneof(n *Node) {
	n.Kind = "oneof"
	p.i++
	n.attr(p.ident())
	p.sym("{")
	n.Curly = p.inline()
	var fields, options []*Node
	for !p.bad {
		lead := p.lead()
		if p.isSym("}") {
			p.i++
			p.afterBlock()
			n.Kids = append(fields, options...)
			return
		}
		if p.isSym(";") {
			p.i++
			continue
		}
		k := &Node{Pos: p.tok().Pos, Lead: lead}
		if p.isKw("option") {
			p.option(k)
			options = append(options, k)
		} else {
			k.Kind = "oneoffield"
			typ := p.typ()
			name := p.ident()
			p.sym("=")
			k.attr(typ, name, p.take(Int))
			p.fieldOptions(k)
			p.sym(";")
			fields = append(fields, k)
		}
		k.End = p.lastPos()
		k.Inline = p.inline()
	}
}

func (p *P) extend(n *Node) {
	n.Kind = "extend"
	p.i++
	n.attr(p.messageType())
	p.block(n, func(k *Node) { p.field(k, false) })
}

func (p *P) enum(n *Node) {
	n.Kind = "enum"
	p.i++
	n.attr(p.ident())
	p.block(n, func(k *Node) {
		switch {
		case p.isKw("option"):
			p.option(k)
		case p.isKw("reserved"):
			p.reserved(k)
		default:
			k.Kind = "enumfield"
			name := p.ident()
			p.sym("=")
			sign := ""
			if !p.bad && p.isSym("-") {
				sign = "-"
				p.i++
			}
			k.attr(name, sign+p.take(Int))
			p.fieldOptions(k)
			p.sym(";")
		}
	})
}

func (p *P) rang() *Node {
	n := &Node{Kind: "range"}
	b := p.take(Int)
	e := ""
	if !p.bad && p.isKw("to") {
		p.i++
		if p.isKw("max") {
			e = p.ident()
		} else {
			e = p.take(Int)
		}
	}
	n.attr(b, e)
	return n
}

func (p *P) ranges(n *Node) {
	for {
		n.Kids = append(n.Kids, p.rang())
		if p.bad || !p.isSym(",") {
			return
		}
		p.i++
	}
}

func (p *P) reserved(n *Node) {
	n.Kind = "reserved"
	p.i++
	if p.tok().Kind == Int {
		p.ranges(n)
		p.sym(";")
		return
	}
	// names, with the commas left out at will
	for {
		t := p.tok()
		if p.bad || t.Kind != Ident && t.Kind != Str {
			p.fail()
			return
		}
		p.i++
		n.Kids = append(n.Kids, &Node{Kind: "name", Attr: []string{t.Text}})
		if p.isSym(",") {
			p.i++
		} else if k := p.tok().Kind; k != Ident && k != Str {
			break
		}
	}
	p.sym(";")
}

func (p *P) extensions(n *Node) {
	n.Kind = "extensions"
	p.i++
	p.ranges(n)
	if !p.bad && p.isSym("[") {
		p.i++
		n.Curly = p.inline()
		for {
			d := &Node{Kind: "declaration", Pos: p.tok().Pos, Lead: p.lead()}
			p.declaration(d)
			if p.bad {
				return
			}
			d.End = p.lastPos()
			n.Kids = append(n.Kids, d)
			d.Inline = p.inline()
			last := !p.isSym(",")
			if last {
				p.sym("]")
			} else {
				p.i++
			}
			if d.Inline == nil {
				d.Inline = p.inline()
			}
			if last {
				break
			}
		}
	}
	p.sym(";")
}

func (p *P) declaration(n *Node) {
	if !p.isKw("declaration") {
		p.fail()
		return
	}
	p.i++
	p.sym("=")
	p.sym("{")
	n.Curly = p.inline()
	num, full, typ, rep, res := "", "", "", "false", "false"
	for first := true; !p.bad; first = false {
		if p.isSym("}") {
			p.i++
			break
		}
		if !first && p.isSym(",") {
			p.i++
		}
		a := p.tok().Text
		if p.tok().Kind != Ident || a != "number" && a != "full_name" && a != "type" && a != "repeated" && a != "reserved" {
			p.fail()
			return
		}
		p.i++
		p.sym(":")
		switch a {
		case "number":
			num = p.take(Int)
		case "full_name":
			full = p.take(Str)
		case "type":
			typ = p.take(Str)
		default:
			if !p.bad && !p.isKw("true") && !p.isKw("false") {
				p.fail()
			}
			v := p.ident()
			if a == "repeated" {
				rep = v
			} else {
				res = v
			}
		}
	}
	n.attr(num, full, typ, rep, res)
}

func (p *P) service(n *Node) {
	n.Kind = "service"
	p.i++
	n.attr(p.ident())
	p.block(n, func(k *Node) {
		switch {
		case p.isKw("option"):
			p.option(k)
		case p.isKw("rpc"):
			p.rpc(k)
		default:
			p.fail()
		}
	})
}

func (p *P) rpcType(kind string) *Node {
	n := &Node{Kind: kind, Pos: p.tok().Pos}
	p.sym("(")
	stream := ""
	if !p.bad && p.isKw("stream") {
		stream = p.ident()
	}
	n.attr(stream, p.messageType())
	p.sym(")")
	n.End = p.lastPos()
	return n
}

func (p *P) rpc(n *Node) {
	n.Kind = "rpc"
	from := p.i
	p.i++
	n.attr(p.ident())
	n.Kids = append(n.Kids, p.rpcType("request"))
	if !p.bad && !p.isKw("returns") {
		p.fail()
	}
	p.ident()
	n.Kids = append(n.Kids, p.rpcType("response"))
	if p.bad || !p.isSym(";") && !p.isSym("{") {
		p.fail()
		return
	}
	for j := from + 1; j <= p.i; j++ {
		n.Emb = append(n.Emb, p.toks[j].Coms...)
	}
	if p.isSym(";") {
		p.i++
		return
	}
	p.i++
	n.Curly = p.inline()
	for !p.bad {
		switch {
		case p.isSym("}"):
			p.i++
			p.afterBlock()
			return
		case p.isSym(";"):
			p.i++
		case p.isKw("option"):
			// The options of an rpc carry no comments.
			k := &Node{Pos: p.tok().Pos}
			p.option(k)
			k.End = p.lastPos()
			n.Kids = append(n.Kids, k)
		default:
			p.fail()
		}
	}
}

func (p *P) option(n *Node) {
	n.Kind = "option"
	p.i++
	name := p.optionName()
	p.sym("=")
	n.attr(name, p.value())
	p.sym(";")
}

func (p *P) optionName() string {
	s := ""
	for {
		if !p.bad && p.isSym("(") {
			p.i++
			s += "("
			if p.perm && p.isSym(".") {
				p.i++
				s += "."
			}
			s += p.fullIdent()
			p.sym(")")
			s += ")"
		} else {
			s += p.ident()
		}
		if p.bad || !p.isSym(".") {
			return s
		}
		p.i++
		s += "."
	}
}

// value reads an option's value: a constant, or with permission an aggregate or a list.
func (p *P) value() string {
	if p.bad {
		return ""
	}
	if p.perm && p.isSym("{") {
		return p.aggregate()
	}
	if p.perm && p.isSym("[") {
		p.i++
		s := "["
		if p.isSym("]") {
			p.i++
			return "[]"
		}
		for {
			s += p.value()
			if p.bad || !p.isSym(",") {
				break
			}
			p.i++
			s += ","
		}
		p.sym("]")
		return s + "]"
	}
	return p.constant()
}

// aggregate = "{" [ field { [ "," | ";" ] field } [ "," | ";" ] ] "}"
// field     = ident ( ":" value | aggregate )
func (p *P) aggregate() string {
	s := "{"
	p.i++
	if p.isSym("}") {
		p.i++
		return "{}"
	}
	for !p.bad {
		s += p.ident()
		if !p.bad && p.isSym("{") {
			s += p.aggregate()
		} else {
			p.sym(":")
			s += ":" + p.value()
		}
		if p.bad {
			break
		}
		sep := "\n"
		if p.isSym(",") || p.isSym(";") {
			sep = p.tok().Text
			p.i++
		}
		if p.isSym("}") {
			p.i++
			if sep != "\n" {
				s += sep
			}
			return s + "}"
		}
		s += sep
	}
	return s
}

func (p *P) constant() string {
	t := p.tok()
	switch t.Kind {
	case Int, Float:
		p.i++
		return t.Text
	case Str:
		p.i++
		if !p.perm || p.tok().Kind != Str {
			return t.Text
		}
		// adjacent literals are one literal in the quotes of the first
		q := t.Text[0]
		s := t.Text[:len(t.Text)-1]
		for p.tok().Kind == Str {
			u := p.tok().Text
			in := u[1 : len(u)-1]
			if u[0] != q {
				in = requote(in, q)
			}
			s = finish(s, in) + in
			p.i++
		}
		return s + t.Text[:1]
	case Ident:
		switch t.Text {
		case "true", "false", "inf", "nan":
			p.i++
			return t.Text
		}
		return p.fullIdent()
	case Punct:
		if t.Text == "-" || t.Text == "+" {
			p.i++
			n := p.tok()
			if n.Kind == Int || n.Kind == Float || n.Kind == Ident && (n.Text == "inf" || n.Text == "nan") {
				p.i++
				return t.Text + n.Text
			}
		}
	}
	p.fail()
	return ""
}

// requote escapes the bare quotes q of a text taken from the other quotes.
func requote(in string, q byte) string {
	s := ""
	for i := 0; i < len(in); i++ {
		if in[i] == q {
			s += "\\"
		} else if in[i] == '\\' && i+1 < len(in) {
			s += "\\"
			i++
		}
		s += string(in[i : i+1])
	}
	return s
}

// finish writes a numeric escape at the end of s in full when the digits of next would continue it.
func finish(s, next string) string {
	if next == "" {
		return s
	}
	for k := 1; k <= 2; k++ { // the digits it has
		i := len(s) - k
		if i < 1 {
			return s
		}
		if s[i-1] == '\\' && live(s, i-1) {
			// octal
			for _, c := range []byte(s[i:] + next[:1]) {
				if c < '0' || c > '7' {
					return s
				}
			}
			return s[:i] + "00"[k-1:] + s[i:]
		}
		if k == 1 && i > 1 && (s[i-1] == 'x' || s[i-1] == 'X') && s[i-2] == '\\' && live(s, i-2) {
			if hexDigit(s[i]) && hexDigit(next[0]) {
				return s[:i] + "0" + s[i:]
			}
			return s
		}
	}
	return s
}

// live tells whether the backslash at i begins an escape.
func live(s string, i int) bool {
	n := 0
	for i-n-1 >= 0 && s[i-n-1] == '\\' {
		n++
	}
	return n%2 == 0
}

func hexDigit(c byte) bool {
	return '0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F'
}
