package h

import (
	"verifharness/ref"
	"verifharness/sym"
)

func init() {
	All["Sequence"] = Sequence
	All["Within"] = Within
	All["Cut"] = Cut
	All["Many"] = Many
	All["Deep"] = Deep
}

// kinds of statements of each body; place is what surrounds them.
type bodyKind struct {
	pre, post string
	stmts     []string
}

var bodyKinds = []bodyKind{
	{``, ``, []string{
		`import "a";`, `import public 'b';`, `package a.b;`, `option a=1;`, `option (a).b={c:1;};`, `message A{int32 a=1;}`, `message B{}`,
		`enum A{B=0;}`, `service A{rpc B(C)returns(D);}`, `extend A{int32 a=1;}`, `;`, `message C{oneof d{int32 e=1;}}`,
	}},
	{`message M{`, `}`, []string{
		`int32 a=1;`, `repeated .a.B b=2[c=d];`, `optional group C=3{int32 d=1;}`, `map<int32,A>e=4;`, `oneof f{int32 g=5;option h=i;}`,
		`message J{int32 k=1;}`, `enum L{M=0;}`, `extend N{int32 o=6;}`, `option p=q;`, `reserved 7;`, `reserved "r","s";`, `extensions 8 to max;`, `;`,
		`extensions 9[declaration={number:9}];`,
	}},
	{`enum M{`, `}`, []string{`A=0;`, `B=-0x1[c=d];`, `option e=f;`, `reserved 1 to 2;`, `reserved 'g';`, `;`}},
	{`service M{`, `}`, []string{`rpc A(B)returns(C);`, `rpc D(stream E)returns(stream F){option g=h;}`, `rpc A(B)returns(C){}`, `option i=j;`, `;`}},
	{`extend M{`, `}`, []string{`int32 a=1;`, `optional .a.B b=2[c=d];`, `repeated string c=3;`, `;`}},
	{`message M{oneof N{`, `}}`, []string{`int32 a=1;`, `.b.C d=2[e=f];`, `string g=3;`}},
	{`service M{rpc N(O)returns(P){`, `}}`, []string{`option a=b;`, `option (c).d="e";`, `option f={g:1};`}},
}

// kidsOf finds the statements within a wrapped body.
func kidsOf(n *ref.Node, b *bodyKind) []*ref.Node {
	if b.pre == "" {
		return n.Kids
	}
	n = n.Kids[0]
	if n.Kind == "message" && len(n.Kids) == 1 && n.Kids[0].Kind == "oneof" && b.post == "}}" {
		n = n.Kids[0]
	}
	if n.Kind == "service" && len(n.Kids) == 1 && n.Kids[0].Kind == "rpc" && b.post == "}}" {
		return n.Kids[0].Kids[2:]
	}
	return n.Kids
}

// accepted tells what statements mean in their body, or not.
func meant(b *bodyKind, s string, m mode) ([]*ref.Node, bool) {
	p, err := parse(b.pre+s+b.post, m)
	if err != nil {
		return nil, false
	}
	return kidsOf(tree(p), b), true
}

// Sequence: a body is the sequence of what its statements are on their own.
// One of them has an arbitrary character somewhere.
func Sequence() {
	b := &bodyKinds[sym.Param("body", 0)]
	m := chooseMode(sym.Param("modes", 1) == 1, false)
	n := sym.Param("n", 2)
	hole := -1
	if sym.Param("hole", 1) == 1 {
		hole = sym.Choice("changed", n)
	}
	text := ""
	var want []*ref.Node
	for i := 0; i < n; i++ {
		s := b.stmts[sym.Choice("stmt", len(b.stmts))]
		if i == hole {
			s = holed(s, 1, 1, true)
			// not what begins or ends another body
			depth := 0
			for k := 0; k < len(s); k++ {
				if s[k] == '}' && depth == 0 && b.post != "" {
					return
				}
				switch s[k] {
				case '{':
					depth++
				case '}':
					depth--
				case '"', '\'', '/':
					if b.post != "" && i == hole {
						depth += 100 // strings and comments may hide a brace
					}
				}
			}
		}
		text += s + "\n"
		kids, ok := meant(b, s+"\n", m)
		if !ok {
			return
		}
		if m.perm && len(kids) > 0 && kids[0].Kind == "empty" && i > 0 {
			// with permission a semicolon may belong to the block before it
			return
		}
		want = append(want, kids...)
	}
	show(b.pre + text + b.post)
	got, ok := meant(b, text, m)
	sym.Assert(ok, "statements that are accepted on their own are accepted one after another")
	sym.Assert(len(got) == len(want), "a body has the statements it is made of")
	for i := range got {
		d := ref.Diff(got[i], want[i], ref.Shape)
		sym.Assert(d == "", "each statement is what it is on its own: "+d)
	}
	sym.Reach("accepted")
}

// Within: several statements with an arbitrary change in one of them, against the reference.
func Within() {
	b := &bodyKinds[sym.Param("body", 0)]
	m := chooseMode(sym.Param("modes", 0) == 1, false)
	n := sym.Param("n", 2)
	hole := sym.Choice("changed", n)
	text := ""
	for i := 0; i < n; i++ {
		s := b.stmts[sym.Choice("stmt", len(b.stmts))]
		if i == hole {
			s = holed(s, sym.Param("del", 1), 1, true)
		}
		text += s
	}
	text = b.pre + text + b.post
	show(text)
	judge(text, m, ref.Shape)
}

// Cut: a file cut off anywhere, also with an arbitrary character at the end.
func Cut() {
	docs := families[sym.Param("family", 0)]
	if sym.Param("big", 0) == 1 {
		docs = []string{bigDoc, manyDoc}
	}
	doc := pickDoc(docs)
	m := chooseMode(sym.Param("modes", 1) == 1, sym.Param("big", 0) == 0)
	if how := sym.Param("how", -1); how >= 0 {
		d, ok := relaid(doc, how)
		if !ok {
			return
		}
		doc = d
	}
	at := offset("at", len(doc)+1)
	if at < len(doc) && doc[at]&0xC0 == 0x80 {
		return // within a character
	}
	text := doc[:at]
	if sym.Param("tail", 0) == 1 {
		text += string([]byte{sym.ByteRange("c", 0, 127)})
	}
	show(text)
	judge(text, m, everything)
}

// Many: a body of very many statements.
func Many() {
	b := &bodyKinds[sym.Param("body", 0)]
	m := mode{perm: true}
	n := sym.Param("n", 40)
	s := b.stmts[sym.Choice("stmt", len(b.stmts))]
	if sym.Param("same", 0) == 1 {
		text := b.pre
		for i := 0; i < n; i++ {
			text += s + "\n"
		}
		text += string([]byte{sym.ByteRange("c", 0, 127)}) + b.post
		show(text)
		judge(text, m, everything)
		return
	}
	other := b.stmts[sym.Choice("other", len(b.stmts))]
	at := offset("at", 4) * n / 4
	text := ""
	for i := 0; i < n; i++ {
		if i == at {
			text += holed(other, 1, 1, true) + "\n"
			continue
		}
		text += s + "\n"
	}
	text = b.pre + text + b.post
	show(text)
	judge(text, m, everything)
}

// Deep: a statement within many others.
func Deep() {
	n := sym.Param("n", 12)
	pre, post := "", ""
	switch sym.Choice("nest", 6) {
	case 0:
		for i := 0; i < n; i++ {
			pre += "message A{"
			post += "}"
		}
	case 1:
		pre, post = "message M{", "}"
		for i := 0; i < n; i++ {
			pre += "repeated group A=1{"
			post += "}"
		}
	case 2:
		pre, post = "option a=", ";message M{}"
		for i := 0; i < n; i++ {
			pre += "{a:"
			post = "}" + post
		}
		pre += "1"
	case 3:
		pre, post = "option a=", ";message M{}"
		for i := 0; i < n; i++ {
			pre += "[{b:"
			post = "}]" + post
		}
		pre += "1"
	case 4:
		pre, post = "message M{int32 a=1[b=", "];}"
		for i := 0; i < n; i++ {
			pre += "{c{d:1 e:"
			post = "}}" + post
		}
		pre += "'x'"
	case 5:
		pre, post = "message M{oneof a{B", " c=1;}}"
		for i := 0; i < n; i++ {
			pre += ".b"
		}
	}
	text := pre
	switch sym.Choice("where", 3) {
	case 0: // in the middle
		text += string([]byte{sym.ByteRange("c", 0, 127)}) + post
	case 1: // somewhere behind
		text += holed(post, 1, 1, true)
	case 2: // cut off
		text += post[:offset("at", len(post))]
	}
	show(text)
	judge(text, mode{perm: true, body: true}, everything)
}
