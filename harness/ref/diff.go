package ref

// What Diff compares.
const (
	Shape   = 1 << iota // kinds, attributes, order, nesting
	Places              // positions of elements and comments
	Remarks             // comments
)

// Diff names the first difference between two trees, or is empty.
func Diff(a, b *Node, what int) string {
	if a.Kind != b.Kind {
		return "a " + b.Kind + " read as a " + a.Kind
	}
	if len(a.Attr) != len(b.Attr) {
		return "attributes of a " + b.Kind
	}
	if what&Shape != 0 {
		for i := range a.Attr {
			if a.Attr[i] != b.Attr[i] {
				return "attributes of a " + b.Kind
			}
		}
	}
	if what&Places != 0 {
		if a.Pos != b.Pos {
			return "start of a " + b.Kind
		}
		if a.End != b.End {
			return "end of a " + b.Kind
		}
	}
	if what&Remarks != 0 {
		if d := diffComs(a.Lead, b.Lead, what); d != "" {
			return d + " leading comments of a " + b.Kind
		}
		if d := diffCom(a.Inline, b.Inline, what); d != "" {
			return d + " inline comment of a " + b.Kind
		}
		if d := diffCom(a.Curly, b.Curly, what); d != "" {
			return d + " opening comment of a " + b.Kind
		}
		if d := diffComs(a.Emb, b.Emb, what); d != "" {
			return d + " embedded comments of a " + b.Kind
		}
	}
	if len(a.Kids) != len(b.Kids) {
		return "number of parts of a " + b.Kind
	}
	for i := range a.Kids {
		if d := Diff(a.Kids[i], b.Kids[i], what); d != "" {
			return d
		}
	}
	return ""
}

func diffCom(a, b *Com, what int) string {
	if (a == nil) != (b == nil) {
		return "presence of the"
	}
	if a == nil {
		return ""
	}
	if a.Text != b.Text {
		return "text of the"
	}
	if what&Places != 0 && a.Pos != b.Pos {
		return "start of the"
	}
	if what&Places != 0 && a.End != b.End {
		return "end of the"
	}
	return ""
}

func diffComs(a, b []Com, what int) string {
	if len(a) != len(b) {
		return "number of the"
	}
	for i := range a {
		if d := diffCom(&a[i], &b[i], what); d != "" {
			return d
		}
	}
	return ""
}

// Strip removes the comments from the bodies, and counts them.
func Strip(n *Node) int {
	k := 0
	var kids []*Node
	for _, x := range n.Kids {
		if x.Kind == "comment" {
			k++
			continue
		}
		k += Strip(x)
		kids = append(kids, x)
	}
	n.Kids = kids
	return k
}

// DropSemicolons removes each empty statement that directly follows a block, and
// tells whether there was one. An rpc ends with a block or with a semicolon.
func DropSemicolons(n *Node, text string) bool {
	found := false
	var kids []*Node
	for i, x := range n.Kids {
		if x.Kind == "empty" && i > 0 {
			switch n.Kids[i-1].Kind {
			case "rpc":
				if e := n.Kids[i-1].End.Off; e < len(text) && text[e] == '}' {
					found = true
					continue
				}
			case "message", "enum", "extend", "service", "oneof", "group":
				found = true
				continue
			}
		}
		if DropSemicolons(x, text) {
			found = true
		}
		kids = append(kids, x)
	}
	n.Kids = kids
	return found
}
