package h

import (
	"verifharness/ref"
	"verifharness/sym"
)

func init() {
	All["Literals"] = Literals
}

// decode is what a string literal denotes; an escape may have fewer digits than allowed.
func decode(lit string) (string, bool) {
	if len(lit) < 2 || lit[0] != lit[len(lit)-1] || lit[0] != '"' && lit[0] != '\'' {
		return "", false
	}
	in := lit[1 : len(lit)-1]
	out := ""
	for i := 0; i < len(in); i++ {
		c := in[i]
		if c == lit[0] {
			return "", false // the literal ends within itself
		}
		if c != '\\' {
			out += string([]byte{c})
			continue
		}
		i++
		if i == len(in) {
			return "", false
		}
		c = in[i]
		switch {
		case '0' <= c && c <= '7':
			v, n := 0, 0
			for n < 3 && i+n < len(in) && '0' <= in[i+n] && in[i+n] <= '7' {
				v = v*8 + int(in[i+n]-'0')
				n++
			}
			out += string([]byte{byte(v)})
			i += n - 1
		case c == 'x' || c == 'X':
			v, n := 0, 0
			for n < 2 && i+1+n < len(in) {
				d := digit(in[i+1+n])
				if d < 0 {
					break
				}
				v = v*16 + d
				n++
			}
			if n == 0 {
				return "", false
			}
			out += string([]byte{byte(v)})
			i += n
		case c == 'u' || c == 'U':
			return "", false // not part of this property
		default:
			// a character of its own, or one marked as escaped
			switch c {
			case '\\', '\'', '"', '?':
				out += string([]byte{c})
			default:
				out += "\\" + string([]byte{c})
			}
		}
	}
	return out, true
}

func digit(c byte) int {
	switch {
	case '0' <= c && c <= '9':
		return int(c - '0')
	case 'a' <= c && c <= 'f':
		return int(c-'a') + 10
	case 'A' <= c && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// where a constant may stand
var constantPlaces = [][2]string{
	{`option a=`, `;`},
	{`message A{int32 a=1[b=`, `];}`},
	{`enum A{B=0[c=`, `];}`},
	{`message A{option b=`, `;}`},
	{`service A{rpc B(C)returns(D){option e=`, `;}}`},
	{`message A{oneof b{int32 c=1[d=`, `];}}`},
}

// Literals: adjacent string literals are recorded as one that denotes their concatenation.
func Literals() {
	place := constantPlaces[sym.Choice("place", len(constantPlaces))]
	alphabet := []string{"\"'\\x17aF9n ", sharp}[sym.Param("alphabet", 0)]
	pieces := sym.Param("pieces", 2)
	n := sym.Param("n", 2)
	val := ""
	quotes := []string{"\"", "'"}
	seps := []string{"", " ", "\n", "/*c*/", "//c\n"}
	sep := seps[sym.Choice("separator", len(seps))]
	for i := 0; i < pieces; i++ {
		q := quotes[sym.Choice("quote", 2)]
		if i > 0 {
			val += sep
		}
		val += q
		for k := sym.Choice("length", n+1); k > 0; k-- {
			val += string([]byte{sym.Byte("c", alphabet)})
		}
		val += q
	}
	// what was written
	want := ""
	for _, t := range ref.Lex(val) {
		if t.Kind == ref.EOF {
			break
		}
		if t.Kind != ref.Str {
			return
		}
		d, ok := decode(t.Text)
		if !ok {
			return
		}
		want += d
	}
	text := place[0] + val + place[1]
	show(text)
	p, err := parse(text, mode{perm: true})
	if err != nil {
		sym.Assert(false, "adjacent literals are accepted")
	}
	got := constantOf(tree(p))
	d, ok := decode(got)
	sym.Assert(ok, "the merged literal is one literal")
	sym.Assert(d == want, "the merged literal denotes the concatenation")
	sym.Reach("merged")
}

// constantOf finds the only constant of a tree.
func constantOf(n *ref.Node) string {
	if n.Kind == "option" || n.Kind == "fieldoption" {
		return n.Attr[1]
	}
	for _, x := range n.Kids {
		if s := constantOf(x); s != "" {
			return s
		}
	}
	return ""
}
