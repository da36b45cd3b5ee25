package h

import (
	"verifharness/ref"
	"verifharness/sym"
)

var families = [][]string{messageDocs, enumDocs, serviceDocs, optionDocs, fileDocs, rangeDocs, grammarDocs, commentDocs, blockDocs, twinDocs}

func init() {
	All["Hole"] = Hole
	All["Retoken"] = Retoken
	All["Word"] = Word
}

// Hole: a file of the family with arbitrary characters at an arbitrary place.
func Hole() {
	docs := families[sym.Param("family", 0)]
	doc := pickDoc(docs)
	m := chooseMode(sym.Param("modes", 1) == 1, false)
	del, n := sym.Param("del", 1), sym.Param("n", 1)
	if len(doc) < del {
		return
	}
	text := holed(doc, del, n, sym.Param("wide", 1) == 1)
	show(text)
	judge(text, m, sym.Param("what", ref.Shape))
}

// Retoken: a file of the family with an arbitrary word in place of, or before, an arbitrary token.
func Retoken() {
	docs := families[sym.Param("family", 0)]
	doc := pickDoc(docs)
	m := chooseMode(sym.Param("modes", 1) == 1, false)
	text := retoken(doc, sym.Choice("insert", 2) == 1)
	show(text)
	judge(text, m, sym.Param("what", ref.Shape))
}

// anyWord is an arbitrary word of n letters, digits and underscores.
func anyWord(n int) string {
	b := make([]byte, n)
	for i := range b {
		if i == 0 {
			b[i] = sym.Byte("w", nameChars)
			continue
		}
		b[i] = sym.Byte("w", nameChars+"0123456789")
	}
	return string(b)
}

const nameChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"

// Word: a file of the family with any word of 1 to n characters in place of an arbitrary word.
func Word() {
	docs := families[sym.Param("family", 0)]
	doc := pickDoc(docs)
	m := chooseMode(sym.Param("modes", 1) == 1, false)
	toks, seps := cut(doc)
	var at []int
	for i, t := range toks {
		if t[0] >= 'A' && wordy(t[0]) {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return
	}
	k := at[sym.Choice("token", len(at))]
	toks[k] = anyWord(sym.Param("least", 1) + sym.Choice("length", sym.Param("n", 4)-sym.Param("least", 1)+1))
	text := ""
	for i, t := range toks {
		text += seps[i] + t
	}
	text += seps[len(toks)]
	show(text)
	judge(text, m, sym.Param("what", ref.Shape))
}
