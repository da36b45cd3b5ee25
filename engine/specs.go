package main

import (
	"strconv"
	"strings"
)

// what each harness leaves arbitrary, and its bound, with its parameters for {name}
var bounds = map[string]string{
	"LexChars":      "texts of {n} arbitrary characters of alphabet {alphabet} (0: all of ASCII), {runes} of them followed by any rune from U+0080 on; any way of reading, and another one after each of the first {turns} tokens",
	"LexWord":       "any word of up to {n} letters, digits and underscores, any character behind it, and one of 4 rests; any way of reading",
	"ScanModes":     "texts of {n} arbitrary characters (word>0: any word of up to {word} letters, digits and underscores, and a character), any of the 32 sets of modes",
	"Compound":      "texts of {n} arbitrary characters of alphabet {alphabet} (0: all of ASCII), or of {n} arbitrary words (slots={slots}); every compound reader, then two tokens read in any of 3 ways",
	"Single":        "36 statements of 16 kinds, {del} characters anywhere replaced by any {n}, or any token replaced or preceded by any of 61 words (how={how}); 7 continuations; strict and permissive (modes={modes})",
	"CommentViews":  "comments of both kinds of {n} arbitrary characters (wide=0: of 40 that matter), each preceded by any rune from U+0080 on (runes={runes})",
	"Versions":      "syntax statements with any {n} characters inserted anywhere",
	"Setters":       "an element of any kind with any of its comments present",
	"Printed":       "file names of up to 2 arbitrary characters, lines and columns below 120",
	"LexHole":       "{del} characters of a lexical sample text, at any place, replaced by any {n} ASCII characters, or by any rune from U+0080 on (rune={rune}); any way of reading, and another one after each of the first {turns} tokens",
	"LexLong":       "texts with a token, a gap or a sequence of tokens of any of 23 forms, repeated as often as sizes {from} to {to} of a list of powers of two and their neighbours say ({hole}: with an arbitrary character in 5 places), in every way of reading",
	"LexOps":        "texts of {n} arbitrary characters or words (slots=4: words and gaps of {sizes} lengths from 33 to 4097), and {ops} arbitrary operations (reading in any way, peeking 1 to 3 tokens, consuming conditionally, putting back)",
	"Hole":          "{del} characters at any place of any file of family {family} replaced by any {n} ASCII characters; strict and permissive (modes={modes})",
	"Retoken":       "any token of any file of family {family} replaced, or preceded, by any of 61 words; strict and permissive (modes={modes})",
	"Word":          "any word of any file of family {family} replaced by any word of up to {n} letters, digits and underscores; strict and permissive (modes={modes})",
	"Slots":         "any sequence of {n} words of the vocabulary of context {context}",
	"Bytes":         "any {n} bytes, valid UTF-8 or not, as the file or in context {context}; all four option settings",
	"ByteHole":      "{del} characters at any place of any file of family {family} replaced by any {n} bytes",
	"Total":         "the texts of Retoken (how=0) or Slots (1), or files of family {family} cut off anywhere and ended by any of 22 beginnings of something (2; how={how})",
	"Gaps":          "any file of family {family}, its layout changed (how={how}; 0: any of 14 fillers in any gap, 1: in any two, 2: in all, 3: nothing between tokens, 4: a comment with any character, 5: a comment with any rune from U+0080 on)",
	"Remark":        "any file of family {family}, its layout changed (how={how}, as Gaps); comments in bodies or not",
	"Bodies":        "any file of family {family}, its layout changed (how={how}, as Gaps)",
	"Modes":         "the texts of Hole (how=0), Retoken (1) or Slots (2), parsed strictly and permissively",
	"Literals":      "{pieces} adjacent literals of up to {n} arbitrary characters of alphabet {alphabet}, quotes and separators arbitrary, in 6 places",
	"VisitParsed":   "the trees of all sample files; any set of the first {limit} visited elements (how=1) or any single one (how=2) declined",
	"VisitBuilt":    "hand-made trees: an element of any kind with any of its comments present, up to {comments} leading ones, and up to {parts} parts of any kind; any of the first {limit} visits declined",
	"UnorderParsed": "the trees of all sample files",
	"UnorderHole":   "the trees of the files of family {family} with {del} characters at any place replaced by any ASCII character",
	"UnorderBuilt":  "hand-made trees: bodies of {n} statements of any kinds at depth {depth}, with arbitrary names, positions, comments and header",
	"Edited":        "hand-made trees of depth 2 with a statement of any kind inside, used, then changed in one of 6 ways (cut, replaced, extended, reordered, at each depth) and used again",
	"Reuse":         "hand-made trees: bodies of {n} statements of any kinds with any of their comments present",
	"Trouble":       "rejected texts: Hole (how=0), Retoken (1), Slots (2), one token replaced by any character under a changed layout (3), cut off anywhere and ended by any character (4)",
	"Chunks":        "sample texts (text={text}) delivered in pieces of any size (the first {pieces}, or all of one byte), with or without empty reads, the end with or after the last data",
	"Failing":       "sample texts (text={text}) whose reader fails after any number of bytes (near={near}: of the last ones; text=3: around the end of the usual buffer of 4096 bytes), with any of 3 errors, with or after the last data",
	"Again":         "sample texts (text={text}), all four option settings, any of 5 other texts parsed in between",
	"Debug":         "sample texts (text={text}; 4: cut off anywhere), all four option settings, with and without debug output",
	"FileName":      "sample texts (text={text}; 4: cut off anywhere), all four option settings, file names of {chars} arbitrary bytes",
	"FailingTokens": "sample texts (text={text}) whose reader fails after any number of bytes (near={near}: of the last ones; text=3: around the end of the usual buffer of 4096 bytes), read in any way",
	"Options":       "sample texts (text={text}; 2: with any character somewhere), any sequence of up to {n} options with any values, of Parse (low=0) or of the lexer and the parser (1)",
	"Lists":         "three statements of one kind with lists of up to {n} items, with any character between them",
	"Owned":         "files of family {family} with any character somewhere, or another layout (how={how}, as Gaps); parsed twice (two={two})",
	"Places":        "any {n} characters",
	"Sequence":      "any {n} statements of a body of kind {body} one after another, any character of one of them arbitrary (hole={hole})",
	"Within":        "any {n} statements of a body of kind {body} one after another, {del} characters at any place of one of them replaced by any",
	"Cut":           "any file of family {family} (or the large sample files) its layout changed (how={how}, as Gaps; 6: one comment in all gaps) cut off anywhere, ended by any character (tail={tail})",
	"Many":          "bodies of kind {body} of {n} statements, one of which differs and has an arbitrary character (same={same}: none does, and the character is behind them)",
	"Deep":          "statements, values and names nested {n} levels, with an arbitrary character inside or behind, or cut off",
}

var defaults = map[string]string{
	"n": "", "del": "1", "alphabet": "0", "runes": "0", "rune": "0", "modes": "1", "context": "none", "how": "0", "pieces": "1", "slots": "0", "word": "0", "hole": "1", "tail": "0", "turns": "0", "mids": "0", "same": "0", "low": "0", "two": "0",
}

// spec reads "Harness a=1 b=2 !label !label".
func spec(line string) HarnessSpec {
	f := strings.Fields(line)
	s := HarnessSpec{Fn: f[0], Params: map[string]int{}}
	text := bounds[f[0]]
	for _, x := range f[1:] {
		if x[0] == '!' {
			s.Reach = append(s.Reach, strings.ReplaceAll(x[1:], "_", " "))
			continue
		}
		k, v, _ := strings.Cut(x, "=")
		n, err := strconv.Atoi(v)
		if err != nil {
			fatalf("spec %q", line)
		}
		s.Params[k] = n
		text = strings.ReplaceAll(text, "{"+k+"}", v)
	}
	if f[0] == "Cut" || f[0] == "Owned" {
		text = strings.ReplaceAll(text, "{how}", "none")
	}
	if n, ok := s.Params["only"]; ok {
		text += "; only file " + strconv.Itoa(n) + " of the family"
	}
	for k, v := range defaults {
		text = strings.ReplaceAll(text, "{"+k+"}", v)
	}
	if text == "" {
		fatalf("no bound for %s", f[0])
	}
	s.Bound = text
	return s
}

// specsOf lists what is explored for a property. The thorough tier explores all of
// the quick one and then more.
func specsOf(prop, tier string) []HarnessSpec {
	var r []HarnessSpec
	lines := func(s string) {
		for _, l := range strings.Split(s, "\n") {
			if l = strings.TrimSpace(l); l != "" {
				r = append(r, spec(l))
			}
		}
	}
	lines(quick[prop])
	if tier == "thorough" {
		lines(thorough[prop])
	}
	return r
}

var quick = map[string]string{
	"C01": `
		Bytes n=2 !accepted !rejected
		Bytes n=1 context=13 !rejected
		Bytes n=1 context=12 open=1 !rejected
		Bytes n=1 context=0 open=1 !rejected
		ByteHole family=7 modes=0 !accepted !rejected
		ByteHole family=0 modes=0 !accepted !rejected
		Deep n=12 !accepted !rejected
		Total how=0 family=2 !accepted !rejected
		Total how=2 family=2 bodies=1 !accepted !rejected`,
	"C02": `
		LexChars n=4 !end !malformed
		LexChars n=5 alphabet=3 !end !malformed
		LexChars n=5 alphabet=2 !end !malformed
		LexChars n=5 alphabet=4 !end !malformed
		LexHole !end !malformed
		LexHole del=0 rune=1 !end
		LexWord n=12 !end
		ScanModes n=3 !end !malformed
		ScanModes word=9 !end
		LexChars n=3 turns=1 !end !malformed
		LexChars n=4 turns=1 alphabet=2 !end !malformed
		LexLong hole=1 to=8 !end !malformed`,
	"C03": `
		LexChars n=3 runes=1 places=1 !end
		LexChars n=5 alphabet=5 places=1 !end
		LexHole del=0 rune=1 places=1 !end
		Remark family=7 how=0 what=2 !accepted
		Remark family=6 how=0 what=2 !accepted
		Remark family=6 how=2 what=2 !accepted
		Cut big=1 !accepted !rejected
		Remark family=7 how=5 what=2 !accepted
		Places n=4 !done
		LexLong from=8 to=23 steps=100 places=1 !end`,
	"C04": `
		LexOps n=2 alphabet=1 ops=3 few=1 !end !put_back
		LexOps slots=2 n=2 ops=3 few=1 !end !put_back
		LexOps slots=1 n=2 ops=2 !end !put_back
		LexOps slots=3 n=3 ops=2 few=1 mids=1 !end !put_back !comments_between
		LexOps slots=4 n=2 few=1 ops=2 sizes=4 steps=100 !end !put_back`,
	"C05": `
		Hole family=0 !accepted !rejected
		Retoken family=0 modes=0 !accepted !rejected
		Slots context=0 n=5 !accepted !rejected
		Slots context=1 n=5 !rejected
		Slots context=2 n=4 !accepted !rejected
		Slots context=3 n=5 !accepted !rejected
		Slots context=4 n=5 !accepted !rejected
		Slots context=5 n=5 !accepted !rejected
		Word family=0 n=9 !accepted !rejected
		Hole family=9 modes=0 only=0 !accepted !rejected
		Hole family=9 modes=0 only=1 !accepted !rejected
		Hole family=9 modes=0 only=2 !accepted !rejected`,
	"C06": `
		Hole family=1 !accepted !rejected
		Retoken family=1 !accepted !rejected
		Slots context=6 n=5 !accepted !rejected
		Slots context=7 n=6 !accepted !rejected
		Slots context=20 n=5 !accepted !rejected
		Within body=2 !accepted !rejected
		Word family=1 n=9 !accepted !rejected
		Hole family=9 modes=0 only=5 !accepted !rejected`,
	"C07": `
		Hole family=2 !accepted !rejected
		Retoken family=2 !accepted !rejected
		Slots context=8 n=6 !accepted !rejected
		Slots context=9 n=6 !rejected
		Slots context=10 n=6 !accepted !rejected
		Within body=3 !accepted !rejected
		Within body=6 !accepted !rejected
		Word family=2 n=9 !accepted !rejected
		Hole family=9 modes=0 only=6 !accepted !rejected`,
	"C08": `
		Hole family=3 !accepted !rejected
		Retoken family=3 modes=0 !accepted !rejected
		Slots context=11 n=6 !accepted !rejected
		Slots context=12 n=6 !accepted !rejected
		Slots context=13 n=6 !accepted !rejected
		Slots context=14 n=5 !accepted !rejected
		Slots context=4 n=6 !accepted !rejected
		Word family=3 n=9 !accepted !rejected
		Hole family=9 modes=0 only=11 !accepted !rejected`,
	"C09": `
		Hole family=4 !accepted !rejected
		Retoken family=4 !accepted !rejected
		Slots context=15 n=6 !accepted !rejected
		Slots context=16 n=5 !accepted !rejected
		Slots context=17 n=6 !accepted !rejected
		Slots context=18 n=6 !accepted !rejected
		Word family=4 n=9 !accepted !rejected
		Hole family=9 modes=0 only=7 !accepted !rejected`,
	"C10": `
		Hole family=5 !accepted !rejected
		Retoken family=5 modes=0 !accepted !rejected
		Slots context=19 n=4 !accepted !rejected
		Slots context=20 n=5 !accepted !rejected
		Slots context=21 n=6 !accepted !rejected
		Slots context=22 n=5 !rejected
		Slots context=23 n=6 !rejected
		Word family=5 n=9 !accepted !rejected
		Hole family=9 modes=0 only=3 !accepted !rejected
		Hole family=9 modes=0 only=4 !accepted !rejected
		Hole family=9 modes=0 only=12 !accepted !rejected`,
	"C11": `
		Remark family=7 how=0 what=5 !accepted
		Remark family=7 how=2 what=5 !accepted
		Remark family=6 how=0 what=5 !accepted
		Remark family=6 how=2 what=5 !accepted
		Remark family=7 how=4 what=5 !accepted
		Remark family=9 only=8 how=0 what=5 !accepted
		Remark family=9 only=9 how=0 what=5 !accepted
		Remark family=9 only=10 how=0 what=5 !accepted`,
	"C12": `
		Remark family=7 how=0 what=5 !accepted
		Bodies family=7 how=0 !accepted
		Bodies family=6 how=0 !accepted
		Bodies family=7 how=2 !accepted
		Remark family=6 how=0 what=5 !accepted
		Remark family=9 only=8 how=0 what=5 !accepted
		Remark family=9 only=9 how=0 what=5 !accepted
		Remark family=9 only=10 how=0 what=5 !accepted`,
	"C13": `
		Gaps family=6 modes=0 how=0 !accepted
		Gaps family=6 how=2 !accepted
		Gaps family=6 how=3 !accepted
		Gaps family=7 modes=0 how=0 !accepted
		Gaps family=6 modes=0 how=4 !accepted`,
	"C14": `
		Literals n=2 !merged
		Modes family=0 how=0 !accepted !rejected
		Modes family=2 how=0 !accepted !rejected
		Modes family=3 how=0 !accepted !rejected
		Modes family=3 how=1 !accepted !rejected
		Hole family=3 !accepted !rejected
		Slots context=12 n=5 modes=1 !accepted !rejected
		Slots context=11 n=5 modes=1 !accepted !rejected
		Modes family=8 how=0 !accepted !rejected
		Hole family=8 !accepted !rejected`,
	"C15": `
		VisitParsed big=1 how=2 !visited
		VisitParsed how=1 limit=6 !visited
		VisitBuilt comments=1 parts=1 how=1 !visited
		Edited !unordered`,
	"C16": `
		UnorderParsed !unordered
		UnorderHole family=6 !unordered !rejected
		UnorderBuilt nil=1 !nil
		UnorderBuilt depth=0 n=3 !unordered !foreign
		UnorderBuilt depth=1 n=2 !unordered !foreign
		UnorderBuilt depth=2 n=1 !unordered !foreign
		Edited !unordered !foreign`,
	"C17": `
		Trouble how=0 family=7 modes=0 !rejected
		Trouble how=2 context=0 n=4 modes=0 !rejected
		Trouble how=2 context=12 n=5 modes=0 !rejected
		Trouble how=2 context=15 n=5 modes=0 !rejected
		Trouble how=3 family=1 modes=0 !rejected
		Trouble how=4 family=7 modes=0 !rejected
		Trouble how=4 family=0 modes=0 !rejected
		LexChars n=4 alphabet=3 errs=1 !malformed
		LexChars n=3 runes=1 errs=1 !malformed
		LexHole errs=1 !malformed`,
	"C18": `
		Chunks text=0 pieces=1 !accepted
		Chunks text=3 pieces=0 plain=1 !accepted
		Chunks text=1 pieces=0 !accepted
		Failing text=0 !failed
		Failing text=0 family=6 !failed
		Failing text=3 near=8 errors=1 !failed
		FailingTokens text=0 !failed`,
	"C19": `
		Again text=0 !accepted
		Again text=0 family=6 !accepted
		Again text=2 family=4 between=0 !accepted !rejected
		Again text=0 big=1 !accepted
		Reuse n=1 comments=1 !used
		Edited !unordered`,
	"C20": `
		Debug text=0 !accepted
		Debug text=2 family=4 !accepted !rejected
		Debug text=2 family=3 !accepted !rejected
		FileName text=0 chars=0 !accepted
		FileName text=0 chars=3 !accepted
		FileName text=2 family=4 !accepted !rejected
		Debug text=4 family=7 !accepted !rejected
		Debug text=4 family=4 !accepted !rejected
		Debug text=4 big=1 !accepted !rejected
		FileName text=4 family=4 !accepted !rejected`,
	"C21": `
		Sequence body=0 n=2 hole=0 !accepted
		Sequence body=1 n=2 hole=0 !accepted
		Sequence body=2 n=2 !accepted
		Sequence body=3 n=2 modes=0 !accepted
		Sequence body=4 n=2 modes=0 !accepted
		Cut family=6 tail=0 !accepted !rejected
		Cut family=7 tail=0 !accepted !rejected
		Cut family=6 how=6 modes=0 !accepted !rejected
		Cut big=1 !accepted !rejected
		Many body=0 same=1 n=70 !accepted !rejected
		Many body=1 same=1 n=70 !accepted !rejected
		Many body=2 same=1 n=70 !accepted !rejected
		Many body=3 same=1 n=70 !accepted !rejected
		Many body=4 same=1 n=70 !accepted !rejected
		Many body=5 same=1 n=70 !accepted !rejected
		Many body=6 same=1 n=70 !accepted !rejected`,
	"C22": `
		Compound n=3 !read !refused !rest
		Compound n=4 alphabet=2 !read !refused !rest
		Compound n=4 alphabet=5 !read !refused !rest
		Compound n=4 alphabet=3 !read !refused !rest
		Compound slots=1 n=3 !read !refused !rest`,
	"C23": `
		Single modes=0 !accepted !refused !rest`,
	"C24": `
		CommentViews n=3 !seen !rejected
		CommentViews n=2 runes=1 !seen !rejected
		CommentViews n=6 wide=0 !seen !rejected
		Versions n=2 !seen !rejected
		Setters !seen !none
		Printed !seen`,
	"C25": `
		Options n=3 family=8 !accepted !rejected
		Options n=3 family=8 low=1 !accepted !rejected
		Options n=2 family=7 !accepted
		Options n=2 family=7 low=1 !accepted`,
	"C26": `
		Owned family=7 how=0 !accepted
		Owned family=7 how=2 !accepted
		Owned family=6 how=2 !accepted !rejected
		Owned family=7 how=4 !accepted !rejected
		Owned family=2 !accepted !rejected
		Owned family=4 !accepted !rejected
		Owned family=9 how=2 two=1 !accepted
		Owned family=9 !accepted !rejected
		Lists n=3 !accepted !rejected`,
}

var thorough = map[string]string{
	"C01": `
		Bytes n=3 !accepted !rejected
		Bytes n=2 context=13 !rejected
		Bytes n=2 context=12 open=1 !rejected
		Bytes n=2 context=2 !rejected
		Bytes n=2 context=10 open=1 !rejected
		ByteHole family=6 modes=0 !accepted !rejected
		ByteHole family=6 modes=0 cut=1 !rejected
		Total how=2 family=6 !accepted !rejected
		Total how=0 family=6 !accepted !rejected
		Deep n=40 !accepted !rejected`,
	"C02": `
		LexChars n=6 alphabet=2 !end !malformed
		LexChars n=6 alphabet=3 !end !malformed
		LexChars n=6 alphabet=4 !end !malformed
		LexChars n=5 alphabet=1 !end !malformed
		LexHole n=2 !end !malformed
		LexHole n=2 del=2 !end !malformed
		LexWord n=20 least=13 !end
		LexChars n=3 turns=2 alphabet=1 !end !malformed
		LexChars n=4 turns=1 alphabet=1 !end !malformed
		LexHole turns=1 !end !malformed
		LexLong hole=1 from=8 to=14 !end !malformed
		LexLong from=24 to=25 forms=15 steps=400 !end`,
	"C03": `
		LexChars n=4 runes=1 places=1 !end
		LexChars n=3 runes=2 places=1 !end
		LexHole places=1 !end
		Places n=5 !done
		Cut family=6 tail=1 !accepted !rejected
		Remark family=7 how=1 what=2 !accepted
		Remark family=6 how=5 what=2 !accepted`,
	"C04": `
		LexOps n=3 alphabet=1 ops=3 few=1 !end !put_back
		LexOps n=3 alphabet=4 ops=3 !end !put_back
		LexOps slots=1 n=3 ops=2 few=1 !end !put_back
		LexOps slots=2 n=2 ops=4 few=1 !end !put_back
		LexOps slots=1 n=2 ops=3 !end !put_back
		LexOps slots=3 n=4 ops=2 few=1 mids=1 !end !put_back !comments_between
		LexOps slots=4 n=2 few=1 ops=2 sizes=6 steps=100 !end !put_back`,
	"C05": `
		Hole family=0 n=2 modes=0 !accepted !rejected
		Hole family=0 n=2 del=2 modes=0 !accepted !rejected
		Retoken family=0 modes=1 !accepted !rejected
		Within body=1 !accepted !rejected
		Within body=4 !accepted !rejected
		Within body=5 !accepted !rejected
		Slots context=0 n=6 !accepted !rejected
		Slots context=2 n=5 !accepted !rejected
		Slots context=3 n=6 !accepted !rejected
		Slots context=5 n=6 !accepted !rejected`,
	"C06": `
		Hole family=1 n=2 modes=0 !accepted !rejected
		Hole family=1 n=2 del=2 modes=0 !accepted !rejected
		Within body=2 n=3 !accepted !rejected
		Slots context=6 n=6 !accepted !rejected
		Slots context=7 n=7 !accepted !rejected
		Many body=2 n=40 !accepted !rejected`,
	"C07": `
		Hole family=2 n=2 modes=0 !accepted !rejected
		Hole family=2 n=2 del=2 modes=0 !accepted !rejected
		Within body=3 n=3 !accepted !rejected
		Within body=6 n=3 !accepted !rejected
		Slots context=8 n=7 !accepted !rejected
		Slots context=9 n=7 !accepted !rejected
		Slots context=10 n=7 !accepted !rejected
		Many body=3 n=40 !accepted !rejected`,
	"C08": `
		Hole family=3 n=2 modes=0 !accepted !rejected
		Hole family=3 n=2 del=2 modes=0 !accepted !rejected
		Retoken family=3 modes=1 !accepted !rejected
		Slots context=11 n=7 !accepted !rejected
		Slots context=12 n=7 !accepted !rejected
		Slots context=13 n=7 !accepted !rejected
		Slots context=14 n=6 !accepted !rejected`,
	"C09": `
		Hole family=4 n=2 modes=0 !accepted !rejected
		Hole family=4 n=2 del=2 modes=0 !accepted !rejected
		Within body=0 !accepted !rejected
		Slots context=15 n=7 !accepted !rejected
		Slots context=16 n=6 !accepted !rejected
		Slots context=17 n=7 !accepted !rejected
		Slots context=18 n=7 !accepted !rejected
		Many body=0 n=40 !accepted !rejected`,
	"C10": `
		Hole family=5 n=2 modes=0 !accepted !rejected
		Hole family=5 n=2 del=2 modes=0 !accepted !rejected
		Retoken family=5 modes=1 !accepted !rejected
		Slots context=19 n=6 !accepted !rejected
		Slots context=20 n=6 !accepted !rejected
		Slots context=21 n=7 !accepted !rejected
		Slots context=22 n=6 !rejected
		Slots context=23 n=7 !rejected`,
	"C11": `
		Remark family=7 how=1 what=5 !accepted
		Remark family=6 how=4 what=5 !accepted
		Remark family=7 how=5 what=5 !accepted
		Remark family=8 how=1 what=5 !accepted`,
	"C12": `
		Remark family=7 how=1 what=5 !accepted
		Bodies family=6 how=2 !accepted
		Bodies family=7 how=1 !accepted
		Bodies family=8 how=1 !accepted`,
	"C13": `
		Gaps family=6 how=0 !accepted
		Gaps family=7 how=2 !accepted
		Gaps family=3 modes=0 how=1 !accepted
		Gaps family=2 modes=0 how=1 !accepted
		Gaps family=6 modes=0 how=5 !accepted`,
	"C14": `
		Literals n=3 !merged
		Modes family=1 how=0 !accepted !rejected
		Modes family=4 how=0 !accepted !rejected
		Modes family=5 how=0 !accepted !rejected
		Modes family=7 how=0 !accepted !rejected
		Modes family=0 how=1 !accepted !rejected
		Modes family=1 how=1 !accepted !rejected
		Modes family=2 how=1 !accepted !rejected
		Modes family=8 how=1 !accepted !rejected
		Retoken family=8 !accepted !rejected`,
	"C15": `
		VisitParsed how=2 !visited
		VisitParsed how=1 limit=9 !visited
		VisitBuilt comments=2 parts=1 how=1 !visited
		VisitBuilt comments=0 parts=2 how=1 !visited`,
	"C16": `
		UnorderHole family=7 !rejected
		UnorderHole family=6 del=2 !unordered !rejected
		UnorderBuilt depth=1 n=3 !unordered !foreign
		UnorderBuilt depth=2 n=2 !unordered !foreign`,
	"C17": `
		Trouble how=0 family=6 !rejected
		Trouble how=1 family=6 modes=0 !rejected
		Trouble how=2 context=0 n=5 modes=0 !rejected
		Trouble how=2 context=8 n=6 modes=0 !rejected
		Trouble how=2 context=21 n=6 modes=0 !rejected
		Trouble how=3 family=5 modes=0 !rejected
		Trouble how=3 family=2 modes=0 !rejected
		Trouble how=4 family=6 modes=0 !rejected`,
	"C18": `
		Chunks text=0 family=6 pieces=1 !accepted
		Chunks text=1 pieces=1 !accepted
		Chunks text=3 pieces=1 plain=1 !accepted
		Failing text=1 !failed
		Failing text=0 big=1 !failed
		FailingTokens text=0 family=6 !failed`,
	"C19": `
		Again text=1 !accepted
		Again text=2 family=3 between=0 !accepted !rejected
		Again text=2 family=5 between=0 !accepted !rejected
		Reuse n=2 comments=1 !used`,
	"C20": `
		Debug text=2 family=7 !accepted !rejected
		Debug text=2 family=0 !accepted !rejected
		FileName text=2 family=7 !accepted !rejected
		FileName text=0 chars=8 !accepted`,
	"C21": `
		Sequence body=0 n=2 modes=0 !accepted
		Sequence body=1 n=2 modes=0 !accepted
		Sequence body=2 n=3 modes=0 !accepted
		Sequence body=3 n=3 hole=0 !accepted
		Cut family=7 tail=1 !accepted !rejected
		Within body=0 !accepted !rejected
		Cut family=0 how=2 modes=0 !accepted !rejected
		Cut family=2 how=2 modes=0 !accepted !rejected`,
	"C22": `
		Compound n=4 !read !refused !rest
		Compound n=5 alphabet=3 !read !refused !rest
		Compound n=5 alphabet=2 !read !refused !rest
		Compound slots=1 n=4 !read !refused !rest`,
	"C23": `
		Single !accepted !refused !rest
		Single how=1 !accepted !refused !rest
		Single del=2 n=1 modes=0 !accepted !refused !rest
		Single n=2 modes=0 !accepted !refused !rest`,
	"C24": `
		CommentViews n=5 !seen !rejected
		CommentViews n=7 wide=0 !seen !rejected
		CommentViews n=3 runes=1 !seen !rejected
		Versions n=3 !seen !rejected`,
	"C25": `
		Options n=4 family=8 !accepted !rejected
		Options n=2 family=6 !accepted !rejected
		Options text=2 n=1 family=8 !accepted !rejected`,
	"C26": `
		Owned family=6 how=0 !accepted !rejected
		Owned family=0 !accepted !rejected
		Owned family=3 !accepted !rejected
		Owned family=5 !accepted !rejected
		Owned family=9 two=1 how=0 !accepted
		Lists n=6 !accepted !rejected
		Owned family=7 how=1 !accepted`,
}
