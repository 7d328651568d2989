package h

import (
	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

func rejected(s string, why string) {
	sym.Observe("text", s)
	v, err := jsonutils.Parse(tight(s))
	sym.Assert(err != nil && v == nil, why)
}

// C06: prefixes of the compact text of values.
func C06_prefix() {
	sym.Bound("prefixes", "every proper prefix of the compact text of every array and object with at most 2 values below the top (3 thorough) and one-letter keys, and of the compact or pretty text of those with one value and a key of at most one byte")
	depth, budget, kl, pretty := 2, 2, -1, 0
	switch sym.Choose("set", 3) {
	case 0:
		if sym.Thorough() {
			depth, budget = 3, 3
		}
	case 1:
		budget, kl = 1, 1
	case 2:
		budget, kl, pretty = 1, 1, 1
	}
	v := anyTree("v", depth, &budget, kl, true).build()
	s := v.String()
	if pretty == 1 {
		s = v.PrettyString()
	}
	rejected(s[:sym.Choose("cut", len(s))], "a proper prefix of a document is rejected")
}

// C06: prefixes of quoted strings.
func C06_string_prefix() {
	n := 3
	if sym.Thorough() {
		n = 5
	}
	sym.Bound("string prefixes", "every proper prefix of the text of every string of at most 3 (5 thorough) bytes, alone or in a container")
	s := jsonutils.NewString(sym.StrUpTo("s", n)).String()
	switch sym.Choose("in", 4) {
	case 1:
		s = "[" + s + "]"
	case 2:
		s = `{"k":` + s + "}"
	case 3:
		s = "{" + s + ":[]}"
	}
	rejected(s[:sym.Choose("cut", len(s))], "a proper prefix of a document is rejected")
}

// C06: prefixes of standard documents with whitespace and escapes.
func C06_doc_prefix() {
	docs := []string{
		" [ 1 , \"a\\n\" ,\t{ \"b\" : [ ] } , null ] ", "\n{ \"a\" : { \"b\" : [ true , -1.5e3 ] } , \"c\" : \"\\u00e9\\ud83d\\ude00\" }", `[[[[]]],{"":{"":{}}}]`,
		`"abc\"def\\"`, `{"a":"}","b":"]","c":["{"]}`, `[1,2,3,4,5,6,7,8,9,10,11,12]`, `{'a':'b',c:d}`, `{"___jnid_":1,"a":<1>}`, `[yes,no,none]`,
	}
	sym.Bound("document prefixes", "every proper prefix of 9 hand-written documents, followed by up to one arbitrary whitespace")
	d := docs[sym.Choose("doc", len(docs))]
	end := len(d)
	for d[end-1] == ' ' {
		end--
	}
	rejected(d[:sym.Choose("cut", end)]+wsp("trail", 1), "a proper prefix of a document is rejected")
}

// selfDelimiting elements: quoted strings and containers.
func block(name string) string {
	c := []string{`"a"`, `[]`, `{}`, `[1]`, `{"x":"y"}`, `'q'`}
	return c[sym.Choose(name, len(c))]
}

// C06: wrong or missing separators, colons and brackets.
func C06_separator() {
	n := 1
	if sym.Thorough() {
		n = 2
	}
	sym.Bound("separators", "a separator, colon or closing bracket replaced by at most 1 (2 thorough) arbitrary bytes (whitespace included), between elements and members that are quoted strings, objects and arrays")
	g := sym.StrUpTo("gap", n)
	// no byte of the gap is what belongs there or ends the document early
	not := func(set string) {
		for i := 0; i < len(g); i++ {
			for j := 0; j < len(set); j++ {
				sym.Assume(g[i] != set[j])
			}
		}
	}
	x, y := block("x"), block("y")
	pre, post := "", ""
	switch sym.Choose("outer", 3) {
	case 1:
		pre, post = "[", "]"
	case 2:
		pre, post = `{"o":`, "}"
	}
	switch sym.Choose("place", 6) {
	case 0:
		not(",]")
		rejected(pre+"["+x+g+y+"]"+post, "elements without a comma between them are rejected")
	case 1:
		not(",}")
		rejected(pre+`{"a":`+x+g+`"b":`+y+"}"+post, "members without a comma between them are rejected")
	case 2:
		not(":")
		rejected(pre+`{"a"`+g+x+"}"+post, "a member without its colon is rejected")
	case 3:
		not(",]")
		rejected(pre+"["+x+g+post, "an array without its closing bracket is rejected")
	case 4:
		not(",}")
		rejected(pre+`{"a":`+x+g+post, "an object without its closing bracket is rejected")
	case 5:
		not("\"")
		rejected(pre+`["ab`+g+post, "a string without its closing quote is rejected")
	}
}

// C06: brackets of the wrong kind.
func C06_bracket() {
	depth, budget := 2, 2
	if sym.Thorough() {
		budget = 3
	}
	sym.Bound("brackets", "one closing bracket of the text of a container replaced by the other kind, at most 2 values below the top (3 thorough)")
	s := []byte(anyTree("v", depth, &budget, -1, true).build().String())
	i := sym.Choose("at", len(s))
	// outside strings
	in := false
	for k := 0; k < i; k++ {
		if s[k] == '"' {
			in = !in
		} else if in && s[k] == '\\' {
			k++
		}
	}
	sym.Assume(!in)
	switch s[i] {
	case ']':
		s[i] = '}'
	case '}':
		s[i] = ']'
	default:
		sym.Assume(false)
	}
	rejected(string(s), "a document with a mismatched bracket is rejected")
}
