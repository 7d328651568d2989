package h

import (
	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

// yamlTrip renders a value as YAML and reads it back.
func yamlTrip(n *node) {
	v := n.build()
	y := v.YAMLString()
	sym.Observe("yaml", y)
	w, err := jsonutils.ParseYAML(y)
	if mergeKey(n) {
		if err != nil || !n.same(w) {
			sym.Known("C30-merge-key")
		}
		return
	}
	sym.Assert(err == nil, "the YAML text of a value can be read")
	sym.Assert(n.same(w), "the YAML text of a value is read as that value")
	sym.Assert(n.same(v), "rendering leaves the value as it is")
}

// mergeKey tells whether some object has the member "<<", which the YAML
// library takes for its merge instruction.
func mergeKey(n *node) bool {
	for i, c := range n.kids {
		if n.k == kObj && n.keys[i] == "<<" || mergeKey(c) {
			return true
		}
	}
	return false
}

// placed puts a string somewhere in a document.
func placed(s string) *node {
	switch sym.Choose("place", 5) {
	case 0:
		return str(s)
	case 1:
		return arr(str(s), str("x"))
	case 2:
		return obj1("k", str(s))
	case 3:
		return obj1("k", arr(obj1("l", str(s))))
	}
	return obj1(s, &node{k: kInt, i: 1})
}

// anyRune is the encoding of an arbitrary character.
func anyRune(name string) string {
	switch sym.Choose(name+".size", 4) {
	case 0:
		return string([]byte{sym.ByteIn(name, 0, 0x7f)})
	case 1:
		return string([]byte{sym.ByteIn(name, 0xc2, 0xdf), sym.ByteIn(name, 0x80, 0xbf)})
	case 2:
		a, b := sym.ByteIn(name, 0xe0, 0xef), sym.ByteIn(name, 0x80, 0xbf)
		sym.Assume((a != 0xe0 || b >= 0xa0) && (a != 0xed || b < 0xa0))
		return string([]byte{a, b, sym.ByteIn(name, 0x80, 0xbf)})
	}
	a, b := sym.ByteIn(name, 0xf0, 0xf4), sym.ByteIn(name, 0x80, 0xbf)
	sym.Assume((a != 0xf0 || b >= 0x90) && (a != 0xf4 || b < 0x90))
	return string([]byte{a, b, sym.ByteIn(name, 0x80, 0xbf), sym.ByteIn(name, 0x80, 0xbf)})
}

// C30: every character.
func C30_rune() {
	sym.Bound("characters", "every Unicode character alone, between letters, first or last; as value, element, member, nested member, key")
	s := anyRune("c")
	switch sym.Choose("around", 4) {
	case 1:
		s = "a" + s + "b"
	case 2:
		s = s + "b"
	case 3:
		s = "a" + s
	}
	yamlTrip(placed(s))
}

// C30: pairs of ASCII characters.
func C30_ascii() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	sym.Bound("short strings", "every ASCII string of at most 2 characters (3 thorough) as value, element, member, nested member, key")
	b := make([]byte, sym.Choose("len", n+1))
	for i := range b {
		b[i] = sym.ByteIn("b", 0, 0x7f)
	}
	yamlTrip(placed(string(b)))
}

// C30: words with a meaning in YAML.
func C30_words() {
	words := []string{"true", "yes", "No", "on", "OFF", "null", "Null", "~", "y", "n", "1", "-1", "+1", "1.5", "1e3", ".5", "0x1f", "0o7", "010", "0b11", "1_000", "2020-01-02", "2020-01-02T03:04:05Z", "2020-01-02 03:04:05", "<<", "=", ".inf", "-.Inf", ".nan", "190:20:30", "---", "...", "--- a", "- a", "? a", "a: b", "a:", ":a", "a #b", "#", "!a", "!!str a", "&a", "*a", "[", "{}", "| a", "|\n a", "> a", "@a", "`a", "%YAML", "'a", `"a"`, "\\n", " a", "a ", "\ta", "\n", "a\n", "\na", "a\n\n", "a\n b", " \n", "a\r\nb"}
	sym.Bound("words", "63 texts with a meaning in YAML, as they are or with one character replaced by, or extended with, any ASCII character (one in three places in quick); as value, element, member, nested member, key")
	w := []byte(words[sym.Choose("word", len(words))])
	switch sym.Choose("change", 3) {
	case 1:
		at := 0
		if sym.Thorough() {
			at = sym.Choose("at", len(w))
		} else {
			at = sym.Choose("at", 2) * (len(w) - 1)
		}
		w[at] = sym.ByteIn("c", 0x09, 0x7f)
	case 2:
		w = append(w, sym.ByteIn("c", 0x09, 0x7f))
	}
	yamlTrip(placed(string(w)))
}

// C30: strings of several lines and strings that need folding.
func C30_lines() {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	sym.Bound("lines", "every string of at most 4 (5 thorough) of the characters newline, space, tab, #, -, colon, a, carriage return, quote; as value, element, member, nested member, key")
	const chars = "\n \t#-:a\r'"
	b := make([]byte, sym.Choose("len", n+1))
	for i := range b {
		b[i] = chars[sym.Choose("c", len(chars))]
	}
	yamlTrip(placed(string(b)))
}

// C30: long strings.
func C30_long() {
	sym.Bound("long strings", "strings of 1..24 words of 1..9 letters separated by one of space, two spaces, newline, tab, comma and newline, no-break space; with an optional arbitrary ASCII character at the end; as value, element, member, nested member, key")
	seps := []string{" ", "  ", "\n", "\t", ",\n", "\u00a0", "\\", "\"", "\u2028"}
	sep := seps[sym.Choose("sep", len(seps))]
	l := []int{1, 4, 9}[sym.Choose("word", 3)]
	n := []int{1, 2, 8, 9, 16, 24}[sym.Choose("words", 6)]
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += sep
		}
		s += "abcdefghi"[:l]
	}
	if sym.Choose("tail", 2) == 1 {
		s += string([]byte{sym.ByteIn("c", 0, 0x7f)})
	}
	yamlTrip(placed(s))
}

// C30: numbers.
func C30_number() {
	sym.Bound("numbers", "every int64, the listed floats, as value, element and member")
	n := &node{k: kInt}
	if sym.Choose("kind", 2) == 0 {
		n.i = sym.Int64("i")
	} else {
		n = &node{k: kFloat, f: someFloats[sym.Choose("f", len(someFloats))]}
	}
	switch sym.Choose("place", 3) {
	case 1:
		n = arr(n, n)
	case 2:
		n = obj1("k", n)
	}
	yamlTrip(n)
}

// C30: trees.
func C30_tree() {
	budget, depth := 3, 3
	if sym.Thorough() {
		budget = 4
	}
	sym.Bound("trees", "arrays and objects nested at most 4 deep with at most 3 values (4 thorough) below the top, of null, booleans, the integer 7 and the string \"s: t\", keys z, y, x")
	yamlTrip(yamlTree("v", depth, &budget, true))
}

func yamlTree(name string, depth int, budget *int, top bool) *node {
	shape := 0
	if top {
		shape = 1 + sym.Choose(name+".shape", 2)
	} else if depth > 0 {
		shape = sym.Choose(name+".shape", 3)
	}
	if shape == 0 {
		switch sym.Choose(name+".kind", 4) {
		case 0:
			return &node{k: kNull}
		case 1:
			return &node{k: kBool, b: sym.Bool(name)}
		case 2:
			return &node{k: kInt, i: 7}
		}
		return str("s: t")
	}
	n := &node{k: kArr}
	if shape == 2 {
		n.k = kObj
	}
	for *budget > 0 && sym.Choose(name+".more", 2) == 1 {
		*budget--
		c := yamlTree(name, depth-1, budget, false)
		if shape == 1 {
			n.kids = append(n.kids, c)
		} else {
			n.add(string([]byte{byte('z' - len(n.keys))}), c)
		}
	}
	return n
}

// C30: deep and wide values.
func C30_large() {
	sym.Bound("large", "nesting of 1..12 arrays, objects or both, 0..20 members or elements, keys of up to 200 bytes")
	var v *node
	switch sym.Choose("dimension", 5) {
	case 0, 1, 2:
		v = &node{k: kInt, i: 1}
		kind := sym.Choose("kind", 3)
		for i := sym.Choose("depth", 12) + 1; i > 0; i-- {
			if kind == 0 || kind == 2 && i%2 == 0 {
				v = arr(v)
			} else {
				v = obj1("a", v)
			}
		}
	case 3:
		v = &node{k: kObj}
		for i := sym.Choose("members", 21); i > 0; i-- {
			v.add(string([]byte{byte('a' + i*7%23), byte('0' + i%10)}), str(string([]byte{byte('0' + i%10)})))
		}
	default:
		k := make([]byte, []int{1, 100, 127, 128, 129, 200}[sym.Choose("key", 6)])
		for i := range k {
			k[i] = byte('a' + i%26)
		}
		v = obj1(string(k), arr(str("x")))
	}
	yamlTrip(v)
}

// C30: any text read as YAML.
func C30_total() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	sym.Bound("any text", "every text of at most 2 bytes (3 thorough), alone, or before, inside or after one of three YAML texts: reading gives a value or an error, and a value that was read can be rendered")
	s := sym.StrUpTo("text", n)
	switch sym.Choose("around", 4) {
	case 1:
		s = "a: b\n" + s
	case 2:
		s = "- a" + s + "\n- b\n"
	case 3:
		s = s + "{a: [b, c]}\n"
	}
	v, err := jsonutils.ParseYAML(s)
	sym.Assert((v == nil) == (err != nil), "reading a text as YAML gives a value or an error")
	if err == nil {
		sym.Observe("json", v.String())
		v.YAMLString()
	}
}
