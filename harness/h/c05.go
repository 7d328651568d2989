package h

import (
	"strconv"

	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

// wsp is arbitrary insignificant whitespace of at most n characters.
func wsp(name string, n int) string {
	return sym.From(name+".ws", sym.Choose(name+".wslen", n+1), " \t\n\r")
}

// anyEscape is an arbitrary escape sequence and the bytes it denotes.
func anyEscape(name string) (text string, val []byte) {
	switch sym.Choose(name+".esc", 4) {
	case 0:
		e := sym.ByteIn(name+".simple", 0, 7)
		return "\\" + string("\"\\/bfnrt"[e]), []byte{"\"\\/\b\f\n\r\t"[e]}
	case 1:
		t, v := anyU(name+".u", 0, 15, 0, 15)
		sym.Assume(v < 0xd800 || v >= 0xe000)
		return t, utf(nil, v)
	case 2:
		// surrogate pair
		t, hi := anyU(name+".hi", 13, 13, 8, 11)
		u, lo := anyU(name+".lo", 13, 13, 12, 15)
		return t + u, utf(nil, 0x10000+(hi-0xd800)<<10+(lo-0xdc00))
	}
	b := sym.Byte(name + ".raw")
	sym.Assume(b >= 0x20 && b != '"' && b != '\\')
	return string([]byte{b}), []byte{b}
}

// shortEscape is an arbitrary raw byte, simple escape or \u escape of a
// character of two hexadecimal digits.
func shortEscape(name string) (text string, val []byte) {
	switch sym.Choose(name+".esc", 3) {
	case 0:
		e := sym.ByteIn(name+".simple", 0, 7)
		return "\\" + string("\"\\/bfnrt"[e]), []byte{"\"\\/\b\f\n\r\t"[e]}
	case 1:
		h, v := sym.HexDigit(name+".short", 0, 15, true)
		return "\\u00" + string([]byte{'3', h}), []byte{0x30 | v}
	}
	b := sym.Byte(name + ".raw")
	sym.Assume(b >= 0x20 && b != '"' && b != '\\')
	return string([]byte{b}), []byte{b}
}

// anyU is an arbitrary \u escape whose first two digits are in the given
// ranges.
func anyU(name string, lo1, hi1, lo2, hi2 byte) (text string, v int) {
	up := sym.Choose(name+".upper", 2) == 1
	up2 := up
	if sym.Thorough() {
		up2 = sym.Choose(name+".upper2", 2) == 1
	}
	d1, v1 := sym.HexDigit(name+"1", lo1, hi1, up)
	d2, v2 := sym.HexDigit(name+"2", lo2, hi2, up2)
	d3, v3 := sym.HexDigit(name+"3", 0, 15, !up2)
	d4, v4 := sym.HexDigit(name+"4", 0, 15, up)
	return string([]byte{'\\', 'u', d1, d2, d3, d4}), int(v1)<<12 | int(v2)<<8 | int(v3)<<4 | int(v4)
}

// anyLiteral is a string literal of at most n characters or escapes.
func anyLiteral(name string, n int) (text, val string) {
	var b []byte
	k := sym.Choose(name+".len", n+1)
	for i := 0; i < k; i++ {
		t, v := "", []byte(nil)
		if i == 0 || sym.Thorough() {
			t, v = anyEscape(name)
		} else {
			t, v = shortEscape(name)
		}
		text += t
		b = append(b, v...)
	}
	return "\"" + text + "\"", string(b)
}

func read(text string, n *node) {
	v, end, err := jsonutils.ParseStream(tight(text), 0)
	sym.Assert(err == nil, "the document parses")
	sym.Assert(n.reads(v), "the document has its standard meaning")
	sym.Assert(end <= len(text), "the end lies within the text")
	for _, c := range []byte(text[end:]) {
		sym.Assert(c == ' ' || c == '\t' || c == '\n' || c == '\r', "the whole document is consumed")
	}
	sym.Observe("value", v.String())
}

// reads compares a parsed value with the model: integers are exact, other
// numbers have the value of the nearest float.
func (n *node) reads(o jsonutils.JSONObject) bool {
	if n.k == kFloat {
		if _, ok := o.(*jsonutils.JSONString); ok {
			return false
		}
	}
	return n.same(o)
}

// C05: string literals.
func C05_string() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	sym.Bound("literals", "string literals of at most 2 (3 thorough) characters, each an arbitrary raw byte, simple escape, \\uXXXX escape or surrogate pair; one less as element, member or key")
	in := sym.Choose("in", 4)
	if in > 0 {
		n--
	}
	t, v := anyLiteral("s", n)
	switch in {
	case 0:
		read(t, str(v))
	case 1:
		read("["+t+","+t+"]", arr(str(v), str(v)))
	case 2:
		read("{"+t+":1}", obj1(v, &node{k: kInt, i: 1}))
	case 3:
		read(`{"a":`+t+"}", obj1("a", str(v)))
	}
}

// C05: longer literals with an escape at any place.
func C05_literal_place() {
	n := 5
	if sym.Thorough() {
		n = 12
	}
	sym.Bound("escape place", "one arbitrary escape at any of 6 (13 thorough) places of a longer literal")
	t, v := anyEscape("s")
	k := sym.Choose("place", n+1)
	a, b := "abcdefghijkl"[:k], "mnopqrstuvwx"[k:n]
	read("\""+a+t+b+"\"", str(a+string(v)+b))
}

// C05: integers.
func C05_int() {
	sym.Bound("integers", "every int64, rendered in decimal, with signs and zeros as the standard allows")
	i := sym.Int64("i")
	t := strconv.FormatInt(i, 10)
	n := &node{k: kInt, i: i}
	switch sym.Choose("in", 5) {
	case 0:
		read(t, n)
	case 1:
		read("["+t+", "+t+"]", arr(n, n))
	case 2:
		read(`{"a":`+t+"}", obj1("a", n))
	case 3:
		sym.Assume(i == 0)
		read("-"+t, n)
	case 4:
		read(" "+t+"\n", n)
	}
}

var numTexts = []struct {
	t string
	f float64
}{
	{"1.5", 1.5}, {"-0.25", -0.25}, {"0.0", 0}, {"1e2", 100}, {"1E2", 100}, {"1e+2", 100}, {"25e-2", 0.25}, {"-1.5E+3", -1500},
	{"9223372036854775808", 9223372036854775808}, {"-9223372036854775809", -9223372036854775809}, {"18446744073709551616", 18446744073709551616},
	{"123456789012345678901234567890", 123456789012345678901234567890}, {"1e308", 1e308}, {"5e-324", 5e-324}, {"1e-400", 0}, {"0.1", 0.1}, {"0.30000000000000004", 0.30000000000000004}, {"1.7976931348623157e308", 1.7976931348623157e308},
	{"0e5", 0}, {"0E-5", 0}, {"100000000000000000000000", 1e23},
}

// C05: other numbers.
func C05_number() {
	sym.Bound("numbers", "a list of 21 fraction, exponent and big forms")
	c := numTexts[sym.Choose("n", len(numTexts))]
	n := &node{k: kFloat, f: c.f}
	switch sym.Choose("in", 4) {
	case 0:
		read(c.t, n)
	case 1:
		read("["+c.t+" ,"+c.t+"]", arr(n, n))
	case 2:
		read(`{"a":`+c.t+"}", obj1("a", n))
	case 3:
		read("\t"+c.t+"\r", n)
	}
}

// C05: decimal fractions.
func C05_fraction() {
	k, l := 2, 2
	if sym.Thorough() {
		k, l = 3, 3
	}
	sym.Bound("fractions", "every decimal fraction of 1..2 integer and 1..2 fractional digits (3, 3 thorough)")
	a := sym.Digs("a", 1+sym.Choose("a.len", k))
	b := sym.Digs("b", 1+sym.Choose("b.len", l))
	sym.Assume(a[0] != '0' || len(a) == 1)
	sign := []string{"", "-"}[sym.Choose("sign", 2)]
	v, err := jsonutils.ParseString("[" + sign + a + "." + b + "]")
	sym.Assert(err == nil, "the document parses")
	e, err := v.GetAt(0)
	sym.Assert(err == nil, "the element is there")
	_, isStr := e.(*jsonutils.JSONString)
	sym.Assert(!isStr, "a number is not read as a string")
	f, err := e.Float()
	sym.Assert(err == nil, "the element is a number")
	w, err := strconv.ParseFloat(sign+a+"."+b, 64)
	sym.Assert(err == nil && f == w, "the number has its value")
}

// anyDoc is an arbitrary document with insignificant whitespace.
func anyDoc(name string, depth int, budget *int, ws int, top bool) (string, *node) {
	shape := 0
	if top {
		shape = 1 + sym.Choose(name+".shape", 2)
	} else if depth > 0 {
		shape = sym.Choose(name+".shape", 3)
	}
	if shape == 0 {
		switch sym.Choose(name+".kind", 5) {
		case 0:
			return "null", &node{k: kNull}
		case 1:
			return "true", &node{k: kBool, b: true}
		case 2:
			return "false", &node{k: kBool}
		case 3:
			d := sym.Digs(name, 1)
			return d, &node{k: kInt, i: int64(d[0] - '0')}
		}
		t, v := litChar(name)
		return t, str(v)
	}
	n := &node{k: kArr}
	text := "["
	if shape == 2 {
		n.k = kObj
		text = "{"
	}
	if *budget == 0 || sym.Choose(name+".more", 2) == 0 {
		text += wsp(name, ws)
	} else {
		for first := true; ; first = false {
			*budget--
			if !first {
				text += ","
			}
			text += wsp(name, ws)
			if shape == 2 {
				t, k := litChar(name + ".key")
				c, m := anyDoc(name, depth-1, budget, ws, false)
				n.add(k, m)
				text += t + wsp(name, ws) + ":" + wsp(name, ws) + c + wsp(name, ws)
			} else {
				c, m := anyDoc(name, depth-1, budget, ws, false)
				n.kids = append(n.kids, m)
				text += c + wsp(name, ws)
			}
			if *budget == 0 || sym.Choose(name+".more", 2) == 0 {
				break
			}
		}
	}
	if shape == 2 {
		return text + "}", n
	}
	return text + "]", n
}

// litChar is a literal of one letter, bracket, separator or escaped quote.
func litChar(name string) (string, string) {
	c := sym.OneOf(name+".char", "ab]}[{,: '\"")
	if c == '"' {
		return `"\""`, `"`
	}
	return "\"" + string([]byte{c}) + "\"", string([]byte{c})
}

// C05: structure and whitespace.
func C05_structure() {
	depth, budget, ws := 1, 1, 1
	switch sym.Choose("set", 3) {
	case 1:
		depth, budget, ws = 2, 2, 0
	case 2:
		depth, budget, ws = 1, 2, 0
		if sym.Thorough() {
			depth, budget, ws = 2, 3, 0
		}
	}
	sym.Bound("structure", "documents of 1 value with up to one whitespace at each place, of 2 values without (3 thorough); strings and keys include brackets, separators and quotes")
	t, n := anyDoc("v", depth, &budget, ws, true)
	read(wsp("lead", ws)+t+wsp("trail", ws), n)
}

// C05: long documents.
func C05_long() {
	k := 1 + sym.Choose("k", 14)
	sym.Bound("long documents", "arrays and objects of up to 14 entries, nested up to 14 deep, with one arbitrary string entry anywhere")
	at := sym.Choose("at", k)
	c, v := litChar("c")
	text, n := "", &node{}
	switch sym.Choose("shape", 3) {
	case 0:
		n.k = kArr
		for i := 0; i < k; i++ {
			if i > 0 {
				text += ", "
			}
			if i == at {
				text += c
				n.kids = append(n.kids, str(v))
			} else {
				text += strconv.Itoa(i * 11)
				n.kids = append(n.kids, &node{k: kInt, i: int64(i * 11)})
			}
		}
		text = "[" + text + "]"
	case 1:
		n.k = kObj
		for i := 0; i < k; i++ {
			if i > 0 {
				text += ",\n"
			}
			// keys in descending order
			key := "k" + string([]byte{byte('z' - i)})
			if i == at {
				n.add(v, &node{k: kInt, i: int64(i)})
				text += c + ":" + strconv.Itoa(i)
			} else {
				n.add(key, str(key))
				text += "\"" + key + "\" : \"" + key + "\""
			}
		}
		text = "{" + text + "}"
	case 2:
		n = str(v)
		text = c
		for i := 0; i < k; i++ {
			if i%2 == at%2 {
				n = arr(n, &node{k: kInt, i: int64(i)})
				text = "[" + text + "," + strconv.Itoa(i) + "]"
			} else {
				n = obj1("x", n)
				text = "{\"x\":" + text + "}"
			}
		}
	}
	read(text, n)
}
