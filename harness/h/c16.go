package h

import (
	"strconv"

	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

// decimal reads an optional sign and decimal digits (few enough not to overflow).
func decimal(s string) (int64, bool) {
	neg := false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if len(s) == 0 {
		return 0, false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
	}
	var u uint64
	for i := 0; i < len(s); i++ {
		u = u*10 + uint64(s[i]-'0')
	}
	if neg {
		return -int64(u), true
	}
	return int64(u), true
}

func lower(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 32
		}
	}
	return string(b)
}

// truth reads a boolean word.
func truth(s string) (val, ok bool) {
	switch lower(s) {
	case "true", "on", "yes", "1":
		return true, true
	case "false", "off", "no", "0":
		return false, true
	}
	return false, false
}

// readable checks every typed read of v, directly and through an object,
// against the expected outcomes.
func readable(n *node, isInt bool, i int64, isBool, b bool) {
	v := n.build()
	d := dict1("k", dict1("l", v))
	check := func(x int64, err error) {
		sym.Assert((err == nil) == isInt, "reading an integer succeeds exactly for integer content")
		sym.Assert(!isInt || x == i, "the integer read is the content")
	}
	x, err := v.Int()
	check(x, err)
	x, err = d.Int("k", "l")
	check(x, err)
	checkB := func(y bool, err error) {
		sym.Assert((err == nil) == isBool, "reading a boolean succeeds exactly for boolean content")
		sym.Assert(!isBool || y == b, "the boolean read is the content")
	}
	y, err := v.Bool()
	checkB(y, err)
	y, err = d.Bool("k", "l")
	checkB(y, err)
	want := n.s
	if n.k != kStr {
		want = v.String()
	}
	s, err := v.GetString()
	sym.Assert(err == nil && s == want, "reading a string gives the string, or the text of the value")
	s, err = d.GetString("k", "l")
	sym.Assert(err == nil && s == want, "reading a string gives the string, or the text of the value")
	if n.k == kFloat || n.k == kInt {
		f := n.f
		if n.k == kInt {
			f = float64(n.i)
		}
		g, err := v.Float()
		sym.Assert(err == nil && g == f, "reading a float from a number gives the number")
		g, err = d.Float("k", "l")
		sym.Assert(err == nil && g == f, "reading a float from a number gives the number")
	}
	if n.k == kNull || n.k == kBool || n.k == kArr || n.k == kObj {
		_, err := v.Float()
		_, err2 := d.Float("k", "l")
		sym.Assert(err != nil && err2 != nil, "only numbers and strings can be read as a float")
	}
	// lists and maps
	l, err := v.GetArray()
	l2, err2 := d.GetArray("k", "l")
	switch n.k {
	case kNull:
		sym.Assert(err != nil && err2 != nil, "null is not a list")
	case kObj:
		sym.Assert(err2 != nil, "an object is not a list")
	case kArr:
		sym.Assert(err == nil && err2 == nil && n.same(jsonutils.NewArray(l...)) && n.same(jsonutils.NewArray(l2...)), "an array is read as its elements")
	default:
		sym.Assert(err == nil && err2 == nil && len(l) == 1 && len(l2) == 1 && l[0] == v && l2[0] == v, "a scalar is read as a list of itself")
	}
	m, err := v.GetMap()
	m2, err2 := d.GetMap("k", "l")
	sym.Assert((err == nil) == (n.k == kObj) && (err2 == nil) == (n.k == kObj), "only an object is read as a map")
	if n.k == kObj {
		sym.Assert(len(m) == len(n.keys) && len(m2) == len(n.keys), "the map has the members")
		for j, k := range n.keys {
			sym.Assert(m[k] != nil && m2[k] != nil && n.kids[j].same(m[k]) && n.kids[j].same(m2[k]), "the map has the members")
		}
	}
	_, err = v.GetAt(0)
	sym.Assert((err == nil) == (n.k == kArr && len(n.kids) > 0), "only arrays have elements")
	_, err = d.GetAt(0, "k", "l")
	sym.Assert((err == nil) == (n.k == kArr && len(n.kids) > 0), "only arrays have elements")
	// wrong paths
	if n.k != kObj {
		bad := func(err error) { sym.Assert(err != nil, "a key below a scalar or array is an error") }
		_, err = v.Int("a")
		bad(err)
		_, err = v.Float("a")
		bad(err)
		_, err = v.Bool("a")
		bad(err)
		_, err = v.GetString("a")
		bad(err)
		_, err = v.GetArray("a")
		bad(err)
		_, err = v.GetMap("a")
		bad(err)
		_, err = v.GetTime("a")
		bad(err)
		_, err = v.GetAt(0, "a")
		bad(err)
		_, err = v.Get("a")
		bad(err)
		_, err = v.GetIgnoreCases("a")
		bad(err)
		_, err = d.Int("k", "l", "a")
		bad(err)
		_, err = d.GetString("k", "l", "a")
		bad(err)
		_, err = d.Bool("k", "l", "a")
		bad(err)
	}
	_, err = d.Int("k", "m")
	sym.Assert(err != nil, "a missing key is an error")
	_, err = d.Float("m", "l")
	sym.Assert(err != nil, "a missing key is an error")
	_, err = d.Bool("m")
	sym.Assert(err != nil, "a missing key is an error")
	_, err = d.GetString("k", "L")
	sym.Assert(err != nil, "a missing key is an error")
	sym.Observe("text", v.String())
}

// C16: scalars that are not strings, and containers.
func C16_nonstring() {
	sym.Bound("non-strings", "null, booleans, every int64, listed floats, small trees")
	switch sym.Choose("kind", 5) {
	case 0:
		readable(&node{k: kNull}, false, 0, false, false)
	case 1:
		b := sym.Bool("b")
		readable(&node{k: kBool, b: b}, false, 0, true, b)
	case 2:
		i := sym.Int64("i")
		readable(&node{k: kInt, i: i}, true, i, false, false)
	case 3:
		readable(&node{k: kFloat, f: someFloats[sym.Choose("f", len(someFloats))]}, false, 0, false, false)
	default:
		budget := 2
		readable(anyTree("v", 1, &budget, -1, true), false, 0, false, false)
	}
}

// C16: short strings of any bytes.
func C16_string() {
	n := 3
	if sym.Thorough() {
		n = 5
	}
	sym.Bound("short strings", "every byte string of at most 3 bytes (5 thorough)")
	s := sym.StrUpTo("s", n)
	i, isInt := decimal(s)
	b, isBool := truth(s)
	v := jsonutils.NewString(s)
	x, err := v.Int()
	sym.Assert((err == nil) == isInt && (!isInt || x == i), "a decimal string is read as its integer, any other string is an error")
	y, err := v.Bool()
	sym.Assert((err == nil) == isBool && (!isBool || y == b), "a boolean word is read as its value, any other string is an error")
	t, err := v.GetString()
	sym.Assert(err == nil && t == s, "a string is read as its bytes")
	l, err := v.GetArray()
	sym.Assert(err == nil && len(l) == 1 && l[0] == jsonutils.JSONObject(v), "a string is read as a list of itself")
}

// C16: boolean words in any case, and near misses.
func C16_words() {
	sym.Bound("words", "true on yes 1 false off no 0 in every combination of cases, each with one byte changed to any ASCII byte, dropped or appended")
	words := []string{"true", "on", "yes", "1", "false", "off", "no", "0"}
	w := []byte(words[sym.Choose("word", len(words))])
	for i := range w {
		if w[i] >= 'a' && sym.Bool("upper") {
			w[i] -= 32
		}
	}
	switch sym.Choose("change", 4) {
	case 1:
		c := sym.Byte("c")
		sym.Assume(c < 0x80)
		w[sym.Choose("at", len(w))] = c
	case 2:
		w = w[:len(w)-1]
	case 3:
		c := sym.Byte("c")
		sym.Assume(c < 0x80)
		w = append(w, c)
	}
	s := string(w)
	b, isBool := truth(s)
	y, err := jsonutils.NewString(s).Bool()
	sym.Assert((err == nil) == isBool && (!isBool || y == b), "a boolean word is read as its value, any other string is an error")
	d := dict1("k", jsonutils.NewString(s))
	y, err = d.Bool("k")
	sym.Assert((err == nil) == isBool && (!isBool || y == b), "a boolean word is read as its value, any other string is an error")
}

// C16: integer strings of any size.
func C16_bigint() {
	sym.Bound("integer strings", "the decimal text of every uint64 with sign +, - or none, leading zeros, and one byte appended")
	u := sym.Uint64("u")
	s := strconv.FormatUint(u, 10)
	zeros := sym.Choose("zeros", 3)
	for i := 0; i < zeros; i++ {
		s = "0" + s
	}
	ok := u < 1<<63
	want := int64(u)
	switch sym.Choose("sign", 3) {
	case 1:
		s = "+" + s
	case 2:
		s = "-" + s
		ok = u <= 1<<63
		want = -int64(u)
	}
	if sym.Choose("tail", 2) == 1 {
		c := sym.Byte("c")
		sym.Assume(c < '0' || c > '9')
		s += string([]byte{c})
		ok = false
	}
	v := dict1("k", jsonutils.NewString(s))
	x, err := v.Int("k")
	sym.Assert((err == nil) == ok && (!ok || x == want), "the integer of a decimal string is read exactly, or reported as out of range")
}

// C16: numeric strings as floats.
func C16_float() {
	sym.Bound("float strings", "texts of the listed floats and of every integer of at most 15 digits")
	f := 0.0
	s := ""
	if sym.Choose("kind", 2) == 0 {
		f = someFloats[sym.Choose("f", len(someFloats))]
		s = strconv.FormatFloat(f, "efg"[sym.Choose("fmt", 3)], -1, 64)
	} else {
		u := uint64(sym.Int64In("u", 0, 999999999999999))
		s = strconv.FormatUint(u, 10)
		f = float64(u)
		if sym.Choose("neg", 2) == 1 {
			s, f = "-"+s, -f
		}
	}
	v := jsonutils.NewString(s)
	x, err := v.Float()
	sym.Assert(err == nil && x == f, "a numeric string is read as its number")
	x, err = dict1("k", v).Float("k")
	sym.Assert(err == nil && x == f, "a numeric string is read as its number")
	for _, bad := range []string{"", "x", "1x", "--1", "1,5", " 1", "1 ", "e5", "."} {
		_, err = jsonutils.NewString(bad).Float()
		sym.Assert(err != nil, "any other string is not a number")
	}
}
