package h

import (
	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

// detached parses text twice, overwriting the buffer in between.
func detached(text string) {
	buf := []byte(text)
	v, end, err := jsonutils.ParseStream(buf, 0)
	sym.Assert(string(buf) == text, "parsing does not modify the text")
	w, end2, err2 := jsonutils.ParseStream(tight(text), 0)
	sym.Assert((err == nil) == (err2 == nil) && (err != nil || end == end2), "parsing is a function of the text")
	if err != nil {
		return
	}
	before := v.String()
	sym.Assert(w.String() == before, "parsing is a function of the text")
	c := sym.Byte("overwrite")
	for i := range buf {
		buf[i] = c + byte(i)
	}
	sym.Assert(v.String() == before, "overwriting the text afterwards changes nothing")
	sym.Observe("text", before)
	// the two results are independent
	switch t := v.(type) {
	case *jsonutils.JSONDict:
		for _, k := range t.SortedKeys() {
			t.Set(k, jsonutils.NewString("changed"))
		}
		t.Set("new", jsonutils.JSONNull)
	case *jsonutils.JSONArray:
		for i := 0; i < t.Length(); i++ {
			t.SetAt(i, jsonutils.NewString("changed"))
		}
		t.Add(jsonutils.JSONNull)
	}
	sym.Assert(w.String() == before, "changing one result does not change the other")
}

// C32: short texts.
func C32_short() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	sym.Bound("short texts", "every text of at most 3 bytes (4 thorough)")
	detached(sym.StrUpTo("text", n))
}

// C32: tokens in containers.
func C32_tokens() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	sym.Bound("tokens", "a quoted or unquoted token of at most 3 bytes (4 thorough) as key, element or member value, the buffer overwritten byte by byte")
	q := []string{"", `"`, "'"}[sym.Choose("quote", 3)]
	tok := q + sym.StrUpTo("tok", n) + q
	switch sym.Choose("place", 3) {
	case 0:
		detached(`[` + tok + `,"tail"]`)
	case 1:
		detached(`{` + tok + `:"v",b:'w'}`)
	default:
		detached(`{"a":` + tok + `,b:[c]}`)
	}
}

// C32: nested changes.
func C32_nested() {
	sym.Bound("nested", "one nested text with arbitrary one-byte strings; a member or element at depth two changed in one result")
	a, b, c := sym.Str("a", 1), sym.Str("b", 1), sym.Str("c", 1)
	text := `{"p":{"q":` + jsonutils.NewString(a).String() + `,"r":null},"l":[[` + jsonutils.NewString(b).String() + `],{"k":` + jsonutils.NewString(c).String() + `}],"t":true,"n":12,"f":1.5}`
	buf := []byte(text)
	v, err := jsonutils.Parse(buf)
	sym.Assert(err == nil, "the text parses")
	w, err := jsonutils.Parse(buf)
	sym.Assert(err == nil, "the text parses")
	for i := range buf {
		buf[i] = ' '
	}
	before := v.String()
	sym.Assert(w.String() == before && v.Equals(w), "parsing is a function of the text")
	switch sym.Choose("change", 4) {
	case 0:
		x, err := v.Get("p")
		sym.Assert(err == nil, "the member is there")
		x.(*jsonutils.JSONDict).Set("q", jsonutils.JSONNull)
	case 1:
		x, err := v.GetAt(0, "l")
		sym.Assert(err == nil, "the element is there")
		x.(*jsonutils.JSONArray).SetAt(0, jsonutils.NewInt(1))
	case 2:
		x, err := v.GetAt(1, "l")
		sym.Assert(err == nil, "the element is there")
		x.(*jsonutils.JSONDict).Remove("k")
	default:
		sym.Assert(v.(*jsonutils.JSONDict).Add(jsonutils.NewInt(9), "p", "z", "zz") == nil, "the path can be filled")
	}
	sym.Assert(v.String() != before, "the change shows in the changed result")
	sym.Assert(w.String() == before && string(buf[:2]) == "  ", "changing one result changes neither the other nor the text")
}

// C32: streams.
func C32_stream() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	sym.Bound("streams", "two documents with an arbitrary key and string of at most 2 bytes (3 thorough) each, the buffer overwritten afterwards")
	d1 := dict1(sym.StrUpTo("k", n), jsonutils.NewString("x"))
	d2 := jsonutils.NewArray(jsonutils.NewString(sym.StrUpTo("s", n)))
	buf := []byte(d1.String() + "\n" + d2.String())
	l, err := jsonutils.ParseJsonStreams(buf)
	sym.Assert(err == nil && len(l) == 2, "both documents are read")
	for i := range buf {
		buf[i] = '"'
	}
	sym.Assert(l[0].String() == d1.String() && l[1].String() == d2.String(), "overwriting the text afterwards changes nothing")
}

// C32: strings of every length.
func C32_long() {
	sym.Bound("long strings", "quoted, single-quoted and unquoted tokens of 0..40 characters (0..70 thorough) as value, key and element, plain or with an escape or an arbitrary byte in the middle")
	n := 41
	if sym.Thorough() {
		n = 71
	}
	l := sym.Choose("len", n)
	b := make([]byte, 0, 80)
	for i := 0; i < l; i++ {
		b = append(b, byte('a'+i%26))
	}
	tok := string(b)
	switch sym.Choose("inside", 3) {
	case 1:
		tok = tok[:l/2] + "\\n" + tok[l/2:]
	case 2:
		tok = tok[:l/2] + sym.Str("b", 1) + tok[l/2:]
	}
	q := []string{"", `"`, "'"}[sym.Choose("quote", 3)]
	tok = q + tok + q
	switch sym.Choose("place", 3) {
	case 0:
		detached(`[` + tok + `,"tail"]`)
	case 1:
		detached(`{` + tok + `:"v",b:'w'}`)
	default:
		detached(`{"a":` + tok + `,b:[c]}`)
	}
}

// C32: numbers, literals and node references.
func C32_literals() {
	texts := []string{"12345678901234", "-1234567.25", "1.25e+30", "true", "false", "null", "None", "trueandmore", `{"___jnid_":1,"abcdefghijkl":<1>}`, "99999999999999999999999", "0.00000000000001"}
	sym.Bound("literals", "11 numbers, words and references as value in four surroundings")
	t := texts[sym.Choose("text", len(texts))]
	switch sym.Choose("place", 4) {
	case 0:
		detached(t)
	case 1:
		detached("[" + t + "," + t + "]")
	case 2:
		detached(`{"a":` + t + `,"b":[` + t + "]}")
	default:
		detached(" " + t + " ")
	}
}
