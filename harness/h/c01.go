package h

import (
	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

// poke renders, inspects and copies a value in every way.
func poke(v jsonutils.JSONObject) string {
	s := v.String()
	p := v.PrettyString()
	q := v.QueryString()
	v.IsZero()
	v.Interface()
	v.Equals(v)
	v.Equals(jsonutils.JSONNull)
	jsonutils.JSONNull.Equals(v)
	c := jsonutils.DeepCopy(v)
	sym.Assert(c != nil, "a copy of a value is a value")
	sym.Assert(c.String() == s, "a copy renders like the original")
	v.Contains("a")
	v.ContainsIgnoreCases("A")
	v.Get("a")
	v.Get("a", "b")
	v.GetIgnoreCases("A")
	v.GetAt(0)
	v.GetAt(-1)
	v.GetAt(0, "a")
	v.Int()
	v.Float()
	v.Bool()
	v.GetString()
	v.GetString("a")
	v.Int("a")
	m, _ := v.GetMap()
	for _, e := range m {
		sym.Assert(e.String() != "", "a member renders")
	}
	a, _ := v.GetArray()
	for _, e := range a {
		e.IsZero()
	}
	switch x := v.(type) {
	case *jsonutils.JSONDict:
		sym.Assert(len(x.SortedKeys()) == x.Length(), "as many keys as entries")
		x.Copy()
	case *jsonutils.JSONArray:
		x.GetStringArray()
		x.Copy()
	}
	return s + "\n" + p + "\n" + q
}

func pokeParse(s string) {
	w, err2 := jsonutils.Parse(tight(s))
	v, err := jsonutils.ParseString(s)
	sym.Assert((err == nil) == (v != nil), "parsing returns either a value or an error")
	sym.Assert((err == nil) == (err2 == nil) && (v == nil) == (w == nil), "a text and its bytes are read alike")
	if err != nil {
		sym.Assert(len(err.Error()) > 0, "the error has a message")
		sym.Reach("rejected")
		return
	}
	sym.Reach("accepted")
	sym.Observe("out", poke(v))
}

// C01: parsing any short text.
func C01_bytes() {
	n := 3
	if sym.Thorough() {
		n = 5
	}
	sym.Bound("input", "every byte string of at most 3 bytes (5 thorough)")
	pokeParse(sym.StrUpTo("s", n))
}

var parseContexts = [][2]string{
	{`{"`, `":1}`}, {`{"a":`, `}`}, {`{"a":`, ``}, {`{`, `:1}`}, {`{"a":1`, `}`}, {`{"a":1,`, `:2}`},
	{`[`, `]`}, {`[1,`, `]`}, {`["a"`, ``}, {`[[`, `]]`}, {`[{`, `}]`}, {`[1`, `2]`},
	{`"\u00`, `"`}, {`"\u`, ``}, {`"\`, `"`}, {`"\x`, `"`}, {`'`, `'`}, {`"\ud83d\u`, `00"`}, {`"\ud83d`, `"`}, {`"\ud83d`, ``}, {`"\ud83d\u`, ``}, {`"\ud83d\u00`, ``}, {`"\u00e9`, ``},
	{`{"___jnid_":`, `}`}, {`[{"___jnid_":1},{"___jnid_":`, `}]`}, {`[{"___jnid_":1},<`, `]`}, {`{"___jnid_":1,"a":<`, `>}`}, {`[<`, `>]`}, {`<`, `>`},
	{`1`, ``}, {`-`, ``}, {`1.`, `e`}, {`nul`, ``}, {`fals`, ` `}, {"\n \t", "\r"}, {`{"a":{"b":[`, `]}}`}, {`[1,2,3,4,5,6,7,8,9,10,11,`, `,13]`},
	{`{"a":1,"b":2,"c":3,"d":4,"e":5,"f":6,"g":7,"h":8,"i":9,"j":10,"`, `":12}`}, {`{"a":null,"A":`, `,"a":[]}`},
}

// C01: parsing a text with arbitrary bytes in the middle of it.
func C01_context() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	sym.Bound("context", "39 surroundings of at most 2 (3 thorough) arbitrary bytes")
	c := parseContexts[sym.Choose("context", len(parseContexts))]
	pokeParse(c[0] + sym.StrUpTo("s", n) + c[1])
}

// C01: node ids and node references.
func C01_nodeid() {
	n := 2
	if sym.Thorough() {
		n = 4
	}
	sym.Bound("node ids", "objects with an arbitrary int node id and references with arbitrary text of at most 2 (4 thorough) bytes")
	id := "1"
	switch sym.Choose("id", 4) {
	case 0:
		id = sym.Digs("id", 1)
	case 1:
		id = "-1"
	case 2:
		id = "9223372036854775807"
	}
	ref := "<" + sym.From("ref", sym.Choose("ref.len", n+1), "0129-+_x <>\"") + ">"
	switch sym.Choose("shape", 4) {
	case 0:
		pokeParse(`{"___jnid_":` + id + `,"a":` + ref + `}`)
	case 1:
		pokeParse(`[` + ref + `,{"___jnid_":` + id + `}]`)
	case 2:
		pokeParse(`[{"___jnid_":` + id + `},{"___jnid_":1}]`)
	case 3:
		pokeParse(ref)
	}
}

// C01: parsing at an offset.
func C01_stream() {
	n := 2
	if sym.Thorough() {
		n = 4
	}
	sym.Bound("offset", "every offset into a text of at most 2+3 (4+3 thorough) bytes, of which 2 (4) are arbitrary")
	s := sym.StrUpTo("s", n)
	switch sym.Choose("around", 4) {
	case 0:
		s = s + "[1]"
	case 1:
		s = "{x:" + s
	case 2:
		s = "[ " + s + "]"
	}
	off := sym.Choose("offset", len(s)+2)
	v, end, err := jsonutils.ParseStream(tight(s), off)
	sym.Assert((err == nil) == (v != nil), "parsing returns either a value or an error")
	if err == nil {
		sym.Assert(end >= off && end <= len(s), "the end offset lies within the text, not before the start")
		sym.Reach("accepted")
		sym.Observe("out", v.String())
	} else {
		sym.Reach("rejected")
	}
}

// C01: parsing a stream of documents.
func C01_streams() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	sym.Bound("streams", "every byte string of at most 3 (4 thorough) bytes, alone or after, between or before documents")
	s := sym.StrUpTo("s", n)
	switch sym.Choose("around", 4) {
	case 0:
		s = "[1]" + s + "{}"
	case 1:
		s = "{a:" + s + "}[1"
	case 2:
		s = "[{" + s
	}
	l, err := jsonutils.ParseJsonStreams(tight(s))
	sym.Assert(err == nil || l == nil, "parsing returns either values or an error")
	out := ""
	for _, v := range l {
		sym.Assert(v != nil, "no value is missing")
		out += v.String() + ";"
	}
	if err == nil {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
	sym.Observe("out", out)
}
