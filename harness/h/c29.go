package h

import (
	"strconv"

	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

// letterObj is an object with some of the keys a, b, c and arbitrary values.
func letterObj(name string, n int) *node {
	d := &node{k: kObj}
	for i := 0; i < n; i++ {
		var v *node
		switch sym.Choose(name+".val", 8) {
		case 0:
			continue
		case 1:
			v = &node{k: kNull}
		case 2:
			v = &node{k: kBool, b: sym.Bool(name)}
		case 3:
			v = &node{k: kInt, i: sym.Int64In(name, -9, 9)}
		case 4:
			v = str("")
		case 5:
			v = str(sym.Str(name, 1))
		case 6:
			v = arr()
		default:
			v = &node{k: kObj}
		}
		d.add(string([]byte{byte('a' + i)}), v)
	}
	return d
}

func anyKeys(n int) []string {
	var keys []string
	for i := sym.Choose("keys", n+1); i > 0; i-- {
		keys = append(keys, string([]byte{byte('a' + sym.Choose("key", 4))}))
	}
	return keys
}

func (n *node) textOf() string {
	if n.k == kStr {
		return n.s
	}
	return n.build().String()
}

// C29: required fields.
func C29_required() {
	n, k := 2, 2
	if sym.Thorough() {
		n, k = 3, 3
	}
	sym.Bound("required fields", "objects over the keys a, b (and c thorough) with values of every kind or absent, every list of at most 2 (3) names of a..d")
	d := letterObj("d", n)
	keys := anyKeys(k)
	ok := true
	for _, key := range keys {
		v := d.at([]string{key})
		if v == nil || v.k == kNull {
			ok = false
		}
	}
	o := d.build()
	err := jsonutils.CheckRequiredFields(o, keys)
	sym.Assert((err == nil) == ok, "the check succeeds exactly when every field is present and not null")
	sym.Assert(d.same(o), "the check changes nothing")
	if len(keys) > 0 {
		sym.Assert(jsonutils.CheckRequiredFields(jsonutils.NewArray(o), keys) != nil && jsonutils.CheckRequiredFields(jsonutils.NewString("a"), keys) != nil, "only objects have fields")
	}
}

// C29: required fields after parsing.
func C29_required_parsed() {
	sym.Bound("parsed required fields", "one member with a one-byte ASCII letter key and null in any case of letters, or another word")
	words := []string{"null", "Null", "NULL", "none", "None", `"null"`, `""`, "0", "false", "{}", "[]"}
	i := sym.Choose("word", len(words))
	v, err := jsonutils.ParseString(`{"a":` + words[i] + `}`)
	sym.Assert(err == nil, "the text parses")
	err = jsonutils.CheckRequiredFields(v, []string{"a"})
	sym.Assert((err != nil) == (i < 5), "a null field counts as missing")
}

// C29: first non-empty text.
func C29_any_string() {
	n, k := 2, 3
	if sym.Thorough() {
		n, k = 3, 3
	}
	sym.Bound("first text", "objects over the keys a, b (and c thorough) with values of every kind or absent, every list of at most 3 names of a..d")
	d := letterObj("d", n)
	keys := anyKeys(k)
	val, name := "", ""
	for _, key := range keys {
		v := d.at([]string{key})
		if v != nil && v.textOf() != "" {
			val, name = v.textOf(), key
			break
		}
	}
	o := d.build()
	s, key := jsonutils.GetAnyString2(o, keys)
	sym.Assert(s == val && key == name, "the first key with a non-empty text is found")
	sym.Assert(jsonutils.GetAnyString(o, keys) == val, "the first non-empty text is found")
	s, key = jsonutils.GetAnyString2(nil, keys)
	sym.Assert(s == "" && key == "" && jsonutils.GetAnyString(nil, keys) == "", "nothing is found in nothing")
	sym.Assert(jsonutils.GetAnyString(jsonutils.NewInt(3), keys) == "", "nothing is found in a scalar")
}

func sameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// C29: string lists of query values.
func C29_query_list() {
	n := 3
	sym.Bound("query lists", "an array of up to 3 elements of several kinds, a string of up to 2 bytes, an object with any of the members 0..3 and 01, or another kind")
	var v *node
	var want []string
	switch sym.Choose("kind", 5) {
	case 0:
		v = arr()
		for i := sym.Choose("n", n+1); i > 0; i-- {
			e := anyScalar("e", scBasic, 1)
			v.kids = append(v.kids, e)
			want = append(want, e.textOf())
		}
	case 1:
		v = str(sym.StrUpTo("s", 2))
		want = []string{v.s}
	case 2:
		v = &node{k: kObj}
		gap := false
		for i := 0; i < 4; i++ {
			if sym.Choose("member", 2) == 0 {
				gap = true
				continue
			}
			e := str(sym.Str("m", 1))
			v.add(strconv.Itoa(i), e)
			if !gap {
				want = append(want, e.s)
			}
		}
		v.add("01", str("x"))
	case 3:
		v = anyScalar("v", scBasic, 1)
		if v.k == kStr {
			want = []string{v.s}
		}
	default:
		v = nil
	}
	d := &node{k: kObj}
	d.add("other", arr(str("o")))
	if v != nil {
		d.add("k", v)
	}
	got := jsonutils.GetQueryStringArray(d.build(), "k")
	sym.Assert(sameStrs(got, want), "the list has the elements of the query value")
	sym.Assert(len(jsonutils.GetQueryStringArray(nil, "k")) == 0, "nothing is found in nothing")
}

// C29: long lists of object members.
func C29_query_list_long() {
	n := []int{9, 10, 11, 12}[sym.Choose("n", 4)]
	gap, empty := sym.Choose("gap", n+1), sym.Choose("empty", n)
	sym.Bound("long query lists", "objects with the members 0..8 to 0..11, any one of them missing and any one empty")
	d, p := jsonutils.NewDict(), jsonutils.NewDict()
	val := func(i int) string {
		if i == empty {
			return ""
		}
		return "v" + strconv.Itoa(i)
	}
	for i := n - 1; i >= 0; i-- {
		if i != gap {
			d.Set(strconv.Itoa(i), jsonutils.NewString(val(i)))
			p.Set("pre."+strconv.Itoa(i), jsonutils.NewInt(int64(i)))
		}
	}
	got := jsonutils.GetQueryStringArray(dict1("k", d), "k")
	l := jsonutils.GetArrayOfPrefix(p, "pre")
	sym.Assert(len(got) == gap && len(l) == gap, "members are listed until the first gap")
	for i := range got {
		x, err := l[i].Int()
		sym.Assert(got[i] == val(i) && err == nil && x == int64(i), "members are listed in order")
	}
}

// C29: members of a numbered prefix.
func C29_prefix() {
	sym.Bound("prefix", "objects with any of the members p.0..p.3, each a value of several kinds, and neighbours with similar names; prefixes of at most 2 bytes")
	prefix := sym.StrUpTo("prefix", 2)
	d := &node{k: kObj}
	var want []*node
	gap := false
	for i := 0; i < 3; i++ {
		if sym.Choose("member", 2) == 0 {
			gap = true
			continue
		}
		e := anyScalar("e", scBasic, 1)
		d.add(prefix+"."+strconv.Itoa(i), e)
		if e.k == kNull {
			gap = true
		}
		if !gap {
			want = append(want, e)
		}
	}
	d.add(prefix+"0", str("x"))
	d.add(prefix+".03", str("x"))
	d.add(prefix, str("x"))
	o := d.build()
	l := jsonutils.GetArrayOfPrefix(o, prefix)
	sym.Assert(len(l) == len(want), "members are listed until the first gap or null")
	for i, w := range want {
		sym.Assert(w.same(l[i]), "members are listed in order")
	}
	sym.Assert(d.same(o) && len(jsonutils.GetArrayOfPrefix(nil, prefix)) == 0, "the lookup changes nothing")
}

// C29: boolean lookup.
func C29_query_bool() {
	sym.Bound("boolean lookup", "the key absent, or with a boolean, a boolean word in any case as a string, 0 or 1, or any other scalar; both defaults")
	d := jsonutils.NewDict()
	want, exact := false, true
	present := true
	switch sym.Choose("kind", 6) {
	case 0:
		present = false
	case 1:
		want = sym.Bool("b")
		d.Set("k", jsonutils.NewBool(want))
	case 2:
		w := []byte([]string{"true", "yes", "on", "1"}[sym.Choose("word", 4)])
		for i := range w {
			if w[i] >= 'a' && sym.Bool("upper") {
				w[i] -= 32
			}
		}
		want = true
		d.Set("k", jsonutils.NewString(string(w)))
	case 3:
		w := []byte([]string{"false", "no", "off", "0"}[sym.Choose("word", 4)])
		for i := range w {
			if w[i] >= 'a' && sym.Bool("upper") {
				w[i] -= 32
			}
		}
		d.Set("k", jsonutils.NewString(string(w)))
	case 4:
		i := sym.Choose("int", 2)
		want = i == 1
		d.Set("k", jsonutils.NewInt(int64(i)))
	default:
		exact = false
		d.Set("k", anyScalar("v", scBasic, 1).build())
	}
	x, y := jsonutils.QueryBoolean(d, "k", true), jsonutils.QueryBoolean(d, "k", false)
	if !present {
		sym.Assert(x && !y, "the default is returned when the key is absent")
	} else {
		sym.Assert(x == y, "the default is not used when the key is present")
		sym.Assert(!exact || x == want, "a boolean value is returned")
	}
	sym.Assert(jsonutils.QueryBoolean(nil, "k", true) && !jsonutils.QueryBoolean(nil, "k", false), "the default is returned for no query")
}
