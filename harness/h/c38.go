package h

import (
	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

// sameOut compares everything two values show.
func sameOut(a, b jsonutils.JSONObject, how string) {
	sym.Assert(a.Equals(b) && b.Equals(a), "a value is equal however it is made: "+how)
	sym.Assert(a.String() == b.String(), "the compact text is the same however the value is made: "+how)
	sym.Assert(a.PrettyString() == b.PrettyString(), "the pretty text is the same however the value is made: "+how)
	sym.Assert(a.QueryString() == b.QueryString(), "the query string is the same however the value is made: "+how)
	x, ok := a.(*jsonutils.JSONDict)
	y, ok2 := b.(*jsonutils.JSONDict)
	sym.Assert(ok == ok2, "a value is of the same kind however it is made: "+how)
	if !ok {
		return
	}
	k, l := x.SortedKeys(), y.SortedKeys()
	sym.Assert(x.Length() == y.Length() && x.Size() == y.Size() && len(k) == len(l), "the size is the same however the value is made: "+how)
	for i := range k {
		sym.Assert(k[i] == l[i], "the keys are listed in the same order however the value is made: "+how)
	}
}

// order gives a permutation of 0..n-1.
func order(name string, n int) []int {
	var left, p []int
	for i := 0; i < n; i++ {
		left = append(left, i)
	}
	for len(left) > 0 {
		i := sym.Choose(name, len(left))
		p = append(p, left[i])
		left = append(append([]int{}, left[:i]...), left[i+1:]...)
	}
	return p
}

// quoted writes a string with escapes for every byte that is not plain.
func quoted(s string) string {
	sb := "\""
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"' || c == '\\':
			sb += "\\" + string([]byte{c})
		case c < 0x20:
			sb += "\\u00" + string([]byte{"0123456789abcdef"[c>>4], "0123456789abcdef"[c&15]})
		default:
			sb += string([]byte{c})
		}
	}
	return sb + "\""
}

// C38: objects made in different ways.
func C38_objects() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	n = sym.Choose("n", n+1)
	sym.Bound("objects", "objects of at most 3 (4 thorough) members with distinct one-byte keys (one any ASCII character, the others capital letters), filled in every order, in ten ways")
	keys := make([]string, n)
	vals := make([]*node, n)
	for i := range keys {
		if i == 0 {
			keys[i] = sym.ASCII("key", 1)
		} else {
			keys[i] = string([]byte{sym.ByteIn("key", 'A', 'Z')})
		}
		for j := 0; j < i; j++ {
			sym.Assume(keys[i] != keys[j])
		}
		switch i {
		case 0:
			vals[i] = str(sym.From("s", 1, "a\""))
		case 1:
			vals[i] = obj1("k", arr(&node{k: kInt, i: 1}))
		default:
			vals[i] = &node{k: kInt, i: int64(10 * i)}
		}
	}
	a := jsonutils.NewDict()
	for i := range keys {
		a.Set(keys[i], vals[i].build())
	}
	ord := order("order", n)
	b := jsonutils.NewDict()
	how := ""
	switch sym.Choose("how", 10) {
	case 0:
		how = "set in another order"
		for _, i := range ord {
			b.Set(keys[i], vals[i].build())
		}
	case 1:
		how = "inserted at a path"
		for _, i := range ord {
			sym.Assert(b.Add(vals[i].build(), keys[i]) == nil, "a member is added")
		}
	case 2:
		how = "set, replaced and removed"
		for _, i := range ord {
			b.Set(keys[i], jsonutils.NewString("former"))
		}
		b.Set("~~", jsonutils.JSONTrue)
		for _, i := range ord {
			b.Remove(keys[i])
			b.Set(keys[i], vals[i].build())
		}
		b.Remove("~~")
	case 3:
		how = "parsed"
		text := "{ "
		for j, i := range ord {
			if j > 0 {
				text += " ,\n"
			}
			text += quoted(keys[i]) + "\t: " + vals[i].build().String()
		}
		o, err := jsonutils.ParseString(text + "}")
		sym.Assert(err == nil, "the text parses")
		b = o.(*jsonutils.JSONDict)
	case 4:
		how = "parsed with earlier members of the same names"
		text, former := "{", []string{"[null]", "{\"k\":[]}", "3"}[sym.Choose("former", 3)]
		for _, i := range ord {
			text += quoted(keys[i]) + ":" + former + ","
		}
		for j := range ord {
			i := ord[len(ord)-1-j]
			text += quoted(keys[i]) + ":" + vals[i].build().String() + ","
		}
		o, err := jsonutils.ParseString(text + "}")
		sym.Assert(err == nil, "the text parses")
		b = o.(*jsonutils.JSONDict)
	case 5:
		how = "converted from a map"
		sym.MapOrder(true)
		m := map[string]jsonutils.JSONObject{}
		for _, i := range ord {
			m[keys[i]] = vals[i].build()
		}
		b = jsonutils.Marshal(m).(*jsonutils.JSONDict)
		sym.MapOrder(false)
	case 6:
		how = "copied"
		for _, i := range ord {
			b.Set(keys[i], vals[i].build())
		}
		sym.MapOrder(true)
		b = jsonutils.DeepCopy(b).(*jsonutils.JSONDict)
		sym.MapOrder(false)
	case 7:
		how = "merged from single members"
		for _, i := range ord {
			b.Update(dict1(keys[i], vals[i].build()))
		}
	case 8:
		how = "completed with default members"
		for j, i := range ord {
			c := dict1(keys[i], vals[i].build())
			if j%2 == 0 {
				c.Set(keys[ord[0]], vals[ord[0]].build())
			}
			b.UpdateDefault(c)
		}
	case 9:
		how = "split and merged"
		c := jsonutils.NewDict()
		for j, i := range ord {
			if j%2 == 0 {
				b.Set(keys[i], vals[i].build())
			} else {
				c.Set(keys[i], vals[i].build())
			}
		}
		b.Update(c.CopyExcludes("~~").Copy())
	}
	sameOut(a, b, how)
	sameOut(jsonutils.NewArray(a, obj1("k", str("x")).build()), jsonutils.NewArray(b, obj1("k", str("x")).build()), how)
}

type c38a struct {
	B string          `json:"b"`
	A int8            `json:"a"`
	D map[string]int8 `json:"d"`
	C []string        `json:"c,omitempty"`
}

// C38: the order in which the fields of a struct are declared, and whether
// they are embedded, does not show.
func C38_structs() {
	sym.Bound("structs", "one object as two structs of different layout, as maps and as a built object; every map order of two entries")
	s, a, x, y := sym.From("s", 1, "a\""), int8(5), anyInt8("x"), int8(-1)
	var c []string
	if sym.Bool("c") {
		c = []string{s, ""}
	}
	d := map[string]int8{"x": x, "y": y}
	sym.MapOrder(true)
	defer sym.MapOrder(false)
	p := jsonutils.Marshal(&c38a{B: s, A: a, C: c, D: d})
	var q jsonutils.JSONObject
	how := ""
	switch sym.Choose("how", 4) {
	case 0:
		how = "embedded structs"
		q = jsonutils.Marshal(&c38e{C38x{c, C38y{s}}, &C38z{a, d}})
	case 1:
		how = "a map of values"
		m := map[string]interface{}{"a": a, "b": s, "d": d}
		if c != nil {
			m["c"] = c
		}
		q = jsonutils.Marshal(m)
	case 2:
		how = "filled in another struct"
		var r c38e
		sym.Assert(p.Unmarshal(&r) == nil, "a struct is filled")
		q = jsonutils.Marshal(r)
	case 3:
		how = "marshalled again"
		q = jsonutils.Marshal(&c38a{B: s, A: a, C: c, D: map[string]int8{"y": y, "x": x}})
	}
	sameOut(p, q, how)
}

type C38y struct {
	B string `json:"b"`
}

type C38x struct {
	C []string `json:"c,omitempty"`
	C38y
}

type C38z struct {
	A int8            `json:"a"`
	D map[string]int8 `json:"d"`
}

type c38e struct {
	C38x
	*C38z
}

// C38: big objects.
func C38_sized() {
	n := anySize("n", 300)
	sym.Bound("sized", "objects of 16, 17, 33, 65 and 129 (also 257 and 300 thorough) members set backwards, from the middle or alternately from both ends, or parsed or converted in that order; one key and one value arbitrary")
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	how := sym.Choose("order", 3)
	pos := func(j int) int {
		switch how {
		case 0:
			return n - 1 - j
		case 1:
			return (j + n/2) % n
		}
		if j%2 == 0 {
			return j / 2
		}
		return n - 1 - j/2
	}
	hole := sym.From("key", 1, "!0~")
	val := str(sym.From("v", 1, "a\"\n"))
	key := func(i int) string {
		if i == at {
			return "k" + hole
		}
		return "k" + string([]byte{byte('a' + i%26), byte('a' + i/26)})
	}
	value := func(i int) *node {
		if i == at {
			return arr(val)
		}
		return obj1("n", &node{k: kInt, i: int64(i)})
	}
	a, b := jsonutils.NewDict(), jsonutils.NewDict()
	for i := 0; i < n; i++ {
		a.Set(key(i), value(i).build())
	}
	switch sym.Choose("how", 4) {
	case 0:
		for j := 0; j < n; j++ {
			b.Set(key(pos(j)), value(pos(j)).build())
		}
	case 1:
		m := map[string]interface{}{}
		for j := 0; j < n; j++ {
			m[key(pos(j))] = value(pos(j)).build()
		}
		b = jsonutils.Marshal(m).(*jsonutils.JSONDict)
	case 2:
		text := "{"
		for j := 0; j < n; j++ {
			text += quoted(key(pos(j))) + ":" + value(pos(j)).build().String() + ","
		}
		o, err := jsonutils.ParseString(text + "}")
		sym.Assert(err == nil, "the text parses")
		b = o.(*jsonutils.JSONDict)
	case 3:
		// halves merged
		c := jsonutils.NewDict()
		for j := 0; j < n; j++ {
			if j%3 == 0 {
				c.Set(key(pos(j)), value(pos(j)).build())
			} else {
				b.Set(key(pos(j)), value(pos(j)).build())
			}
		}
		b.Update(c)
	}
	sameOut(a, b, "a big object")
}

type c38h struct {
	S string                 `json:"s"`
	I int                    `json:"i"`
	M map[string]interface{} `json:"m"`
}

// c38op makes the object {"m":{k:s},"i":i,"s":s}, or a part of it, and checks
// what it shows.
func c38op(op int, k, s string, i int64, how string) {
	iText := jsonutils.NewInt(i).String()
	m := "{\"" + k + "\":\"" + s + "\"}"
	all := "{\"i\":" + iText + ",\"m\":" + m + ",\"s\":\"" + s + "\"}"
	n := &node{k: kObj, keys: []string{"i", "m", "s"}, kids: []*node{{k: kInt, i: i}, obj1(k, str(s)), str(s)}}
	ok := true
	switch op {
	case 0:
		o, err := jsonutils.ParseString(" " + all)
		ok = err == nil && n.same(o) && o.String() == all
	case 1:
		ok = n.build().String() == all
	case 2:
		o, err := jsonutils.ParseString(n.build().PrettyString())
		ok = err == nil && n.same(o)
	case 3:
		q := "i=" + iText + "&m." + k + "=" + s + "&s=" + s
		o, err := jsonutils.ParseQueryString(q)
		ok = n.build().QueryString() == q && err == nil && n.texts().same(o)
	case 4:
		ok = n.same(jsonutils.Marshal(&c38h{s, int(i), map[string]interface{}{k: s}}))
	case 5:
		var d c38h
		err := n.build().Unmarshal(&d)
		ok = err == nil && d.S == s && d.I == int(i) && len(d.M) == 1
		x, is := d.M[k].(string)
		ok = ok && is && x == s
	case 6:
		d := n.build().(*jsonutils.JSONDict)
		v, err := d.GetString("m", k)
		w, err2 := d.Int("i")
		ok = err == nil && err2 == nil && v == s && w == i && d.Contains("m", k) && !d.Contains(k+"~")
	case 7:
		o, err := jsonutils.ParseYAML(n.build().YAMLString())
		ok = err == nil && n.same(o)
	case 8:
		ok = n.same(jsonutils.DeepCopy(n.build()))
	case 9:
		d := struct{ A, B, C string }{B: k + s}
		err := jsonutils.Update(&d, struct{ B, C string }{s, k})
		ok = err == nil && d.A == "" && d.B == s && d.C == k
	}
	sym.Assert(ok, "a value shows itself, "+how)
}

const nC38ops = 10

// C38: what was done with other values before does not show.
func C38_history() {
	sym.Bound("history", "each of ten operations on an arbitrary value of a fixed shape (key a letter alone, with a letter or in a long name, string any letter, integer -9..9 or 256..266), before and after each of the ten on another value of the shape")
	first, then := sym.Choose("first", nC38ops), sym.Choose("then", nC38ops)
	c := func(name string) string {
		if sym.Bool(name + "upper") {
			return string([]byte{sym.ByteIn(name, 'A', 'Z')})
		}
		return string([]byte{sym.ByteIn(name, 'a', 'z')})
	}
	k, s, i := c("k"), c("s"), int64(-7)
	switch sym.Choose("i", 3) {
	case 0:
		i = sym.Int64In("i", -9, 9)
	case 1:
		i = sym.Int64In("i", 256, 266)
	}
	at := sym.Choose("form", 3)
	form := func(c string) string {
		return [...]string{c, c + "x", "name_of_member_" + c + "_of_object"}[at]
	}
	former := form("K")
	k = form(k)
	c38op(first, former, "y", 7, "the first value")
	c38op(then, k, s, i, "after another value")
	c38op(first, former, "y", 7, "after yet another value")
}
