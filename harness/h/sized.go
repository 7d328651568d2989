package h

import (
	"strconv"

	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

const sizedBound = "arrays, objects, strings and keys of 16, 17, 33, 65 and 129 (also 257 and 600 thorough) entries or bytes and arrays or objects nested that deep (at most 65), with an arbitrary scalar or byte or a small container at the start, in the middle or at the end"

func anySize(name string, max int) int {
	if hugely {
		return map[int]int{600: 1030, 300: 300, 257: 1030, 129: 300, 33: 65, 65: 100, 17: 33}[max]
	}
	l := []int{16, 17, 33, 65, 129}
	if sym.Thorough() {
		l = append(l, 257, 600)
	}
	for l[len(l)-1] > max {
		l = l[:len(l)-1]
	}
	return l[sym.Choose(name+".size", len(l))]
}

// hole is what stands at the interesting place of a big value.
func hole(name string) *node {
	if hugely {
		return str(sym.ASCII(name, 1))
	}
	switch sym.Choose(name+".hole", 4) {
	case 0:
		return anyScalar(name, scBasic, 1)
	case 1:
		return arr(&node{k: kInt, i: sym.Int64In(name, -9, 9)}, str(""))
	case 2:
		return obj1(sym.StrUpTo(name+".key", 1), &node{k: kNull})
	}
	return &node{k: kArr + sym.Choose(name+".kind", 2)}
}

// bigText is a text of n bytes of which one is arbitrary.
func bigText(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz "[i%27]
	}
	b[[]int{0, n / 2, n - 1}[sym.Choose(name+".at", 3)]] = sym.Byte(name + ".byte")
	return string(b)
}

// big is a value that is large in one dimension.
func big(name string, kinds int) *node { return bigWith(name, kinds, 600, hole) }

func bigWith(name string, kinds, max int, hole func(string) *node) *node {
	switch kind := sym.Choose(name+".big", kinds); kind {
	case 0, 1:
		n := anySize(name, max)
		at := []int{0, n / 2, n - 1}[sym.Choose(name+".at", 3)]
		v := &node{k: kArr + kind}
		for i := 0; i < n; i++ {
			c := &node{k: kInt, i: int64(i)}
			if i == at {
				c = hole(name)
			}
			v.kids = append(v.kids, c)
			if kind == 1 {
				v.keys = append(v.keys, "kK"[i%2:i%2+1]+strconv.Itoa((i*7)%n*1000+i))
			}
		}
		return v
	case 2:
		if max > 65 {
			max = 65
		}
		n := anySize(name, max)
		v := hole(name)
		obj := sym.Choose(name+".obj", 3)
		for i := 0; i < n; i++ {
			if obj == 1 || obj == 2 && i%2 == 0 {
				v = obj1("k", v)
			} else {
				v = arr(v)
			}
		}
		return v
	case 3:
		return arr(str(bigText(name, anySize(name, 600))))
	}
	return obj1(bigText(name, anySize(name, 600)), hole(name))
}

// C02: big values.
func C02_sized() {
	sym.Bound("sized", sizedBound)
	roundTrip(big("v", 5))
}

// C03: big values.
func C03_sized() {
	sym.Bound("sized", sizedBound)
	prettyTrip(big("v", 5))
}

// C04: big values.
func C04_sized() {
	sym.Bound("sized", sizedBound)
	n := big("v", 5)
	decodable(n.build(), n)
}

// C06: cut and damaged texts of big values.
func C06_sized() {
	sym.Bound("sized", sizedBound+"; the text cut, or a bracket, colon or comma dropped, near its start, middle or end")
	s := []byte(big("v", 5).build().String())
	at := []int{1, len(s) / 2, len(s) - 2}[sym.Choose("from", 3)]
	if sym.Choose("cut", 2) == 0 {
		rejected(string(s[:at+sym.Choose("more", 2)]), "a proper prefix of a document is rejected")
		return
	}
	// drop the closing brackets of one level
	rejected(string(s[:len(s)-1])+" ", "a document without its closing bracket is rejected")
}

// C08: big values and copies that differ in one place.
func C08_sized() {
	sym.Bound("sized", sizedBound+"; compared with the same value with another scalar there")
	n := big("v", 5)
	a, b := n.build(), n.build()
	sym.Assert(a.Equals(b) && b.Equals(a) && a.Equals(a), "values of the same content are equal")
	// change the innermost place
	p := n
	for len(p.kids) > 0 {
		p = p.kids[len(p.kids)/2]
	}
	if len(n.kids) > 1 && sym.Choose("last", 2) == 1 {
		p = n.kids[len(n.kids)-1]
	}
	was := *p
	*p = *anyScalar("w", scBasic, 1)
	c := n.build()
	same := was.eq(p)
	sym.Assert(a.Equals(c) == same && c.Equals(a) == same, "values are equal exactly if the content is")
}

// C09: copies of big values.
func C09_sized() {
	sym.Bound("sized", sizedBound+"; at most 17 in the quick tier; one arbitrary change to any container afterwards")
	max := 17
	if sym.Thorough() {
		max = 600
	}
	n := bigWith("v", 3, max, func(name string) *node {
		if sym.Choose(name+".hole", 2) == 1 {
			return obj1("k", arr(str("x")))
		}
		return anyScalar(name, scBasic, 1)
	})
	v := n.build()
	independent(n, v, jsonutils.DeepCopy(v), false)
}

// C25: big values as plain data.
func C25_sized() {
	sym.Bound("sized", sizedBound)
	n := big("v", 5)
	plainOK(n, n.build())
}

// C14: big objects.
func C14_sized() {
	n := anySize("a", 600)
	sym.Bound("sized", "objects of 16, 17, 33, 65 and 129 (also 257 and 600 thorough) entries; a third of them on one side only, a third on both sides with other values, one value arbitrary")
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	a, b := &node{k: kObj}, &node{k: kObj}
	put := func(o *node, i int, v *node) {
		o.keys = append(o.keys, "k"+strconv.Itoa(i))
		o.kids = append(o.kids, v)
	}
	first := sym.Choose("first", 3)
	for i := 0; i < n; i++ {
		v, w := &node{k: kInt, i: int64(i)}, &node{k: kInt, i: int64(i)}
		if i == at {
			v = hole("v")
		}
		switch (i + first) % 4 {
		case 0:
			put(a, i, v)
		case 1:
			w.i++
			fallthrough
		case 2:
			put(a, i, v)
			put(b, i, w)
		case 3:
			put(b, i, v)
		}
	}
	diffOK(a, b)
}

// C17: big Go values.
func C17_sized() {
	n := anySize("n", 600)
	sym.Bound("sized", "slices, string-keyed maps and strings of 16, 17, 33, 65 and 129 (also 257 and 600 thorough) entries or bytes, one arbitrary; linked structs that long (at most 65)")
	text := sym.Bool("text")
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	const msg = "a big value comes back the same"
	switch sym.Choose("kind", 5) {
	case 0:
		l := make([]int64, n)
		for i := range l {
			l[i] = int64(i)
		}
		l[at] = sym.Int64In("x", -99, 99)
		var r []int64
		sym.Assert(back(jsonutils.Marshal(l), text, &r) && len(r) == n, msg)
		for i := range l {
			sym.Assert(r[i] == l[i], msg)
		}
	case 1:
		m := map[string]string{}
		for i := 0; i < n; i++ {
			m["kK"[i%2:i%2+1]+strconv.Itoa(i)] = strconv.Itoa(i)
		}
		x := sym.ASCII("x", 1)
		m["k0"] = x
		var r map[string]string
		sym.Assert(back(jsonutils.Marshal(m), text, &r) && len(r) == n, msg)
		for i := 0; i < n; i++ {
			k := "kK"[i%2:i%2+1] + strconv.Itoa(i)
			sym.Assert(r[k] == m[k], msg)
		}
	case 2:
		b := []byte(bigASCII("s", n))
		var r struct{ S string }
		sym.Assert(back(jsonutils.Marshal(struct{ S string }{string(b)}), text, &r) && r.S == string(b), msg)
	case 3:
		if n > 65 {
			n = 65
		}
		var l *c17link
		x := sym.Int64In("x", -9, 9)
		for i := 0; i < n; i++ {
			l = &c17link{N: l, V: int64(i)}
			if i == at {
				l.V = x
			}
		}
		var r *c17link
		sym.Assert(back(jsonutils.Marshal(l), text, &r), msg)
		for i := n - 1; i >= 0; i-- {
			sym.Assert(r != nil && (r.V == int64(i) && i != at || r.V == x && i == at), msg)
			r = r.N
		}
		sym.Assert(r == nil, msg)
	case 4:
		l := make([]c17pair, n)
		for i := range l {
			l[i] = c17pair{strconv.Itoa(i), []bool{true}}
		}
		l[at].A = sym.ASCII("x", 1)
		var r []c17pair
		sym.Assert(back(jsonutils.Marshal(l), text, &r) && len(r) == n, msg)
		for i := range l {
			sym.Assert(r[i].A == l[i].A && len(r[i].B) == 1 && r[i].B[0], msg)
		}
	}
}

type c17link struct {
	N *c17link
	V int64
}

type c17pair struct {
	A string
	B []bool
}

func bigASCII(name string, n int) string {
	b := []byte(bigText(name, n))
	for i := range b {
		sym.Assume(b[i] < 0x80)
	}
	return string(b)
}

// C22: big query values.
func C22_sized() {
	sym.Bound("sized", "arrays of 16, 17, 33, 65 and 129 strings, strings and keys of that many bytes, one byte arbitrary; objects nested 16 and 17 deep, arrays of objects")
	switch sym.Choose("kind", 5) {
	case 0:
		n := anySize("n", 129)
		at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
		a := arr()
		for i := 0; i < n; i++ {
			s := "v" + strconv.Itoa(i)
			if i == at {
				s = sym.Str("s", 1)
			}
			a.kids = append(a.kids, str(s))
		}
		queryTrip(obj1("list", a))
	case 1:
		queryTrip(obj1("k", str(bigText("s", anySize("n", 129)))))
	case 2:
		b := bigText("k", anySize("n", 129))
		for i := 0; i < len(b); i++ {
			sym.Assume(b[i] != '.')
		}
		queryTrip(obj1(b, str("v")))
	case 3:
		v := str(sym.Str("s", 1))
		n := anySize("n", 17)
		array := sym.Choose("array", 2) == 1
		for i := 0; i < n; i++ {
			if array && i%2 == 0 {
				v = arr(v)
			} else {
				v = obj1("k"+strconv.Itoa(i), v)
			}
		}
		queryTrip(obj1("k", v))
	case 4:
		n := anySize("n", 33)
		a := arr()
		for i := 0; i < n; i++ {
			a.kids = append(a.kids, obj1("k", str("v"+strconv.Itoa(i))))
		}
		o := obj1("list", a)
		o.add("x", str(sym.Str("s", 1)))
		queryTrip(o)
	}
}

// C10, C11, C15: big objects and arrays under single changes.
func C10_sized() {
	n := anySize("n", 600)
	sym.Bound("sized", "objects of 16, 17, 33, 65 and 129 (also 257 and 600 thorough) entries, one key replaced, added or removed")
	d, m := jsonutils.NewDict(), &amap{}
	for i := 0; i < n; i++ {
		k := "kK"[i%2:i%2+1] + strconv.Itoa((i*7)%n*1000+i)
		d.Set(k, jsonutils.NewInt(int64(i)))
		m.set(k, int64(i))
	}
	key := sym.StrUpTo("key", 1)
	if sym.Choose("old", 2) == 1 {
		key = m.keys[[]int{0, n / 2, n - 1}[sym.Choose("at", 3)]]
	}
	if sym.Choose("op", 2) == 0 {
		d.Set(key, jsonutils.NewInt(-1))
		m.set(key, -1)
	} else {
		sym.Assert(d.Remove(key) == m.remove(key), "removal reports whether the key was present")
	}
	sym.Assert(m.is(d), "the object holds exactly the entries set and not removed")
	g, err := d.GetMap()
	sym.Assert(err == nil && len(g) == len(m.keys), "the map view shows the entries")
	w, err := jsonutils.ParseString(d.String())
	sym.Assert(err == nil, "the text parses")
	sym.Assert(m.is(w.(*jsonutils.JSONDict)), "the text shows the entries")
}

func C11_sized() {
	n := anySize("n", 600)
	sym.Bound("sized", "objects of 16, 17, 33, 65 and 129 (also 257 and 600 thorough) keys, three of them variants of the request")
	var keys []string
	at := []int{0, n / 2, n - 3}[sym.Choose("at", 3)]
	v := []string{sym.From("a", 2, "mM"), sym.From("b", 2, "mM"), sym.From("c", 2, "mM")}
	for i := 0; i < n; i++ {
		if i >= at && i < at+3 {
			keys = append(keys, v[i-at])
		} else {
			keys = append(keys, "aZm"[i%3:i%3+1]+strconv.Itoa(i))
		}
	}
	sym.Assume(v[0] != v[1] && v[1] != v[2] && v[0] != v[2])
	sizedInsensitive(keys, at, sym.From("probe", 2, "mM"))
}

func sizedInsensitive(keys []string, at int, probe string) {
	d := jsonutils.NewDict()
	exact := -1
	for i, k := range keys {
		d.Set(k, jsonutils.NewInt(int64(i)))
		if i >= at && i < at+3 && k == probe {
			exact = i
		}
	}
	x, err := d.GetIgnoreCases(probe)
	sym.Assert(err == nil, "a variant is found")
	i, _ := x.Int()
	sym.Assert(i >= int64(at) && i < int64(at+3) && (exact < 0 || i == int64(exact)), "a variant is returned, the exact one if there is one")
	sym.Assert(d.Contains(probe) == (exact >= 0), "a case-sensitive lookup ignores other variants")
	sym.Assert(d.RemoveIgnoreCase(probe), "variants are removed")
	sym.Assert(d.Length() == len(keys)-3 && !d.ContainsIgnoreCases(probe), "all variants are removed and nothing else")
	for i, k := range keys {
		if i < at || i >= at+3 {
			x, err := d.Int(k)
			sym.Assert(err == nil && x == int64(i), "the other entries stay")
		}
	}
}

func C12_sized() {
	n := anySize("n", 129)
	sym.Bound("sized", "paths of 16, 17, 33, 65 and 129 steps inserted, read back and read with one step wrong")
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, "k"+strconv.Itoa(i%7))
	}
	d := jsonutils.NewDict()
	x := anyScalar("x", scBasic, 1)
	sym.Assert(d.Add(x.build(), p...) == nil, "inserting at a path creates the objects on the way")
	v, err := d.Get(p...)
	sym.Assert(err == nil && x.same(v) && d.Contains(p...), "the value is readable at the path")
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	q := append([]string{}, p...)
	q[at] = sym.StrUpTo("step", 2)
	_, err = d.Get(q...)
	sym.Assert((err == nil) == (q[at] == p[at]), "a missing step is reported")
	sym.Assert(d.Add(jsonutils.NewInt(1), q...) == nil, "inserting beside creates the objects on the way")
	w, err := d.Int(q...)
	sym.Assert(err == nil && w == 1, "the second value is readable")
	v, err = d.Get(p...)
	sym.Assert(q[at] == p[at] || err == nil && x.same(v), "the first value stays")
}

func C13_sized() {
	n := anySize("n", 600)
	sym.Bound("sized", "objects of 16, 17, 33, 65 and 129 (also 257 and 600 thorough) entries overlapping in a third, merged in either way, then one membership change")
	a, b := jsonutils.NewDict(), jsonutils.NewDict()
	ma, mb := &amap{}, &amap{}
	for i := 0; i < n; i++ {
		k := "k" + strconv.Itoa(i)
		if i%3 < 2 {
			a.Set(k, jsonutils.NewInt(int64(i)))
			ma.keys, ma.vals = append(ma.keys, k), append(ma.vals, int64(i))
		}
		if i%3 > 0 {
			b.Set(k, jsonutils.NewInt(int64(-i)))
			mb.keys, mb.vals = append(mb.keys, k), append(mb.vals, int64(-i))
		}
	}
	update(a, b, ma, mb)
}

func C15_sized() {
	n := 300
	if sym.Bool("small") {
		n = anySize("n", 600)
	}
	sym.Bound("sized", "arrays of 16, 17, 33, 65, 129 and 300 (also 257 and 600 thorough) elements appended one by one, in two halves or at once, with one replaced")
	var l []jsonutils.JSONObject
	var want []*node
	for i := 0; i < n; i++ {
		want = append(want, &node{k: kInt, i: int64(i)})
		l = append(l, want[i].build())
	}
	a := jsonutils.NewArray()
	switch sym.Choose("how", 4) {
	case 0:
		for _, v := range l {
			a.Add(v)
		}
	case 1:
		a.Add(l[:n/2]...)
		a.Add(l[n/2:]...)
	case 2:
		a.Add(l...)
	case 3:
		a = jsonutils.NewArray(l...)
	}
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	x := anyScalar("x", scBasic, 1)
	a.SetAt(at, x.build())
	want[at] = x
	seqIs(a, want)
	l[0] = jsonutils.JSONNull
	sym.Assert(want[0].same(a.Value()[0]), "the list given is not shared")
}
