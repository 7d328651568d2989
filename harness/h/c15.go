package h

import (
	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

// seqIs checks every view of a against the list of elements.
func seqIs(a *jsonutils.JSONArray, want []*node) {
	n := len(want)
	sym.Assert(a.Length() == n && a.Size() == n && len(a.Value()) == n, "the length is the number of elements")
	list, err := a.GetArray()
	sym.Assert(err == nil && len(list) == n, "the element list has every element")
	strs := a.GetStringArray()
	strs2, err := jsonutils.GetStringArray(a)
	sym.Assert(err == nil && len(strs) == n && len(strs2) == n, "the string list has every element")
	for i, w := range want {
		e, err := a.GetAt(i)
		sym.Assert(err == nil && w.same(e) && w.same(list[i]), "reading by index follows the operations")
		e, err = a.GetAt(i - n)
		sym.Assert(err == nil && w.same(e), "a negative index counts from the end")
		t := w.s
		if w.k != kStr {
			t = e.String()
		}
		sym.Assert(strs[i] == t && strs2[i] == t, "the string list has the texts of the elements")
	}
	_, err = a.GetAt(n)
	sym.Assert(err != nil, "reading past the end is an error")
	_, err = a.GetAt(-n - 1)
	sym.Assert(err != nil, "reading before the start is an error")
	t, ok := rfcParse(a.String())
	sym.Assert(ok && t.k == kArr && len(t.kids) == n, "the text shows every element")
	for i, w := range want {
		if w.k != kStr { // any bytes; see C04
			sym.Assert(t.kids[i].eq(w), "the text shows the elements in order")
		}
	}
}

func elem(name string, i int) *node {
	switch sym.Choose(name, 4) {
	case 0:
		return &node{k: kInt, i: sym.Int64In(name, -9, 9)}
	case 1:
		return str(sym.Digs(name, 1))
	case 2:
		return &node{k: kNull}
	}
	return arr(&node{k: kInt, i: int64(i)})
}

// C15: operation histories.
func C15_history() {
	k := 3
	if sym.Thorough() {
		k = 4
	}
	sym.Bound("histories", "every history of at most 3 (4 thorough) operations, each appending one or two elements, replacing one, or nothing, on an array made empty, from elements, or by parsing")
	var a *jsonutils.JSONArray
	var want []*node
	switch sym.Choose("origin", 3) {
	case 0:
		a = jsonutils.NewArray()
	case 1:
		x := elem("first", 0)
		a = jsonutils.NewArray(x.build(), jsonutils.NewInt(5))
		want = append(want, x, &node{k: kInt, i: 5})
		k--
	default:
		v, err := jsonutils.ParseString(`["p", 7]`)
		sym.Assert(err == nil, "the text parses")
		a = v.(*jsonutils.JSONArray)
		want = append(want, str("p"), &node{k: kInt, i: 7})
		k--
	}
	for i := sym.Choose("ops", k+1); i > 0; i-- {
		switch sym.Choose("op", 3) {
		case 0:
			x := elem("x", i)
			a.Add(x.build())
			want = append(want, x)
		case 1:
			a.Add(jsonutils.NewInt(int64(i)), jsonutils.NewString("t"))
			want = append(want, &node{k: kInt, i: int64(i)}, str("t"))
		default:
			if len(want) == 0 {
				a.Add()
				continue
			}
			at := sym.Choose("at", len(want))
			x := elem("x", i)
			a.SetAt(at, x.build())
			want[at] = x
		}
	}
	seqIs(a, want)
	sym.Observe("text", a.String())
}

// C15: any index.
func C15_index() {
	n := sym.Choose("n", 5)
	sym.Bound("indices", "arrays of up to 4 elements read at every integer index")
	a := jsonutils.NewArray()
	for i := 0; i < n; i++ {
		a.Add(jsonutils.NewInt(int64(10 + i)))
	}
	d := dict1("k", a)
	i := int(sym.Int64("i"))
	e, err := a.GetAt(i)
	e2, err2 := d.GetAt(i, "k")
	sym.Assert((err == nil) == (i >= -n && i < n) && (err2 == nil) == (err == nil), "an index is valid exactly within the array, counted from either end")
	if err == nil {
		j := i
		if i < 0 {
			j += n
		}
		x, err := e.Int()
		y, err2 := e2.Int()
		sym.Assert(err == nil && err2 == nil && x == int64(10+j) && y == x, "the element at the index is returned")
	}
	_, err = a.GetAt(i, "k")
	sym.Assert(err != nil, "an array has no keys")
}

// C15: handed-out lists are snapshots.
func C15_snapshot() {
	n := 1 + sym.Choose("n", 3)
	sym.Bound("snapshots", "arrays of up to 3 elements; the list, string list, source list or copy changed at every place, the array appended to and replaced at every place")
	src := make([]jsonutils.JSONObject, n, n+2*sym.Choose("spare", 2))
	strsIn := make([]string, n)
	for i := range src {
		strsIn[i] = string(sym.Byte("s"))
		sym.Assume(strsIn[i][0] < 0x80)
		src[i] = jsonutils.NewString(strsIn[i])
	}
	want := func(a []jsonutils.JSONObject, at int, repl string) bool {
		if len(a) != n {
			return false
		}
		for i := range a {
			s, err := a[i].GetString()
			w := strsIn[i]
			if i == at {
				w = repl
			}
			if err != nil || s != w {
				return false
			}
		}
		return true
	}
	arrOf := func(a *jsonutils.JSONArray) []jsonutils.JSONObject {
		l, err := a.GetArray()
		sym.Assert(err == nil, "the list is available")
		return l
	}
	at := sym.Choose("at", n)
	z := jsonutils.NewString("z!")
	switch sym.Choose("what", 6) {
	case 0: // the list used to build
		a := jsonutils.NewArray(src...)
		src[at] = z
		_ = append(src[:n-1], z)
		sym.Assert(want(arrOf(a), -1, ""), "changing the list an array was built from does not change the array")
		b := jsonutils.NewArray(src...)
		b.SetAt(at, jsonutils.JSONNull)
		b.Add(z)
		s, err := src[at].GetString()
		sym.Assert(err == nil && s == "z!", "changing the array does not change the list it was built from")
	case 1: // the list handed out
		a := jsonutils.NewArray(src...)
		l := arrOf(a)
		if sym.Choose("via", 2) == 1 {
			l = a.Value()
		}
		l[at] = z
		_ = append(l[:n-1], z)
		sym.Assert(want(arrOf(a), -1, ""), "changing the handed-out list does not change the array")
		l = arrOf(a)
		a.SetAt(at, z)
		a.Add(z)
		sym.Assert(want(l, -1, ""), "changing the array does not change the handed-out list")
		sym.Assert(a.Length() == n+1, "the array has grown")
	case 2: // string lists
		a := jsonutils.NewStringArray(strsIn)
		keep := strsIn[at]
		strsIn[at] = "q!"
		l := a.GetStringArray()
		strsIn[at] = keep
		sym.Assert(want(arrOf(a), -1, "") && l[at] == keep, "changing the strings an array was built from does not change the array")
		l[at] = "q!"
		sym.Assert(want(arrOf(a), -1, ""), "changing the handed-out strings does not change the array")
		l = a.GetStringArray()
		a.SetAt(at, z)
		sym.Assert(l[at] == keep, "changing the array does not change the handed-out strings")
	case 3: // shallow copy
		a := jsonutils.NewArray(src...)
		b := a.Copy()
		sym.Assert(want(arrOf(b), -1, ""), "a copy has the elements")
		if sym.Choose("side", 2) == 0 {
			a, b = b, a
		}
		b.SetAt(at, z)
		b.Add(z)
		sym.Assert(want(arrOf(a), -1, ""), "changing one of array and copy does not change the other")
		b.SetAt(at, src[at])
		a.Add(jsonutils.JSONNull)
		e, err := b.GetAt(n)
		sym.Assert(err == nil && e == jsonutils.JSONObject(z), "appending to one does not overwrite the other's appended element")
	case 4: // lists obtained through an object
		d := dict1("k", jsonutils.NewArray(src...))
		l, err := d.GetArray("k")
		sym.Assert(err == nil && want(l, -1, ""), "the list is available through the object")
		l[at] = z
		l2, err := jsonutils.GetStringArray(d, "k")
		sym.Assert(err == nil && len(l2) == n && l2[at] == strsIn[at], "changing the handed-out list does not change the array")
	default: // two arrays grown from the same list
		a := jsonutils.NewArray(src...)
		b := jsonutils.NewArray(src...)
		a.Add(z)
		b.Add(jsonutils.JSONNull)
		e, err := a.GetAt(n)
		sym.Assert(err == nil && e == jsonutils.JSONObject(z), "arrays built from one list grow independently")
		sym.Assert(want(arrOf(a)[:n], -1, "") && want(arrOf(b)[:n], -1, ""), "arrays built from one list hold its elements")
	}
}

// C15: larger arrays.
func C15_large() {
	n := []int{8, 9, 17, 40}[sym.Choose("n", 4)]
	if sym.Thorough() {
		n = 8 + sym.Choose("count", 60)
	}
	sym.Bound("large", "arrays of 8, 9, 17, 40 (8..67 thorough) elements appended in groups of one to three, one replaced at an arbitrary index")
	a := jsonutils.NewArray()
	var want []*node
	for len(want) < n {
		var l []jsonutils.JSONObject
		for j := len(want)%3 + 1; j > 0; j-- {
			w := &node{k: kInt, i: int64(len(want))}
			want = append(want, w)
			l = append(l, w.build())
		}
		a.Add(l...)
	}
	at := sym.ConcreteInt(int(sym.Int64In("at", 0, int64(n-1))))
	x := &node{k: kInt, i: sym.Int64In("x", -9, 9)}
	a.SetAt(at, x.build())
	want[at] = x
	seqIs(a, want)
}
