package h

import (
	"math"

	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

func equalIff(a, b *node) {
	x, y := a.build(), b.build()
	want := a.eq(b)
	sym.Assert(x.Equals(x) && y.Equals(y), "equality is reflexive")
	sym.Assert(x.Equals(y) == want, "values are equal exactly if they have the same content")
	sym.Assert(y.Equals(x) == want, "equality is symmetric")
	if want {
		sym.Reach("equal")
	} else {
		sym.Reach("unequal")
	}
}

// C08: pairs of scalars and small containers of them.
func C08_scalar() {
	n := 3
	if sym.Thorough() {
		n = 5
	}
	sym.Bound("scalar pairs", "every pair of scalars (every int64, listed floats, strings of at most 3 bytes, 5 thorough), bare or inside an array, an object or two containers")
	a, b := anyScalar("a", scFull, n), anyScalar("b", scFull, n)
	switch sym.Choose("in", 4) {
	case 0:
		equalIff(a, b)
	case 1:
		equalIff(arr(str("x"), a), arr(str("x"), b))
	case 2:
		equalIff(obj1("k", a), obj1("k", b))
	case 3:
		equalIff(obj1("k", arr(a, arr())), obj1("k", arr(b, arr())))
	}
}

// C08: every pair of floats.
func C08_float() {
	sym.Bound("floats", "every pair of 64-bit floats, of 32-bit floats, and of one of each")
	x, y := math.Float64frombits(sym.Uint64("x")), math.Float64frombits(sym.Uint64("y"))
	a, b := jsonutils.NewFloat64(x), jsonutils.NewFloat64(y)
	sym.Assert(a.Equals(b) == (x == y), "floats are equal exactly if their values are")
	sym.Assert(jsonutils.NewArray(a).Equals(jsonutils.NewArray(b)) == (x == y), "arrays of floats are equal exactly if their values are")
	z := math.Float32frombits(uint32(sym.Uint64("z")))
	w := math.Float32frombits(uint32(sym.Uint64("w")))
	sym.Assert(jsonutils.NewFloat32(z).Equals(jsonutils.NewFloat32(w)) == (z == w), "32-bit floats are equal exactly if their values are")
	n := jsonutils.NewFloat32(z)
	want := x == float64(z)
	sym.Assert(a.Equals(n) == want && n.Equals(a) == want, "floats of different width are equal exactly if their values are")
	sym.Assert(jsonutils.NewArray(a).Equals(jsonutils.NewArray(n)) == want && jsonutils.NewArray(n).Equals(jsonutils.NewArray(a)) == want, "arrays of floats of different width are equal exactly if their values are")
}

// C08: pairs of trees.
func C08_tree() {
	da, ba, db, bb := 2, 2, 1, 2
	if sym.Thorough() {
		da, ba, db, bb = 2, 3, 2, 2
	}
	sym.Bound("tree pairs", "every pair of containers with at most 2 and 2 values below the top (3 and 2 thorough), one-byte keys and strings")
	equalIff(anyTree("a", da, &ba, 1, true), anyTree("b", db, &bb, 1, true))
}

// C08: triples.
func C08_triple() {
	sym.Bound("triples", "every triple of basic scalars, bare or in an array or object with one-byte keys")
	mk := func(name string) *node {
		n := anyScalar(name, scBasic, 1)
		switch sym.Choose(name+".in", 3) {
		case 1:
			return arr(n)
		case 2:
			return obj1(sym.Str(name+".key", 1), n)
		}
		return n
	}
	a, b, c := mk("a").build(), mk("b").build(), mk("c").build()
	if a.Equals(b) && b.Equals(c) {
		sym.Assert(a.Equals(c), "equality is transitive")
	}
}

// C08: large objects and arrays that differ in one place.
func C08_large() {
	n := 1 + sym.Choose("n", 13)
	at := sym.Choose("at", n)
	sym.Bound("large", "objects and arrays of up to 13 entries, filled in opposite orders, differing at most in one key or entry")
	a, b := &node{k: kArr}, &node{k: kArr}
	object := sym.Choose("object", 2) == 1
	if object {
		a.k, b.k = kObj, kObj
	}
	x, y := anyScalar("x", scBasic, 1), anyScalar("y", scBasic, 1)
	kx, ky := "k", "k"
	if object && sym.Choose("keys", 2) == 1 {
		kx, ky = sym.Str("kx", 1), sym.Str("ky", 1)
	}
	for i := 0; i < n; i++ {
		j := n - 1 - i
		if !object {
			j = i
		}
		put := func(m *node, i int, key string, v *node) {
			if i != at {
				v = arr(&node{k: kInt, i: int64(i)})
				key = "m" + string([]byte{byte('a' + i)})
			}
			if object {
				m.add(key, v)
			} else {
				m.kids = append(m.kids, v)
			}
		}
		put(a, i, kx, x)
		put(b, j, ky, y)
	}
	switch sym.Choose("drop", 3) {
	case 1:
		b.kids = b.kids[1:]
		if object {
			b.keys = b.keys[1:]
		}
	case 2:
		a.kids = a.kids[1:]
		if object {
			a.keys = a.keys[1:]
		}
	}
	equalIff(a, b)
}

// C08: values with references to nodes.
func C08_references() {
	sym.Bound("references", "every pair of texts with a node and one or two references in 6 shapes, one-digit ids and values")
	shapes := []string{`{"___jnid_":#,"v":@,"p":<#>}`, `{"v":@,"p":[<#>,<#>]}`, `{"___jnid_":#,"l":[@,{"p":<#>}]}`, `{"p":<#>,"q":{"___jnid_":#,"v":@}}`, `[<#>,@]`, `[null,@]`}
	mk := func(name string) (int, string, string, jsonutils.JSONObject) {
		shape := sym.Choose(name, len(shapes))
		id, v := sym.Str(name+".id", 1), sym.Digs(name+".v", 1)
		sym.Assume(id[0] >= '1' && id[0] <= '9')
		text := ""
		for i := range shapes[shape] {
			switch c := shapes[shape][i]; c {
			case '#':
				text += id
			case '@':
				text += v
			default:
				text += string([]byte{c})
			}
		}
		o, err := jsonutils.ParseString(text)
		sym.Assert(err == nil, "a text with node references can be parsed")
		return shape, id, v, o
	}
	s1, id1, v1, a := mk("a")
	s2, id2, v2, b := mk("b")
	sym.Assert(a.Equals(a) && b.Equals(b), "equality is reflexive")
	e := a.Equals(b)
	sym.Assert(b.Equals(a) == e, "equality is symmetric")
	if s1 == s2 && v1 == v2 && (id1 == id2 || s1 == 5) {
		sym.Assert(e, "values are equal exactly if they have the same content")
	}
	if s1 != s2 || v1 != v2 {
		sym.Assert(!e, "values are equal exactly if they have the same content")
	}
}

type c08node struct {
	V    int8               `json:"v"`
	Self *c08node           `json:"self"`
	L    []*c08node         `json:"l"`
	M    map[string]c08node `json:"m"`
}

// C08: values converted from cyclic Go structures.
func C08_cycles() {
	sym.Bound("cycles", "pairs of values converted from Go structures of up to two nodes with a cycle through one of four edges")
	mk := func(name string) (int, int8, jsonutils.JSONObject) {
		x := &c08node{V: anyInt8(name)}
		how := sym.Choose(name+".edge", 5)
		switch how {
		case 0:
			x.Self = x
		case 1:
			x.L = []*c08node{nil, x}
		case 2:
			x.M = map[string]c08node{"k": {Self: x}}
		case 3:
			x.Self = &c08node{V: 1, Self: x}
		}
		return how, x.V, jsonutils.Marshal(x)
	}
	h1, v1, a := mk("a")
	h2, v2, b := mk("b")
	want := h1 == h2 && v1 == v2
	sym.Assert(a.Equals(a) && b.Equals(b), "equality is reflexive")
	sym.Assert(a.Equals(b) == want && b.Equals(a) == want, "values are equal exactly if they have the same content")
}
