package h

import (
	"strconv"

	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

// texts replaces every leaf by its text.
func (n *node) texts() *node {
	switch n.k {
	case kInt:
		return str(strconv.FormatInt(n.i, 10))
	case kBool:
		return str(strconv.FormatBool(n.b))
	case kArr, kObj:
		c := &node{k: n.k, keys: n.keys}
		for _, k := range n.kids {
			c.kids = append(c.kids, k.texts())
		}
		return c
	}
	return n
}

func queryTrip(n *node) {
	v := n.build()
	q := v.QueryString()
	w, err := jsonutils.ParseQueryString(q)
	sym.Assert(err == nil, "the query string parses")
	sym.Assert(n.texts().same(w), "the parsed query has the original content")
	sym.Assert(w.QueryString() == q, "the parsed query renders the same")
	sym.Observe("query", q)
}

// queryKey is a non-empty, dot-free, non-numeric key.
func queryKey(name string, n int) string {
	k := sym.Str(name, 1+sym.Choose(name+".len", n))
	_, num := decimal(k)
	sym.Assume(!num)
	for i := 0; i < len(k); i++ {
		sym.Assume(k[i] != '.')
	}
	return k
}

// C22: arbitrary bytes in one key and value.
func C22_bytes() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	sym.Bound("bytes", "one member, key and value of at most 2 arbitrary bytes (3 thorough), also one level down in an object or array")
	k, v := queryKey("key", n), str(sym.Str("val", 1+sym.Choose("len", n)))
	switch sym.Choose("place", 3) {
	case 0:
		queryTrip(obj1(k, v))
	case 1:
		queryTrip(obj1("o", obj1(k, v)))
	default:
		queryTrip(obj1(k, arr(v, str("t"))))
	}
}

// C22: two members with arbitrary keys.
func C22_members() {
	sym.Bound("members", "two members with one-byte keys, or an object and a member next to it, all keys arbitrary")
	k1, k2 := queryKey("k1", 1), queryKey("k2", 1)
	n := &node{k: kObj}
	switch sym.Choose("shape", 3) {
	case 0:
		n.add(k1, str("x"))
		n.add(k2, str("y"))
	case 1:
		n.add(k1, obj1(k2, str("x")))
		n.add(k2, str("y"))
		sym.Assume(k1 != k2)
	default:
		m := &node{k: kObj}
		m.add(k1, str("x"))
		m.add(k2, arr(str("y")))
		n.add("m", m)
	}
	queryTrip(n)
}

// anyQuery is any nesting of non-empty containers over letter leaves.
func anyQuery(depth int, budget *int, next *byte) *node {
	shape := 0
	if depth > 0 {
		shape = sym.Choose("shape", 3)
	}
	if shape == 0 {
		*next++
		return str(string([]byte{'a' + *next}))
	}
	n := &node{k: kArr}
	if shape == 2 {
		n.k = kObj
	}
	for {
		if n.k == kObj {
			n.keys = append(n.keys, string([]byte{byte('z' - len(n.keys))}))
		}
		n.kids = append(n.kids, anyQuery(depth-1, budget, next))
		if *budget <= 0 || sym.Choose("more", 2) == 0 {
			return n
		}
		*budget--
	}
}

// C22: every shape.
func C22_shape() {
	depth, budget := 3, 3
	if sym.Thorough() {
		depth, budget = 3, 4
	}
	sym.Bound("shapes", "every nesting up to depth 3 of non-empty objects and arrays with at most 3 (4 thorough) further siblings in all, below an object")
	var next byte
	n := obj1("r", anyQuery(depth, &budget, &next))
	if budget > 0 && sym.Choose("more", 2) == 1 {
		budget--
		n.add("q", anyQuery(depth, &budget, &next))
	}
	queryTrip(n)
}

// C22: scalars come back as their text.
func C22_scalar() {
	sym.Bound("scalars", "every int64 and boolean in an object or array")
	v := &node{k: kBool, b: sym.Bool("b")}
	if sym.Choose("kind", 2) == 1 {
		v = &node{k: kInt, i: sym.Int64("i")}
	}
	if sym.Choose("in", 2) == 0 {
		queryTrip(obj1("k", v))
	} else {
		queryTrip(obj1("k", arr(str("x"), v)))
	}
}

// C22: long arrays.
func C22_long() {
	n := 1 + sym.Choose("n", 13)
	sym.Bound("long arrays", "arrays of up to 13 elements, each a string but one, which is an object or array; beside other members")
	at := sym.Choose("at", n)
	kind := sym.Choose("kind", 3)
	a := arr()
	for i := 0; i < n; i++ {
		e := str("v" + strconv.Itoa(i))
		if i == at {
			switch kind {
			case 1:
				e = obj1("k", e)
			case 2:
				e = arr(e, e)
			}
		}
		a.kids = append(a.kids, e)
	}
	o := obj1("list", a)
	o.add("l", str("x"))
	o.add("lisu", str("y"))
	queryTrip(o)
}
