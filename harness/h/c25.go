package h

import (
	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

// plain compares plain Go data with the model, including its types.
func (n *node) plain(x interface{}) bool {
	switch n.k {
	case kNull:
		return x == nil
	case kBool:
		v, ok := x.(bool)
		return ok && v == n.b
	case kInt:
		v, ok := x.(int64)
		return ok && v == n.i
	case kFloat:
		v, ok := x.(float64)
		return ok && v == n.f
	case kStr:
		v, ok := x.(string)
		return ok && v == n.s
	case kArr:
		l, ok := x.([]interface{})
		if !ok || len(l) != len(n.kids) {
			return false
		}
		for i, c := range n.kids {
			if !c.plain(l[i]) {
				return false
			}
		}
		return true
	}
	m, ok := x.(map[string]interface{})
	if !ok || len(m) != len(n.keys) {
		return false
	}
	for i, k := range n.keys {
		v, ok := m[k]
		if !ok || !n.kids[i].plain(v) {
			return false
		}
	}
	return true
}

func (n *node) zero() bool {
	switch n.k {
	case kNull:
		return true
	case kBool:
		return !n.b
	case kInt:
		return n.i == 0
	case kFloat:
		return n.f == 0
	case kStr:
		return n.s == ""
	}
	return len(n.kids) == 0
}

func plainOK(n *node, v jsonutils.JSONObject) {
	x := v.Interface()
	sym.Assert(n.plain(x), "the plain data mirrors the value")
	sym.Assert(v.IsZero() == n.zero(), "exactly null, false, 0 and empty values are zero")
	switch t := v.(type) {
	case *jsonutils.JSONDict:
		m := t.Value()
		m2, err := t.GetMap()
		sym.Assert(err == nil && len(m) == len(n.keys) && len(m2) == len(n.keys), "the map view has exactly the members")
		for i, k := range n.keys {
			e, ok := m[k]
			e2, ok2 := m2[k]
			sym.Assert(ok && ok2 && n.kids[i].same(e) && n.kids[i].same(e2), "the map view has the members")
		}
		// views are snapshots
		m["~new"] = jsonutils.JSONNull
		if len(n.keys) > 0 {
			delete(m2, n.keys[0])
		}
		if p, ok := x.(map[string]interface{}); ok {
			p["~new"] = 1
		}
		sym.Assert(n.same(v), "changing a view changes nothing in the object")
	case *jsonutils.JSONArray:
		l := t.Value()
		sym.Assert(len(l) == len(n.kids), "the element view has exactly the elements")
		for i := range l {
			sym.Assert(n.kids[i].same(l[i]), "the element view has the elements")
			l[i] = jsonutils.JSONNull
		}
		if p, ok := x.([]interface{}); ok && len(p) > 0 {
			p[0] = 1
		}
		sym.Assert(n.same(v), "changing a view changes nothing in the array")
	}
	sym.Assert(n.plain(v.Interface()), "converting again gives the same")
}

// C25: scalars.
func C25_scalar() {
	n := 2
	if sym.Thorough() {
		n = 4
	}
	sym.Bound("scalars", "null, bool, every int64, listed floats, every byte string of at most 2 bytes (4 thorough)")
	t := anyScalar("v", scFull, n)
	v := t.build()
	plainOK(t, v)
	switch t.k {
	case kStr:
		sym.Assert(v.(*jsonutils.JSONString).Length() == len(t.s), "the length of a string is its number of bytes")
	case kFloat:
		sym.Assert(jsonutils.NewFloat(t.f).Value() == t.f, "a float has its value")
	}
}

// C25: trees.
func C25_tree() {
	depth, budget := 2, 2
	if sym.Thorough() {
		depth, budget = 2, 3
	}
	sym.Bound("trees", "every nesting with at most 2 values below the top (3 thorough), keys and strings of at most one byte, ints -9..9; built or parsed from text")
	n := anyTree("v", depth, &budget, 1, true)
	v := n.build()
	if sym.Choose("parsed", 2) == 1 {
		w, err := jsonutils.ParseString(v.String())
		sym.Assert(err == nil, "the text parses")
		v = w
	}
	plainOK(n, v)
}

// C25: values obtained by converting Go data.
func C25_marshalled() {
	sym.Bound("marshalled", "maps and slices of plain data of the listed shapes with arbitrary leaves")
	i, b, s := sym.Int64In("i", -99, 99), sym.Bool("b"), sym.StrUpTo("s", 1)
	x := map[string]interface{}{
		"list": []interface{}{i, s, b, []interface{}{}},
		"map":  map[string]interface{}{"k" + s: s},
		"f":    0.5,
	}
	n := &node{k: kObj}
	in := &node{k: kInt, i: i}
	n.add("list", arr(in, str(s), &node{k: kBool, b: b}, arr()))
	n.add("map", obj1("k"+s, str(s)))
	n.add("f", &node{k: kFloat, f: 0.5})
	plainOK(n, jsonutils.Marshal(x))
}

// C25: wide containers.
func C25_wide() {
	c := sym.Choose("n", 14)
	sym.Bound("wide", "arrays and objects of up to 13 entries, one of them arbitrary")
	n := &node{k: kArr}
	if sym.Choose("obj", 2) == 1 {
		n.k = kObj
	}
	at := sym.Choose("at", c+1)
	for i := 0; i < c; i++ {
		v := &node{k: kInt, i: int64(i)}
		if i == at {
			v = anyScalar("v", scFull, 1)
		}
		if n.k == kObj {
			n.add(string([]byte{byte('a' + (i*5)%13)}), v)
		} else {
			n.kids = append(n.kids, v)
		}
	}
	plainOK(n, n.build())
}

type c25node struct {
	V    int8                `json:"v"`
	Next *c25node            `json:"next"`
	L    []*c25node          `json:"l"`
	M    map[string]*c25node `json:"m"`
}

// C25: values with cycles.
func C25_cycle() {
	sym.Bound("cycles", "values converted from Go structures of up to three nodes in a chain, whose last one points back to any of them along one of three edges")
	n := 1 + sym.Choose("n", 3)
	nodes := make([]*c25node, n)
	for i := range nodes {
		nodes[i] = &c25node{V: anyInt8("v")}
		if i > 0 {
			nodes[i-1].Next = nodes[i]
		}
	}
	to := sym.Choose("to", n)
	edge := sym.Choose("edge", 3)
	last := nodes[n-1]
	switch edge {
	case 0:
		last.Next = nodes[to]
	case 1:
		last.L = []*c25node{nil, nodes[to]}
	case 2:
		last.M = map[string]*c25node{"k": nodes[to]}
	}
	v := jsonutils.Marshal(nodes[0])
	text := v.String()
	x := v.Interface()
	// two rounds along the cycle
	for i, j := 0, 0; i < 2*n+1; i++ {
		m, ok := x.(map[string]interface{})
		sym.Assert(ok && m["v"] == interface{}(int64(nodes[j].V)), "the plain data mirrors the value")
		x = m["next"]
		if j++; j == n {
			j = to
			switch edge {
			case 1:
				l, ok := m["l"].([]interface{})
				sym.Assert(ok && len(l) == 2 && l[0] == nil, "the plain data mirrors the value")
				x = l[1]
			case 2:
				k, ok := m["m"].(map[string]interface{})
				sym.Assert(ok && len(k) == 1, "the plain data mirrors the value")
				x = k["k"]
			}
		}
	}
	sym.Assert(v.String() == text, "the conversion leaves the value as it is")
	sym.Assert(jsonutils.DeepCopy(v).Equals(v), "a copy of the value equals it")
}

// C25: the same value in several places.
func C25_repeated() {
	sym.Bound("repeated", "one array or object (with an arbitrary string of at most 2 bytes) two or three times in an array, an object or one in another")
	c := []*node{arr(str("x")), obj1("k", str("x")), arr(), {k: kObj}}[sym.Choose("what", 4)]
	if len(c.kids) > 0 {
		c.kids[0].s = sym.StrUpTo("s", 2)
	}
	v := c.build()
	n, w := arr(c, c), jsonutils.JSONObject(jsonutils.NewArray(v, v))
	get := func(x interface{}) (a, b interface{}) {
		l := x.([]interface{})
		return l[0], l[1]
	}
	switch sym.Choose("where", 3) {
	case 1:
		n = &node{k: kObj}
		n.add("a", c)
		n.add("b", c)
		d := jsonutils.NewDict()
		d.Set("a", v)
		d.Set("b", v)
		w = d
		get = func(x interface{}) (a, b interface{}) {
			m := x.(map[string]interface{})
			return m["a"], m["b"]
		}
	case 2:
		n = arr(c, arr(c))
		w = jsonutils.NewArray(v, jsonutils.NewArray(v))
		get = func(x interface{}) (a, b interface{}) {
			l := x.([]interface{})
			return l[0], l[1].([]interface{})[0]
		}
	}
	plainOK(n, w)
	a, b := get(w.Interface())
	switch x := a.(type) {
	case []interface{}:
		if len(x) > 0 {
			x[0] = 7
		}
	case map[string]interface{}:
		x["k"] = 7
	}
	sym.Assert(c.plain(b), "changing one part of the plain data changes no other")
	sym.Assert(n.same(w), "changing the plain data changes nothing in the value")
}
