package h

import (
	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

// mutate makes one arbitrary change to one of the containers or scalars of v.
func mutate(v jsonutils.JSONObject, scalars bool) {
	cs := containers(v, nil, scalars)
	sym.Assume(len(cs) > 0)
	switch c := cs[sym.Choose("container", len(cs))].(type) {
	case *jsonutils.JSONArray:
		if c.Length() > 0 && sym.Choose("op", 2) == 1 {
			c.SetAt(sym.Choose("index", c.Length()), jsonutils.NewString("new"))
		} else {
			c.Add(jsonutils.NewString("new"), jsonutils.NewInt(7))
		}
	case *jsonutils.JSONDict:
		keys := c.SortedKeys()
		switch op := sym.Choose("op", 4); {
		case op == 0 || len(keys) == 0:
			c.Set(sym.Str("newkey", 1), jsonutils.NewString("new"))
		case op == 1:
			c.Remove(keys[sym.Choose("key", len(keys))])
		case op == 2:
			c.Set(keys[sym.Choose("key", len(keys))], jsonutils.NewString("new"))
		case op == 3:
			c.Update(dict1("up", jsonutils.NewInt(1)))
		}
	// a scalar is filled in place
	case *jsonutils.JSONInt:
		sym.Assert(jsonutils.NewInt(987654).Unmarshal(c) == nil, "an int is filled")
	case *jsonutils.JSONString:
		sym.Assert(jsonutils.NewString("filled").Unmarshal(c) == nil, "a string is filled")
	case *jsonutils.JSONFloat:
		sym.Assert(jsonutils.NewFloat64(0.625).Unmarshal(c) == nil, "a float is filled")
	}
}

// containers lists the containers of v, and of every container the last
// integer, float or string if scalars is set.
func containers(v jsonutils.JSONObject, l []jsonutils.JSONObject, scalars bool) []jsonutils.JSONObject {
	var last jsonutils.JSONObject
	add := func(e jsonutils.JSONObject) {
		switch e.(type) {
		case *jsonutils.JSONInt, *jsonutils.JSONString, *jsonutils.JSONFloat:
			last = e
		default:
			l = containers(e, l, scalars)
		}
	}
	switch c := v.(type) {
	case *jsonutils.JSONArray:
		l = append(l, c)
		for i := 0; i < c.Length(); i++ {
			e, _ := c.GetAt(i)
			add(e)
		}
	case *jsonutils.JSONDict:
		l = append(l, c)
		for _, k := range c.SortedKeys() {
			e, _ := c.Get(k)
			add(e)
		}
	}
	if last != nil && scalars {
		l = append(l, last)
	}
	return l
}

func independent(n *node, v, c jsonutils.JSONObject, scalars bool) {
	s, p := v.String(), v.PrettyString()
	sym.Assert(n.same(c), "the copy has the content of the source")
	sym.Assert(v.Equals(c) && c.Equals(v), "the copy equals the source")
	sym.Assert(c.String() == s && c.PrettyString() == p, "the copy renders like the source")
	sym.Assert(v.String() == s, "copying leaves the source alone")
	if sym.Choose("side", 2) == 0 {
		mutate(c, scalars)
		sym.Assert(v.String() == s && n.same(v), "changes to the copy do not show in the source")
		sym.Observe("changed", c.String())
	} else {
		mutate(v, scalars)
		sym.Assert(c.String() == s && n.same(c), "changes to the source do not show in the copy")
		sym.Observe("changed", v.String())
	}
}

// C09: deep copies of trees.
func C09_deep() {
	depth, budget := 2, 2
	if sym.Thorough() {
		depth, budget = 3, 3
	}
	sym.Bound("deep copies", "every container with at most 2 values below the top (3 thorough), one-letter keys; one arbitrary change to any container, or to the last scalar in it, of the copy or the source afterwards")
	n := anyTree("v", depth, &budget, -1, true)
	v := n.build()
	var c jsonutils.JSONObject
	if sym.Choose("method", 2) == 0 {
		c = jsonutils.DeepCopy(v)
	} else {
		switch x := v.(type) {
		case *jsonutils.JSONDict:
			c = x.DeepCopy().(jsonutils.JSONObject)
		case *jsonutils.JSONArray:
			c = x.DeepCopy().(jsonutils.JSONObject)
		}
	}
	independent(n, v, c, true)
}

// C09: a container deep inside a larger one.
func C09_deep_large() {
	d := 4
	if sym.Thorough() {
		d = 6
	}
	d = sym.Choose("depth", d)
	sym.Bound("deep copies of nested values", "a container under up to 3 (5 thorough) levels of arrays and objects with siblings, built or parsed")
	n := arr(str("x"), obj1("y", arr()))
	if sym.Choose("leaf", 2) == 1 {
		n = obj1("z", obj1("w", &node{k: kInt, i: 3}))
	}
	for i := 0; i < d; i++ {
		if sym.Choose("level", 2) == 0 {
			n = arr(str("s"), n, &node{k: kNull})
		} else {
			n = obj1("k", n)
			n.add("a", &node{k: kBool, b: true})
			n.add("z", arr(arr()))
		}
	}
	v := n.build()
	if sym.Choose("parsed", 2) == 1 {
		w, err := jsonutils.ParseString(v.String())
		sym.Assert(err == nil, "the text parses")
		v = w
	}
	independent(n, v, jsonutils.DeepCopy(v), true)
}

// C09: deep copies of scalars.
func C09_deep_scalar() {
	n := 3
	if sym.Thorough() {
		n = 6
	}
	sym.Bound("deep copies of scalars", "every int64, listed floats of either width, bool, null, strings of at most 3 bytes (6 thorough)")
	m := anyScalar("v", scFull, n)
	v := m.build()
	if m.k == kFloat && sym.Choose("width", 2) == 1 {
		v = jsonutils.NewFloat32(float32(m.f))
	}
	c := jsonutils.DeepCopy(v)
	if sym.Choose("method", 2) == 1 {
		if x, ok := v.(interface{ DeepCopy() interface{} }); ok {
			c = x.DeepCopy().(jsonutils.JSONObject)
		}
	}
	sym.Assert(c.String() == v.String() && c.Equals(v) && v.Equals(c), "the copy equals the source and renders like it")
	w := jsonutils.DeepCopy(jsonutils.NewArray(v, v))
	sym.Assert(w.String() == jsonutils.NewArray(v, v).String(), "the copy of a container renders like it")
	// a value is filled from the copy, the source stays
	switch x := c.(type) {
	case *jsonutils.JSONInt:
		sym.Assert(jsonutils.NewInt(12).Unmarshal(x) == nil, "an int is filled")
	case *jsonutils.JSONString:
		sym.Assert(jsonutils.NewString("twelve").Unmarshal(x) == nil, "a string is filled")
	case *jsonutils.JSONFloat:
		sym.Assert(x != v, "the copy of a float is another value")
	case *jsonutils.JSONBool:
		sym.Assert(jsonutils.NewString("yes").Unmarshal(x) == nil, "a boolean is filled")
	}
	sym.Assert(m.k == kFloat || m.same(v), "filling the copy leaves the source alone")
}

func sel(k string, keys []string) bool {
	for _, x := range keys {
		if x == k {
			return true
		}
	}
	return false
}

// C09: shallow copies.
func C09_shallow() {
	k := 2
	if sym.Thorough() {
		k = 3
	}
	sym.Bound("shallow copies", "objects of at most 2 (3 thorough) members with keys of at most one byte, at most 2 selected names, one change afterwards")
	d := jsonutils.NewDict()
	n := &node{k: kObj}
	for i := sym.Choose("members", k+1); i > 0; i-- {
		key := sym.StrUpTo("key", 1)
		n.add(key, arr(&node{k: kInt, i: int64(i)}))
		d.Set(key, n.kids[len(n.kids)-1].build())
	}
	var names []string
	for i := sym.Choose("names", 3); i > 0; i-- {
		names = append(names, sym.StrUpTo("name", 1))
	}
	var c *jsonutils.JSONDict
	want := &node{k: kObj}
	how := sym.Choose("how", 4)
	switch how {
	case 0:
		c = d.Copy()
	case 1:
		c = d.Copy(names...)
	case 2:
		c = d.CopyExcludes(names...)
	case 3:
		c = d.CopyIncludes(names...)
	}
	for i, key := range n.keys {
		if how == 0 || (how == 3) == sel(key, names) {
			want.add(key, n.kids[i])
			e, err := c.Get(key)
			f, _ := d.Get(key)
			sym.Assert(err == nil && e == f, "the copy holds the same entry")
		}
	}
	sym.Assert(want.same(c), "the copy holds exactly the selected entries")
	sym.Assert(n.same(d), "the source is as before")
	x, y, keep := c, d, n
	if sym.Choose("side", 2) == 1 {
		x, y, keep = d, c, want
	}
	switch sym.Choose("op", 3) {
	case 0:
		x.Set(sym.StrUpTo("newkey", 1), jsonutils.NewString("new"))
	case 1:
		x.Remove(sym.StrUpTo("newkey", 1))
	case 2:
		x.Update(dict1(sym.StrUpTo("newkey", 1), jsonutils.NewInt(1)))
	}
	sym.Assert(keep.same(y), "membership changes of one do not show in the other")
}

// C09: shallow copies of larger objects and of arrays.
func C09_shallow_large() {
	k := sym.Choose("k", 13)
	at := sym.Choose("at", k+1)
	sym.Bound("shallow copies of larger containers", "up to 12 entries, one of them selected or changed")
	d, a := jsonutils.NewDict(), jsonutils.NewArray()
	n, m := &node{k: kObj}, &node{k: kArr}
	for i := 0; i < k; i++ {
		key := string([]byte{byte('a' + (i*5)%13)})
		c := &node{k: kInt, i: int64(i)}
		n.add(key, c)
		m.kids = append(m.kids, c)
		d.Set(key, c.build())
		a.Add(c.build())
	}
	name := "none"
	if at < k {
		name = n.keys[at]
	}
	c, b := d.Copy(), a.Copy()
	ex, in := d.CopyExcludes("x1", name, "x2"), d.CopyIncludes("x1", name)
	sym.Assert(n.same(c) && m.same(b), "a whole copy holds all entries")
	for i, key := range n.keys {
		sym.Assert(ex.Contains(key) == (i != at) && in.Contains(key) == (i == at), "a partial copy holds exactly the selected entries")
	}
	if at < k {
		sym.Assert(ex.Length() == k-1 && in.Length() == 1, "a partial copy holds exactly the selected entries")
		if sym.Choose("side", 2) == 0 {
			c.Remove(name)
			b.SetAt(at, jsonutils.NewString("new"))
			sym.Assert(n.same(d) && m.same(a), "changes to a copy do not show in the source")
		} else {
			d.Set(name, jsonutils.NewString("new"))
			a.SetAt(at, jsonutils.NewString("new"))
			sym.Assert(n.same(c) && m.same(b), "changes to the source do not show in a copy")
		}
	} else {
		d.Set("new", jsonutils.JSONNull)
		a.Add(jsonutils.JSONNull)
		c.Set("new2", jsonutils.JSONTrue)
		b.Add(jsonutils.JSONTrue, jsonutils.JSONTrue)
		n.add("new", &node{k: kNull})
		m.kids = append(m.kids, &node{k: kNull})
		sym.Assert(n.same(d) && m.same(a), "growing the copies does not show in the sources")
	}
}

// C09: copies of values with node ids and node references.
func C09_nodes() {
	texts := []string{
		`{"___jnid_":1,"a":{"b":<1>}}`, `[{"___jnid_":1,"x":1},<1>]`, `[<2>,{"___jnid_":2}]`, `{"a":<7>}`, `{"___jnid_":3}`,
	}
	sym.Bound("node references", "5 parsed texts with node ids and references")
	v, err := jsonutils.ParseString(texts[sym.Choose("text", len(texts))])
	sym.Assert(err == nil, "the text parses")
	s := v.String()
	c := jsonutils.DeepCopy(v)
	sym.Assert(c.String() == s, "the copy renders like the source")
	sym.Assert(c.Equals(v) && v.Equals(c), "the copy equals the source")
	mutate(c, true)
	sym.Assert(v.String() == s, "changes to the copy do not show in the source")
}
