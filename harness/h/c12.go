package h

import (
	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

// at follows a path in the model.
func (n *node) at(path []string) *node {
	for _, k := range path {
		if n == nil || n.k != kObj {
			return nil
		}
		var c *node
		for i := range n.keys {
			if n.keys[i] == k {
				c = n.kids[i]
			}
		}
		n = c
	}
	return n
}

func (n *node) clone() *node {
	c := *n
	c.keys = append([]string{}, n.keys...)
	c.kids = nil
	for _, k := range n.kids {
		c.kids = append(c.kids, k.clone())
	}
	return &c
}

// letterTree is an object with keys out of a few letters.
func letterTree(name string, depth int, budget *int) *node {
	n := &node{k: kObj}
	for *budget > 0 && sym.Choose(name+".more", 2) == 1 {
		*budget--
		key := sym.From(name+".key", 1, "ab")
		var c *node
		shape := 0
		if depth > 0 {
			shape = sym.Choose(name+".shape", 2)
		}
		if shape == 1 {
			c = letterTree(name, depth-1, budget)
		} else {
			switch sym.Choose(name+".leaf", 4) {
			case 0:
				c = &node{k: kNull}
			case 1:
				c = &node{k: kInt, i: int64(*budget)}
			case 2:
				c = arr(&node{k: kInt, i: 1})
			case 3:
				c = str("x")
			}
		}
		n.add(key, c)
	}
	return n
}

func anyPath(name string, min, max int) []string {
	p := make([]string, min+sym.Choose(name+".len", max-min+1))
	for i := range p {
		p[i] = sym.From(name, 1, "abc")
	}
	return p
}

// C12: reading along a path.
func C12_get() {
	depth, budget, l := 3, 4, 4
	if sym.Thorough() {
		depth, budget, l = 4, 5, 5
	}
	sym.Bound("paths", "every path of at most 4 (5 thorough) keys out of a b c into every object of at most 4 (5) values nested 4 (5) deep")
	n := letterTree("v", depth, &budget)
	d := n.build().(*jsonutils.JSONDict)
	path := anyPath("p", 0, l)
	want := n.at(path)
	v, err := d.Get(path...)
	sym.Assert((err == nil) == (want != nil), "reading succeeds exactly if each step is a member of an object")
	sym.Assert(d.Contains(path...) == (want != nil), "a path is contained exactly if it can be followed")
	if err == nil {
		sym.Assert(want.same(v), "the value found at the path is returned")
		sym.Reach("found")
	} else {
		sym.Assert(v == nil, "no value comes with an error")
	}
	sym.Assert(n.same(d), "reading changes nothing")
	// typed reads agree with reading the member
	i, err := d.Int(path...)
	sym.Assert((err == nil) == (want != nil && want.k == kInt) && (err != nil || i == want.i), "integer reads follow the path")
	a, err := d.GetArray(path...)
	sym.Assert((err == nil) == (want != nil && want.k != kNull && want.k != kObj), "array reads follow the path")
	if err == nil {
		sym.Assert(len(a) == 1, "array reads return the elements or the scalar")
	}
	m, err := d.GetMap(path...)
	sym.Assert((err == nil) == (want != nil && want.k == kObj), "map reads follow the path")
	if err == nil {
		sym.Assert(len(m) == len(want.kids), "map reads return all members")
	}
	s, err := d.GetString(path...)
	sym.Assert((err == nil) == (want != nil), "string reads follow the path")
	if err == nil {
		if want.k == kStr {
			sym.Assert(s == want.s, "string reads return the content")
		} else {
			sym.Assert(s == v.String(), "string reads return the text")
		}
	}
	var dst jsonutils.JSONObject
	if want != nil && len(path) > 0 && want.k != kNull {
		sym.Assert(d.Unmarshal(&dst, path...) == nil && want.same(dst), "filling from a path uses the member")
	} else if want == nil {
		sym.Assert(d.Unmarshal(&dst, path...) != nil && dst == nil, "filling from a missing path is an error")
	}
}

// C12: inserting at a path.
func C12_add() {
	depth, budget, l := 2, 3, 4
	if sym.Thorough() {
		depth, budget, l = 3, 5, 5
	}
	sym.Bound("insertions", "every insertion at a path of 1..4 (5 thorough) keys out of a b c into every object of at most 3 (5) values nested 3 (4) deep")
	n := letterTree("v", depth, &budget)
	d := n.build().(*jsonutils.JSONDict)
	path := anyPath("p", 1, l)
	err := d.Add(jsonutils.NewString("new"), path...)
	// the model
	want := n.clone()
	cur := want
	ok := true
	for i, k := range path {
		j := -1
		for x := range cur.keys {
			if cur.keys[x] == k {
				j = x
			}
		}
		if i == len(path)-1 {
			if j < 0 {
				cur.add(k, str("new"))
			} else {
				cur.kids[j] = str("new")
			}
			break
		}
		if j < 0 {
			cur.add(k, &node{k: kObj})
			j = len(cur.keys) - 1
		} else if cur.kids[j].k == kNull {
			cur.kids[j] = &node{k: kObj}
		}
		cur = cur.kids[j]
		if cur.k != kObj {
			ok = false
			break
		}
	}
	sym.Assert((err == nil) == ok, "insertion succeeds exactly if no intermediate value is a non-object")
	sym.Observe("after", d.String())
	if !ok {
		sym.Assert(n.same(d), "a failed insertion leaves the object as it was")
		sym.Reach("failed")
		return
	}
	v, err := d.Get(path...)
	sym.Assert(err == nil && str("new").same(v), "the inserted value is readable at its path")
	sym.Assert(want.same(d), "all other entries are unchanged")
	sym.Reach("inserted")
}

// C12: inserting values of any kind and reading them back.
func C12_add_long() {
	k := 1 + sym.Choose("len", 8)
	sym.Bound("long insertions", "paths of up to 8 arbitrary one-byte keys into an empty object or one with a sibling on the way; every basic scalar")
	var path []string
	for i := 0; i < k; i++ {
		path = append(path, sym.Str("p", 1))
	}
	d := jsonutils.NewDict()
	sib := sym.Choose("sibling", 3)
	if sib == 1 {
		d.Set(path[0], dict1("\x00\x01", jsonutils.NewInt(5)))
	} else if sib == 2 {
		d.Set("\x00\x01", jsonutils.NewInt(5))
	}
	n := anyScalar("v", scBasic, 1)
	sym.Assert(d.Add(n.build(), path...) == nil, "insertion succeeds")
	v, err := d.Get(path...)
	sym.Assert(err == nil && n.same(v), "the inserted value is readable at its path")
	sym.Assert(d.Contains(path...), "the inserted path is contained")
	if sib == 1 && k > 1 {
		i, err := d.Int(path[0], "\x00\x01")
		sym.Assert(err == nil && i == 5, "all other entries are unchanged")
	} else if sib == 2 {
		i, err := d.Int("\x00\x01")
		sym.Assert(err == nil && i == 5, "all other entries are unchanged")
	}
}

// C12: indexed access.
func C12_index() {
	k := 4
	if sym.Thorough() {
		k = 13
	}
	sym.Bound("indices", "every int64 index into arrays of at most 3 (12 thorough) elements, direct and behind a path")
	k = sym.Choose("n", k)
	a := jsonutils.NewArray()
	for i := 0; i < k; i++ {
		a.Add(jsonutils.NewInt(int64(100 + i)))
	}
	idx := sym.Int64("i")
	d := dict1("a", dict1("b", a))
	d.Set("n", jsonutils.NewInt(1))
	for _, get := range []func() (jsonutils.JSONObject, error){
		func() (jsonutils.JSONObject, error) { return a.GetAt(int(idx)) },
		func() (jsonutils.JSONObject, error) { return d.GetAt(int(idx), "a", "b") },
	} {
		v, err := get()
		sym.Assert((err == nil) == (idx >= int64(-k) && idx < int64(k)), "exactly the indices from minus length to length minus one are accepted")
		if err == nil {
			x, err := v.Int()
			want := 100 + idx
			if idx < 0 {
				want += int64(k)
			}
			sym.Assert(err == nil && x == want, "negative indices count from the end")
			sym.Reach("accepted")
		} else {
			sym.Assert(v == nil, "no value comes with an error")
		}
	}
	for _, path := range [][]string{{"a"}, {"n"}, {"x"}, {"n", "b"}, {"a", "b", "c"}} {
		_, err := d.GetAt(int(idx), path...)
		sym.Assert(err != nil, "indexing what is not an array is an error")
	}
}

// C12: path access on values that are not objects.
func C12_nonobject() {
	sym.Bound("non-objects", "path operations on every scalar and on arrays")
	n := anyScalar("v", scFull, 1)
	if sym.Choose("in", 2) == 1 {
		n = arr(n)
	}
	v := n.build()
	p := anyPath("p", 1, 2)
	_, e1 := v.Get(p...)
	_, e2 := v.GetIgnoreCases(p...)
	_, e3 := v.Int(p...)
	_, e4 := v.Float(p...)
	_, e5 := v.Bool(p...)
	_, e6 := v.GetString(p...)
	_, e7 := v.GetMap(p...)
	_, e8 := v.GetArray(p...)
	_, e9 := v.GetAt(0, p...)
	_, e10 := v.GetTime(p...)
	sym.Assert(e1 != nil && e2 != nil && e3 != nil && e4 != nil && e5 != nil && e6 != nil && e7 != nil && e8 != nil && e9 != nil && e10 != nil, "a path into a value that is not an object is an error")
	sym.Assert(!v.Contains(p...) && !v.ContainsIgnoreCases(p...), "a value that is not an object contains no path")
	var dst jsonutils.JSONObject
	sym.Assert(v.Unmarshal(&dst, p...) != nil, "filling from a path into a value that is not an object is an error")
}

// anyMember is any kind of value: every scalar, arrays, objects, times.
func anyMember(name string) *node {
	switch sym.Choose(name+".in", 5) {
	case 0:
		b := 2
		return anyTree(name, 1, &b, -1, true)
	case 1:
		return str([]string{"2026-01-02T03:04:05Z", "2026-01-02", "2026-01-02 03:04:05", "20260102", "2026-02-30", "12", "-7", "1e5", "True"}[sym.Choose(name+".text", 9)])
	}
	return anyScalar(name, scFull, 1)
}

// C12: inserting below a value of any kind.
func C12_add_below() {
	sym.Bound("insertions below", "insertions one or two keys (any of at most one byte) below a member of any kind, itself at depth 1 to 3 beside a sibling")
	n := anyMember("v")
	key := sym.StrUpTo("key", 1)
	path := []string{key}
	want := obj1(key, n)
	want.add("sib", arr(str("s")))
	for i := sym.Choose("depth", 3); i > 0; i-- {
		path = append([]string{"p"}, path...)
		want = obj1("p", want)
		want.add("sib", str("s"))
	}
	d := want.build().(*jsonutils.JSONDict)
	more := []string{sym.StrUpTo("more", 1)}
	if sym.Choose("two", 2) == 1 {
		more = append(more, "q")
	}
	full := append(append([]string{}, path...), more...)
	member := n.at(more[:1])
	ok := n.k == kNull || n.k == kObj && (len(more) == 1 || member == nil || member.k == kNull || member.k == kObj)
	err := d.Add(jsonutils.NewString("new"), full...)
	sym.Assert((err == nil) == ok, "insertion succeeds exactly if no intermediate value is a non-object")
	if !ok {
		sym.Assert(want.same(d), "a failed insertion leaves the object as it was")
		return
	}
	v, err := d.Get(full...)
	sym.Assert(err == nil && str("new").same(v), "the inserted value is readable at its path")
	// taking it out again leaves everything else
	in, err := d.GetMap(path...)
	sym.Assert(err == nil, "the intermediate value is an object")
	for i, k := range n.keys {
		if k != more[0] {
			sym.Assert(n.kids[i].same(in[k]), "all other entries are unchanged")
		}
	}
	delete(in, more[0])
	left := len(n.keys)
	if member != nil {
		left--
	}
	sym.Assert(len(in) == left, "all other entries are unchanged")
	sib, err := d.Get("sib")
	sym.Assert(err == nil && want.at([]string{"sib"}).same(sib) && d.Length() == 2, "all other entries are unchanged")
}

// C12: typed reads behind a path.
func C12_typed() {
	sym.Bound("typed reads behind paths", "every typed read of a member of any kind at depth 0 to 3, against the read of the member itself")
	n := anyMember("v")
	v := n.build()
	var path []string
	d := jsonutils.NewDict()
	if n.k == kObj && sym.Choose("self", 2) == 1 {
		d = v.(*jsonutils.JSONDict)
	} else {
		path = []string{sym.StrUpTo("key", 1)}
		d.Set(path[0], v)
		for i := sym.Choose("depth", 3); i > 0; i-- {
			path = append([]string{"p"}, path...)
			d = dict1("p", d)
		}
	}
	i, err := d.Int(path...)
	i2, err2 := v.Int()
	sym.Assert((err == nil) == (err2 == nil) && i == i2, "an integer read behind a path is the read of the member")
	f, err := d.Float(path...)
	f2, err2 := v.Float()
	sym.Assert((err == nil) == (err2 == nil) && f == f2, "a float read behind a path is the read of the member")
	b, err := d.Bool(path...)
	b2, err2 := v.Bool()
	sym.Assert((err == nil) == (err2 == nil) && b == b2, "a boolean read behind a path is the read of the member")
	s, err := d.GetString(path...)
	s2, err2 := v.GetString()
	sym.Assert(err == nil && err2 == nil && s == s2, "a string read behind a path is the read of the member")
	t, err := d.GetTime(path...)
	t2, err2 := v.GetTime()
	sym.Assert((err == nil) == (err2 == nil) && t.Equal(t2), "a time read behind a path is the read of the member")
	a, err := d.GetArray(path...)
	a2, err2 := v.GetArray()
	sym.Assert((err == nil) == (err2 == nil) && len(a) == len(a2), "an array read behind a path is the read of the member")
	for x := range a {
		sym.Assert(a[x] == a2[x], "an array read behind a path is the read of the member")
	}
	m, err := d.GetMap(path...)
	m2, err2 := v.GetMap()
	sym.Assert((err == nil) == (err2 == nil) && len(m) == len(m2) && (err == nil) == (n.k == kObj), "a map read behind a path is the read of the member")
	for k := range m {
		sym.Assert(m[k] == m2[k], "a map read behind a path is the read of the member")
	}
	at := sym.Choose("at", 5) - 2
	e, err := d.GetAt(at, path...)
	e2, err2 := v.GetAt(at)
	sym.Assert((err == nil) == (err2 == nil) && e == e2, "an indexed read behind a path is the read of the member")
	sym.Assert(n.same(v), "reading changes nothing")
}
