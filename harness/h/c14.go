package h

import (
	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

func diffOK(a, b *node) {
	x, y := a.build().(*jsonutils.JSONDict), b.build().(*jsonutils.JSONDict)
	onlyA, differ, equal, onlyB := jsonutils.Diff(x, y)
	sym.Assert(a.same(x) && b.same(y), "comparing changes neither object")
	na, nd, ne, nb := 0, 0, 0, 0
	for i, k := range a.keys {
		va := a.kids[i]
		j := -1
		for l := range b.keys {
			if b.keys[l] == k {
				j = l
			}
		}
		switch {
		case j < 0:
			na++
			v, err := onlyA.Get(k)
			sym.Assert(err == nil && va.same(v), "a key only in A is in the first result with its value")
		case va.eq(b.kids[j]):
			ne++
			v, err := equal.Get(k)
			sym.Assert(err == nil && va.same(v), "a key with equal values is in the third result with its value")
		default:
			nd++
			v, err := differ.Get(k)
			sym.Assert(err == nil && arr(va, b.kids[j]).same(v), "a key with different values is in the second result with both values")
		}
	}
	for i, k := range b.keys {
		if a.at([]string{k}) == nil {
			nb++
			v, err := onlyB.Get(k)
			sym.Assert(err == nil && b.kids[i].same(v), "a key only in B is in the fourth result with its value")
		}
	}
	sym.Assert(onlyA.Length() == na && differ.Length() == nd && equal.Length() == ne && onlyB.Length() == nb, "each key is in exactly one result")
	if len(a.keys)+len(b.keys) > 2 {
		sym.Observe("diff", onlyA.String()+differ.String()+equal.String()+onlyB.String())
	}
	// the results are independent of the objects
	onlyA.Set("zz", jsonutils.JSONNull)
	onlyB.Set("zz", jsonutils.JSONNull)
	if na > 0 {
		onlyA.Remove(onlyA.SortedKeys()[0])
	}
	if nb > 0 {
		onlyB.Remove(onlyB.SortedKeys()[0])
	}
	sym.Assert(a.same(x) && b.same(y), "changing the results changes neither object")
}

func smallObj(name string, k int, inner bool) *node {
	n := &node{k: kObj}
	for i := sym.Choose(name+".n", k+1); i > 0; i-- {
		var c *node
		if sym.Choose(name+".kind", 2) == 0 {
			c = &node{k: kInt, i: sym.Int64In(name, 0, 9)}
		} else {
			c = str(sym.Digs(name, 1))
		}
		if inner && i == 1 {
			c = arr(c)
		}
		n.add(sym.StrUpTo(name+".key", 1), c)
	}
	return n
}

// C14: small objects.
func C14_small() {
	j, k := 2, 1
	if sym.Thorough() {
		j, k = 2, 2
	}
	sym.Bound("small", "objects of at most 2 and at most 1 (2 thorough) entries, keys of at most one arbitrary byte, digits as ints or strings (one of them in an array)")
	diffOK(smallObj("a", j, false), smallObj("b", k, true))
}

// C14: values of every kind.
func C14_value() {
	n := 2
	if sym.Thorough() {
		n = 4
	}
	sym.Bound("values", "one common key of at most one byte with every pair of scalars (strings up to 2 bytes, 4 thorough) or small trees")
	var v, w *node
	if sym.Choose("tree", 2) == 0 {
		v, w = anyScalar("v", scFull, n), anyScalar("w", scFull, n)
	} else {
		b, c := 1, 1
		v, w = anyTree("v", 1, &b, -1, true), anyTree("w", 1, &c, -1, true)
	}
	key := sym.StrUpTo("key", 1)
	diffOK(obj1(key, v), obj1(key, w))
}

// C14: larger objects.
func C14_large() {
	n, m := []int{0, 1, 2, 6, 10, 12}[sym.Choose("n", 6)], []int{0, 1, 4, 6, 10, 12}[sym.Choose("m", 6)]
	if sym.Thorough() {
		n, m = sym.Choose("count", 13), sym.Choose("count2", 13)
	}
	sym.Bound("large", "objects of up to 12 entries each that overlap in part, one value on each side arbitrary")
	a, b := &node{k: kObj}, &node{k: kObj}
	for i := 0; i < n; i++ {
		c := &node{k: kInt, i: int64(i % 3)}
		if i == 4 {
			c = &node{k: kInt, i: sym.Int64In("a", -5, 5)}
		}
		a.add(string([]byte{byte('a' + (i*5)%13)}), c)
	}
	for i := 0; i < m; i++ {
		c := &node{k: kInt, i: int64(i % 2)}
		if i == 3 {
			c = &node{k: kInt, i: sym.Int64In("b", -5, 5)}
		}
		b.add(string([]byte{byte('f' + (i*3)%13)}), c)
	}
	diffOK(a, b)
}
