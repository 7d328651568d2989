package h

import (
	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

func mapOf(prefix string, k int, base int64) (*jsonutils.JSONDict, *amap) {
	d, m := jsonutils.NewDict(), &amap{}
	for i := sym.Choose(prefix+".n", k+1); i > 0; i-- {
		key := sym.StrUpTo(prefix+".key", 1)
		d.Set(key, jsonutils.NewInt(base+int64(i)))
		m.set(key, base+int64(i))
	}
	return d, m
}

func (m *amap) clone() *amap {
	return &amap{append([]string{}, m.keys...), append([]int64{}, m.vals...)}
}

// merged is the union of a and b, with b winning.
func merged(a, b *amap) *amap {
	m := a.clone()
	for i, k := range b.keys {
		m.set(k, b.vals[i])
	}
	return m
}

// is checks content only.
func (m *amap) is(d *jsonutils.JSONDict) bool {
	if d.Length() != len(m.keys) {
		return false
	}
	keys := d.SortedKeys()
	for i, k := range keys {
		if i > 0 && keys[i-1] >= k {
			return false
		}
		j := m.find(k)
		if j < 0 {
			return false
		}
		v, err := d.Int(k)
		if err != nil || v != m.vals[j] {
			return false
		}
	}
	return true
}

func update(a, b *jsonutils.JSONDict, ma, mb *amap) {
	text := b.String()
	var want *amap
	if sym.Choose("default", 2) == 0 {
		a.Update(b)
		want = merged(ma, mb)
	} else {
		a.UpdateDefault(b)
		want = merged(mb, ma)
	}
	sym.Assert(want.is(a), "the receiver holds the union with the right values winning")
	sym.Assert(mb.is(b) && b.String() == text, "the other object is unchanged")
	sym.Observe("merged", a.String())
	// later membership changes
	key := sym.StrUpTo("later", 1)
	x, y, keep := a, b, mb
	if sym.Choose("side", 2) == 1 {
		x, y, keep = b, a, want
	}
	if sym.Choose("op", 2) == 0 {
		x.Set(key, jsonutils.NewInt(-1))
	} else {
		x.Remove(key)
	}
	sym.Assert(keep.is(y), "later membership changes of one do not show in the other")
}

// C13: merging small objects.
func C13_small() {
	k := 2
	if sym.Thorough() {
		k = 3
	}
	sym.Bound("small", "objects of at most 2 and 1 (3 and 3 thorough) entries with keys of at most one byte, then one membership change")
	a, ma := mapOf("a", k, 100)
	if k == 2 {
		k = 1
	}
	b, mb := mapOf("b", k, 200)
	update(a, b, ma, mb)
}

// C13: merging larger objects.
func C13_large() {
	n, m := sym.Choose("n", 13), sym.Choose("m", 13)
	sym.Bound("large", "objects of up to 12 entries each that overlap in part, then one membership change")
	a, b := jsonutils.NewDict(), jsonutils.NewDict()
	ma, mb := &amap{}, &amap{}
	for i := 0; i < n; i++ {
		k := string([]byte{byte('a' + (i*5)%13)})
		a.Set(k, jsonutils.NewInt(int64(i)))
		ma.set(k, int64(i))
	}
	for i := 0; i < m; i++ {
		k := string([]byte{byte('f' + (i*3)%13)})
		b.Set(k, jsonutils.NewInt(int64(100+i)))
		mb.set(k, int64(100+i))
	}
	update(a, b, ma, mb)
}

// C13: histories of merges and changes on both objects.
func C13_history() {
	k := 3
	if sym.Thorough() {
		k = 4
	}
	sym.Bound("histories", "every history of at most 3 (4 thorough) merges in either direction, sets and removes over two or three objects with keys a b")
	d := []*jsonutils.JSONDict{jsonutils.NewDict(), dict1("a", jsonutils.NewInt(50)), dict1("b", jsonutils.NewInt(51))}
	m := []*amap{{}, {}, {}}
	m[1].set("a", 50)
	m[2].set("b", 51)
	for i := 0; i < k; i++ {
		x := sym.Choose("x", 3)
		switch op := sym.Choose("op", 4); op {
		case 0, 1:
			y := (x + 1 + sym.Choose("y", 2)) % 3
			if op == 0 {
				d[x].Update(d[y])
				m[x] = merged(m[x], m[y])
			} else {
				d[x].UpdateDefault(d[y])
				m[x] = merged(m[y], m[x])
			}
		case 2:
			key := []string{"a", "b"}[sym.Choose("key", 2)]
			d[x].Set(key, jsonutils.NewInt(int64(i)))
			m[x].set(key, int64(i))
		case 3:
			key := []string{"a", "b"}[sym.Choose("key", 2)]
			sym.Assert(d[x].Remove(key) == m[x].remove(key), "removal reports whether the key was present")
		}
	}
	for i := range d {
		sym.Assert(m[i].is(d[i]), "each object holds exactly what its own history put there")
	}
}

// C13: values that are not objects, the receiver itself, nested values.
func C13_other() {
	sym.Bound("other", "updating with every scalar, an array, or the receiver itself; values of every kind on both sides")
	n := anyScalar("v", scFull, 1)
	w := anyScalar("w", scBasic, 1)
	a := dict1("k", n.build())
	a.Set("l", jsonutils.NewArray())
	s := a.String()
	up := a.Update
	def := sym.Choose("default", 2) == 1
	if def {
		up = a.UpdateDefault
	}
	switch sym.Choose("with", 4) {
	case 0:
		up(w.build())
		sym.Assert(a.String() == s, "updating with a non-object changes nothing")
	case 1:
		up(arr(w, obj1("k", w)).build())
		sym.Assert(a.String() == s, "updating with a non-object changes nothing")
	case 2:
		up(a)
		sym.Assert(a.String() == s, "updating with itself changes nothing")
	case 3:
		b := dict1("k", w.build())
		b.Set("m", dict1("x", w.build()))
		up(b)
		k, err := a.Get("k")
		sym.Assert(err == nil && (def && n.same(k) || !def && w.same(k)), "the right value wins")
		x, err := a.Get("m", "x")
		sym.Assert(err == nil && w.same(x) && a.Contains("l") && a.Length() == 3, "the union of the keys is there")
	}
}
