package h

import (
	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

// amap is the reference map.
type amap struct {
	keys []string
	vals []int64
}

func (m *amap) find(k string) int {
	for i := range m.keys {
		if m.keys[i] == k {
			return i
		}
	}
	return -1
}

func (m *amap) set(k string, v int64) {
	if i := m.find(k); i >= 0 {
		m.vals[i] = v
		return
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
}

func (m *amap) remove(k string) bool {
	i := m.find(k)
	if i < 0 {
		return false
	}
	m.keys = append(append([]string{}, m.keys[:i]...), m.keys[i+1:]...)
	m.vals = append(append([]int64{}, m.vals[:i]...), m.vals[i+1:]...)
	return true
}

// agrees checks every view of d against the model.
func (m *amap) agrees(d *jsonutils.JSONDict, probe string) {
	sym.Assert(d.Length() == len(m.keys) && d.Size() == len(m.keys), "the size is the number of distinct keys")
	v, err := d.Get(probe)
	i := m.find(probe)
	sym.Assert((err == nil) == (i >= 0) && d.Contains(probe) == (i >= 0), "exactly the keys set and not removed are found")
	if i >= 0 {
		x, err := v.Int()
		sym.Assert(err == nil && x == m.vals[i], "lookup returns the last value set")
		y, err := d.Int(probe)
		sym.Assert(err == nil && y == m.vals[i], "typed lookup returns the last value set")
	}
	keys := d.SortedKeys()
	sym.Assert(len(keys) == len(m.keys), "the key list has as many keys as the object")
	mv, err := d.GetMap()
	sym.Assert(err == nil && len(mv) == len(m.keys), "the map view has as many entries as the object")
	for j, k := range keys {
		sym.Assert(j == 0 || keys[j-1] < k, "the keys are listed in ascending order without duplicates")
		i := m.find(k)
		sym.Assert(i >= 0, "only keys of the object are listed")
		e := mv[k]
		sym.Assert(e != nil, "the map view has the listed keys")
		x, err := e.Int()
		sym.Assert(err == nil && x == m.vals[i], "the map view has the last values set")
	}
	n, ok := rfcParse(d.String())
	sym.Assert(ok && n.k == kObj && len(n.keys) == len(keys), "the text shows as many entries as the object has")
	for j, k := range keys {
		sym.Assert(n.keys[j] == k && n.kids[j].i == m.vals[m.find(k)], "the text shows the entries in key order")
	}
	sym.Observe("text", d.String())
}

// C10: short histories with arbitrary keys.
func C10_history() {
	k := 3
	if sym.Thorough() {
		k = 5
	}
	sym.Bound("histories", "every history of at most 3 (5 thorough) set and remove operations with keys of one byte (or empty), probed with any such key")
	d, m := jsonutils.NewDict(), &amap{}
	if sym.Choose("origin", 2) == 1 {
		v, err := jsonutils.ParseString(`{"b":100}`)
		sym.Assert(err == nil, "the text parses")
		d = v.(*jsonutils.JSONDict)
		m.set("b", 100)
		k--
	}
	for i := sym.Choose("ops", k+1); i > 0; i-- {
		key := sym.StrUpTo("key", 1)
		if sym.Choose("op", 2) == 0 {
			d.Set(key, jsonutils.NewInt(int64(i)))
			m.set(key, int64(i))
		} else {
			sym.Assert(d.Remove(key) == m.remove(key), "removal reports whether the key was present")
		}
	}
	m.agrees(d, sym.StrUpTo("probe", 1))
}

// C10: longer keys that are prefixes of each other.
func C10_prefix_keys() {
	sym.Bound("longer keys", "three set or remove operations with keys of at most 3 letters a, b")
	d, m := jsonutils.NewDict(), &amap{}
	key := func(n int) string { return sym.From("key", sym.Choose("len", n+1), "ab") }
	for i := 0; i < 2; i++ {
		k := key(2 + i)
		d.Set(k, jsonutils.NewInt(int64(i)))
		m.set(k, int64(i))
	}
	k := key(2)
	sym.Assert(d.Remove(k) == m.remove(k), "removal reports whether the key was present")
	k = key(2)
	d.Set(k, jsonutils.NewInt(9))
	m.set(k, 9)
	m.agrees(d, key(2))
}

// C10: large objects.
func C10_large() {
	n := []int{0, 1, 2, 9, 10, 11, 20, 23}[sym.Choose("n", 8)]
	if sym.Thorough() {
		n = sym.Choose("count", 24)
	}
	sym.Bound("large", "objects of 0, 1, 2, 9, 10, 11, 20, 23 (every number up to 23 thorough) entries filled in a scrambled order, then one set and one remove of arbitrary one-byte keys")
	d, m := jsonutils.NewDict(), &amap{}
	for i := 0; i < n; i++ {
		k := string([]byte{byte(3 + (i*7)%23*10)})
		d.Set(k, jsonutils.NewInt(int64(i)))
		m.set(k, int64(i))
	}
	k1, k2 := sym.Str("k1", 1), sym.Str("k2", 1)
	if sym.Choose("order", 2) == 0 {
		d.Set(k1, jsonutils.NewInt(-1))
		m.set(k1, -1)
		sym.Assert(d.Remove(k2) == m.remove(k2), "removal reports whether the key was present")
	} else {
		sym.Assert(d.Remove(k2) == m.remove(k2), "removal reports whether the key was present")
		d.Set(k1, jsonutils.NewInt(-1))
		m.set(k1, -1)
	}
	m.agrees(d, k2)
}

// C10: all entries removed again, in any order.
func C10_drain() {
	n := sym.Choose("n", 5)
	sym.Bound("drain", "up to 4 entries removed again in every order, then refilled")
	d, m := jsonutils.NewDict(), &amap{}
	for i := 0; i < n; i++ {
		k := string([]byte{byte('a' + i)})
		d.Set(k, jsonutils.NewInt(int64(i)))
		m.set(k, int64(i))
	}
	for i := 0; i < n; i++ {
		k := string([]byte{byte('a' + sym.Choose("victim", n))})
		sym.Assert(d.Remove(k) == m.remove(k), "removal reports whether the key was present")
	}
	m.agrees(d, "a")
	d.Set("c", jsonutils.NewInt(77))
	m.set("c", 77)
	d.Set("a", jsonutils.NewInt(78))
	m.set("a", 78)
	m.agrees(d, "b")
}

// C10: the object holds the very value stored, not one that looks like it.
func C10_identity() {
	sym.Bound("identity", "two values of one of eight kinds with integers -9..9 or strings of one byte, stored one after the other under the same or different keys")
	mk := func(name string) jsonutils.JSONObject {
		switch sym.Choose("kind", 8) {
		case 0:
			return num(sym.Int64In(name, -9, 9))
		case 1:
			return jsonutils.NewString(sym.Str(name, 1))
		case 2:
			return jsonutils.NewDict()
		case 3:
			return dict1(sym.Str(name, 1), num(1))
		case 4:
			return jsonutils.NewArray()
		case 5:
			return jsonutils.NewArray(num(sym.Int64In(name, -9, 9)))
		case 6:
			return jsonutils.NewFloat64(1)
		}
		return jsonutils.JSONTrue
	}
	d := jsonutils.NewDict()
	a, b := mk("a"), mk("b")
	ka, kb := sym.Str("ka", 1), sym.Str("kb", 1)
	d.Set(ka, a)
	if sym.Choose("by", 2) == 0 {
		d.Set(kb, b)
	} else {
		sym.Assert(d.Add(b, kb) == nil, "a member can be added")
	}
	if ka == kb {
		a = b
	}
	x, err := d.Get(ka)
	sym.Assert(err == nil && x == a, "lookup returns the very value last set")
	x, err = d.Get(kb)
	sym.Assert(err == nil && x == b, "lookup returns the very value last set")
	m, err := d.GetMap()
	sym.Assert(err == nil && m[ka] == a && m[kb] == b, "the map view has the very values last set")
	// later changes of a stored container show
	switch t := b.(type) {
	case *jsonutils.JSONDict:
		t.Set("later", num(5))
		n, err := d.Int(kb, "later")
		sym.Assert(err == nil && n == 5, "a change of a stored object shows")
	case *jsonutils.JSONArray:
		t.Add(num(5))
		x, _ := d.Get(kb)
		sym.Assert(x.(*jsonutils.JSONArray).Length() == t.Length(), "a change of a stored array shows")
	}
}
