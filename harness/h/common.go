package h

import (
	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

// kinds of the reference model
const (
	kNull = iota
	kBool
	kInt
	kStr
	kFloat
	kArr
	kObj
)

// node is an independent model of a JSON value.
type node struct {
	k    int
	b    bool
	i    int64
	f    float64
	s    string
	kids []*node
	keys []string
}

// build makes the jsonutils value of n with the package's constructors.
func (n *node) build() jsonutils.JSONObject {
	switch n.k {
	case kNull:
		return jsonutils.JSONNull
	case kBool:
		return jsonutils.NewBool(n.b)
	case kInt:
		return jsonutils.NewInt(n.i)
	case kStr:
		return jsonutils.NewString(n.s)
	case kFloat:
		return jsonutils.NewFloat64(n.f)
	case kArr:
		a := jsonutils.NewArray()
		for _, c := range n.kids {
			a.Add(c.build())
		}
		return a
	}
	d := jsonutils.NewDict()
	for i, c := range n.kids {
		d.Set(n.keys[i], c.build())
	}
	return d
}

// same compares a value with its model through the accessors of its kind.
func (n *node) same(o jsonutils.JSONObject) bool {
	switch n.k {
	case kNull:
		return o == jsonutils.JSONNull
	case kBool:
		v, ok := o.(*jsonutils.JSONBool)
		return ok && v.Value() == n.b
	case kInt:
		v, ok := o.(*jsonutils.JSONInt)
		return ok && v.Value() == n.i
	case kStr:
		v, ok := o.(*jsonutils.JSONString)
		return ok && v.Value() == n.s
	case kFloat:
		if _, ok := o.(*jsonutils.JSONInt); !ok {
			if _, ok = o.(*jsonutils.JSONFloat); !ok {
				return false
			}
		}
		f, err := o.Float()
		return err == nil && f == n.f
	case kArr:
		a, ok := o.(*jsonutils.JSONArray)
		if !ok || a.Length() != len(n.kids) {
			return false
		}
		for i, c := range n.kids {
			e, err := a.GetAt(i)
			if err != nil || !c.same(e) {
				return false
			}
		}
		return true
	}
	d, ok := o.(*jsonutils.JSONDict)
	if !ok || d.Length() != len(n.kids) {
		return false
	}
	for i, c := range n.kids {
		e, err := d.Get(n.keys[i])
		if err != nil || !c.same(e) {
			return false
		}
	}
	return true
}

// eq compares two models.
func (n *node) eq(o *node) bool {
	if n.k != o.k {
		return false
	}
	switch n.k {
	case kNull:
		return true
	case kBool:
		return n.b == o.b
	case kInt:
		return n.i == o.i
	case kStr:
		return n.s == o.s
	case kFloat:
		return n.f == o.f
	case kArr:
		if len(n.kids) != len(o.kids) {
			return false
		}
		for i := range n.kids {
			if !n.kids[i].eq(o.kids[i]) {
				return false
			}
		}
		return true
	}
	if len(n.kids) != len(o.kids) {
		return false
	}
	for i := range n.kids {
		hit := false
		for j := range o.kids {
			if n.keys[i] == o.keys[j] {
				hit = n.kids[i].eq(o.kids[j])
				break
			}
		}
		if !hit {
			return false
		}
	}
	return true
}

// floats whose text or value is at a boundary
var someFloats = []float64{0.5, -0.1, 1, -3, 1e21, 1e22, 123456789.125, 1e-7, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 9007199254740993, 9223372036854775808, -9223372036854775808, 0.1 + 0.2, 1e15, 100, 0}

// scalar kinds offered by anyScalar
const (
	scBasic = iota // null, bool, int (small), string of at most one byte
	scFull         // null, bool, any int64, float of the list, string of at most n bytes
)

// anyScalar is an arbitrary scalar.
func anyScalar(name string, set int, n int) *node {
	if set == scBasic {
		switch sym.Choose(name+".kind", 4) {
		case 0:
			return &node{k: kNull}
		case 1:
			return &node{k: kBool, b: sym.Bool(name)}
		case 2:
			return &node{k: kInt, i: sym.Int64In(name, -9, 9)}
		}
		return &node{k: kStr, s: sym.StrUpTo(name, 1)}
	}
	switch sym.Choose(name+".kind", 5) {
	case 0:
		return &node{k: kNull}
	case 1:
		return &node{k: kBool, b: sym.Bool(name)}
	case 2:
		return &node{k: kInt, i: sym.Int64(name)}
	case 3:
		return &node{k: kFloat, f: someFloats[sym.Choose(name+".float", len(someFloats))]}
	}
	return &node{k: kStr, s: sym.StrUpTo(name, n)}
}

// anyTree is an arbitrary array or object (any value if !top) nested at most
// depth deep with at most *budget values below it, scalars of the basic set
// and keys of at most kl bytes (one letter each if kl is negative).
func anyTree(name string, depth int, budget *int, kl int, top bool) *node {
	shape := 0
	if top {
		shape = 1 + sym.Choose(name+".shape", 2)
	} else if depth > 0 {
		shape = sym.Choose(name+".shape", 3)
	}
	if shape == 0 {
		return anyScalar(name, scBasic, 1)
	}
	n := &node{k: kArr}
	if shape == 2 {
		n.k = kObj
	}
	for *budget > 0 && sym.Choose(name+".more", 2) == 1 {
		*budget--
		if shape == 1 {
			n.kids = append(n.kids, anyTree(name, depth-1, budget, kl, false))
		} else {
			key := ""
			if kl < 0 {
				key = string([]byte{byte('z' - len(n.keys))})
			} else {
				key = sym.StrUpTo(name+".key", kl)
			}
			n.add(key, anyTree(name, depth-1, budget, kl, false))
		}
	}
	return n
}

// add appends a member; the keys of an object are distinct.
func (n *node) add(key string, c *node) {
	for _, k := range n.keys {
		sym.Assume(k != key)
	}
	n.keys = append(n.keys, key)
	n.kids = append(n.kids, c)
}

func arr(kids ...*node) *node      { return &node{k: kArr, kids: kids} }
func obj1(k string, v *node) *node { return &node{k: kObj, keys: []string{k}, kids: []*node{v}} }
func str(s string) *node           { return &node{k: kStr, s: s} }

func dict1(key string, v jsonutils.JSONObject) *jsonutils.JSONDict {
	d := jsonutils.NewDict()
	d.Set(key, v)
	return d
}

// tight is a byte slice that ends where its memory ends.
func tight(s string) []byte {
	b := make([]byte, len(s))
	copy(b, s)
	return b[:len(s):len(s)]
}
