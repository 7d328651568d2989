package h

import (
	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

type c41in[T any] struct{ V T }

// c41rec holds JSON values of one type at every place a Go value has.
type c41rec[T any] struct {
	V  T
	P  *T `json:"p"`
	L  []T
	A  [2]T
	M  map[string]T
	Q  []*T
	QM map[string]*T
	O  T  `json:"o,omitempty"`
	PO *T `json:"po,omitempty"`
	In c41in[T]
	LL [][]T
	J  jsonutils.JSONObject `json:"j,omitempty"`
	LJ []jsonutils.JSONObject
	MJ map[string]jsonutils.JSONObject
}

// c41out is written only: interfaces are not filled with every kind.
type c41out[T any] struct {
	I  interface{}
	IP interface{}
	LI []interface{}
	MI map[string]interface{}
	N  *T
	NL []*T
}

// c41at tells whether the value below the keys is w; an empty one may be
// omitted where leave says so.
func c41at(v jsonutils.JSONObject, w *node, leave bool, path ...string) bool {
	d, ok := v.(*jsonutils.JSONDict)
	if !ok {
		return false
	}
	c, err := d.Get(path...)
	if err != nil {
		return leave && w.hollow()
	}
	return w.same(c)
}

// hollow tells whether n is the empty value of its kind.
func (n *node) hollow() bool {
	return n.k == kNull || n.k == kBool && !n.b || n.k == kInt && n.i == 0 || n.k == kFloat && n.f == 0 || n.k == kStr && n.s == "" || n.k >= kArr && len(n.kids) == 0
}

// c41mar is Marshal or MarshalAll.
func c41mar(x interface{}, all bool) jsonutils.JSONObject {
	if all {
		return jsonutils.MarshalAll(x)
	}
	return jsonutils.Marshal(x)
}

// c41all puts the JSON value p, with the content w, at a place of a Go value;
// z is the content of an empty T.
func c41all[T any, P interface {
	*T
	jsonutils.JSONObject
}](p P, w, z *node) {
	var zero T
	x := *p
	read := func(x *T) jsonutils.JSONObject { return P(x) }
	is := func(ok bool) {
		sym.Assert(ok, "a JSON value is written with its content")
		sym.Assert(w.same(read(&x)), "a JSON value that is written stays as it is")
	}
	all := sym.Bool("all")
	var v jsonutils.JSONObject
	r := c41rec[T]{}
	var get func(r *c41rec[T]) *T
	place := sym.Choose("place", 15)
	switch place {
	case 0:
		is(w.same(c41mar(x, all)))
		is(w.same(c41mar(&x, all)))
		var y T
		sym.Assert(c41mar(x, all).Unmarshal(&y) == nil && w.same(read(&y)), "a JSON value is read back")
		return
	case 1:
		v = c41mar([]T{x, zero, x}, all)
		is(arr(w, z, w).same(v))
		var y []T
		sym.Assert(v.Unmarshal(&y) == nil && len(y) == 3 && w.same(read(&y[0])) && w.same(read(&y[2])), "a list of JSON values is read back")
		return
	case 2:
		v = c41mar(map[string]T{"k": x}, all)
		is(obj1("k", w).same(v))
		var y map[string]T
		sym.Assert(v.Unmarshal(&y) == nil && len(y) == 1, "a map of JSON values is read back")
		e := y["k"]
		sym.Assert(w.same(read(&e)), "a map of JSON values is read back")
		return
	case 3:
		o := c41out[T]{I: x, IP: &x, LI: []interface{}{x, nil, &x}, MI: map[string]interface{}{"k": x, "p": &x}, NL: []*T{nil, &x}}
		v = c41mar(o, all)
		is(c41at(v, w, true, "i") && c41at(v, w, true, "ip"))
		is(c41at(v, arr(w, &node{k: kNull}, w), false, "li") && c41at(v, w, false, "mi", "k") && c41at(v, w, false, "mi", "p") && c41at(v, arr(&node{k: kNull}, w), false, "nl"))
		return
	case 4:
		r.V = x
		get = func(r *c41rec[T]) *T { return &r.V }
	case 5:
		r.P = &x
		get = func(r *c41rec[T]) *T { return r.P }
	case 6:
		r.L = []T{x}
		get = func(r *c41rec[T]) *T { return &r.L[0] }
	case 7:
		r.A[1] = x
		get = func(r *c41rec[T]) *T { return &r.A[1] }
	case 8:
		r.M = map[string]T{"k": x}
		get = func(r *c41rec[T]) *T { e := r.M["k"]; return &e }
	case 9:
		r.Q = []*T{nil, &x}
		get = func(r *c41rec[T]) *T { return r.Q[1] }
	case 10:
		r.QM = map[string]*T{"k": &x}
		get = func(r *c41rec[T]) *T { return r.QM["k"] }
	case 11:
		r.O = x
		get = func(r *c41rec[T]) *T { return &r.O }
	case 12:
		r.PO = &x
		get = func(r *c41rec[T]) *T { return r.PO }
	case 13:
		r.In.V = x
		get = func(r *c41rec[T]) *T { return &r.In.V }
	default:
		r.LL = [][]T{nil, {x}}
		get = func(r *c41rec[T]) *T { return &r.LL[1][0] }
	}
	r.J, r.LJ, r.MJ = p, []jsonutils.JSONObject{p, nil}, map[string]jsonutils.JSONObject{"k": p}
	v = c41mar(r, all)
	d, ok := v.(*jsonutils.JSONDict)
	is(ok)
	is(c41at(d, w, false, "j") && c41at(d, w, false, "mj", "k") && c41at(d, arr(w, &node{k: kNull}), false, "lj"))
	switch {
	case len(r.L) > 0:
		is(c41at(d, arr(w), false, "l"))
	case len(r.M) > 0:
		is(c41at(d, obj1("k", w), false, "m"))
	case len(r.Q) > 0:
		is(c41at(d, arr(&node{k: kNull}, w), false, "q"))
	case len(r.QM) > 0:
		is(c41at(d, obj1("k", w), false, "qm"))
	case r.P != nil:
		is(c41at(d, w, false, "p"))
	case r.PO != nil:
		is(c41at(d, w, false, "po"))
	case len(r.LL) > 0:
		is(c41at(d, arr(&node{k: kNull}, arr(w)), false, "ll"))
	}
	for i, k := range []string{"v", "o", "in"} {
		e := z
		if place == 4 && i == 0 || place == 11 && i == 1 || place == 13 && i == 2 {
			e = w
		}
		if i == 2 {
			is(c41at(d, e, !all, k, "v"))
		} else {
			is(c41at(d, e, !all, k))
		}
	}
	is(place == 7 && c41at(d, arr(z, w), false, "a") || place != 7 && c41at(d, arr(z, z), false, "a"))
	var q c41rec[T]
	sym.Assert(v.Unmarshal(&q) == nil, "a struct of JSON values is read back")
	g := get(&q)
	sym.Assert(g != nil && w.same(read(g)), "a member of a JSON type is read back")
	sym.Assert(w.same(q.J) && len(q.LJ) == 2 && w.same(q.LJ[0]) && w.same(q.MJ["k"]), "a member of the type JSONObject is read back")
}

// Values of every JSON type at every place.
func C41_values() {
	n := 2
	if sym.Thorough() {
		n = 4
	}
	sym.Bound("values", "every boolean, every int64, 18 floats, strings of at most 2 bytes (4 thorough), arrays and objects of at most two parts (3 thorough); at the top, in slices, arrays, maps, fields, interfaces and pointers; Marshal and MarshalAll")
	switch sym.Choose("type", 6) {
	case 0:
		b := sym.Bool("x")
		c41all(jsonutils.NewBool(b), &node{k: kBool, b: b}, &node{k: kBool})
	case 1:
		i := sym.Int64("x")
		c41all(jsonutils.NewInt(i), &node{k: kInt, i: i}, &node{k: kInt})
	case 2:
		f := someFloats[sym.Choose("x", len(someFloats))]
		c41all(jsonutils.NewFloat64(f), &node{k: kFloat, f: f}, &node{k: kFloat})
	case 3:
		s := sym.StrUpTo("x", n)
		c41all(jsonutils.NewString(s), str(s), str(""))
	case 4:
		w := arr()
		for i := sym.Choose("len", 1+(n+2)/2); i > 0; i-- {
			w.kids = append(w.kids, anyScalar("x", scBasic, 1))
		}
		c41all(w.build().(*jsonutils.JSONArray), w, arr())
	default:
		w := &node{k: kObj}
		for i := sym.Choose("len", 1+(n+2)/2); i > 0; i-- {
			w.add(sym.StrUpTo("key", 1), anyScalar("x", scBasic, 1))
		}
		c41all(w.build().(*jsonutils.JSONDict), w, &node{k: kObj})
	}
}
