package h

import (
	"yunion.io/x/jsonutils"
	"yunion.io/x/pkg/tristate"

	"verifharness/sym"
)

type c36in struct {
	A int64  `json:"a"`
	B string `json:"b"`
}

type c36 struct {
	C36Emb
	I int64             `json:"i"`
	Z int64             `json:"z,omitzero"`
	S string            `json:"s"`
	B bool              `json:"b,omitfalse"`
	T tristate.TriState `json:"t"`
	L []string          `json:"l"`
	M map[string]int64  `json:"m"`
	P *int64            `json:"p"`
	N c36in             `json:"n"`
	Q *c36in            `json:"q"`
	H string            `json:"-"`
	F float64           `json:"f"`
}

type C36Emb struct {
	E string `json:"e"`
}

func c36any(name string, field int) (x c36) {
	switch field {
	case 0:
		x.I = sym.Int64In(name, -9, 9)
	case 1:
		x.Z = sym.Int64In(name, -1, 1)
	case 2:
		x.S = sym.ASCII(name, sym.Choose(name+".len", 2))
	case 3:
		x.B = sym.Bool(name)
	case 4:
		x.T = []tristate.TriState{tristate.None, tristate.True, tristate.False}[sym.Choose(name, 3)]
	case 5:
		for i := sym.Choose(name, 3); i > 0; i-- {
			x.L = append(x.L, sym.ASCII(name+".l", 1))
		}
	case 6:
		if n := sym.Choose(name, 3); n > 0 {
			x.M = map[string]int64{sym.From(name+".k", 1, "xy"): sym.Int64In(name+".v", -9, 9)}
			if n > 1 {
				x.M["z"] = 5
			}
		}
	case 7:
		if sym.Choose(name, 2) == 1 {
			x.P = new(int64)
			*x.P = sym.Int64In(name+".p", -9, 9)
		}
	case 8:
		x.N = c36in{sym.Int64In(name+".a", -1, 1), sym.ASCII(name+".b", sym.Choose(name+".len", 2))}
	case 9:
		if sym.Choose(name, 2) == 1 {
			x.Q = &c36in{sym.Int64In(name+".a", -1, 1), sym.ASCII(name+".b", sym.Choose(name+".len", 2))}
		}
	case 10:
		x.E = sym.ASCII(name, sym.Choose(name+".len", 2))
	case 11:
		x.F = someFloats[sym.Choose(name, len(someFloats))]
	}
	x.H = name
	return
}

func (x c36) same(y c36) bool {
	if x.E != y.E || x.I != y.I || x.Z != y.Z || x.S != y.S || x.B != y.B || x.T != y.T || x.N != y.N || x.F != y.F || x.H != y.H {
		return false
	}
	if len(x.L) != len(y.L) || len(x.M) != len(y.M) {
		return false
	}
	for i := range x.L {
		if x.L[i] != y.L[i] {
			return false
		}
	}
	for k, v := range x.M {
		if w, ok := y.M[k]; !ok || v != w {
			return false
		}
	}
	if (x.P == nil) != (y.P == nil) || x.P != nil && *x.P != *y.P {
		return false
	}
	return (x.Q == nil) == (y.Q == nil) && (x.Q == nil || *x.Q == *y.Q)
}

func (x c36) clone() c36 {
	x.L = append([]string(nil), x.L...)
	if x.M != nil {
		m := map[string]int64{}
		for k, v := range x.M {
			m[k] = v
		}
		x.M = m
	}
	if x.P != nil {
		p := *x.P
		x.P = &p
	}
	if x.Q != nil {
		q := *x.Q
		x.Q = &q
	}
	return x
}

func (x *c36in) take(y c36in) {
	x.A = y.A
	if y.B != "" {
		x.B = y.B
	}
}

// take is the model of an update: what y emits replaces what x has.
func (x *c36) take(y c36) {
	if y.E != "" {
		x.E = y.E
	}
	x.I = y.I
	if y.Z != 0 {
		x.Z = y.Z
	}
	if y.S != "" {
		x.S = y.S
	}
	if y.B {
		x.B = true
	}
	if y.T != tristate.None {
		x.T = y.T
	}
	if len(y.L) > 0 {
		x.L = append([]string(nil), y.L...)
	}
	for k, v := range y.M {
		if x.M == nil {
			x.M = map[string]int64{}
		}
		x.M[k] = v
	}
	if y.P != nil {
		p := *y.P
		x.P = &p
	}
	x.N.take(y.N)
	if y.Q != nil {
		if x.Q == nil {
			x.Q = &c36in{}
		}
		x.Q.take(*y.Q)
	}
	x.F = y.F
}

// C36: a struct updated from another of its type.
func C36_struct() {
	sym.Bound("struct", "a struct of 12 exported fields of the common kinds (two of which are set arbitrarily on either side) updated from another of its type, by value or pointer; then either side changed")
	f := sym.Choose("field", 12)
	x, y := c36any("x", f), c36any("y", f)
	want, src := x.clone(), y.clone()
	want.take(y)
	var err error
	if sym.Choose("ptr", 2) == 1 {
		err = jsonutils.Update(&x, &y)
	} else {
		err = jsonutils.Update(&x, y)
	}
	sym.Assert(err == nil, "the update succeeds")
	sym.Assert(want.same(x), "members that the source emits are taken over, all others stay")
	sym.Assert(src.same(y), "the source is unchanged")
	// later changes
	for i := range x.L {
		x.L[i] = "changed"
	}
	for k := range x.M {
		x.M[k] = 99
	}
	if x.P != nil {
		*x.P = 99
	}
	if x.Q != nil {
		x.Q.A = 99
	}
	sym.Assert(src.same(y), "the destination shares nothing with the source")
}

// C36: other kinds of source and destination.
func C36_kinds() {
	sym.Bound("kinds", "structs with some common names, maps and JSON objects as source and destination, arbitrary small content")
	x := c36in{A: sym.Int64In("a", -9, 9), B: sym.ASCII("b", 1)}
	c := sym.ASCII("c", 1)
	switch sym.Choose("kind", 6) {
	case 0:
		// names in common only
		dst := struct {
			A int64  `json:"a"`
			C string `json:"c"`
		}{1, c}
		sym.Assert(jsonutils.Update(&dst, x) == nil && dst.A == x.A && dst.C == c, "fields of the same name are taken over")
	case 1:
		dst := c36in{A: 1, B: "x"}
		sym.Assert(jsonutils.Update(&dst, map[string]string{"b": c, "c": "y"}) == nil && dst.A == 1 && dst.B == c, "a struct is updated from a map")
	case 2:
		dst := map[string]string{"c": c, "b": "old"}
		sym.Assert(jsonutils.Update(&dst, map[string]string{"b": x.B, "n": "new"}) == nil, "a map is updated")
		sym.Assert(len(dst) == 3 && dst["b"] == x.B && dst["c"] == c && dst["n"] == "new", "a map holds the union, with the source winning")
	case 3:
		dst := dict1("c", jsonutils.NewString(c))
		dst.Set("a", jsonutils.NewString("old"))
		sym.Assert(jsonutils.Update(dst, x) == nil, "an object is updated")
		a, err := dst.Int("a")
		b, err2 := dst.GetString("b")
		d, err3 := dst.GetString("c")
		sym.Assert(err == nil && err2 == nil && err3 == nil && a == x.A && b == x.B && d == c && dst.Length() == 3, "an object holds the union, with the source winning")
	case 4:
		src := dict1("b", jsonutils.NewString(c))
		dst := x
		sym.Assert(jsonutils.Update(&dst, src) == nil && dst.A == x.A && dst.B == c, "a struct is updated from an object")
		sym.Assert(src.Length() == 1 && src.String() == dict1("b", jsonutils.NewString(c)).String(), "the source is unchanged")
	case 5:
		// nothing to take over
		dst := x
		var none *c36in
		sym.Assert(jsonutils.Update(&dst, map[string]int{}) == nil && dst == x, "an empty source changes nothing")
		sym.Assert(jsonutils.Update(&dst, none) == nil && dst == c36in{}, "null resets the destination")
	}
}

// C36: fields that do not fit.
func C36_mismatch() {
	sym.Bound("mismatch", "a source of three members of which any may not fit its field in the destination")
	dst := struct {
		A int64   `json:"a"`
		B []int64 `json:"b"`
		C c36in   `json:"c"`
		D string  `json:"d"`
	}{1, []int64{2}, c36in{3, "c"}, "d"}
	src := map[string]interface{}{}
	i := sym.Int64In("i", -9, 9)
	pick := func(name string, good interface{}, bad ...interface{}) bool {
		k := sym.Choose(name, len(bad)+1)
		if k == 0 {
			src[name] = good
			return true
		}
		src[name] = bad[k-1]
		return false
	}
	a := pick("a", i, "x", map[string]int64{"x": i}, []int64{i})
	b := pick("b", []int64{i, i}, i, map[string]int64{"x": i}, []string{"x"})
	c := pick("c", map[string]int64{"a": i}, "z", []int64{i}, map[string]string{"a": "z"})
	src["d"] = i
	err := jsonutils.Update(&dst, src)
	sym.Assert((err == nil) == (a && b && c), "a member that does not fit is an error")
	sym.Assert(!a || dst.A == i, "the members that fit are taken over")
	sym.Assert(!b || len(dst.B) == 2 && dst.B[0] == i && dst.B[1] == i, "the members that fit are taken over")
	sym.Assert(!c || dst.C.A == i && dst.C.B == "c", "the members that fit are taken over")
	sym.Assert(dst.D == jsonutils.NewInt(i).String(), "the members that fit are taken over")
	sym.Assert((a || dst.A == 1) && (b || len(dst.B) == 1 && dst.B[0] == 2) && (c || dst.C == c36in{3, "c"}), "fields whose member does not fit stay")
}
