package h

import (
	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

func decodable(v jsonutils.JSONObject, n *node) {
	s := v.String()
	sym.Observe("text", s)
	w, ok := rfcParse(s)
	sym.Assert(ok, "the compact text is grammatical under RFC 8259")
	sym.Assert(n.numEq(w), "an RFC 8259 decoder recovers the value")
}

// C04: every scalar.
func C04_scalar() {
	n := 4
	if sym.Thorough() {
		n = 6
	}
	sym.Bound("scalars", "null, bool, every int64, listed floats, every byte string of at most 4 bytes (6 thorough)")
	v := anyScalar("v", scFull, n)
	decodable(v.build(), v)
}

// C04: scalars as elements and members.
func C04_container() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	sym.Bound("containers of scalars", "one full-range scalar among others in an array or object, keys and strings up to 2 bytes (3 thorough)")
	v := anyScalar("v", scFull, n)
	switch sym.Choose("in", 4) {
	case 0:
		v = arr(v, str("a"))
	case 1:
		v = obj1(sym.StrUpTo("key", n), v)
	case 2:
		v = arr(arr(), v, &node{k: kObj})
	case 3:
		w := &node{k: kObj}
		w.add("b", arr(v))
		w.add("a", obj1("", v))
		v = w
	}
	decodable(v.build(), v)
}

// C04: nested structures.
func C04_tree() {
	depth, budget := 2, 2
	if sym.Thorough() {
		depth, budget = 3, 4
	}
	sym.Bound("trees", "every nesting with at most 2 values below the top (4 thorough), depth 3 (4), keys and strings of at most one byte, ints -9..9")
	v := anyTree("v", depth, &budget, 1, true)
	decodable(v.build(), v)
}

// C04: a float32 is rendered as a number of that precision.
func C04_float32() {
	sym.Bound("float32", "seven 32-bit floats")
	f := []float32{0.1, 1.5, -3.25e10, 1e-10, 3.4e38, 16777216, 0}[sym.Choose("f", 7)]
	s := jsonutils.NewFloat32(f).String()
	w, ok := rfcParse(s)
	sym.Assert(ok, "the text of a float32 is grammatical")
	sym.Assert(w.k == kInt && float32(w.i) == f || w.k == kFloat && float32(w.f) == f, "the text of a float32 denotes it")
	sym.Observe("text", s)
}
