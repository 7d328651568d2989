package h

import (
	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

func prettyTrip(n *node) {
	v := n.build()
	s := v.PrettyString()
	w, end, err := jsonutils.ParseStream(tight(s), 0)
	sym.Assert(err == nil, "the pretty text parses")
	sym.Assert(end == len(s), "all of the pretty text is consumed")
	sym.Assert(n.same(w), "the reparsed value has the original content")
	sym.Assert(w.String() == v.String(), "the reparsed value has the same compact text")
	sym.Assert(w.PrettyString() == s, "the reparsed value has the same pretty text")
	sym.Observe("text", s)
}

// C03: pretty text of scalars, also inside containers.
func C03_scalar() {
	n := 3
	if sym.Thorough() {
		n = 5
	}
	sym.Bound("scalars", "null, bool, every int64, listed floats, every byte string of at most 3 bytes (5 thorough), alone, in an array, or in an object under a key of at most 2 bytes")
	v := anyScalar("v", scFull, n)
	switch sym.Choose("in", 3) {
	case 0:
		prettyTrip(v)
	case 1:
		prettyTrip(arr(v))
	default:
		prettyTrip(obj1(sym.StrUpTo("key", 2), v))
	}
}

// C03: pretty text of nested structures.
func C03_tree() {
	depth, budget := 2, 2
	if sym.Thorough() {
		depth, budget = 2, 3
	}
	sym.Bound("trees", "every nesting with at most 2 values below the top (3 thorough), depth 3, keys and strings of at most one byte, ints -9..9")
	prettyTrip(anyTree("v", depth, &budget, 1, true))
}
