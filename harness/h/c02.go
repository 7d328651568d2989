package h

import (
	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

func roundTrip(n *node) {
	v := n.build()
	s := v.String()
	w, end, err := jsonutils.ParseStream(tight(s), 0)
	sym.Assert(err == nil, "the compact text parses")
	sym.Assert(end == len(s), "all of the compact text is consumed")
	sym.Assert(n.same(w), "the reparsed value has the original content")
	if !hasFloat(n) {
		sym.Assert(v.Equals(w), "original equals reparsed")
		sym.Assert(w.Equals(v), "reparsed equals original")
	}
	sym.Assert(w.String() == s, "the reparsed value renders the same")
	sym.Assert(v.String() == s, "rendering again gives the same text")
	sym.Observe("text", s)
}

func hasFloat(n *node) bool {
	if n.k == kFloat {
		return true
	}
	for _, c := range n.kids {
		if hasFloat(c) {
			return true
		}
	}
	return false
}

// C02: compact text round trip of scalars.
func C02_scalar() {
	n := 4
	if sym.Thorough() {
		n = 7
	}
	sym.Bound("scalars", "null, bool, every int64, listed floats, every byte string of at most 4 bytes (7 thorough)")
	roundTrip(anyScalar("v", scFull, n))
}

// C02: scalars as elements and members.
func C02_in_container() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	sym.Bound("containers of scalars", "one or two full-range scalars in an array or object, keys and strings up to n bytes")
	v := anyScalar("v", scFull, n)
	if sym.Choose("in", 2) == 0 {
		roundTrip(arr(v, str("")))
	} else {
		roundTrip(obj1(sym.StrUpTo("key", n), v))
	}
}

// C02: nested structures.
func C02_tree() {
	depth, budget := 2, 2
	if sym.Thorough() {
		depth, budget = 2, 3
	}
	sym.Bound("trees", "every nesting with at most 2 values below the top (3 thorough), depth 3, keys and strings of at most one byte, ints -9..9")
	roundTrip(anyTree("v", depth, &budget, 1, true))
}

// C02: the text does not depend on how an object was filled.
func C02_canonical() {
	l := 1
	if sym.Thorough() {
		l = 2
	}
	sym.Bound("canonical", "three distinct keys of at most 1 byte (2 thorough) set in two orders")
	k1, k2, k3 := sym.StrUpTo("k1", l), sym.StrUpTo("k2", l), sym.StrUpTo("k3", 1)
	a, b := jsonutils.NewDict(), jsonutils.NewDict()
	x, y, z := jsonutils.NewInt(1), jsonutils.NewString("y"), jsonutils.NewArray()
	sym.Assume(k1 != k2 && k2 != k3 && k1 != k3)
	a.Set(k1, x)
	a.Set(k2, y)
	a.Set(k3, z)
	b.Set(k3, z)
	b.Set(k2, x)
	b.Set(k1, x)
	b.Set(k2, y)
	sym.Assert(a.String() == b.String(), "the compact text is a function of the content")
	sym.Assert(a.PrettyString() == b.PrettyString(), "the pretty text is a function of the content")
	sym.Observe("text", a.String())
}
