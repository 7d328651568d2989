package h

import (
	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

type C37A struct {
	X string `json:"same"`
	A string `json:"a"`
}

type C37B struct {
	Y string `json:"same"`
	A string
}

type C37C struct {
	Same string
	C37D
}

type C37D struct {
	Z string `json:"same"`
	A int8   `json:"a"`
}

type c37same struct {
	C37A
	*C37B
	Own string `json:"same"`
	C37C
	Last string `json:"last"`
}

// C37: more than two fields of the same name.
func C37_same() {
	sym.Bound("same", "a struct with five fields of one name and three of another in embedded structs, an embedded pointer and an embedded struct in an embedded struct; each member present or not, arbitrary content of one byte")
	var x c37same
	x.X, x.Own, x.Same, x.Z, x.Last, x.C37A.A, x.C37D.A = "old", "old", "old", "old", "old", "old", 7
	d := jsonutils.NewDict()
	b, n, l := sym.Bool("b"), sym.Bool("same"), sym.Bool("last")
	if b {
		x.C37B = &C37B{"old", "old"}
	}
	s, a, last := "old", "old", "old"
	if n {
		s = sym.ASCII("s", 1)
		d.Set("same", jsonutils.NewString(s))
	}
	digit := sym.Bool("a")
	if digit {
		a = c21digit("a")
		d.Set("a", jsonutils.NewString(a))
	}
	if l {
		last = sym.ASCII("l", 1)
		d.Set("last", jsonutils.NewString(last))
	}
	const msg = "every member fills the fields of its name and nothing else"
	sym.Assert(d.Unmarshal(&x) == nil, "members of the right kind fill a struct")
	sym.Assert(x.X == s && x.Own == s && x.Same == s && x.Z == s && x.Last == last, msg)
	sym.Assert(x.C37A.A == a, msg)
	if digit {
		sym.Assert(x.C37D.A == int8(a[0]-'0'), msg)
	} else {
		sym.Assert(x.C37D.A == 7, msg)
	}
	sym.Assert((x.C37B != nil) == (b || n || digit), "an embedded pointer is allocated only for a member of it")
	if x.C37B != nil {
		old := ""
		if b {
			old = "old"
		}
		y, ba := old, old
		if n {
			y = s
		}
		if digit {
			ba = a
		}
		sym.Assert(x.Y == y && x.C37B.A == ba, msg)
	}
}
