package h

import (
	"yunion.io/x/jsonutils"
	"yunion.io/x/pkg/tristate"

	"verifharness/sym"
)

// back fills dst from v, directly or through the text of v.
func back(v jsonutils.JSONObject, text bool, dst interface{}) bool {
	if text {
		w, err := jsonutils.ParseString(v.String())
		if err != nil {
			return false
		}
		v = w
	}
	return v.Unmarshal(dst) == nil
}

type c17nums struct {
	I   int
	I8  int8
	I16 int16
	I32 int32
	I64 int64
	U   uint
	U8  uint8
	U16 uint16
	U32 uint32
	U64 uint64
	M   myInt `json:"named"`
}

// Integers of every width, bit for bit, in every position.
func C17_int() {
	sym.Bound("int", "every 64-bit pattern of every integer kind, direct and through text, as a field")
	text := sym.Bool("text")
	x := sym.Int64("x")
	const msg = "an integer keeps all its bits"
	var n c17nums
	width := sym.Choose("width", 11)
	switch width {
	case 0:
		n.I = int(x)
	case 1:
		sym.Assume(x == int64(int8(x)))
		n.I8 = int8(x)
	case 2:
		sym.Assume(x == int64(int16(x)))
		n.I16 = int16(x)
	case 3:
		sym.Assume(x == int64(int32(x)))
		n.I32 = int32(x)
	case 4:
		n.I64 = x
	case 5:
		n.U = uint(x)
	case 6:
		sym.Assume(x == int64(uint8(x)))
		n.U8 = uint8(x)
	case 7:
		sym.Assume(x == int64(uint16(x)))
		n.U16 = uint16(x)
	case 8:
		sym.Assume(x == int64(uint32(x)))
		n.U32 = uint32(x)
	case 9:
		n.U64 = uint64(x)
	default:
		sym.Assume(x == int64(int32(x)))
		n.M = myInt(x)
	}
	var r c17nums
	v := jsonutils.Marshal(n)
	ok := back(v, text, &r)
	sym.Assert(ok && r == n, msg)
	if name := []string{"i", "i8", "i16", "i32", "i64", "u", "u8", "u16", "u32", "u64", "named"}[width]; x >= 0 || width != 5 && width != 9 {
		if text {
			// the text shows it
			var err error
			v, err = jsonutils.ParseString(v.String())
			sym.Assert(err == nil, "the text parses")
		}
		i, err := v.Int(name)
		sym.Assert(err == nil && i == x, "an integer is shown as that number")
	}
}

// C17: what Go values are in JSON.
func C17_shown() {
	sym.Bound("shown", "every 64-bit pattern of every integer kind, booleans, strings of at most 3 bytes, listed floats of either width, as such, of a named type, behind a pointer or in a list; nil pointers, lists, maps and interfaces")
	const msg = "a Go value is the JSON value of its content"
	var x interface{}
	var n *node
	switch sym.Choose("kind", 5) {
	case 0:
		i := sym.Int64("x")
		n = &node{k: kInt}
		switch sym.Choose("width", 12) {
		case 0:
			x, n.i = int(i), i
		case 1:
			x, n.i = int8(i), int64(int8(i))
		case 2:
			x, n.i = int16(i), int64(int16(i))
		case 3:
			x, n.i = int32(i), int64(int32(i))
		case 4:
			x, n.i = i, i
		case 5:
			sym.Assume(i >= 0)
			x, n.i = uint(i), i
		case 6:
			x, n.i = uint8(i), int64(uint8(i))
		case 7:
			x, n.i = uint16(i), int64(uint16(i))
		case 8:
			x, n.i = uint32(i), int64(uint32(i))
		case 9:
			sym.Assume(i >= 0)
			x, n.i = uint64(i), i
		case 10:
			x, n.i = myInt(i), int64(myInt(i))
		case 11:
			j := uint32(i)
			x, n.i = &j, int64(j)
		}
	case 1:
		b := sym.Bool("b")
		x, n = b, &node{k: kBool, b: b}
		if sym.Bool("pointer") {
			x = &b
		}
	case 2:
		s := sym.StrUpTo("s", 3)
		x, n = s, str(s)
		switch sym.Choose("of", 3) {
		case 1:
			x = &s
		case 2:
			x = c17text(s)
		}
	case 3:
		f := someFloats[sym.Choose("f", len(someFloats))]
		x, n = f, &node{k: kFloat, f: f}
		if sym.Bool("pointer") {
			x = &f
		}
	case 4:
		n = &node{k: kNull}
		switch sym.Choose("nil", 5) {
		case 1:
			x = (*int)(nil)
		case 2:
			x = []string(nil)
		case 3:
			x = map[string]int(nil)
		case 4:
			x = (*c17link)(nil)
		}
	}
	sym.Assert(n.same(jsonutils.Marshal(x)), msg)
	sym.Assert(arr(n, n).same(jsonutils.Marshal([]interface{}{x, x})), msg)
	sym.Assert(arr(n).same(jsonutils.Marshal([1]interface{}{x})), msg)
	v := jsonutils.MarshalAll(map[string]interface{}{"k": x})
	sym.Assert(obj1("k", n).same(v), msg)
}

type c17text string

// the positions a value of type T is tried in
type c17at[T any] struct {
	V T
	P *T
	L []T
	A [2]T
	M map[string]T
	I struct{ V T }
	Q []*T
}

// everywhere round-trips x in every position of c17at.
func everywhere[T comparable](x, zero T, text bool, what string) {
	msg := what + " comes back the same as a "
	var r T
	sym.Assert(back(jsonutils.Marshal(x), text, &r) && r == x, msg+"value")
	p := &x
	var rp *T
	sym.Assert(back(jsonutils.Marshal(&p), text, &rp) && rp != nil && *rp == x, msg+"pointer")
	var l []T
	sym.Assert(back(jsonutils.Marshal([]T{x, zero, x}), text, &l) && len(l) == 3 && l[0] == x && l[1] == zero && l[2] == x, msg+"slice element")
	var a [2]T
	sym.Assert(back(jsonutils.Marshal([2]T{zero, x}), text, &a) && a[0] == zero && a[1] == x, msg+"array element")
	var m map[string]T
	sym.Assert(back(jsonutils.Marshal(map[string]T{"k": x, "": zero}), text, &m) && len(m) == 2 && m["k"] == x && m[""] == zero, msg+"map value")
	s := c17at[T]{V: x, P: &x, L: []T{x}, A: [2]T{x, zero}, M: map[string]T{"x": x}, Q: []*T{nil, &x}}
	s.I.V = x
	var q c17at[T]
	sym.Assert(back(jsonutils.Marshal(s), text, &q), "a struct holding it is read back")
	sym.Assert(q.V == x && len(q.L) == 1 && q.L[0] == x && q.A[0] == x && q.A[1] == zero && len(q.M) == 1 && q.M["x"] == x && q.I.V == x, msg+"field")
	sym.Assert(len(q.Q) == 2 && q.Q[0] == nil && q.Q[1] != nil && *q.Q[1] == x, msg+"slice element behind a pointer")
	// a pointer to an omitted empty value comes back nil
	sym.Assert(q.P != nil && *q.P == x || q.P == nil && x == zero, msg+"field behind a pointer")
}

func C17_positions() {
	sym.Bound("positions", "every boolean, ASCII strings of at most 2 (3 thorough) bytes, 18 boundary floats as 64 and 32 bits, integers -99..99, named strings; as value, pointer, slice and array element, map value, field, and behind pointers in slices")
	text := sym.Bool("text")
	switch sym.Choose("type", 6) {
	case 0:
		everywhere(sym.Bool("x"), false, text, "a boolean")
	case 1:
		k := 2
		if sym.Thorough() {
			k = 3
		}
		s := sym.ASCII("x", sym.Choose("len", k+1))
		everywhere(s, "", text, "a string")
	case 2:
		everywhere(someFloats[sym.Choose("float", len(someFloats))], 0, text, "a float")
	case 3:
		everywhere(float32(someFloats[sym.Choose("float", len(someFloats))]), 0, text, "a 32-bit float")
	case 4:
		everywhere(int16(sym.Int64In("x", -99, 99)), 0, text, "an integer")
	case 5:
		everywhere(myString(sym.ASCII("x", 1)), "", text, "a named string")
	}
}

// Strings of arbitrary bytes without going through text.
func C17_bytes() {
	n := 3
	if sym.Thorough() {
		n = 5
	}
	s := sym.StrUpTo("s", n)
	sym.Bound("string", "up to the length bound, all bytes")
	type rec struct {
		S string
		M map[string]string
		L []string
	}
	in := rec{S: s, M: map[string]string{"a" + s: s}, L: []string{s, ""}}
	var out rec
	sym.Assert(jsonutils.Marshal(in).Unmarshal(&out) == nil && out.S == s && len(out.M) == 1 && out.M["a"+s] == s && len(out.L) == 2 && out.L[0] == s && out.L[1] == "", "arbitrary bytes survive marshal and unmarshal")
}

type c17leaf struct {
	A int8
	S string `json:"s"`
}

type C17base struct {
	Id   uint8
	Name string
}

type C17ptrBase struct {
	Level int8
}

type c17tree struct {
	C17base
	*C17ptrBase
	Own   C17base `json:"own"`
	Leaf  c17leaf
	PLeaf *c17leaf
	Ls    []c17leaf
	PLs   []*c17leaf
	LL    [][]int8 `json:"ll"`
	Arr   [2]c17leaf
	Ms    map[string]c17leaf
	MPs   map[string]*c17leaf
	MM    map[string]map[string]bool `json:"mm"`
	LM    []map[string]int8          `json:"lm"`
	ML    map[string][]string        `json:"ml"`
	MyM   map[myString]myBool        `json:"mym"`
	PL    *[]int8                    `json:"pl"`
	PM    *map[string]int8           `json:"pm"`
	T     tristate.TriState          `json:"t"`
	D     int8                       `json:"d,omitzero"`
	Q     int8                       `json:"q,string"`
	QB    bool                       `json:"qb,string"`
	QF    float64                    `json:"qf,string"`
	F     bool                       `json:"f,omitfalse"`
	Sk    int                        `json:"-"`
}

func anyLeaf(name string) c17leaf {
	return c17leaf{A: int8(sym.Int64In(name+".a", -9, 9)), S: sym.ASCII(name+".s", sym.Choose(name+".len", 2))}
}

func anyInt8(name string) int8 { return int8(sym.Int64In(name, -9, 9)) }

// Nested and embedded structs, containers and pointers of every combination
// of the family, one kind of member at a time.
func C17_tree() {
	sym.Bound("tree", "one family of 25 nested members (embedded, pointers, containers of containers, named types, options); containers of at most 3 elements, integers -9..9, strings of at most one byte")
	text := sym.Bool("text")
	var x, r c17tree
	round := func() {
		v := jsonutils.Marshal(x)
		sym.Assert(back(v, text, &r), "a struct is read back")
	}
	switch sym.Choose("member", 17) {
	case 0:
		x.Id, x.Name = sym.Byte("id"), sym.ASCII("name", sym.Choose("len", 2))
		x.Own = C17base{sym.Byte("id2"), "n"}
		round()
		sym.Assert(r.C17base == x.C17base && r.Own == x.Own, "embedded structs and structs of the same type as a field are kept apart")
		sym.Assert(r.C17ptrBase == nil || *r.C17ptrBase == C17ptrBase{}, "an absent embedded struct stays empty")
	case 1:
		x.C17ptrBase = &C17ptrBase{anyInt8("level")}
		round()
		sym.Assert(r.C17ptrBase != nil && *r.C17ptrBase == *x.C17ptrBase, "a struct embedded by pointer comes back")
	case 2:
		x.Leaf = anyLeaf("leaf")
		if sym.Bool("ptr") {
			l := anyLeaf("pleaf")
			x.PLeaf = &l
		}
		round()
		sym.Assert(r.Leaf == x.Leaf, "a nested struct comes back")
		sym.Assert((r.PLeaf == nil) == (x.PLeaf == nil) && (x.PLeaf == nil || *r.PLeaf == *x.PLeaf), "a pointer to a struct comes back")
	case 3:
		n := sym.Choose("n", 3)
		for i := 0; i < n; i++ {
			x.Ls = append(x.Ls, anyLeaf("l"))
		}
		round()
		ok := len(r.Ls) == n
		for i := 0; ok && i < n; i++ {
			ok = r.Ls[i] == x.Ls[i]
		}
		sym.Assert(ok, "a slice of structs comes back")
	case 4:
		n := sym.Choose("n", 4)
		for i := 0; i < n; i++ {
			var p *c17leaf
			if sym.Bool("set") {
				l := c17leaf{A: anyInt8("l")}
				p = &l
			}
			x.PLs = append(x.PLs, p)
		}
		round()
		ok := len(r.PLs) == n
		for i := 0; ok && i < n; i++ {
			ok = (r.PLs[i] == nil) == (x.PLs[i] == nil) && (x.PLs[i] == nil || *r.PLs[i] == *x.PLs[i])
		}
		sym.Assert(ok, "a slice of pointers comes back with nil elements in place")
	case 5:
		n := sym.Choose("n", 3)
		for i := 0; i < n; i++ {
			var l []int8
			for k := sym.Choose("k", 3); k > 0; k-- {
				l = append(l, anyInt8("e"))
			}
			x.LL = append(x.LL, l)
		}
		round()
		ok := len(r.LL) == n
		for i := 0; ok && i < n; i++ {
			ok = len(r.LL[i]) == len(x.LL[i])
			for j := 0; ok && j < len(x.LL[i]); j++ {
				ok = r.LL[i][j] == x.LL[i][j]
			}
		}
		sym.Assert(ok, "a slice of slices comes back")
	case 6:
		x.Arr = [2]c17leaf{anyLeaf("a0"), anyLeaf("a1")}
		round()
		sym.Assert(r.Arr == x.Arr, "an array of structs comes back")
	case 7:
		k := sym.ASCII("k", sym.Choose("klen", 2))
		x.Ms = map[string]c17leaf{k: anyLeaf("v")}
		if sym.Bool("two") {
			x.Ms["zz"] = c17leaf{A: 1}
		}
		round()
		sym.Assert(len(r.Ms) == len(x.Ms) && r.Ms[k] == x.Ms[k] && r.Ms["zz"] == x.Ms["zz"], "a map of structs comes back")
	case 8:
		l := anyLeaf("v")
		x.MPs = map[string]*c17leaf{"a": &l}
		if sym.Bool("nil") {
			x.MPs["b"] = nil // a nil member may be left out
		}
		round()
		sym.Assert(r.MPs["a"] != nil && *r.MPs["a"] == l && r.MPs["b"] == nil && len(r.MPs) <= len(x.MPs), "a map of pointers comes back")
	case 9:
		x.MM = map[string]map[string]bool{"a": {"x": sym.Bool("x"), "y": sym.Bool("y")}, "b": {}}
		round()
		sym.Assert(len(r.MM) == 2 && len(r.MM["a"]) == 2 && r.MM["a"]["x"] == x.MM["a"]["x"] && r.MM["a"]["y"] == x.MM["a"]["y"] && len(r.MM["b"]) == 0, "a map of maps comes back")
	case 10:
		x.LM = []map[string]int8{{}, {"a": anyInt8("a")}, {"a": 1, "b": anyInt8("b")}}
		round()
		sym.Assert(len(r.LM) == 3 && len(r.LM[0]) == 0 && len(r.LM[1]) == 1 && len(r.LM[2]) == 2 && r.LM[1]["a"] == x.LM[1]["a"] && r.LM[2]["a"] == 1 && r.LM[2]["b"] == x.LM[2]["b"], "a slice of maps comes back without mixing elements")
	case 11:
		s := sym.ASCII("s", 1)
		x.ML = map[string][]string{"a": {s, ""}, "b": {}}
		round()
		sym.Assert(len(r.ML) == 2 && len(r.ML["a"]) == 2 && r.ML["a"][0] == s && r.ML["a"][1] == "" && len(r.ML["b"]) == 0, "a map of slices comes back")
	case 12:
		k := myString(sym.ASCII("k", 1))
		x.MyM = map[myString]myBool{k: myBool(sym.Bool("b"))}
		round()
		sym.Assert(len(r.MyM) == 1 && r.MyM[k] == x.MyM[k], "a map with named key and value types comes back")
	case 13:
		l := []int8{anyInt8("a"), anyInt8("b")}
		x.PL = &l
		m := map[string]int8{"k": anyInt8("c")}
		x.PM = &m
		round()
		sym.Assert(r.PL != nil && len(*r.PL) == 2 && (*r.PL)[0] == l[0] && (*r.PL)[1] == l[1] && r.PM != nil && len(*r.PM) == 1 && (*r.PM)["k"] == m["k"], "pointers to containers come back")
	case 14:
		x.T = []tristate.TriState{tristate.None, tristate.False, tristate.True}[sym.Choose("tri", 3)]
		round()
		sym.Assert(r.T == x.T, "a tri-state comes back")
	case 15:
		x.D, x.Q, x.QB, x.F = anyInt8("d"), anyInt8("q"), sym.Bool("qb"), sym.Bool("f")
		x.QF = someFloats[sym.Choose("qf", len(someFloats))]
		round()
		sym.Assert(r.D == x.D && r.Q == x.Q && r.QB == x.QB && r.F == x.F && r.QF == x.QF, "fields with omitzero, omitfalse and string options come back")
	default:
		x.Sk = 5
		round()
		sym.Assert(r.Sk == 0 && r.PLeaf == nil && len(r.Ls) == 0 && len(r.Ms) == 0 && r.PL == nil && r.PM == nil, "an empty struct comes back empty")
	}
}

// Shared parts are not cycles: each use comes back with its content.
func C17_shared() {
	sym.Bound("shared", "one structure with a leaf shared by four pointers")
	text := sym.Bool("text")
	l := anyLeaf("l")
	x := c17tree{PLeaf: &l, PLs: []*c17leaf{&l, &l}, MPs: map[string]*c17leaf{"a": &l}}
	var r c17tree
	sym.Assert(back(jsonutils.Marshal(&x), text, &r), "a struct is read back")
	sym.Assert(r.PLeaf != nil && *r.PLeaf == l && len(r.PLs) == 2 && r.PLs[0] != nil && *r.PLs[0] == l && r.PLs[1] != nil && *r.PLs[1] == l && r.MPs["a"] != nil && *r.MPs["a"] == l, "a shared pointer target comes back at every use")
}

// Named types whose String method says something else.
type (
	c17strS string
	c17intS int16
	c17bolS bool
	c17errS string
)

func (c17strS) String() string { return "other" }
func (c17intS) String() string { return "other" }
func (c17bolS) String() string { return "other" }
func (c17errS) Error() string  { return "other" }

type c17opts struct {
	S c17strS `json:"s,omitempty"`
	I c17intS `json:"i,string"`
	B c17bolS `json:"b,string"`
}

// Types with a String or Error method are taken by value, not by its result.
func C17_methods() {
	sym.Bound("methods", "named strings, integers and booleans with a String or Error method as value, pointer, element, map key, map value and field; strings of one byte, integers -9..9")
	text := sym.Bool("text")
	switch sym.Choose("type", 5) {
	case 0:
		everywhere(c17strS(sym.ASCII("x", 1)), "", text, "a string with a String method")
	case 1:
		everywhere(c17intS(sym.Int64In("x", -9, 9)), 0, text, "an integer with a String method")
	case 2:
		everywhere(c17bolS(sym.Bool("x")), false, text, "a boolean with a String method")
	case 3:
		a, b := c17strS(sym.ASCII("a", 1)), c17errS(sym.ASCII("b", 1))
		x := map[c17strS]map[c17errS]int8{a: {b: anyInt8("v"), "two": 2}, "two": {}}
		var r map[c17strS]map[c17errS]int8
		sym.Assert(back(jsonutils.Marshal(x), text, &r), "a map is read back")
		sym.Assert(len(r) == 2 && len(r[a]) == 2 && len(r["two"]) == 0 && r[a][b] == x[a][b] && r[a]["two"] == 2, "the keys of a map come back as they are")
	default:
		x, r := c17opts{S: c17strS(sym.ASCII("s", 1)), I: c17intS(sym.Int64In("i", -9, 9)), B: c17bolS(sym.Bool("b"))}, c17opts{}
		sym.Assert(back(jsonutils.Marshal(x), text, &r) && r == x, "fields with the string option come back")
	}
}
