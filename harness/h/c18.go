package h

import (
	"encoding/json"
	"time"

	"yunion.io/x/jsonutils"
	"yunion.io/x/pkg/tristate"

	"verifharness/sym"
)

type c18node struct {
	A    *c18node
	B    []*c18node
	C    map[string]*c18node
	V    int8
	Any  interface{}
	Self **c18node `json:"self"`
}

type c18iface interface{ Foo() }

type c18foo struct{ A int }

func (f *c18foo) Foo() {}

// C18Own has a decoder of its own.
type C18Own struct{ N int }

func (o *C18Own) UnmarshalJSON(b []byte) error {
	o.N = len(b)
	return nil
}

type c18hidden struct{ A int }

func (h *c18hidden) AfterUnmarshal() { h.A++ }

// C18Shown has a callback.
type C18Shown struct {
	B int
	N int `json:"-"`
}

func (h *C18Shown) AfterUnmarshal() {
	if h != nil {
		h.N++
	}
}

type c18embed struct {
	c18hidden
	*C18Shown
	A int8
	B string
}

type c18dest struct {
	I     int
	U8    uint8
	F32   float32
	B     bool
	S     string
	T     tristate.TriState
	PT    *tristate.TriState
	Time  time.Time
	PTime *time.Time
	PI    *int
	PPI   **int
	L     []int8
	PL    *[]int8
	PPL   **[]int8
	LL    [][]string
	LS    []c18node
	LP    []*c18node
	LA    []interface{}
	LJ    []jsonutils.JSONObject
	LB    []byte
	Arr   [2]int8
	Arr0  [0]int8
	PArr  *[1]string
	M     map[string]int8
	PM    *map[string]string
	PPM   **map[string]string
	MA    map[string]interface{}
	ML    map[string][]int8
	MS    map[string]c18node
	MP    map[string]*c18node
	MI    map[int]string
	MJ    map[string]jsonutils.JSONObject
	MyM   map[myString]myInt
	N     c18node
	PN    *c18node
	PPN   **c18node
	E     c18embed
	PE    *c18embed
	An    struct{ A, B int8 }
	Any   interface{}
	PAny  *interface{}
	Foo   c18iface
	FooS  c18iface
	Own   C18Own
	POwn  *C18Own
	LOwn  []C18Own
	MOwn  map[string]C18Own
	Raw   json.RawMessage
	JO    jsonutils.JSONObject
	JD    jsonutils.JSONDict
	PJD   *jsonutils.JSONDict
	JA    jsonutils.JSONArray
	PJA   *jsonutils.JSONArray
	JS    jsonutils.JSONString
	PJS   *jsonutils.JSONString
	JI    jsonutils.JSONInt
	PJI   *jsonutils.JSONInt
	JF    jsonutils.JSONFloat
	PJF   *jsonutils.JSONFloat
	JB    jsonutils.JSONBool
	PJB   *jsonutils.JSONBool
	PPJD  **jsonutils.JSONDict
	Ch    chan int
	Fn    func()
	Cx    complex128
	Up    uintptr
}

// c18set is a destination whose fields are all set.
func c18set() *c18dest {
	d := &c18dest{}
	i := 3
	pi := &i
	l := make([]int8, 1, 4)
	pl := &l
	m := map[string]string{"a": "x"}
	pm := &m
	n := &c18node{}
	tr := tristate.True
	tm := time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)
	var any interface{} = 3
	jd := jsonutils.NewDict()
	*d = c18dest{I: 3, U8: 3, F32: 3, B: true, S: "3", T: tr, PT: &tr, Time: tm, PTime: &tm, PI: pi, PPI: &pi, L: l, PL: pl, PPL: &pl, LL: [][]string{{"x"}}, LS: make([]c18node, 1, 2), LP: []*c18node{n, nil}, LA: []interface{}{n, pi, 3}, LJ: []jsonutils.JSONObject{nil}, LB: []byte("x"), Arr: [2]int8{1, 2}, PArr: &[1]string{"x"},
		M: map[string]int8{"a": 1}, PM: pm, PPM: &pm, MA: map[string]interface{}{"a": n}, ML: map[string][]int8{"a": {1}}, MS: map[string]c18node{"a": {}}, MP: map[string]*c18node{"a": n}, MI: map[int]string{1: "x"}, MJ: map[string]jsonutils.JSONObject{"a": nil},
		N: c18node{A: n}, PN: n, PPN: &n, E: c18embed{C18Shown: &C18Shown{}}, PE: &c18embed{}, Any: any, PAny: &any, Foo: nil, FooS: &c18foo{}, POwn: &C18Own{}, Raw: json.RawMessage("1"), JO: jd, PJD: jd, PJA: jsonutils.NewArray(), PJS: jsonutils.NewString("x"), PJI: jsonutils.NewInt(1), PJF: jsonutils.NewFloat64(1), PJB: jsonutils.NewBool(true), PPJD: &jd, Fn: func() {}, Cx: 1}
	return d
}

const nDest = 67

// field returns a pointer to a field of d, its name, and what it holds: n
// number, b boolean, s string, l list, m map or struct, j any JSON, x other.
func (d *c18dest) field(i int) (string, interface{}, byte) {
	switch i {
	case 0:
		return "I", &d.I, 'n'
	case 1:
		return "U8", &d.U8, 'n'
	case 2:
		return "F32", &d.F32, 'n'
	case 3:
		return "B", &d.B, 'n'
	case 4:
		return "S", &d.S, 's'
	case 5:
		return "T", &d.T, 'n'
	case 6:
		return "PT", &d.PT, 'n'
	case 7:
		return "Time", &d.Time, 't'
	case 8:
		return "PTime", &d.PTime, 't'
	case 9:
		return "PI", &d.PI, 'n'
	case 10:
		return "PPI", &d.PPI, 'n'
	case 11:
		return "L", &d.L, 'l'
	case 12:
		return "PL", &d.PL, 'l'
	case 13:
		return "PPL", &d.PPL, 'x'
	case 14:
		return "LL", &d.LL, 'l'
	case 15:
		return "LS", &d.LS, 'l'
	case 16:
		return "LP", &d.LP, 'l'
	case 17:
		return "LA", &d.LA, 'l'
	case 18:
		return "LJ", &d.LJ, 'l'
	case 19:
		return "LB", &d.LB, 'l'
	case 20:
		return "Arr", &d.Arr, 'a'
	case 21:
		return "Arr0", &d.Arr0, 'a'
	case 22:
		return "PArr", &d.PArr, 'a'
	case 23:
		return "M", &d.M, 'm'
	case 24:
		return "PM", &d.PM, 'm'
	case 25:
		return "PPM", &d.PPM, 'x'
	case 26:
		return "MA", &d.MA, 'm'
	case 27:
		return "ML", &d.ML, 'm'
	case 28:
		return "MS", &d.MS, 'm'
	case 29:
		return "MP", &d.MP, 'm'
	case 30:
		return "MI", &d.MI, 'm'
	case 31:
		return "MJ", &d.MJ, 'm'
	case 32:
		return "MyM", &d.MyM, 'm'
	case 33:
		return "N", &d.N, 'm'
	case 34:
		return "PN", &d.PN, 'm'
	case 35:
		return "PPN", &d.PPN, 'x'
	case 36:
		return "E", &d.E, 'm'
	case 37:
		return "PE", &d.PE, 'm'
	case 38:
		return "An", &d.An, 'm'
	case 39:
		return "Any", &d.Any, 'x'
	case 40:
		return "PAny", &d.PAny, 'x'
	case 41:
		return "Foo", &d.Foo, 'x'
	case 42:
		return "FooS", &d.FooS, 'x'
	case 43:
		return "Own", &d.Own, 'x'
	case 44:
		return "POwn", &d.POwn, 'x'
	case 45:
		return "LOwn", &d.LOwn, 'l'
	case 46:
		return "MOwn", &d.MOwn, 'm'
	case 47:
		return "Raw", &d.Raw, 'x'
	case 48:
		return "JO", &d.JO, 'j'
	case 49:
		return "JD", &d.JD, 'D'
	case 50:
		return "PJD", &d.PJD, 'D'
	case 51:
		return "JA", &d.JA, 'A'
	case 52:
		return "PJA", &d.PJA, 'A'
	case 53:
		return "JS", &d.JS, 'x'
	case 54:
		return "PJS", &d.PJS, 'x'
	case 55:
		return "JI", &d.JI, 'n'
	case 56:
		return "PJI", &d.PJI, 'n'
	case 57:
		return "JF", &d.JF, 'n'
	case 58:
		return "PJF", &d.PJF, 'n'
	case 59:
		return "JB", &d.JB, 'n'
	case 60:
		return "PJB", &d.PJB, 'n'
	case 61:
		return "PPJD", &d.PPJD, 'x'
	case 62:
		return "Ch", &d.Ch, 'u'
	case 63:
		return "Fn", &d.Fn, 'u'
	case 64:
		return "Cx", &d.Cx, 'u'
	case 65:
		return "Up", &d.Up, 'x'
	}
	return "dest", d, 'm'
}

// fill fills destination number i from v and returns its class and the result.
// The way is to store directly in an empty destination (0), through the field
// of a struct that is set (1), and, in the full set, the other two combinations.
func fill(i int, v jsonutils.JSONObject, way int) (class byte, err error) {
	d := &c18dest{}
	if way == 1 || way == 2 {
		d = c18set()
	}
	name, ptr, class := d.field(i)
	switch {
	case way == 0 || way == 2 || i == nDest-1:
		err = v.Unmarshal(ptr)
	default:
		err = dict1(name, v).Unmarshal(d)
	}
	return class, err
}

// mustErr reports that a value of kind k cannot be stored in a destination of
// the class.
func mustErr(k int, class byte) bool {
	switch k {
	case kObj:
		return class == 'n' || class == 'l' || class == 'a' || class == 'A' || class == 't' || class == 'u'
	case kArr:
		return class == 'n' || class == 'm' || class == 'D' || class == 't' || class == 'u'
	case kBool, kInt, kFloat:
		return class == 'l' || class == 'a' || class == 'm' || class == 'A' || class == 'D' || class == 't' || class == 'u'
	case kStr:
		return class == 'a' || class == 'm' || class == 'A' || class == 'D' || class == 'u'
	}
	return false
}

// Every destination filled from every scalar.
func C18_scalar() {
	sym.Bound("scalar", "67 destination types, empty or already set, top level or field; any null, boolean, int64, 18 floats, strings of at most 2 (3 thorough) arbitrary bytes")
	i := sym.Choose("dest", nDest)
	n := 2
	if sym.Thorough() {
		n = 3
	}
	v := anyScalar("v", scFull, n)
	class, err := fill(i, v.build(), sym.Choose("way", 4))
	if v.k == kNull {
		sym.Assert(err == nil, "null resets every destination")
	} else if mustErr(v.k, class) {
		sym.Assert(err != nil, "a scalar that does not fit the kind of the destination is an error")
	}
}

// Every destination filled from small arrays and objects.
func C18_tree() {
	sym.Bound("tree", "67 destination types, empty or already set; arrays and objects (keys a, b, v) with at most 2 (3 thorough) values below the top, any int64")
	i := sym.Choose("dest", nDest)
	budget, way := 1, sym.Choose("way", 4)
	if way == 0 {
		budget = 2
	}
	if sym.Thorough() {
		budget++
	}
	v := c18tree("v", 1, &budget, true)
	class, err := fill(i, v.build(), way)
	if mustErr(v.k, class) {
		sym.Assert(err != nil, "an array or object that does not fit the kind of the destination is an error")
	}
}

var c18keys = []string{"a", "b", "v"}

func c18tree(name string, depth int, budget *int, top bool) *node {
	shape := 0
	if top {
		shape = 1 + sym.Choose(name+".shape", 2)
	} else if depth >= 0 {
		shape = sym.Choose(name+".shape", 3)
	}
	if shape == 0 {
		switch sym.Choose(name+".kind", 5) {
		case 0:
			return &node{k: kNull}
		case 1:
			return &node{k: kBool, b: true}
		case 2:
			return &node{k: kInt, i: sym.Int64(name)}
		case 3:
			return &node{k: kFloat, f: 2.5}
		}
		return str([]string{"", "x"}[sym.Choose(name, 2)])
	}
	n := &node{k: kArr}
	if shape == 2 {
		n.k = kObj
	}
	first := 0
	for *budget > 0 && sym.Choose(name+".more", 2) == 1 {
		*budget--
		if shape == 1 {
			n.kids = append(n.kids, c18tree(name, depth-1, budget, false))
		} else if first < len(c18keys) {
			k := first + sym.Choose(name+".key", len(c18keys)-first)
			first = k + 1
			n.keys = append(n.keys, c18keys[k])
			n.kids = append(n.kids, c18tree(name, depth-1, budget, false))
		}
	}
	return n
}

// text with node ids and references
func c18refs(name string, depth int, budget *int) string {
	k := 0
	if depth > 0 {
		k = sym.Choose(name+".shape", 4)
	} else {
		k = sym.Choose(name+".shape", 2)
	}
	id := func() string { return string([]byte{sym.ByteIn(name+".id", '0', '2')}) }
	switch k {
	case 0:
		return "1"
	case 1:
		return "<" + id() + ">"
	case 2:
		s := "["
		for *budget > 0 && sym.Choose(name+".more", 2) == 1 {
			*budget--
			if len(s) > 1 {
				s += ","
			}
			s += c18refs(name, depth-1, budget)
		}
		return s + "]"
	}
	s := "{"
	if sym.Bool(name + ".node") {
		s += `"___jnid_":` + id()
	}
	first := 0
	for *budget > 0 && first < 4 && sym.Choose(name+".more", 2) == 1 {
		*budget--
		keys := []string{"a", "b", "c", "self"}
		k := first + sym.Choose(name+".key", 4-first)
		first = k + 1
		if len(s) > 1 {
			s += ","
		}
		s += `"` + keys[k] + `":` + c18refs(name, depth-1, budget)
	}
	return s + "}"
}

// Destinations that can hold references, filled from text with node ids and
// references to them, to enclosing nodes, to other kinds and to nothing.
func C18_refs() {
	sym.Bound("refs", "20 destination types; every text of at most 2 (3 thorough) nested values with node ids 0..2 and references 0..2 anywhere")
	budget := 2
	if sym.Thorough() {
		budget = 3
	}
	text := c18refs("v", 2, &budget)
	v, err := jsonutils.ParseString(text)
	if err != nil {
		return
	}
	ds := []int{0, 4, 15, 16, 17, 18, 26, 28, 29, 31, 33, 34, 35, 36, 39, 41, 43, 48, 49, 50}
	fill(ds[sym.Choose("dest", len(ds))], v, sym.Choose("way", 2))
}

// C18Deref has a callback that uses its receiver.
type C18Deref struct {
	A int8
	N int8 `json:"-"`
}

func (h *C18Deref) AfterUnmarshal() { h.N++ }

type c18promoted struct {
	*C18Deref
	B int8
}

type c18promoted2 struct {
	*C18Deref
	C18Shown
}

// Callbacks promoted from embedded pointers.
func C18_promoted() {
	sym.Bound("promoted", "two structs with callbacks promoted from embedded pointers, one member given")
	v := jsonutils.NewDict()
	key := []string{"a", "b", "c"}[sym.Choose("key", 3)]
	v.Set(key, jsonutils.NewInt(int64(anyInt8("v"))))
	panicked := true
	alone := sym.Bool("alone")
	func() {
		defer func() {
			if panicked {
				recover()
			}
		}()
		if alone {
			v.Unmarshal(&c18promoted{})
		} else {
			v.Unmarshal(&c18promoted2{})
		}
		panicked = false
	}()
	if panicked && alone && key != "a" {
		sym.Known("C18-promoted-callback-nil")
		return
	}
	sym.Assert(!panicked, "filling a struct with a callback does not crash")
}
