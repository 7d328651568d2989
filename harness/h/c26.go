package h

import (
	"math"
	"strconv"

	"yunion.io/x/jsonutils"
	"yunion.io/x/pkg/tristate"

	"verifharness/sym"
)

type (
	myInt    int32
	myUint   uint16
	myFloat  float32
	myString string
	myBool   bool
)

// dests has a destination of every scalar kind, set to something.
type dests struct {
	I    int
	I8   int8
	I16  int16
	I32  int32
	I64  int64
	U    uint
	U8   uint8
	U16  uint16
	U32  uint32
	U64  uint64
	F32  float32
	F64  float64
	B    bool
	S    string
	T    tristate.TriState
	MI   myInt
	MU   myUint
	MF   myFloat
	MS   myString
	MB   myBool
	PI   *int64
	PPS  **string
	Any  interface{}
	JI   jsonutils.JSONInt
	JS   jsonutils.JSONString
	JB   jsonutils.JSONBool
	JF   jsonutils.JSONFloat
	JO   jsonutils.JSONObject
	PJS  *jsonutils.JSONString
	PJI  *jsonutils.JSONInt
	PJB  *jsonutils.JSONBool
	PJF  *jsonutils.JSONFloat
	PJS0 *jsonutils.JSONString
}

func preset() *dests {
	i, s := int64(3), "3"
	ps := &s
	return &dests{I: 3, I8: 3, I16: 3, I32: 3, I64: 3, U: 3, U8: 3, U16: 3, U32: 3, U64: 3, F32: 3, F64: 3, B: true, S: "3",
		T: tristate.True, MI: 3, MU: 3, MF: 3, MS: "3", MB: true, PI: &i, PPS: &ps, Any: 3,
		JI: *jsonutils.NewInt(3), JS: *jsonutils.NewString("3"), JB: *jsonutils.NewBool(true), JF: *jsonutils.NewFloat64(3), JO: jsonutils.NewInt(3),
		PJS: jsonutils.NewString("3")}
}

func okErr(err error) { sym.Assert(err == nil, "filling from a convertible value succeeds") }

func stored(ok bool) { sym.Assert(ok, "the destination receives the value the source denotes") }

// C26: integers.
func C26_int() {
	sym.Bound("integers", "every int64 against every scalar destination kind, directly and as a struct field")
	i := sym.Int64("i")
	fillInt(i)
}

func fillInt(i int64) {
	v := jsonutils.NewInt(i)
	d := preset()
	if sym.Choose("fresh", 2) == 1 {
		d = &dests{}
	}
	switch sym.Choose("dst", 23) {
	case 0:
		okErr(v.Unmarshal(&d.I))
		stored(int64(d.I) == i)
	case 1:
		okErr(v.Unmarshal(&d.I8))
		stored(i < -128 || i > 127 || int64(d.I8) == i)
	case 2:
		okErr(v.Unmarshal(&d.I16))
		stored(i < -32768 || i > 32767 || int64(d.I16) == i)
	case 3:
		okErr(v.Unmarshal(&d.I32))
		stored(i < -1<<31 || i >= 1<<31 || int64(d.I32) == i)
	case 4:
		okErr(v.Unmarshal(&d.I64))
		stored(d.I64 == i)
	case 5:
		okErr(v.Unmarshal(&d.U))
		stored(i < 0 || int64(d.U) == i)
	case 6:
		okErr(v.Unmarshal(&d.U8))
		stored(i < 0 || i > 255 || int64(d.U8) == i)
	case 7:
		okErr(v.Unmarshal(&d.U16))
		stored(i < 0 || i > 65535 || int64(d.U16) == i)
	case 8:
		okErr(v.Unmarshal(&d.U32))
		stored(i < 0 || i >= 1<<32 || int64(d.U32) == i)
	case 9:
		okErr(v.Unmarshal(&d.U64))
		stored(i < 0 || d.U64 == uint64(i))
	case 10:
		okErr(v.Unmarshal(&d.F64))
		stored(d.F64 == float64(i))
		okErr(v.Unmarshal(&d.F32))
		stored(i < -1<<24 || i > 1<<24 || d.F32 == float32(float64(i)))
	case 11:
		okErr(v.Unmarshal(&d.B))
		stored(d.B == (i != 0))
		okErr(v.Unmarshal(&d.MB))
		stored(bool(d.MB) == (i != 0))
	case 12:
		okErr(v.Unmarshal(&d.S))
		stored(d.S == strconv.FormatInt(i, 10))
	case 13:
		okErr(v.Unmarshal(&d.T))
		stored(d.T.IsTrue() == (i != 0) && d.T.IsFalse() == (i == 0))
	case 14:
		okErr(v.Unmarshal(&d.MI))
		stored(i < -1<<31 || i >= 1<<31 || int64(d.MI) == i)
		okErr(v.Unmarshal(&d.MU))
		stored(i < 0 || i > 65535 || int64(d.MU) == i)
	case 15:
		okErr(v.Unmarshal(&d.MS))
		stored(string(d.MS) == strconv.FormatInt(i, 10))
	case 16:
		okErr(v.Unmarshal(&d.PI))
		stored(d.PI != nil && *d.PI == i)
	case 17:
		okErr(v.Unmarshal(&d.Any))
		x, ok := d.Any.(int64)
		stored(ok && x == i)
	case 18:
		okErr(v.Unmarshal(&d.JI))
		stored(d.JI.Value() == i)
		okErr(v.Unmarshal(&d.PJI))
		stored(d.PJI != nil && d.PJI.Value() == i)
	case 19:
		okErr(v.Unmarshal(&d.JS))
		stored(d.JS.Value() == strconv.FormatInt(i, 10))
	case 20:
		okErr(v.Unmarshal(&d.PJS))
		stored(d.PJS != nil && d.PJS.Value() == strconv.FormatInt(i, 10))
	case 21:
		okErr(v.Unmarshal(&d.JO))
		x, ok := d.JO.(*jsonutils.JSONInt)
		stored(ok && x.Value() == i)
	default:
		o := dict1("i64", v)
		o.Set("u64", v)
		okErr(o.Unmarshal(d))
		stored(d.I64 == i && (i < 0 || d.U64 == uint64(i)))
		p := struct{ P *myInt }{}
		okErr(dict1("p", v).Unmarshal(&p))
		stored(p.P != nil && (i < -1<<31 || i >= 1<<31 || int64(*p.P) == i))
	}
}

// C26: booleans.
func C26_bool() {
	b := sym.Bool("b")
	v := jsonutils.NewBool(b)
	d := preset()
	if sym.Choose("fresh", 2) == 1 {
		d = &dests{}
	}
	n := int64(0)
	if b {
		n = 1
	}
	okErr(v.Unmarshal(&d.I))
	okErr(v.Unmarshal(&d.I8))
	okErr(v.Unmarshal(&d.I16))
	okErr(v.Unmarshal(&d.I32))
	okErr(v.Unmarshal(&d.I64))
	stored(int64(d.I) == n && int64(d.I8) == n && int64(d.I16) == n && int64(d.I32) == n && d.I64 == n)
	okErr(v.Unmarshal(&d.U))
	okErr(v.Unmarshal(&d.U8))
	okErr(v.Unmarshal(&d.U16))
	okErr(v.Unmarshal(&d.U32))
	okErr(v.Unmarshal(&d.U64))
	stored(int64(d.U) == n && int64(d.U8) == n && int64(d.U16) == n && int64(d.U32) == n && int64(d.U64) == n)
	okErr(v.Unmarshal(&d.F32))
	okErr(v.Unmarshal(&d.F64))
	stored(d.F32 == float32(n) && d.F64 == float64(n))
	okErr(v.Unmarshal(&d.B))
	okErr(v.Unmarshal(&d.MB))
	stored(d.B == b && bool(d.MB) == b)
	okErr(v.Unmarshal(&d.S))
	stored(d.S == strconv.FormatBool(b))
	okErr(v.Unmarshal(&d.T))
	stored(d.T.IsTrue() == b && d.T.IsFalse() == !b)
	okErr(v.Unmarshal(&d.Any))
	x, ok := d.Any.(bool)
	stored(ok && x == b)
	okErr(v.Unmarshal(&d.JB))
	okErr(v.Unmarshal(&d.PJB))
	stored(d.JB.Value() == b && d.PJB.Value() == b)
	okErr(v.Unmarshal(&d.JO))
	y, ok := d.JO.(*jsonutils.JSONBool)
	stored(ok && y.Value() == b)
	okErr(v.Unmarshal(&d.JS))
	okErr(v.Unmarshal(&d.PJS))
	stored(d.JS.Value() == strconv.FormatBool(b) && d.PJS.Value() == strconv.FormatBool(b))
	f := dests{}
	okErr(dict1("b", v).Unmarshal(&f))
	stored(f.B == b)
	sym.Bound("booleans", "both values against every scalar destination kind")
}

// C26: floats.
func C26_float() {
	sym.Bound("floats", "listed floats against every scalar destination kind able to hold them")
	f := someFloats[sym.Choose("f", len(someFloats))]
	v := jsonutils.NewFloat64(f)
	d := preset()
	if sym.Choose("fresh", 2) == 1 {
		d = &dests{}
	}
	okErr(v.Unmarshal(&d.F64))
	stored(d.F64 == f)
	okErr(v.Unmarshal(&d.F32))
	stored(d.F32 == float32(f))
	okErr(v.Unmarshal(&d.MF))
	stored(float32(d.MF) == float32(f))
	if f == float64(int8(f)) {
		okErr(v.Unmarshal(&d.I))
		okErr(v.Unmarshal(&d.I8))
		okErr(v.Unmarshal(&d.I64))
		stored(float64(d.I) == f && float64(d.I8) == f && float64(d.I64) == f)
	}
	if f == float64(uint8(f)) {
		okErr(v.Unmarshal(&d.U))
		okErr(v.Unmarshal(&d.U8))
		okErr(v.Unmarshal(&d.U64))
		stored(float64(d.U) == f && float64(d.U8) == f && float64(d.U64) == f)
	}
	okErr(v.Unmarshal(&d.B))
	stored(d.B == (f != 0))
	okErr(v.Unmarshal(&d.Any))
	x, ok := d.Any.(float64)
	stored(ok && x == f)
	okErr(v.Unmarshal(&d.JF))
	okErr(v.Unmarshal(&d.PJF))
	stored(d.JF.Value() == f && d.PJF.Value() == f)
	okErr(v.Unmarshal(&d.JO))
	y, ok := d.JO.(*jsonutils.JSONFloat)
	stored(ok && y.Value() == f)
	okErr(v.Unmarshal(&d.S))
	g, err := strconv.ParseFloat(d.S, 64)
	stored(err == nil && g == f)
	okErr(v.Unmarshal(&d.JS))
	okErr(v.Unmarshal(&d.PJS))
	stored(d.JS.Value() == d.S && d.PJS.Value() == d.S)
}

// C26: strings into destinations that take any string.
func C26_string() {
	n := 4
	if sym.Thorough() {
		n = 6
	}
	sym.Bound("strings", "every byte string of at most 4 bytes (6 thorough) into string destinations, tri-states and booleans")
	s := sym.StrUpTo("s", n)
	v := jsonutils.NewString(s)
	d := preset()
	switch sym.Choose("dst", 3) {
	case 0:
		okErr(v.Unmarshal(&d.S))
		okErr(v.Unmarshal(&d.MS))
		okErr(v.Unmarshal(&d.PPS))
		okErr(v.Unmarshal(&d.Any))
		okErr(v.Unmarshal(&d.JS))
		okErr(v.Unmarshal(&d.PJS))
		okErr(v.Unmarshal(&d.PJS0))
		okErr(v.Unmarshal(&d.JO))
		stored(d.S == s && string(d.MS) == s && **d.PPS == s && d.JS.Value() == s && d.PJS.Value() == s && d.PJS0.Value() == s)
		x, ok := d.Any.(string)
		y, ok2 := d.JO.(*jsonutils.JSONString)
		stored(ok && x == s && ok2 && y.Value() == s)
		f := dests{}
		okErr(dict1("s", v).Unmarshal(&f))
		stored(f.S == s)
	case 1:
		okErr(v.Unmarshal(&d.T))
		b, ok := truth(s)
		stored(d.T.IsTrue() == (ok && b) && d.T.IsFalse() == (ok && !b))
	default:
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] < 0x80)
		}
		b, ok := truth(s)
		okErr(v.Unmarshal(&d.B))
		okErr(v.Unmarshal(&d.JB))
		stored(!ok || d.B == b && d.JB.Value() == b)
	}
}

// C26: decimal strings into numbers.
func C26_decimal() {
	sym.Bound("decimal strings", "the decimal text of every int64 and uint64 into every numeric destination able to hold it")
	d := preset()
	if sym.Choose("signed", 2) == 0 {
		u := sym.Uint64("u")
		v := jsonutils.NewString(strconv.FormatUint(u, 10))
		switch sym.Choose("dst", 5) {
		case 0:
			okErr(v.Unmarshal(&d.U64))
			stored(d.U64 == u)
		case 1:
			okErr(v.Unmarshal(&d.U))
			stored(uint64(d.U) == u)
		case 2:
			okErr(v.Unmarshal(&d.U32))
			stored(u >= 1<<32 || uint64(d.U32) == u)
		case 3:
			okErr(v.Unmarshal(&d.U8))
			stored(u > 255 || uint64(d.U8) == u)
		default:
			okErr(v.Unmarshal(&d.MU))
			stored(u > 65535 || uint64(d.MU) == u)
		}
		return
	}
	i := sym.Int64("i")
	v := jsonutils.NewString(strconv.FormatInt(i, 10))
	switch sym.Choose("dst", 6) {
	case 0:
		okErr(v.Unmarshal(&d.I64))
		stored(d.I64 == i)
	case 1:
		okErr(v.Unmarshal(&d.I))
		stored(int64(d.I) == i)
	case 2:
		okErr(v.Unmarshal(&d.I32))
		stored(i < -1<<31 || i >= 1<<31 || int64(d.I32) == i)
	case 3:
		okErr(v.Unmarshal(&d.I8))
		stored(i < -128 || i > 127 || int64(d.I8) == i)
	case 4:
		okErr(v.Unmarshal(&d.PI))
		stored(*d.PI == i)
	default:
		f := dests{}
		okErr(dict1("i64", v).Unmarshal(&f))
		stored(f.I64 == i)
	}
}

// C26: unparsable strings into numbers.
func C26_unparsable() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	sym.Bound("unparsable strings", "every byte string of at most 3 bytes (4 thorough) without digits into numeric destinations; numbers with other characters before, between or after")
	var s string
	if sym.Choose("kind", 2) == 0 {
		s = sym.StrUpTo("s", n)
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] < '0' || s[i] > '9')
		}
		l := lower(s)
		sym.Assume(l != "inf" && l != "nan")
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] < 0x80)
		}
	} else {
		c := sym.Byte("c")
		sym.Assume((c < '0' || c > '9') && c != '.' && c != ',' && c != 'e' && c != 'E')
		s = []string{"12", "", "1", "5"}[sym.Choose("pre", 4)] + string([]byte{c}) + []string{"", "7", "22"}[sym.Choose("post", 3)]
		sym.Assume(c != '-' && c != '+' || s[0] != c || len(s) == 1)
	}
	v := jsonutils.NewString(s)
	d := preset()
	bad := func(err error) {
		sym.Assert((err != nil) == (s != ""), "an unparsable string is an error")
	}
	if sym.Choose("float", 2) == 1 {
		bad(v.Unmarshal(&d.F64))
		bad(v.Unmarshal(&d.F32))
		bad(v.Unmarshal(&d.MF))
		sym.Assert(d.F64 == 3 && d.F32 == 3 && d.MF == 3, "an unparsable string leaves the destination unchanged")
		return
	}
	bad(v.Unmarshal(&d.I))
	bad(v.Unmarshal(&d.I8))
	bad(v.Unmarshal(&d.I64))
	bad(v.Unmarshal(&d.U))
	bad(v.Unmarshal(&d.U16))
	bad(v.Unmarshal(&d.MI))
	bad(v.Unmarshal(&d.PI))
	sym.Assert(d.I == 3 && d.I8 == 3 && d.I64 == 3 && d.U == 3 && d.U16 == 3 && d.MI == 3 && *d.PI == 3, "an unparsable string leaves the destination unchanged")
	err := dict1("i32", v).Unmarshal(d)
	bad(err)
	sym.Assert(d.I32 == 3, "an unparsable string leaves the destination unchanged")
}

// C26: null.
func C26_null() {
	sym.Bound("null", "every scalar destination kind, set before")
	d := preset()
	z := dests{}
	v := jsonutils.JSONObject(jsonutils.JSONNull)
	o := jsonutils.NewDict()
	for _, k := range []string{"i", "i8", "i16", "i32", "i64", "u", "u8", "u16", "u32", "u64", "f32", "f64", "b", "s", "t", "mi", "mu", "mf", "ms", "mb", "pi", "pps", "any", "jo", "pjs"} {
		o.Set(k, v)
	}
	if sym.Choose("field", 2) == 1 {
		okErr(o.Unmarshal(d))
	} else {
		for _, p := range []interface{}{&d.I, &d.I8, &d.I16, &d.I32, &d.I64, &d.U, &d.U8, &d.U16, &d.U32, &d.U64, &d.F32, &d.F64, &d.B, &d.S, &d.T, &d.MI, &d.MU, &d.MF, &d.MS, &d.MB, &d.PI, &d.PPS, &d.Any, &d.JO, &d.PJS} {
			okErr(v.Unmarshal(p))
		}
	}
	sym.Assert(d.I == 0 && d.I8 == 0 && d.I16 == 0 && d.I32 == 0 && d.I64 == 0 && d.U == 0 && d.U8 == 0 && d.U16 == 0 && d.U32 == 0 && d.U64 == 0 &&
		d.F32 == 0 && d.F64 == 0 && !d.B && d.S == "" && d.T == z.T && d.MI == 0 && d.MU == 0 && d.MF == 0 && d.MS == "" && !bool(d.MB) &&
		d.PI == nil && d.PPS == nil && d.Any == nil && d.JO == nil && d.PJS == nil, "null resets the destination")
	okErr(v.Unmarshal(&d.JI))
	okErr(v.Unmarshal(&d.JS))
	sym.Assert(d.JI.Value() == 0 && d.JS.Value() == "", "null resets the destination")
}

// C26: every float into the numbers.
func C26_number() {
	sym.Bound("float bits", "every 64-bit float against every destination of a number, integers cut off and unsigned ones when they can hold the number")
	f := math.Float64frombits(sym.Uint64("f"))
	sym.Assume(f == f)
	v := jsonutils.NewFloat64(f)
	d := preset()
	switch sym.Choose("dst", 13) {
	case 0:
		okErr(v.Unmarshal(&d.I64))
		stored(!(f >= -1<<63 && f < 1<<63) || d.I64 == int64(f))
	case 1:
		sym.Assume(f >= 0 && f < 1<<64)
		okErr(v.Unmarshal(&d.U64))
		stored(d.U64 == uint64(f))
	case 2:
		okErr(v.Unmarshal(&d.I))
		stored(!(f >= -1<<63 && f < 1<<63) || int64(d.I) == int64(f))
	case 3:
		sym.Assume(f >= 0 && f < 1<<64)
		okErr(v.Unmarshal(&d.U))
		stored(uint64(d.U) == uint64(f))
	case 4:
		okErr(v.Unmarshal(&d.I8))
		stored(!(f >= -128 && f < 128) || int64(d.I8) == int64(f))
	case 5:
		sym.Assume(f >= 0 && f < 256)
		okErr(v.Unmarshal(&d.U8))
		stored(uint64(d.U8) == uint64(f))
	case 6:
		okErr(v.Unmarshal(&d.I16))
		stored(!(f >= -1<<15 && f < 1<<15) || int64(d.I16) == int64(f))
	case 7:
		sym.Assume(f >= 0 && f < 1<<16)
		okErr(v.Unmarshal(&d.U16))
		stored(uint64(d.U16) == uint64(f))
	case 8:
		okErr(v.Unmarshal(&d.I32))
		stored(!(f >= -1<<31 && f < 1<<31) || int64(d.I32) == int64(f))
	case 9:
		sym.Assume(f >= 0 && f < 1<<32)
		okErr(v.Unmarshal(&d.U32))
		stored(uint64(d.U32) == uint64(f))
	case 10:
		okErr(v.Unmarshal(&d.F64))
		stored(d.F64 == f)
		okErr(v.Unmarshal(&d.F32))
		stored(d.F32 == float32(f))
		okErr(v.Unmarshal(&d.MF))
		stored(float32(d.MF) == float32(f))
	case 11:
		okErr(v.Unmarshal(&d.B))
		stored(d.B == (f != 0))
		okErr(v.Unmarshal(&d.Any))
		x, ok := d.Any.(float64)
		stored(ok && x == f)
	case 12:
		okErr(v.Unmarshal(&d.JF))
		okErr(v.Unmarshal(&d.PJF))
		stored(d.JF.Value() == f && d.PJF.Value() == f)
		okErr(v.Unmarshal(&d.JI))
		okErr(v.Unmarshal(&d.PJI))
		stored(!(f >= -1<<63 && f < 1<<63) || d.JI.Value() == int64(f) && d.PJI.Value() == int64(f))
		okErr(v.Unmarshal(&d.T))
		stored(!(f >= -1<<63 && f < 1<<63) || f > -1 && f < 1 || d.T.IsTrue())
		stored(f != 0 || d.T.IsFalse())
	}
}
