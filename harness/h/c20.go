package h

import (
	"time"

	"yunion.io/x/jsonutils"
	"yunion.io/x/pkg/tristate"

	"verifharness/sym"
)

// c20all has a member for every option that a tag can give, all of one type.
type c20all[T any] struct {
	Def      T
	OmitE    T `json:"oe,omitempty"`
	AllowE   T `json:"ae,allowempty"`
	OmitZ    T `json:"oz,omitzero"`
	AllowZ   T `json:"az,omitzero,allowzero"`
	OmitF    T `json:"of,omitfalse"`
	AllowF   T `json:"af,omitfalse,allowfalse"`
	All      T `json:"all,omitempty,omitzero,omitfalse"`
	None     T `json:"none,allowempty,allowzero,allowfalse"`
	Upper    T `json:"up,ALLOWEMPTY,OmitZero"`
	Unnamed  T `json:",omitzero"`
	Ignored  T `json:"-"`
	Dash     T `json:"-,"`
	Renamed  T `json:"other,omitfalse" name:"renamed"`
	FooBarID T `help:"json:\"no\""`
	Text     T `json:"st,string"`
	TextE    T `json:"ste,string,allowempty,omitzero,omitfalse"`
	hidden   T
}

type c20opt struct {
	name                string
	empty, zero, falsey bool // the omission options in effect
	text                bool
}

var c20opts = []c20opt{
	{name: "def", empty: true},
	{name: "oe", empty: true},
	{name: "ae"},
	{name: "oz", empty: true, zero: true},
	{name: "az", empty: true},
	{name: "of", empty: true, falsey: true},
	{name: "af", empty: true},
	{name: "all", empty: true, zero: true, falsey: true},
	{name: "none"},
	{name: "up", zero: true},
	{name: "unnamed", empty: true, zero: true},
	{name: "-", empty: true},
	{name: "renamed", empty: true, falsey: true},
	{name: "foo_bar_id", empty: true},
	{name: "st", empty: true, text: true},
	{name: "ste", zero: true, falsey: true, text: true},
}

// want says what a member must be: val is the member, nil for a value that is
// not there at all (null for MarshalAll); class tells which omission option
// concerns the value: 'e' empty, 'z' zero, 'f' false or 0 for none; text says
// that the string option applies.
type want struct {
	val   jsonutils.JSONObject
	class byte
	text  bool
}

func c20check[T any](x T, w want) { c20members(x, w, sym.Bool("marshalall")) }

func c20members[T any](x T, w want, all bool) {
	s := &c20all[T]{x, x, x, x, x, x, x, x, x, x, x, x, x, x, x, x, x, x}
	var obj interface{} = s
	if sym.Bool("byvalue") {
		obj = *s
	}
	var v jsonutils.JSONObject
	if all {
		v = jsonutils.MarshalAll(obj)
	} else {
		v = jsonutils.Marshal(obj)
	}
	d, ok := v.(*jsonutils.JSONDict)
	sym.Assert(ok, "a struct is marshalled to an object")
	n := 0
	for _, o := range c20opts {
		member := w.val
		if w.class == 'e' && o.empty || w.class == 'z' && o.zero || w.class == 'f' && o.falsey {
			member = nil
		}
		if all {
			member = w.val
			if member == nil {
				member = jsonutils.JSONNull
			}
		}
		got, err := d.Get(o.name)
		if member == nil {
			sym.Assert(err != nil, "a member is omitted when its omission option is in effect for its value, "+o.name)
			continue
		}
		n++
		sym.Assert(err == nil, "a member is kept when no omission option is in effect for its value, "+o.name)
		if o.text && w.text && member != jsonutils.JSONNull {
			g, err := got.GetString()
			_, isStr := got.(*jsonutils.JSONString)
			sym.Assert(err == nil && isStr && g == member.String(), "a member with the string option is the text of its value")
			continue
		}
		if s, ok := member.(*jsonutils.JSONString); ok {
			g, _ := got.(*jsonutils.JSONString)
			sym.Assert(g != nil && g.Value() == s.Value(), "a member has its value under its declared name")
			continue
		}
		sym.Assert(got.String() == member.String(), "a member has its value under its declared name")
	}
	sym.Assert(d.Length() == n, "ignored and unexported members are not marshalled")
}

func num(i int64) *jsonutils.JSONInt      { return jsonutils.NewInt(i) }
func text(s string) *jsonutils.JSONString { return jsonutils.NewString(s) }

func zcls(zero bool, class byte) byte {
	if zero {
		return class
	}
	return 0
}

// Numbers, booleans and strings of every kind, and pointers and interfaces to
// them.
func C20_scalar() {
	sym.Bound("scalar", "22 scalar types (every int64 and uint64, other integers -128..127, 18 floats, strings of at most 2 bytes, nil and non-nil pointers and interfaces) times 17 tags, Marshal and MarshalAll, by value and by pointer")
	kind := sym.Choose("kind", 22)
	var x, u int64
	var b, nilp bool
	var s string
	f := 0.0
	switch kind {
	case 2, 4:
		x = sym.Int64("x")
		u = x
	case 0, 1, 5, 11, 15:
		x = sym.Int64In("x", -128, 127)
	case 3:
		u = sym.Int64In("u", 0, 300)
	case 6, 7:
		f = someFloats[sym.Choose("f", len(someFloats))]
	case 8, 13, 16, 17, 19, 20:
		b = sym.Bool("b")
	case 9, 10, 12, 14:
		s = sym.StrUpTo("s", 2)
	}
	switch kind {
	case 11, 12, 13, 14, 17, 18, 20, 21:
		nilp = sym.Bool("nil")
	}
	ptr := want{}
	switch kind {
	case 0:
		c20check(int(x), want{num(x), zcls(x == 0, 'z'), true})
	case 1:
		c20check(int8(x), want{num(x), zcls(x == 0, 'z'), true})
	case 2:
		c20check(int64(x), want{num(x), zcls(x == 0, 'z'), true})
	case 3:
		c20check(uint16(u), want{num(u), zcls(u == 0, 'z'), true})
	case 4:
		c20check(uint64(u), want{num(u), zcls(u == 0, 'z'), true})
	case 5:
		c20check(myInt(x), want{num(x), zcls(x == 0, 'z'), true})
	case 6:
		c20check(f, want{jsonutils.NewFloat64(f), zcls(f == 0, 'z'), true})
	case 7:
		c20check(float32(f), want{jsonutils.NewFloat32(float32(f)), zcls(float32(f) == 0, 'z'), true})
	case 8:
		c20check(b, want{jsonutils.NewBool(b), zcls(!b, 'f'), true})
	case 9:
		c20check(s, want{text(s), zcls(s == "", 'e'), false})
	case 10:
		c20check(myString(s), want{text(s), zcls(s == "", 'e'), false})
	case 11:
		v := int(x)
		p := &v
		if ptr = (want{num(x), zcls(x == 0, 'z'), true}); nilp {
			p, ptr = nil, want{}
		}
		c20check(p, ptr)
	case 12:
		p := &s
		if ptr = (want{text(s), zcls(s == "", 'e'), false}); nilp {
			p, ptr = nil, want{}
		}
		c20check(p, ptr)
	case 13:
		p := &b
		pp := &p
		if ptr = (want{jsonutils.NewBool(b), zcls(!b, 'f'), true}); nilp {
			p, ptr = nil, want{}
		}
		c20check(pp, ptr)
	case 14:
		var i interface{} = s
		if ptr = (want{text(s), zcls(s == "", 'e'), false}); nilp {
			i, ptr = nil, want{}
		}
		c20check(i, ptr)
	case 15:
		var i interface{} = int8(x)
		c20check(i, want{num(x), zcls(x == 0, 'z'), true})
	case 16:
		var i interface{} = &b
		c20check(i, want{jsonutils.NewBool(b), zcls(!b, 'f'), true})
	case 17:
		t := tristate.None
		if !nilp {
			ptr.val = jsonutils.NewBool(b)
			if t = tristate.False; b {
				t = tristate.True
			}
		}
		c20check(t, ptr)
	case 18:
		var t time.Time
		ptr = want{text(""), 'e', false}
		if !nilp {
			t = time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
			ptr = want{text("2020-01-02T03:04:05.000000Z"), 0, false}
		}
		c20check(t, ptr)
	case 19:
		c20check(myBool(b), want{jsonutils.NewBool(b), zcls(!b, 'f'), true})
	case 20:
		t := tristate.None
		if !nilp {
			ptr.val = jsonutils.NewBool(b)
			if t = tristate.False; b {
				t = tristate.True
			}
		}
		c20check(&t, ptr)
	case 21:
		t := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
		p := &t
		if ptr = (want{text("2020-01-02T03:04:05.000000Z"), 0, false}); nilp {
			p, ptr = nil, want{}
		}
		c20check(p, ptr)
	}
}

type c20in struct {
	A string
	B int8 `json:"b,omitzero"`
	C bool `json:"-"`
}

type c20keep struct {
	A string `json:"a,allowempty"`
}

// Containers, structs and JSON values.
func C20_container() {
	sym.Bound("container", "20 container, struct and JSON types, nil, empty and with one element, times 17 tags")
	n := sym.Choose("len", 3) - 1 // -1: nil
	x := sym.Int64In("x", -2, 2)
	s := []string{"", "a"}[sym.Choose("s", 2)]
	arr, dict := jsonutils.NewArray(), jsonutils.NewDict()
	if n > 0 {
		arr.Add(num(x))
		dict.Set("k", num(x))
	}
	cls := zcls(n == 0, 'e')
	wa, wd := want{arr, cls, true}, want{dict, cls, true}
	if n < 0 {
		wa, wd = want{}, want{}
	}
	var l []int8
	var m map[string]int8
	if n >= 0 {
		l, m = []int8{}, map[string]int8{}
	}
	if n > 0 {
		l, m = append(l, int8(x)), map[string]int8{"k": int8(x)}
	}
	none := func(w want) want {
		w.text = false
		return w
	}
	in := c20in{A: s, B: int8(x), C: true}
	din := jsonutils.NewDict()
	all := sym.Bool("all")
	if s != "" || all {
		din.Set("a", text(s))
	}
	if x != 0 || all {
		din.Set("b", num(x))
	}
	win := want{din, zcls(din.Length() == 0, 'e'), true}
	kind := sym.Choose("kind", 20)
	if !(kind == 4 || kind == 5 || kind == 8) && (all || s != "") {
		return
	}
	switch kind {
	case 0:
		c20check(l, wa)
	case 1:
		c20check(m, wd)
	case 2:
		c20check([0]int8{}, want{jsonutils.NewArray(), 'e', true})
	case 3:
		c20check([1]int8{int8(x)}, want{jsonutils.NewArray(num(x)), 0, true})
	case 4:
		c20members(in, win, all)
	case 5:
		p := &in
		if n < 0 {
			p, win = nil, want{}
		}
		c20members(p, win, all)
	case 6:
		p := &l
		c20check(p, wa)
	case 7:
		var i interface{} = m
		c20check(i, wd)
	case 8:
		var i interface{} = in
		c20members(i, win, all)
	case 9:
		c20check(c20keep{}, want{dict1("a", text("")), 0, true})
	case 10:
		c20check(struct{}{}, want{jsonutils.NewDict(), 'e', true})
	case 11:
		// a JSON value behind a pointer or interface is there as it is
		p := dict
		if wd.class = 0; n < 0 {
			p = nil
		}
		c20check(p, none(wd))
	case 12:
		p := arr
		if wa.class = 0; n < 0 {
			p = nil
		}
		c20check(p, none(wa))
	case 13:
		var o jsonutils.JSONObject = dict
		if wd.class = 0; n < 0 {
			o = nil
		}
		c20check(o, none(wd))
	case 14:
		p := num(x)
		w := want{val: num(x)}
		if n < 0 {
			p, w = nil, want{}
		}
		c20check(p, w)
	case 15:
		// JSON values held as plain structs are omitted when empty or zero
		if n >= 0 {
			c20check(*dict, none(wd))
		}
	case 16:
		if n >= 0 {
			c20check(*arr, none(wa))
		}
	case 17:
		c20check(*num(x), want{num(x), zcls(x == 0, 'e'), false})
	case 18:
		c20check(*text(s), want{text(s), zcls(s == "", 'e'), false})
	case 19:
		c20check(*jsonutils.NewBool(x == 0), want{jsonutils.NewBool(x == 0), zcls(x != 0, 'e'), false})
	}
}

type C20Base struct {
	X int8 `json:"x,omitzero"`
	Y string
	Z bool `json:"-"`
}

type c20emb struct {
	C20Base
	*C20Ptr
	W []c20in
	M map[string]c20in
}

type C20Ptr struct {
	Q string `json:"q,allowempty"`
}

// Members of embedded structs, and structs inside of slices and maps.
func C20_embedded() {
	sym.Bound("embedded", "one family of embedded and nested structs, each member set or not")
	x := sym.Int64In("x", -2, 2)
	s := []string{"", "a"}[sym.Choose("s", 2)]
	e := c20emb{C20Base: C20Base{X: int8(x), Y: s, Z: true}}
	want := jsonutils.NewDict()
	all := sym.Bool("marshalall")
	if x != 0 || all {
		want.Set("x", num(x))
	}
	if s != "" || all {
		want.Set("y", text(s))
	}
	if sym.Bool("ptr") {
		e.C20Ptr = &C20Ptr{Q: s}
		want.Set("q", text(s))
	} else {
		// the members of an embedded nil pointer are those of a zero struct
		want.Set("q", text(""))
	}
	in := jsonutils.NewDict()
	if s != "" || all {
		in.Set("a", text(s))
	}
	if all {
		in.Set("b", num(0))
	}
	if sym.Bool("slice") {
		e.W = []c20in{{A: s}, {A: s}}
		want.Set("w", jsonutils.NewArray(in, in))
	} else if all {
		want.Set("w", jsonutils.JSONNull)
	}
	if sym.Bool("map") {
		e.M = map[string]c20in{"k": {A: s}}
		want.Set("m", dict1("k", in))
	} else if all {
		want.Set("m", jsonutils.JSONNull)
	}
	var obj interface{} = e
	if sym.Bool("pointer") {
		obj = &e
	}
	var v jsonutils.JSONObject
	if all {
		v = jsonutils.MarshalAll(obj)
	} else {
		v = jsonutils.Marshal(obj)
	}
	sym.Assert(v.String() == want.String(), "members of embedded and nested structs are kept or omitted by the same rules")
}
