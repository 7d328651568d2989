package h

import (
	"errors"

	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

// C31Enc has its own JSON encoder.
type C31Enc struct{ text string }

func (e C31Enc) MarshalJSON() ([]byte, error) {
	if e.text == "" {
		return []byte("0"), nil
	}
	return []byte(e.text), nil
}

// C31EncP has its own JSON encoder with a pointer receiver.
type C31EncP struct{ text string }

func (e *C31EncP) MarshalJSON() ([]byte, error) { return C31Enc{e.text}.MarshalJSON() }

// C31EncM is a map with its own JSON encoder.
type C31EncM map[string]string

func (e C31EncM) MarshalJSON() ([]byte, error) { return []byte(e["text"]), nil }

// C31EncS is a string with its own JSON encoder, that is left out when empty
// by nobody but itself.
type C31EncS string

func (e C31EncS) MarshalJSON() ([]byte, error) {
	if e == "" {
		return []byte("0"), nil
	}
	return []byte(e), nil
}

// C31EncL is a list with its own JSON encoder.
type C31EncL []string

func (e C31EncL) MarshalJSON() ([]byte, error) { return []byte(e[0]), nil }

type c31host[T any] struct {
	V   T
	P   *T
	PP  **T
	L   []T
	LP  []*T
	A   [1]T
	M   map[string]T
	MP  map[string]*T
	I   interface{}
	IP  interface{}
	S   struct{ V T }
	O   T `json:"o,omitempty,omitzero"`
	Any map[string]interface{}
}

// at gives the value found in place i of a host.
func hostAt(v jsonutils.JSONObject, i int) jsonutils.JSONObject {
	path := [][]string{{"v"}, {"p"}, {"pp"}, {"l", "0"}, {"lp", "0"}, {"a", "0"}, {"m", "k"}, {"mp", "k"}, {"i"}, {"ip"}, {"s", "v"}, {"o"}, {"any", "k"}}[i]
	r, err := v.Get(path[0])
	if err != nil {
		return nil
	}
	if len(path) == 2 {
		if path[1] == "0" {
			r, err = r.GetAt(0)
		} else {
			r, err = r.Get(path[1])
		}
		if err != nil {
			return nil
		}
	}
	return r
}

const nHost = 13

func encAt[T any](e T, n *node, pointersOnly bool) {
	all := sym.Bool("marshalall")
	marshal := func(v interface{}) jsonutils.JSONObject {
		if all {
			return jsonutils.MarshalAll(v)
		}
		return jsonutils.Marshal(v)
	}
	place := sym.Choose("place", nHost+4)
	p := &e
	const msg = "a type with its own encoder is rendered as the value that its encoder produces"
	ptr := place == 1 || place == 2 || place == 4 || place == 7 || place == 9 || place == nHost+1 || place == nHost+3
	if pointersOnly && !ptr {
		return
	}
	switch place {
	case nHost:
		sym.Assert(n.same(marshal(e)), msg)
		return
	case nHost + 1:
		sym.Assert(n.same(marshal(p)), msg)
		return
	case nHost + 2:
		v := marshal([]T{e, e})
		a, ok := v.(*jsonutils.JSONArray)
		sym.Assert(ok && a.Length() == 2, msg)
		for _, x := range a.Value() {
			sym.Assert(n.same(x), msg)
		}
		return
	case nHost + 3:
		v := marshal(map[string]*T{"k": p})
		x, err := v.Get("k")
		sym.Assert(err == nil && n.same(x), msg)
		return
	}
	h := c31host[T]{V: e, P: p, PP: &p, L: []T{e}, LP: []*T{p}, A: [1]T{e}, M: map[string]T{"k": e}, MP: map[string]*T{"k": p}, I: e, IP: p, O: e, Any: map[string]interface{}{"k": e}}
	h.S.V = e
	var v jsonutils.JSONObject
	if sym.Bool("byvalue") {
		v = marshal(h)
	} else {
		v = marshal(&h)
	}
	x := hostAt(v, place)
	sym.Assert(x != nil && n.same(x), msg)
}

func c31value() *node {
	if sym.Thorough() {
		budget := 3
		switch sym.Choose("v.top", 3) {
		case 0:
			return anyScalar("v", scFull, 2)
		case 1:
			return anyTree("v", 2, &budget, 1, true)
		}
	} else if sym.Bool("v.tree") {
		return obj1(sym.StrUpTo("v.key", 1), arr(anyScalar("v", scBasic, 1)))
	} else if sym.Bool("v.scalar") {
		return anyScalar("v", scBasic, 1)
	}
	return obj1("a", arr(&node{k: kNull}, str("x\n\"")))
}

// Types with an encoder in every place, producing any small value.
func C31_encoder() {
	sym.Bound("encoder", "five types with encoders in 17 places; values: scalars and one-member objects of an array (any tree of at most 3 values and any int64, float, string of 2 bytes in thorough)")
	n := c31value()
	text := n.build().String()
	switch sym.Choose("type", 5) {
	case 0:
		encAt(C31Enc{text}, n, false)
	case 1:
		encAt(C31EncP{text}, n, true)
	case 2:
		encAt(C31EncM{"text": text}, n, false)
	case 3:
		encAt(C31EncS(text), n, false)
	case 4:
		encAt(C31EncL{text}, n, false)
	}
}

// The text of an encoder may be laid out in any way, and zero values are
// encoded like others.
func C31_encoder_text() {
	sym.Bound("encoder_text", "three layouts of one text and the zero value, 17 places")
	n := arr(&node{k: kInt, i: 1}, obj1("a", str("b")))
	text := []string{"[1,{\"a\":\"b\"}]", " [ 1 , {\n\"a\" : \"b\" } ]\n", "[1,{\"\\u0061\":\"b\"}]"}[sym.Choose("layout", 3)]
	if sym.Bool("zero") {
		switch sym.Choose("type", 3) {
		case 0:
			encAt(C31EncS(""), &node{k: kInt}, false)
		case 1:
			encAt(C31Enc{}, &node{k: kInt}, false)
		case 2:
			encAt(C31EncP{}, &node{k: kInt}, true)
		}
		return
	}
	encAt(C31Enc{text}, n, false)
}

var errC31 = errors.New("refused")

// c31bad are the values that the decoders refuse.
var c31bad = []*node{str("bad"), arr(str("bad")), arr(), obj1("bad", arr()), {k: kObj}, {k: kBool, b: true}, {k: kInt, i: 13}, {k: kFloat, f: 1.5}}

func refused(text string) bool {
	for _, n := range c31bad {
		if text == n.build().String() {
			return true
		}
	}
	return false
}

// C31Dec has its own JSON decoder.
type C31Dec struct {
	text  string
	calls int
}

func (d *C31Dec) UnmarshalJSON(b []byte) error {
	d.text = string(b)
	d.calls++
	if refused(d.text) {
		return errC31
	}
	return nil
}

func (d *C31Dec) got() (string, int) { return d.text, d.calls }

// C31DecS is a string with its own JSON decoder.
type C31DecS string

func (d *C31DecS) UnmarshalJSON(b []byte) error {
	if refused(string(b)) {
		return errC31
	}
	*d += C31DecS(b)
	return nil
}

func (d *C31DecS) got() (string, int) { return string(*d), 1 }

// C31DecM is a map with its own JSON decoder.
type C31DecM map[string]string

func (d *C31DecM) UnmarshalJSON(b []byte) error {
	if refused(string(b)) {
		return errC31
	}
	if *d == nil {
		*d = C31DecM{}
	}
	(*d)["text"] += string(b)
	return nil
}

func (d *C31DecM) got() (string, int) { return (*d)["text"], 1 }

type decoder[T any] interface {
	*T
	got() (string, int)
}

type c31in[T any] struct {
	V  T
	P  *T
	PP **T
	L  []T
	LP []*T
	A  [1]T
	M  map[string]T
	MP map[string]*T
	S  struct{ V T }
	W  T `json:"other,omitempty"`
}

func decAt[T any, P decoder[T]](n *node) {
	x := n.build()
	bad := refused(x.String())
	place := sym.Choose("place", 14)
	var err error
	var got P
	fill := func(v jsonutils.JSONObject, dst interface{}) {
		if sym.Bool("text") {
			p, perr := jsonutils.ParseString(v.String())
			sym.Assert(perr == nil, "the text of a value can be parsed")
			v = p
		}
		err = v.Unmarshal(dst)
	}
	var h c31in[T]
	switch place {
	case 0:
		fill(dict1("v", x), &h)
		got = &h.V
	case 1:
		fill(dict1("p", x), &h)
		got = h.P
	case 2:
		fill(dict1("pp", x), &h)
		if h.PP != nil {
			got = *h.PP
		}
	case 3:
		fill(dict1("l", jsonutils.NewArray(num(1), x)), &h)
		if len(h.L) == 2 {
			got = &h.L[1]
		}
	case 4:
		fill(dict1("lp", jsonutils.NewArray(x)), &h)
		if len(h.LP) == 1 {
			got = h.LP[0]
		}
	case 5:
		fill(dict1("a", jsonutils.NewArray(x)), &h)
		got = &h.A[0]
	case 6:
		fill(dict1("m", dict1("k", x)), &h)
		if t, ok := h.M["k"]; ok {
			got = &t
		}
	case 7:
		fill(dict1("mp", dict1("k", x)), &h)
		got = h.MP["k"]
	case 8:
		fill(dict1("s", dict1("v", x)), &h)
		got = &h.S.V
	case 9:
		fill(dict1("other", x), &h)
		got = &h.W
	case 10:
		got = new(T)
		fill(x, got)
	case 11:
		var p *T
		fill(x, &p)
		got = p
	case 12:
		var l []T
		fill(jsonutils.NewArray(x, num(1)), &l)
		if len(l) == 2 {
			got = &l[0]
		}
	case 13:
		got = new(T)
		err = dict1("k", x).Unmarshal(got, "k")
	}
	if bad {
		sym.Assert(err != nil, "the error of a decoder is reported")
		return
	}
	sym.Assert(err == nil && got != nil, "a type with its own decoder is filled by it")
	text, calls := got.got()
	sym.Assert(text == x.String(), "a decoder receives exactly the text of the value at its place")
	sym.Assert(calls == 1, "a decoder is called once")
}

// Types with a decoder in every place, filled from any small value. (null
// resets the destination without asking the decoder.)
func C31_decoder() {
	sym.Bound("decoder", "three types with decoders in 14 places, filled directly and through text from values of the sizes of C31_encoder")
	var n *node
	if sym.Bool("bad") {
		n = c31bad[sym.Choose("which", len(c31bad))]
	} else {
		n = c31value()
	}
	sym.Assume(n.k != kNull)
	switch sym.Choose("type", 3) {
	case 0:
		decAt[C31Dec](n)
	case 1:
		decAt[C31DecS](n)
	case 2:
		decAt[C31DecM](n)
	}
}

// C31Cb has a callback.
type C31Cb struct {
	A     int8
	B     string
	calls int
	seen  int8
	seenB string
}

func (c *C31Cb) AfterUnmarshal() {
	c.calls++
	c.seen, c.seenB = c.A, c.B
}

// C31Cb2 has a callback too.
type C31Cb2 struct {
	C     int8
	calls int
	seen  int8
}

func (c *C31Cb2) AfterUnmarshal() {
	c.calls++
	c.seen = c.C
}

// C31Outer has a callback of its own and one of an embedded struct.
type C31Outer struct {
	C31Cb
	D     int8
	outer int
	seenD int8
	inner int
}

func (c *C31Outer) AfterUnmarshal() {
	c.outer++
	c.seenD = c.D
	c.inner = c.C31Cb.calls
}

type c31both struct {
	C31Cb
	*C31Cb2
}

type c31deep struct {
	C31Outer
	*C31Cb2
}

type c31promoted struct {
	C31Cb
	Z int8
}

type c31hosts struct {
	V C31Cb
	P *C31Cb
	L []C31Cb
	Q []*C31Cb
	M map[string]C31Cb
	R map[string]*C31Cb
	X [1]C31Cb
}

// Callbacks of structs in every place, with all, some or none of their members
// given.
func C31_callback() {
	sym.Bound("callback", "14 places of structs with callbacks, each member given or not, integers -9..9")
	a, c, d := anyInt8("a"), anyInt8("c"), anyInt8("d")
	v := jsonutils.NewDict()
	if sym.Bool("given.a") {
		v.Set("a", num(int64(a)))
	} else {
		a = 0
	}
	if sym.Bool("given.c") {
		v.Set("c", num(int64(c)))
	} else {
		c = 0
	}
	if sym.Bool("given.d") {
		v.Set("d", num(int64(d)))
	} else {
		d = 0
	}
	if sym.Bool("given.b") {
		v.Set("b", text("x"))
	}
	const once = "the callback of a struct runs exactly once"
	const after = "the callback of a struct runs after its fields are filled"
	check := func(cb *C31Cb, err error) {
		sym.Assert(err == nil && cb != nil, "a struct with a callback is filled")
		sym.Assert(cb.calls == 1, once)
		sym.Assert(cb.A == a && cb.seen == a && cb.seenB == cb.B, after)
	}
	var h c31hosts
	switch sym.Choose("place", 14) {
	case 0:
		var x C31Cb
		check(&x, v.Unmarshal(&x))
	case 1:
		err := dict1("v", v).Unmarshal(&h)
		check(&h.V, err)
		sym.Assert(h.P == nil, "a struct that is not given is not made")
	case 2:
		err := dict1("p", v).Unmarshal(&h)
		check(h.P, err)
		sym.Assert(h.V.calls == 0, "the callback of a struct that is not given does not run")
	case 3:
		err := dict1("l", jsonutils.NewArray(v, v)).Unmarshal(&h)
		sym.Assert(len(h.L) == 2, "a list keeps its length")
		check(&h.L[0], err)
		check(&h.L[1], err)
	case 4:
		err := dict1("q", jsonutils.NewArray(v, v)).Unmarshal(&h)
		sym.Assert(len(h.Q) == 2, "a list keeps its length")
		check(h.Q[0], err)
		check(h.Q[1], err)
	case 5:
		err := dict1("m", dict1("k", v)).Unmarshal(&h)
		cb := h.M["k"]
		check(&cb, err)
	case 6:
		err := dict1("r", dict1("k", v)).Unmarshal(&h)
		check(h.R["k"], err)
	case 7:
		err := dict1("x", jsonutils.NewArray(v)).Unmarshal(&h)
		check(&h.X[0], err)
	case 8:
		// the callback of the outer struct and that of the embedded one
		var o C31Outer
		err := v.Unmarshal(&o)
		check(&o.C31Cb, err)
		sym.Assert(o.outer == 1, once)
		sym.Assert(o.D == d && o.seenD == d && o.inner == 1, after)
	case 9:
		// two embedded structs
		var b c31both
		withPtr := sym.Bool("ptr")
		if withPtr {
			b.C31Cb2 = &C31Cb2{}
		}
		err := v.Unmarshal(&b)
		check(&b.C31Cb, err)
		if c != 0 || withPtr {
			sym.Assert(b.C31Cb2 != nil && b.C31Cb2.calls == 1, once)
			sym.Assert(b.C31Cb2.C == c && b.C31Cb2.seen == c, after)
		}
	case 10:
		// embedded in an embedded struct
		var o c31deep
		o.C31Cb2 = &C31Cb2{}
		err := v.Unmarshal(&o)
		check(&o.C31Cb, err)
		sym.Assert(o.outer == 1 && o.C31Cb2.calls == 1, once)
		sym.Assert(o.seenD == d && o.C31Cb2.seen == c, after)
	case 11:
		var l []C31Outer
		err := jsonutils.NewArray(v).Unmarshal(&l)
		sym.Assert(len(l) == 1, "a list keeps its length")
		check(&l[0].C31Cb, err)
		sym.Assert(l[0].outer == 1, once)
	case 12:
		p, perr := jsonutils.ParseString(v.String())
		var o C31Outer
		sym.Assert(perr == nil, "the text of a value can be parsed")
		check(&o.C31Cb, p.Unmarshal(&o))
		sym.Assert(o.outer == 1, once)
	case 13:
		// the only callback is that of an embedded struct
		var o c31promoted
		err := v.Unmarshal(&o)
		if o.C31Cb.calls == 2 {
			sym.Known("C31-promoted-callback-twice")
			return
		}
		check(&o.C31Cb, err)
	}
}
