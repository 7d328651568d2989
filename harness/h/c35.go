package h

import (
	"reflect"

	"yunion.io/x/jsonutils"
	"yunion.io/x/pkg/gotypes"

	"verifharness/sym"
)

// a serializable interface with a registered implementation
type c35tok interface {
	gotypes.ISerializable
	Name() string
}

type c35impl struct {
	N string            `json:"n"`
	I int64             `json:"i"`
	L []string          `json:"l"`
	M map[string]c35tok `json:"m"`
}

func (t *c35impl) Name() string   { return t.N }
func (t *c35impl) String() string { return jsonutils.Marshal(t).String() }
func (t *c35impl) IsZero() bool   { return t.N == "" }

// a serializable interface that nobody registered
type c35other interface {
	gotypes.ISerializable
	Other()
}

var c35type = reflect.TypeOf((*c35tok)(nil)).Elem()

// a type whose values pass through a transformer
type c35trans struct {
	X string `json:"x"`
	t int
}

func (t *c35trans) String() string { return jsonutils.Marshal(t).String() }
func (t *c35trans) IsZero() bool   { return false }

var c35transType = reflect.TypeOf((*c35trans)(nil))

func init() {
	gotypes.RegisterSerializable(c35type, func() gotypes.ISerializable { return &c35impl{} })
	gotypes.RegisterSerializable(c35transType, func() gotypes.ISerializable { return &c35trans{} })
	gotypes.RegisterSerializableTransformer(c35transType, func(v gotypes.ISerializable) gotypes.ISerializable {
		v.(*c35trans).t++
		return v
	})
}

func c35any(name string) *c35impl {
	return &c35impl{N: sym.ASCII(name+".n", sym.Choose(name+".len", 2)), I: sym.Int64In(name+".i", -9, 9), L: []string{sym.From(name+".l", 1, "a\"")}}
}

func (t *c35impl) is(o c35tok) bool {
	x, ok := o.(*c35impl)
	if !ok || x == nil || x.N != t.N || x.I != t.I || len(x.L) != len(t.L) || len(x.M) != len(t.M) {
		return false
	}
	for i := range t.L {
		if x.L[i] != t.L[i] {
			return false
		}
	}
	for k, v := range t.M {
		if !v.(*c35impl).is(x.M[k]) {
			return false
		}
	}
	return true
}

// Values of a registered type are read back from their text.
func C35_registered() {
	sym.Bound("registered", "an implementation with a string of at most one ASCII byte, an integer -9..9, a list and up to one nested value of the interface in a map; and a type with a transformer")
	t := c35any("t")
	if sym.Choose("nested", 2) == 1 {
		t.M = map[string]c35tok{"k": c35any("u")}
	}
	v, err := jsonutils.JSONDeserialize(c35type, t.String())
	sym.Assert(err == nil, "the text of a registered type is deserialized")
	o, ok := v.(c35tok)
	sym.Assert(ok && t.is(o), "deserializing gives an equal value of the registered type")
	w, err := jsonutils.JSONDeserialize(c35type, t.String())
	sym.Assert(err == nil && w.(*c35impl) != v.(*c35impl), "every value deserialized is a new one")
	w.(*c35impl).N = "changed"
	sym.Assert(t.is(o), "every value deserialized is a new one")
	z := &c35trans{X: t.N}
	v, err = jsonutils.JSONDeserialize(c35transType, z.String())
	sym.Assert(err == nil && v.(*c35trans).X == t.N, "a value of a type with a transformer has its content")
	sym.Assert(v.(*c35trans).t == 1, "the transformer runs once")
}

// The JSON types themselves.
func C35_json() {
	sym.Bound("json", "every text of at most 3 (4 thorough) bytes, and trees with at most 2 values below the top, as any value, as object and as array")
	var text string
	var n *node
	if sym.Choose("text", 2) == 0 {
		k := 3
		if sym.Thorough() {
			k = 4
		}
		text = sym.StrUpTo("text", k)
	} else {
		b := 2
		n = anyTree("v", 1, &b, -1, true)
		text = n.build().String()
	}
	p, perr := jsonutils.ParseString(text)
	sym.Assert(n == nil || perr == nil, "the text parses")
	typ := []reflect.Type{jsonutils.JSONObjectType, jsonutils.JSONDictPtrType, jsonutils.JSONArrayPtrType}[sym.Choose("type", 3)]
	v, err := jsonutils.JSONDeserialize(typ, text)
	if perr != nil {
		sym.Assert(err != nil, "a text that does not parse is an error")
		return
	}
	o, isJson := v.(jsonutils.JSONObject)
	fits := true
	null := false
	switch p.(type) {
	case *jsonutils.JSONDict:
		fits = typ != jsonutils.JSONArrayPtrType
	case *jsonutils.JSONArray:
		fits = typ != jsonutils.JSONDictPtrType
	case *jsonutils.JSONValue:
		null = typ != jsonutils.JSONObjectType
	default:
		fits = typ == jsonutils.JSONObjectType || p.String()[0] == '<'
		null = p.String()[0] == '<'
	}
	sym.Assert((err == nil) == fits, "a value of another kind than the type is an error")
	if err != nil {
		return
	}
	sym.Assert(isJson, "the result is a JSON value")
	if null {
		return
	}
	sym.Assert(reflect.TypeOf(o) == reflect.TypeOf(p) && o.String() == p.String() && (o.Equals(p) || o.String() == "NaN"), "the result is what the text denotes")
	if n != nil {
		sym.Assert(n.same(o), "the result has the content")
	}
}

type c35holder struct {
	T c35tok            `json:"t"`
	L []c35tok          `json:"l"`
	M map[string]c35tok `json:"m"`
	P *c35tok           `json:"p"`
	Z string            `json:"z"`
}

// Places of a registered interface type.
func C35_places() {
	sym.Bound("places", "a value of the registered interface as field, slice element, map value, behind a pointer; directly or through text, into empty or filled places; and any scalar or array in its place")
	t := c35any("t")
	h := c35holder{Z: "z"}
	place := sym.Choose("place", 4)
	switch place {
	case 0:
		h.T = t
	case 1:
		h.L = []c35tok{nil, t}
	case 2:
		h.M = map[string]c35tok{"a": t}
	case 3:
		var i c35tok = t
		h.P = &i
	}
	text := sym.Bool("text")
	j := jsonutils.Marshal(&h)
	if sym.Choose("other", 2) == 0 {
		var r c35holder
		var former *c35impl
		if sym.Choose("set", 2) == 1 {
			// filled before
			former = &c35impl{N: "former", I: 77, L: []string{"x", "y"}, M: map[string]c35tok{"f": &c35impl{}}}
			r.T, r.L, r.M = former, []c35tok{former, former, former}, map[string]c35tok{"a": former}
		}
		if place == 3 {
			// an object behind a pointer to an interface is refused
			err := j.Unmarshal(&r)
			sym.Assert(err != nil || r.P != nil && t.is(*r.P), "the value behind a pointer comes back or is refused")
			return
		}
		sym.Assert(back(j, text, &r), "a registered interface type is filled")
		ok := r.Z == "z"
		switch place {
		case 0:
			ok = ok && t.is(r.T) && (former != nil || len(r.L) == 0 && len(r.M) == 0)
		case 1:
			ok = ok && len(r.L) == 2 && r.L[0] == nil && t.is(r.L[1])
		case 2:
			ok = ok && len(r.M) == 1 && t.is(r.M["a"])
		}
		sym.Assert(ok, "a registered interface type is filled with an equal value")
		sym.Assert(former == nil || former.N == "former" && former.I == 77 && len(former.L) == 2 && len(former.M) == 1, "a value that was there before is replaced, not changed")
		return
	}
	// something else in its place
	var x *node
	if sym.Choose("array", 2) == 1 {
		x = arr(&node{k: kInt, i: 1})
	} else {
		x = anyScalar("x", scBasic, 1)
	}
	var r c35holder
	r.T = t
	err := obj1("t", x).build().Unmarshal(&r)
	if x.k == kNull {
		sym.Assert(err == nil && r.T == nil, "null resets an interface")
	} else {
		sym.Assert(err != nil && t.is(r.T), "a value that the interface cannot hold is an error")
	}
}

// Types that nobody registered.
func C35_unregistered() {
	sym.Bound("unregistered", "an interface and struct type without registration, any object or scalar")
	n := anyScalar("x", scBasic, 1)
	if sym.Choose("obj", 2) == 1 {
		n = obj1("n", n)
	}
	v := n.build()
	typ := []reflect.Type{reflect.TypeOf((*c35other)(nil)).Elem(), reflect.TypeOf(c35impl{}), reflect.TypeOf(&c35impl{}), reflect.TypeOf(0)}[sym.Choose("type", 4)]
	x, err := jsonutils.JSONDeserialize(typ, v.String())
	sym.Assert(err != nil && x == nil, "a type that is not registered is an error")
	var h struct {
		A int      `json:"a"`
		O c35other `json:"o"`
		Z int      `json:"z"`
	}
	d := obj1("o", n)
	d.add("a", &node{k: kInt, i: 1})
	d.add("z", &node{k: kInt, i: 2})
	err = d.build().Unmarshal(&h)
	sym.Assert((err == nil) == (n.k == kNull) && h.O == nil, "an interface that is not registered is an error")
	sym.Assert(h.A == 1 && h.Z == 2, "the other fields are filled")
}

// C35: objects with any of the members.
func C35_members() {
	sym.Bound("members", "objects with any subset of three members of the implementation and one unknown, deserialized, as field, slice element, map value and nested map value, into empty or filled places")
	var t c35impl
	text := ""
	if sym.Bool("n") {
		t.N = sym.From("nv", 1, "ab")
		text += `,"n":"` + t.N + `"`
	}
	if sym.Bool("i") {
		d := sym.Digs("iv", 1)
		t.I = int64(d[0] - '0')
		text += `,"i":` + d
	}
	if sym.Bool("l") {
		t.L = []string{"x"}
		text += `,"l":["x"]`
	}
	if sym.Bool("u") {
		text += `,"unknown":{}`
	}
	if text != "" {
		text = text[1:]
	}
	text = "{" + text + "}"
	former := &c35impl{N: "former", I: 77, L: []string{"y"}}
	r := c35holder{}
	if sym.Bool("set") {
		r = c35holder{T: former, L: []c35tok{former}, M: map[string]c35tok{"a": former}}
	}
	var got c35tok
	fill := func(s string) {
		o, err := jsonutils.ParseString(s)
		sym.Assert(err == nil && o.Unmarshal(&r) == nil, "a registered interface type is filled")
	}
	switch sym.Choose("place", 5) {
	case 0:
		v, err := jsonutils.JSONDeserialize(c35type, text)
		sym.Assert(err == nil, "the text of a registered type is deserialized")
		got, _ = v.(c35tok)
	case 1:
		fill(`{"t":` + text + `}`)
		got = r.T
	case 2:
		fill(`{"l":[` + text + `]}`)
		sym.Assert(len(r.L) == 1, "a list of a registered interface type has its length")
		got = r.L[0]
	case 3:
		fill(`{"m":{"a":` + text + `}}`)
		got = r.M["a"]
	default:
		fill(`{"t":{"m":{"k":` + text + `}}}`)
		x, ok := r.T.(*c35impl)
		sym.Assert(ok && x != nil && x != former && x.N == "", "a registered interface type is filled")
		got = x.M["k"]
	}
	sym.Assert(got != nil && t.is(got), "a place of a registered interface type gets what the text denotes")
	sym.Assert(got.(*c35impl) != former && former.N == "former" && former.I == 77, "a new value is made, the former one is left alone")
}
