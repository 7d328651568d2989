package h

import (
	"reflect"
	"strconv"

	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

// C37: wide structs.
func C37_sized() {
	sym.Bound("sized", "structs of 9, 16, 17, 33 and 65 fields with three-letter names in three orders, of which one differs from its neighbours in an arbitrary letter; any one member of such a name, or all members")
	n := []int{9, 16, 17, 33, 65}[sym.Choose("n", 5)]
	order := sym.Choose("order", 3)
	names := make([]string, n)
	var fields []reflect.StructField
	for i := range names {
		j := []int{i, n - 1 - i, (i*7 + 3) % n}[order]
		names[i] = "n" + string([]byte{byte('a' + j/10), byte('a' + j%10)})
		fields = append(fields, reflect.StructField{Name: "F" + strconv.Itoa(i), Type: reflect.TypeOf(""), Tag: reflect.StructTag(`json:"` + names[i] + `"`)})
	}
	typ := reflect.StructOf(fields)
	p := reflect.New(typ)
	for i := range names {
		p.Elem().Field(i).SetString("old" + strconv.Itoa(i))
	}
	v := c21digit("v")
	if sym.Bool("all") {
		at := middle("n", n)
		d := jsonutils.NewDict()
		want := func(i int) string {
			if i == at {
				return v
			}
			return "new" + strconv.Itoa(i)
		}
		for i := range names {
			d.Set(names[i], jsonutils.NewString(want(i)))
		}
		sym.Assert(d.Unmarshal(p.Interface()) == nil, "members of the right kind fill a struct")
		for i := range names {
			sym.Assert(p.Elem().Field(i).String() == want(i), "every member fills the fields of its name and nothing else")
		}
		w, ok := jsonutils.Marshal(p.Interface()).(*jsonutils.JSONDict)
		sym.Assert(ok && w.Length() == n, "a struct has a member for every field that is not ignored")
		for i := range names {
			s, err := w.GetString(names[i])
			sym.Assert(err == nil && s == want(i), "a member has the name of the tag, or the words of the field name")
		}
		return
	}
	if sym.Bool("alike") {
		c37alike(n, order, v)
		return
	}
	name := "n" + string([]byte{sym.ByteIn("k1", 'a', 'h'), sym.ByteIn("k2", 'a', 'z')})
	sym.Assert(dict1(name, jsonutils.NewString(v)).Unmarshal(p.Interface()) == nil, "members of the right kind fill a struct")
	for i := range names {
		want := "old" + strconv.Itoa(i)
		if names[i] == name {
			want = v
		}
		sym.Assert(p.Elem().Field(i).String() == want, "every member fills the fields of its name and nothing else")
	}
}

// c37alike fills a wide struct with two fields whose names differ in the
// spelling only.
func c37alike(n, order int, v string) {
	pair := [][2]string{{"foo_bar", "fooBar"}, {"foo", "Foo"}, {"foo_bar", "foo-bar"}, {"foo_bars", "foo_bar"}}[sym.Choose("pair", 4)]
	at := middle("pair", n-1)
	to := sym.Choose("to", 2)
	if sym.Bool("swap") {
		pair[0], pair[1] = pair[1], pair[0]
	}
	var fields []reflect.StructField
	for i := 0; i < n; i++ {
		name := "n" + string([]byte{byte('a' + i/10), byte('a' + i%10)})
		if i == at || i == at+1 {
			name = pair[i-at]
		}
		fields = append(fields, reflect.StructField{Name: "F" + strconv.Itoa(i), Type: reflect.TypeOf(""), Tag: reflect.StructTag(`json:"` + name + `"`)})
	}
	p := reflect.New(reflect.StructOf(fields))
	d := dict1(pair[to], jsonutils.NewString(v))
	if order > 0 {
		d.Set([]string{"zzz", "aaa"}[order-1], jsonutils.NewInt(1))
	}
	sym.Assert(d.Unmarshal(p.Interface()) == nil, "members of the right kind fill a struct")
	sym.Assert(p.Elem().Field(at+to).String() == v, "every member fills the fields of its name")
}

// c31many counts the calls of its encoder and decoder.
type c31many struct {
	text  string
	calls *int
}

func (m c31many) MarshalJSON() ([]byte, error) {
	*m.calls++
	return []byte(m.text), nil
}

func (m *c31many) UnmarshalJSON(b []byte) error {
	m.text += string(b)
	return nil
}

// C31: many values with hooks.
func C31_sized() {
	sym.Bound("sized", "slices, maps and arrays of 16, 17, 33, 65 and 129 (also 257 thorough) values with an encoder, a decoder or a callback; one value arbitrary")
	n := anySize("n", 257)
	if hugely {
		n = 300
	}
	at := middle("n", n)
	x := c31value()
	elem := func(i int) *node {
		if i == at {
			return x
		}
		return obj1("i", &node{k: kInt, i: int64(i)})
	}
	text := func(i int) string { return elem(i).build().String() }
	key := func(i int) string { return "k" + strconv.Itoa(i*7%n*1000+i) }
	calls := make([]int, n)
	switch sym.Choose("what", 5) {
	case 0:
		l := make([]c31many, n)
		for i := range l {
			l[i] = c31many{text(i), &calls[i]}
		}
		a, ok := jsonutils.Marshal(l).(*jsonutils.JSONArray)
		sym.Assert(ok && a.Length() == n, "a list keeps its length")
		for i := range l {
			e, err := a.GetAt(i)
			sym.Assert(err == nil && elem(i).same(e), "a type with its own encoder is rendered as the value that its encoder produces")
			sym.Assert(calls[i] == 1, "an encoder is called once")
		}
	case 1:
		m := map[string]*c31many{}
		for i := 0; i < n; i++ {
			m[key(i)] = &c31many{text(i), &calls[i]}
		}
		d, ok := jsonutils.Marshal(m).(*jsonutils.JSONDict)
		sym.Assert(ok && d.Length() == n, "a map keeps its length")
		for i := 0; i < n; i++ {
			e, err := d.Get(key(i))
			sym.Assert(err == nil && elem(i).same(e), "a type with its own encoder is rendered as the value that its encoder produces")
			sym.Assert(calls[i] == 1, "an encoder is called once")
		}
	case 2:
		a := jsonutils.NewArray()
		for i := 0; i < n; i++ {
			a.Add(elem(i).build())
		}
		var l []c31many
		sym.Assert(a.Unmarshal(&l) == nil && len(l) == n, "a list of values with a decoder is filled")
		for i := range l {
			if elem(i).k == kNull {
				continue
			}
			sym.Assert(l[i].text == text(i), "a decoder receives exactly the text of the value at its place")
		}
	case 3:
		d := jsonutils.NewDict()
		for i := 0; i < n; i++ {
			d.Set(key(i), elem(i).build())
		}
		var m map[string]*c31many
		sym.Assert(d.Unmarshal(&m) == nil && len(m) == n, "a map of values with a decoder is filled")
		for i := 0; i < n; i++ {
			if elem(i).k == kNull {
				continue
			}
			sym.Assert(m[key(i)] != nil && m[key(i)].text == text(i), "a decoder receives exactly the text of the value at its place")
		}
	case 4:
		a := jsonutils.NewArray()
		for i := 0; i < n; i++ {
			a.Add(dict1("v", jsonutils.NewInt(int64(i))))
		}
		var l []c31after
		sym.Assert(a.Unmarshal(&l) == nil && len(l) == n, "a list of values with a callback is filled")
		for i := range l {
			sym.Assert(l[i].calls == 1 && l[i].seen == i && l[i].V == i, "the callback runs once, when the value is filled")
		}
	}
}

type c31after struct {
	V           int `json:"v"`
	calls, seen int
}

func (c *c31after) AfterUnmarshal() {
	c.calls++
	c.seen = c.V
}

// C18: destinations filled from big values.
func C18_sized() {
	sym.Bound("sized", "67 destination types, empty or already set, filled from arrays and objects of 16 (thorough also 17 and 33, and strings and keys of up to 600 bytes) entries and such nesting, with a null, an integer or a small container at the start, in the middle or at the end")
	i := sym.Choose("dest", nDest)
	kinds, max := 3, 16
	if sym.Thorough() {
		kinds, max = 5, 33
	}
	v := bigWith("v", kinds, max, func(name string) *node {
		switch sym.Choose(name, 4) {
		case 0:
			return &node{k: kNull}
		case 1:
			return &node{k: kInt, i: sym.Int64(name)}
		case 2:
			return arr(str("x"))
		}
		return obj1("a", arr())
	})
	class, err := fill(i, v.build(), sym.Choose("way", 2))
	if mustErr(v.k, class) {
		sym.Assert(err != nil, "an array or object that does not fit the kind of the destination is an error")
	}
}

// C35: many values of a registered type.
func C35_sized() {
	sym.Bound("sized", "lists and maps of 16, 17, 33, 65 and 129 (also 257 thorough) values of a registered interface type, one of them arbitrary")
	n := anySize("n", 257)
	at := middle("n", n)
	x := c35any("x")
	val := func(i int) *c35impl {
		if i == at {
			return x
		}
		return &c35impl{N: "n" + strconv.Itoa(i), I: int64(i), L: []string{"a"}}
	}
	key := func(i int) string { return "k" + strconv.Itoa(i*7%n*1000+i) }
	if sym.Bool("map") {
		m := map[string]c35tok{}
		for i := 0; i < n; i++ {
			m[key(i)] = val(i)
		}
		var r map[string]c35tok
		sym.Assert(jsonutils.Marshal(m).Unmarshal(&r) == nil && len(r) == n, "a map of values of a registered interface type is filled")
		for i := 0; i < n; i++ {
			sym.Assert(val(i).is(r[key(i)]), "a registered interface type is filled with an equal value")
		}
		return
	}
	l := make([]c35tok, n)
	for i := range l {
		l[i] = val(i)
	}
	var r []c35tok
	sym.Assert(jsonutils.Marshal(l).Unmarshal(&r) == nil && len(r) == n, "a list of values of a registered interface type is filled")
	for i := range r {
		sym.Assert(val(i).is(r[i]), "a registered interface type is filled with an equal value")
		for j := range r[:i] {
			sym.Assert(r[i] != r[j], "every value is a new one")
		}
	}
}
