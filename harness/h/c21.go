package h

import (
	"reflect"
	"strconv"

	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

// c21graph is a struct type whose fields name each other as replacements.
type c21graph struct {
	names []string
	next  []int // the replacing field, -1 for none, -2 for one that does not exist
	ints  bool  // every other field is a number
	typ   reflect.Type
}

func (g *c21graph) isInt(i int) bool { return g.ints && i%2 == 1 }

func anyGraph(n int) *c21graph {
	g := &c21graph{next: make([]int, n)}
	// the order of the keys differs from that of the fields
	names := 1
	if n < 4 || sym.Thorough() {
		g.ints = sym.Bool("ints")
		names = sym.Choose("names", 2)
	}
	g.names = [][]string{{"a", "b", "c", "d", "e"}, {"c", "a", "d", "b", "0"}}[names][:n]
	var fields []reflect.StructField
	for i := range g.next {
		t := sym.Choose("next", n+2)
		g.next[i] = t - 2
		tag := `json:"` + g.names[i] + `"`
		if t == 0 {
			tag += ` yunion-deprecated-by:"gone"`
		} else if t > 1 {
			tag += ` yunion-deprecated-by:"` + g.names[t-2] + `"`
		}
		typ := reflect.TypeOf("")
		if g.isInt(i) {
			typ = reflect.TypeOf(0)
		}
		fields = append(fields, reflect.StructField{Name: "F" + string([]byte{byte('0' + i)}), Type: typ, Tag: reflect.StructTag(tag)})
		if g.next[i] == -2 || g.next[i] == -1 {
			g.next[i] = -3 - g.next[i] // -1: no such field, -2: none
		}
	}
	g.typ = reflect.StructOf(fields)
	return g
}

const (
	c21gone = -1
	c21none = -2
)

// end follows the replacements of field i to the last one, or reports that
// there is none.
func (g *c21graph) end(i int) (int, bool) {
	for steps := 0; steps <= len(g.next); steps++ {
		if g.next[i] == c21none {
			return i, true
		}
		if g.next[i] == c21gone {
			return 0, false
		}
		i = g.next[i]
	}
	return 0, false
}

// reaches reports that filling field i also fills field j.
func (g *c21graph) reaches(i, j int) bool {
	for steps := 0; steps <= len(g.next); steps++ {
		if i == j {
			return true
		}
		if i = g.next[i]; i < 0 {
			return false
		}
	}
	return false
}

func c21digit(name string) string { return string([]byte{sym.ByteIn(name, '1', '9')}) }

// Marshalling structs with any graph of replacements and any values, under
// every iteration order of the maps of the implementation.
func C21_marshal() {
	sym.Bound("marshal", "every graph of replacements between 3 and 4 fields (strings; of 3, strings and numbers, two orders of keys) including cycles and missing fields; every choice of set fields for 3 (4 in thorough); every iteration order of the maps")
	n := 3 + sym.Choose("more", 2)
	// four fields are all set in the quick run
	c21marshal(anyGraph(n), n == 4 && !sym.Thorough())
}

// a few longer chains and cycles
func C21_marshal_long() {
	sym.Bound("marshal_long", "eight chains and cycles of 4 fields, every choice of set fields, every map order")
	g := anyGraphOf([][]int{{1, 2, 3, c21none}, {c21none, 0, 1, 2}, {1, 2, 0, 2}, {3, 0, 1, c21none}, {1, 0, 3, 2}, {2, 2, c21none, 2}, {1, 2, 3, 3}, {1, 2, 3, c21gone}})
	c21marshal(g, false)
}

// anyGraphOf picks one of the graphs.
func anyGraphOf(graphs [][]int) *c21graph {
	next := graphs[sym.Choose("graph", len(graphs))]
	g := &c21graph{next: next, names: []string{"c", "a", "d", "b"}}
	g.make()
	return g
}

// make builds the type from the names and replacements.
func (g *c21graph) make() {
	var fields []reflect.StructField
	for i, t := range g.next {
		tag := `json:"` + g.names[i] + `"`
		if t == c21gone {
			tag += ` yunion-deprecated-by:"gone"`
		} else if t >= 0 {
			tag += ` yunion-deprecated-by:"` + g.names[t] + `"`
		}
		fields = append(fields, reflect.StructField{Name: "F" + strconv.Itoa(i), Type: reflect.TypeOf(""), Tag: reflect.StructTag(tag)})
	}
	g.typ = reflect.StructOf(fields)
}

func c21marshal(g *c21graph, set bool) {
	n := len(g.next)
	s := reflect.New(g.typ).Elem()
	vals := make([]string, n)
	for i := range vals {
		if set || sym.Bool("set") {
			vals[i] = c21digit("v")
			if g.isInt(i) {
				s.Field(i).SetInt(int64(vals[i][0] - '0'))
			} else {
				s.Field(i).SetString(vals[i])
			}
		} else if g.isInt(i) {
			vals[i] = "0" // numbers are not omitted
		}
	}
	all := !set && sym.Bool("marshalall")
	sym.MapOrder(true)
	c21shown(g, s, vals, all)
}

// c21emits checks what a struct of strings is marshalled to.
func c21emits(g *c21graph, vals []string, all bool) {
	s := reflect.New(g.typ).Elem()
	for i, v := range vals {
		s.Field(i).SetString(v)
	}
	c21shown(g, s, vals, all)
}

func c21shown(g *c21graph, s reflect.Value, vals []string, all bool) {
	var v jsonutils.JSONObject
	if all {
		v = jsonutils.MarshalAll(s.Interface())
	} else {
		v = jsonutils.Marshal(s.Interface())
	}
	sym.MapOrder(false)
	d := v.(*jsonutils.JSONDict)
	members := 0
	for i := range vals {
		got, err := d.Get(g.names[i])
		e, ok := g.end(i)
		if !ok || vals[e] == "" && !all {
			sym.Assert(err != nil, "a deprecated name without a value of its replacement is not emitted")
			continue
		}
		members++
		text := ""
		if err == nil {
			text, _ = got.GetString()
		}
		sym.Assert(err == nil && text == vals[e], "every name carries the value of the field that replaces it in the end")
	}
	sym.Assert(d.Length() == members, "no other names are emitted")
}

// Filling structs with any graph of replacements from any of their names.
func C21_unmarshal() {
	sym.Bound("unmarshal", "every graph of replacements between 3 and 4 fields, every choice of given members, every map order")
	n := 3 + sym.Choose("more", 2)
	c21unmarshal(anyGraph(n))
}

func C21_unmarshal_long() {
	sym.Bound("unmarshal_long", "eight chains and cycles of 4 fields")
	c21unmarshal(anyGraphOf([][]int{{1, 2, 3, c21none}, {c21none, 0, 1, 2}, {1, 2, 0, 2}, {3, 0, 1, c21none}, {1, 0, 3, 2}, {2, 2, c21none, 2}, {1, 2, 3, 3}, {1, 2, 3, c21gone}}))
}

func c21unmarshal(g *c21graph) {
	n := len(g.next)
	// fields may hold something before, and zero values are given like others
	before := ""
	if sym.Bool("before") {
		before = "/"
	}
	kind := sym.Choose("values", 3)
	zero, null := kind == 1, kind == 2
	given := make([]string, n)
	has := make([]bool, n)
	d := jsonutils.NewDict()
	for i := range given {
		if sym.Bool("given") {
			has[i] = true
			if null {
				d.Set(g.names[i], jsonutils.JSONNull)
				continue
			}
			if !zero {
				given[i] = c21digit("v")
			} else if g.ints {
				given[i] = "0"
			}
			d.Set(g.names[i], jsonutils.NewString(given[i]))
		}
	}
	dst := func() reflect.Value {
		p := reflect.New(g.typ)
		for j := 0; j < n && before != ""; j++ {
			if g.isInt(j) {
				p.Elem().Field(j).SetInt(int64(before[0]) - '0')
			} else {
				p.Elem().Field(j).SetString(before)
			}
		}
		return p
	}
	p, q := dst(), dst()
	sym.MapOrder(true)
	err := d.Unmarshal(p.Interface())
	sym.MapOrder(false)
	sym.Assert(err == nil, "a struct with deprecated names is filled without an error")
	d.Unmarshal(q.Interface())
	for j := range given {
		text := func(p reflect.Value) string {
			f := p.Elem().Field(j)
			if !g.isInt(j) {
				return f.String()
			}
			return string([]byte{byte('0' + f.Int())})
		}
		got := text(p)
		sym.Assert(got == text(q), "the result does not depend on the iteration order")
		any, ok := false, false
		for i := range given {
			if has[i] && g.reaches(i, j) {
				any = true
				ok = ok || got == given[i] || null && got == "0" && g.isInt(j)
			}
		}
		if !any {
			old := before
			if old == "" && g.isInt(j) {
				old = "0"
			}
			sym.Assert(got == old, "a field is left alone unless its name or one that it replaces is given")
		} else {
			sym.Assert(ok, "filling from a deprecated name fills the replacing fields too")
		}
	}
}

// C21Base gets its replacements from the tags of the struct that embeds it.
type C21Base struct {
	Project   string
	ProjectId string
	Tenant    string
}

type c21embed struct {
	C21Base "project_id->yunion-deprecated-by:\"project\" tenant->yunion-deprecated-by:\"project_id\""
	Count   int8   `json:"count"`
	Num     int8   `json:"num" yunion-deprecated-by:"count"`
	Owner   string `yunion-deprecated-by:"project"`
}

// Replacements of the members of an embedded struct, and of numbers.
func C21_embedded() {
	sym.Bound("embedded", "one family of embedded deprecated fields")
	x := anyInt8("x")
	s := c21digit("s")
	sym.MapOrder(true)
	v := jsonutils.Marshal(c21embed{C21Base: C21Base{Project: s, Tenant: "no"}, Count: x, Num: 5})
	sym.MapOrder(false)
	w := jsonutils.NewDict()
	for _, k := range []string{"project", "project_id", "tenant", "owner"} {
		w.Set(k, text(s))
	}
	w.Set("count", num(int64(x)))
	w.Set("num", num(int64(x)))
	sym.Assert(v.Equals(w), "every name carries the value of the field that replaces it in the end")
	r := c21embed{C21Base: C21Base{Project: "old"}}
	s = sym.StrUpTo("s2", 1)
	err := dict1([]string{"tenant", "project_id", "owner"}[sym.Choose("name", 3)], text(s)).Unmarshal(&r)
	sym.Assert(err == nil && r.Project == s, "filling from a deprecated name fills the replacing fields too")
	q := c21embed{Count: 3, Num: 4}
	err = dict1("num", num(int64(x))).Unmarshal(&q)
	sym.Assert(err == nil && q.Num == x && q.Count == x, "filling from a deprecated name fills the replacing fields too")
}

// c21filled fills a struct of strings from the name of field i.
func c21filled(g *c21graph, i int, val string) {
	p := reflect.New(g.typ)
	for j := range g.next {
		p.Elem().Field(j).SetString("/")
	}
	err := dict1(g.names[i], text(val)).Unmarshal(p.Interface())
	sym.Assert(err == nil, "a struct with deprecated names is filled without an error")
	for j := range g.next {
		got := p.Elem().Field(j).String()
		if g.reaches(i, j) {
			sym.Assert(got == val, "filling from a deprecated name fills the replacing fields too")
		} else {
			sym.Assert(got == "/", "a field is left alone unless its name or one that it replaces is given")
		}
	}
}
