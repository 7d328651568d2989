package h

import (
	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

// C19Emb is embedded by value.
type C19Emb struct {
	Emb *c19node
}

type c19in struct {
	P *c19node
}

// c19node has edges of every kind that a pointer structure can be made of.
// The declaration order is not the order of the keys.
type c19node struct {
	Z  *c19node
	V  int8
	A  *c19node
	L  []*c19node
	M  map[string]*c19node
	S  c19in
	PL *[]*c19node
	PM *map[string]*c19node
	AR [2]*c19node
	MS map[string]c19in
	LS []c19in
	O  *c19other
	C19Emb
	B *c19node `json:"other_name,omitempty"`
}

type c19other struct {
	Back *c19node
	W    int8
}

const c19kinds = 13

// link makes an edge of a kind from n to t.
func (n *c19node) link(kind int, t *c19node) {
	switch kind {
	case 0:
		n.Z = t
	case 1:
		n.A = t
	case 2:
		n.L = append(n.L, t)
	case 3:
		if n.M == nil {
			n.M = map[string]*c19node{}
		}
		n.M["k"] = t
	case 4:
		n.S.P = t
	case 5:
		n.PL = &[]*c19node{t, t}
	case 6:
		n.PM = &map[string]*c19node{"k": t}
	case 7:
		n.AR[1] = t
	case 8:
		n.MS = map[string]c19in{"k": {P: t}}
	case 9:
		n.LS = []c19in{{P: t}, {P: t}}
	case 10:
		n.O = &c19other{Back: t, W: 7}
	case 11:
		n.Emb = t
	case 12:
		n.B = t
	}
}

// edges lists the targets of all edges of n; a nil target of a slice or map is
// kept, so that the lists of two nodes of the same shape correspond.
func (n *c19node) edges() []*c19node {
	e := []*c19node{n.Z, n.A, n.S.P, n.AR[0], n.AR[1], n.Emb, n.B}
	e = append(e, n.L...)
	e = append(e, n.M["k"])
	if n.PL != nil {
		e = append(e, *n.PL...)
	}
	if n.PM != nil {
		e = append(e, (*n.PM)["k"])
	}
	e = append(e, n.MS["k"].P)
	for i := range n.LS {
		e = append(e, n.LS[i].P)
	}
	if n.O != nil {
		e = append(e, n.O.Back)
	}
	return e
}

type c19pair struct{ a, b *c19node }

// sameShape follows every path of a and of its copy b together.
func sameShape(a, b *c19node, path []c19pair) {
	if a == nil || b == nil {
		sym.Assert(a == nil && b == nil, "a pointer is nil in the rebuilt structure exactly when it is in the original")
		return
	}
	for _, p := range path {
		if p.a == a || p.b == b {
			sym.Assert(p.a == a && p.b == b, "a path of pointers closes a cycle exactly where it does in the original")
			return
		}
	}
	sym.Assert(a.V == b.V, "the contents of the nodes are the same")
	sym.Assert((a.O == nil) == (b.O == nil) && (a.O == nil || a.O.W == b.O.W), "the contents of nodes of another type are the same")
	ea, eb := a.edges(), b.edges()
	sym.Assert(len(ea) == len(eb), "containers of pointers keep their length")
	path = append(path[:len(path):len(path)], c19pair{a, b})
	for i := range ea {
		sameShape(ea[i], eb[i], path)
	}
}

func c19check(root *c19node, top int) {
	var obj interface{} = root
	switch top {
	case 1:
		obj = []*c19node{root, root}
	case 2:
		obj = map[string]*c19node{"x": root, "y": root}
	case 3:
		obj = &c19other{Back: root}
	}
	v := jsonutils.Marshal(obj)
	text := v.String()
	c19back(root, top, v)
	p, err := jsonutils.ParseString(text)
	sym.Assert(err == nil, "the text of a marshalled pointer structure can be parsed")
	c19back(root, top, p)
	sym.Assert(jsonutils.Marshal(obj).String() == text, "marshalling again gives the same text")
}

func c19back(root *c19node, top int, v jsonutils.JSONObject) {
	var err error
	var got []*c19node
	switch top {
	case 0:
		r := &c19node{}
		err = v.Unmarshal(r)
		got = append(got, r)
	case 1:
		var l []*c19node
		err = v.Unmarshal(&l)
		sym.Assert(err != nil || len(l) == 2, "a list of pointers keeps its length")
		got = append(got, l...)
	case 2:
		var m map[string]*c19node
		err = v.Unmarshal(&m)
		got = append(got, m["x"], m["y"])
	case 3:
		o := &c19other{}
		err = v.Unmarshal(o)
		got = append(got, o.Back)
	}
	sym.Assert(err == nil, "a new value can be filled from a marshalled pointer structure")
	for _, g := range got {
		sameShape(root, g, nil)
	}
}

// Every pointer structure of up to a number of nodes with two edges each.
func C19_graph() {
	sym.Bound("graph", "every pair of 13 kinds of edges; every pointer graph of 2 nodes (3 for three pairs; 3 and four kinds of top for all pairs in thorough), direct and through text")
	max, top := 3, 0
	if sym.Thorough() {
		top = sym.Choose("top", 4)
	}
	// the same pair of kinds the other way round gives the same structures
	k1 := sym.Choose("kind1", c19kinds-1)
	k2 := k1 + 1 + sym.Choose("kind2", c19kinds-1-k1)
	if !sym.Thorough() && (k1 > 0 || k2 > 2) && (k2 != 12 || k1 != 3) {
		max = 2
	}
	c19check(c19graph(max, k1, k2), top)
}

func c19graph(max int, kinds ...int) *c19node {
	nodes := []*c19node{{V: anyInt8("v")}}
	for i := 0; i < len(nodes); i++ {
		for _, k := range kinds {
			// nil, a known node, or a new one
			n := len(nodes) + 1
			if len(nodes) < max {
				n++
			}
			t := sym.Choose("edge", n)
			if t == 0 {
				continue
			}
			if t > len(nodes) {
				nodes = append(nodes, &c19node{V: int8(t)})
			}
			nodes[i].link(k, nodes[t-1])
		}
	}
	return nodes[0]
}

// The tops other than a pointer to the first node.
func C19_top() {
	sym.Bound("top", "every pointer graph of 2 (3 thorough) nodes and four pairs of edge kinds below a list, a map or another struct")
	top := 1 + sym.Choose("top", 3)
	kinds := [][]int{{0, 1}, {1, 2}, {12, 3}, {5, 0}}[sym.Choose("kinds", 4)]
	max := 2
	if sym.Thorough() {
		max = 3
	}
	c19check(c19graph(max, kinds...), top)
}

// Three edges out of each node.
func C19_three() {
	sym.Bound("three", "every pointer graph of 2 nodes with three edges, three triples of kinds")
	kinds := [][]int{{0, 1, 2}, {12, 3, 5}, {6, 8, 9}}[sym.Choose("kinds", 3)]
	c19check(c19graph(2, kinds...), 0)
}

// A long chain of nodes whose last one points back anywhere, with a second
// reference to any node from the first one.
func C19_deep() {
	sym.Bound("deep", "chains of 4, 10 and 12 nodes of three kinds with a back edge to any node and a second reference to any node")
	n := []int{4, 10, 12}[sym.Choose("len", 3)]
	kind := []int{0, 2, 3}[sym.Choose("kind", 3)]
	nodes := make([]*c19node, n)
	for i := range nodes {
		nodes[i] = &c19node{V: int8(i)}
		if i > 0 {
			nodes[i-1].link(kind, nodes[i])
		}
	}
	nodes[n-1].link(1, nodes[sym.Choose("back", n)])
	if k := sym.Choose("also", n+1); k < n {
		nodes[0].link(12, nodes[k])
	}
	c19check(nodes[0], 0)
}

type c19dep struct {
	Old *c19dep `json:"old" yunion-deprecated-by:"new"`
	New *c19dep `json:"new"`
	V   int8
}

type c19list []*c19list

// Structures outside the graphs above: fields with deprecated names, whose
// node is written twice, and cycles in which no node is a struct or a map.
func C19_other() {
	sym.Bound("other", "structs with deprecated fields, cycles of slices, one structure each")
	switch sym.Choose("what", 2) {
	case 0:
		a := &c19dep{V: anyInt8("v")}
		b := &c19dep{V: 2}
		a.New = b
		b.New = []*c19dep{nil, a, b}[sym.Choose("edge", 3)]
		v := jsonutils.Marshal(a)
		text := sym.Bool("text")
		if text {
			p, err := jsonutils.ParseString(v.String())
			if err != nil && b.New != nil {
				sym.Known("C19-deprecated-node-twice")
				return
			}
			sym.Assert(err == nil, "the text of a marshalled pointer structure can be parsed")
			v = p
		}
		r := &c19dep{}
		err := v.Unmarshal(r)
		sym.Assert(err == nil, "a new value can be filled from a marshalled pointer structure")
		sym.Assert(r.V == a.V && r.New != nil && r.New.V == 2, "the contents of the nodes are the same")
		switch b.New {
		case nil:
			sym.Assert(r.New.New == nil, "a pointer is nil in the rebuilt structure exactly when it is in the original")
		case a:
			sym.Assert(r.New.New == r, "a path of pointers closes a cycle exactly where it does in the original")
		case b:
			sym.Assert(r.New.New == r.New, "a path of pointers closes a cycle exactly where it does in the original")
		}
	case 1:
		l := c19list{nil}
		cyclic := sym.Bool("cyclic")
		if cyclic {
			l[0] = &l
		}
		r := c19list{}
		err := jsonutils.Marshal(&l).Unmarshal(&r)
		sym.Assert(err == nil && len(r) == 1, "a list of pointers keeps its length")
		if cyclic && r[0] == nil {
			sym.Known("C19-cycle-of-slices")
			return
		}
		sym.Assert((r[0] != nil) == cyclic, "a pointer is nil in the rebuilt structure exactly when it is in the original")
	}
}

type c19n struct {
	V    int8
	Self *c19n
}

type c19p struct {
	P *c19n
}

type C19P struct {
	Q *c19n
}

// c19text has a place for a pointer of every kind.
type c19text struct {
	A *c19n
	B []*c19n
	C [1]*c19n
	D map[string]*c19n
	E map[string]c19p
	F c19p
	G *c19p
	H []c19p
	I map[string][]*c19n
	J map[string]map[string]*c19n
	K []map[string]*c19n
	L *map[string]*c19p
	M map[string][1]c19p
	C19P
	Z *c19n
}

// C19: references of a text that was not made by marshalling.
func C19_text() {
	sym.Bound("texts", "texts with a node at any of 15 places of a struct and two references to it at any other two, before or after it, inside the node or not")
	places := []string{`"a":#`, `"b":[null,#]`, `"c":[#]`, `"d":{"k":#}`, `"e":{"k":{"p":#}}`, `"f":{"p":#}`, `"g":{"p":#}`, `"h":[{"p":#}]`, `"i":{"k":[#]}`, `"j":{"k":{"l":#}}`, `"k":[{"k":#}]`, `"l":{"k":{"p":#}}`, `"m":{"k":[{"p":#}]}`, `"q":#`, `"z":#`}
	n := len(places)
	def, one, two := sym.Choose("node", n), sym.Choose("one", n), 0
	if sym.Thorough() {
		two = sym.Choose("two", n)
	} else {
		two = (one + 1 + 3*sym.Choose("two", 4)) % n
	}
	if one == def || two == def || one == two {
		return
	}
	digit := sym.Digs("v", 1)
	node := `{"___jnid_":7,"v":` + digit + `}`
	self := sym.Bool("self")
	if self {
		node = `{"___jnid_":7,"self":<7>,"v":` + digit + `}`
	}
	text := ""
	for i, p := range places {
		v := ""
		switch i {
		case def:
			v = node
		case one, two:
			v = "<7>"
		default:
			continue
		}
		for j := range p {
			if p[j] == '#' {
				text += "," + p[:j] + v + p[j+1:]
			}
		}
	}
	o, err := jsonutils.ParseString("{" + text[1:] + "}")
	sym.Assert(err == nil, "a text with node references can be parsed")
	r := &c19text{}
	sym.Assert(o.Unmarshal(r) == nil, "a new value can be filled from a text with node references")
	at := func(i int) *c19n {
		switch i {
		case 0:
			return r.A
		case 1:
			sym.Assert(len(r.B) == 2 && r.B[0] == nil, "a list of pointers keeps its length")
			return r.B[1]
		case 2:
			return r.C[0]
		case 3:
			return r.D["k"]
		case 4:
			return r.E["k"].P
		case 5:
			return r.F.P
		case 6:
			return r.G.P
		case 7:
			return r.H[0].P
		case 8:
			return r.I["k"][0]
		case 9:
			return r.J["k"]["l"]
		case 10:
			return r.K[0]["k"]
		case 11:
			return (*r.L)["k"].P
		case 12:
			return r.M["k"][0].P
		case 13:
			return r.Q
		}
		return r.Z
	}
	p := at(def)
	sym.Assert(p != nil && p.V == int8(digit[0]-'0'), "the contents of the nodes are the same")
	sym.Assert((p.Self == p) == self && (p.Self == nil) == !self, "a path of pointers closes a cycle exactly where it does in the original")
	sym.Assert(at(one) == p && at(two) == p, "all references in a text lead to the node")
}

// The first field of a c19outer has the address of the whole.
type c19inner struct {
	V  int8
	Up *c19outer
}

type c19outer struct {
	In c19inner
	W  int8
	P  *c19inner
	Q  *c19outer
	M  map[string]*c19inner
}

// C19: pointers to parts of a node.
func C19_parts() {
	sym.Bound("parts", "one or two nodes whose first field is a struct, with pointers to that field of either and back to either node")
	text, two := sym.Bool("text"), sym.Bool("two")
	a := &c19outer{In: c19inner{V: anyInt8("av")}, W: 3}
	b := &c19outer{In: c19inner{V: anyInt8("bv")}, W: 4}
	outers := []*c19outer{nil, a, b}
	pick := func(name string) *c19outer {
		if two {
			return outers[sym.Choose(name, 3)]
		}
		return outers[sym.Choose(name, 2)]
	}
	if two {
		a.Q = b
	}
	a.In.Up = pick("up")
	if p := pick("p"); p != nil {
		a.P = &p.In
	}
	if p := pick("m"); p != nil {
		a.M = map[string]*c19inner{"k": &p.In}
	}
	if two {
		b.In.Up = pick("bup")
		if p := pick("bp"); p != nil {
			b.P = &p.In
		}
	}
	v := jsonutils.Marshal(a)
	if text {
		var err error
		v, err = jsonutils.ParseString(v.String())
		sym.Assert(err == nil, "the text of a marshalled pointer structure can be parsed")
	}
	r := &c19outer{}
	sym.Assert(v.Unmarshal(r) == nil, "a marshalled pointer structure can be read back")
	sameOuter(a, r, 4)
}

// sameOuter compares all paths of up to n pointers.
func sameOuter(a, b *c19outer, n int) {
	sym.Assert((a == nil) == (b == nil), "a pointer is nil in the rebuilt structure exactly when it is in the original")
	if a == nil || n == 0 {
		return
	}
	sym.Assert(a.W == b.W && a.In.V == b.In.V, "the contents of the nodes are the same")
	sameOuter(a.Q, b.Q, n-1)
	sameOuter(a.In.Up, b.In.Up, n-1)
	x, y := []*c19inner{a.P, a.M["k"]}, []*c19inner{b.P, b.M["k"]}
	for i := range x {
		sym.Assert((x[i] == nil) == (y[i] == nil), "a pointer is nil in the rebuilt structure exactly when it is in the original")
		if x[i] != nil {
			sym.Assert(x[i].V == y[i].V, "the contents of the parts are the same")
			sameOuter(x[i].Up, y[i].Up, n-1)
		}
	}
}
