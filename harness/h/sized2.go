package h

import (
	"strconv"

	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

func middle(name string, n int) int { return []int{0, n / 2, n - 1}[sym.Choose(name+".at", 3)] }

func run(n int, s string) string {
	t := ""
	for len(t) < n {
		t += s
	}
	return t[:n]
}

// C05: big documents of forms that the package does not write itself.
func C05_sized() {
	sym.Bound("sized", "documents with 16, 17, 33, 65 and 129 (also 257 and 600 thorough) insignificant characters, escapes, digits, members or levels, of which one is arbitrary (at the start, in the middle or at the end)")
	n := anySize("n", 600)
	at := middle("n", n)
	switch sym.Choose("what", 6) {
	case 0:
		// a run of whitespace
		b := []byte(run(n, " \n\t\r  \n"))
		b[at] = sym.From("ws", 1, " \t\n\r")[0]
		w := string(b)
		c := &node{k: kInt, i: 1}
		switch sym.Choose("place", 5) {
		case 0:
			read(w+"[1]", arr(c))
		case 1:
			read("["+w+"1]", arr(c))
		case 2:
			read("[1"+w+",1]"+w, arr(c, c))
		case 3:
			read("{\"a\""+w+":1}", obj1("a", c))
		case 4:
			read("{\"a\":"+w+"1"+w+"}", obj1("a", c))
		}
	case 1:
		// a run of escapes
		text, want := "", ""
		for i := 0; i < n; i++ {
			if i == at {
				t, v := shortEscape("c")
				text, want = text+t, want+string(v)
				continue
			}
			j := i % 6
			text += []string{"\\n", "x", "\\u0041", "\\\"", "\\ud83d\\ude00", "\u00e9"}[j]
			want += []string{"\n", "x", "A", "\"", "\U0001f600", "\u00e9"}[j]
		}
		if sym.Bool("key") {
			read("{\""+text+"\":null}", obj1(want, &node{k: kNull}))
		} else {
			read("\""+text+"\"", str(want))
		}
	case 2:
		// leading digits of a fraction, or trailing zeros
		d := "159"[sym.Choose("digit", 3)]
		f := float64(d - '0')
		switch sym.Choose("form", 3) {
		case 0:
			read("["+string([]byte{d})+"."+run(n, "0")+"]", arr(&node{k: kFloat, f: f}))
		case 1:
			read("["+string([]byte{d})+"."+run(n, "0")+"e0]", arr(&node{k: kFloat, f: f}))
		case 2:
			read("["+string([]byte{d})+run(n%12, "0")+"E-"+strconv.Itoa(n%12)+"]", arr(&node{k: kFloat, f: f}))
		}
	case 3:
		// a wide object
		text, v := "{", &node{k: kObj}
		for i := 0; i < n; i++ {
			k := "k" + strconv.Itoa((i*7)%n*1000+i)
			e, t := &node{k: kInt, i: int64(i)}, strconv.Itoa(i)
			if i == at {
				var u string
				u, k = litChar("key")
				t, k = "[ ]", "k"+k
				e = arr()
				text += "\"k" + u[1:] + " : [ ]"
			} else {
				text += "\"" + k + "\":" + t
			}
			v.add(k, e)
			if i < n-1 {
				text += " ,"
			}
		}
		read(text+"}", v)
	case 4:
		// a wide array
		text, v := "", arr()
		for i := 0; i < n; i++ {
			if i > 0 {
				text += ","
			}
			if i == at {
				c, s := litChar("c")
				text += "\n" + c + "\t"
				v.kids = append(v.kids, str(s))
				continue
			}
			text += []string{"1.5", "null", "[true]", "{ }", "-3", "\"\\/\""}[i%6]
			v.kids = append(v.kids, []*node{{k: kFloat, f: 1.5}, {k: kNull}, arr(&node{k: kBool, b: true}), {k: kObj}, {k: kInt, i: -3}, str("/")}[i%6])
		}
		read("["+text+"]", v)
	case 5:
		// deep
		if n > 65 {
			n = 65
		}
		c, s := litChar("c")
		text, v := c, str(s)
		for i := 0; i < n; i++ {
			if i%2 == at%2 {
				text, v = "[\n"+text+" ]", arr(v)
			} else {
				text, v = "{\"x\": "+text+"}", obj1("x", v)
			}
		}
		read(text, v)
	}
}

// C07: big streams.
func C07_sized() {
	sym.Bound("sized", "streams of 16, 17, 33, 65 and 129 (also 257 and 600 thorough) documents with an arbitrary gap byte and one document with an arbitrary string, or two documents of which one is that big, nested that deep (at most 65) or behind a gap that long")
	n := anySize("n", 600)
	at := middle("n", n)
	c := sym.From("c", 1, "a]}[{\"\\")
	var docs []*node
	s, g := "", gap("gap", 1)
	switch sym.Choose("what", 4) {
	case 0:
		for i := 0; i < n; i++ {
			d := arr(&node{k: kInt, i: int64(i)})
			if i == at {
				d = obj1(c, arr(str(c)))
				s += g
			} else if i%5 == 3 {
				d = &node{k: kObj}
			}
			docs = append(docs, d)
			s += d.build().String() + []string{"", "\n", ",", " "}[i%4]
		}
	case 1:
		d := arr()
		for i := 0; i < n; i++ {
			e := obj1("k", arr())
			if i == at {
				e = str(c)
			}
			d.kids = append(d.kids, e)
		}
		docs = []*node{obj1("a", str(c)), d, arr(str(c))}
		s = docs[0].build().String() + g + d.build().PrettyString() + g + docs[2].build().String()
	case 2:
		if n > 65 {
			n = 65
		}
		d := str(c)
		for i := 0; i < n; i++ {
			if i%2 == at%2 {
				d = arr(d)
			} else {
				d = obj1(c, d)
			}
		}
		docs = []*node{arr(), d, arr(d)}
		s = "[]" + g + d.build().String() + g + docs[2].build().String()
	case 3:
		docs = []*node{arr(str(c)), obj1("k", str(c))}
		s = docs[0].build().String() + run(at, "gap, ]\n") + g + run(n-at, "}: \"x") + docs[1].build().String() + run(n, "\n")
	}
	l, err := jsonutils.ParseJsonStreams(tight(s))
	sym.Assert(err == nil, "the stream parses")
	sym.Assert(len(l) == len(docs), "the stream yields as many documents as it holds")
	for i, n := range docs {
		sym.Assert(n.same(l[i]), "the documents are recovered in order")
	}
}

// C16: big containers and strings.
func C16_sized() {
	sym.Bound("sized", sizedBound)
	readable(big("v", 5), false, 0, false, false)
}

// C23: big queries.
func C23_sized() {
	sym.Bound("sized", "queries of 16, 17, 33 and 65 (129 thorough and for lists) parameters: distinct names, elements of a list in three orders, one repeated name, or names that nest that deep; one name or value arbitrary")
	what, max := sym.Choose("what", 4), 65
	if what == 1 || sym.Thorough() {
		max = 129
	}
	n := anySize("n", max)
	if hugely && what == 1 {
		n = 1030
	}
	at := middle("n", n)
	set := "z.%A0&="
	if hugely {
		set = "z.%"
		if what == 1 {
			set = "z"
		}
	}
	c := string([]byte{set[sym.Choose("c", len(set))]})
	if c == "%" {
		c = "%" + sym.From("hex", 2, "02aF")
	}
	q := ""
	switch what {
	case 0:
		for i := 0; i < n; i++ {
			v := "k" + string([]byte{byte('a' + i%26), byte('a' + i/26)})
			if i == at {
				v += c
			}
			q += "&" + v + "=" + strconv.Itoa(i)
		}
	case 1:
		order := sym.Choose("order", 3)
		for j := 0; j < n; j++ {
			i := []int{j, n - 1 - j, (j + n/2) % n}[order]
			q += "&l." + strconv.Itoa(i) + "="
			if i == at {
				q += c
			}
			q += strconv.Itoa(i)
		}
	case 2:
		for i := 0; i < n; i++ {
			q += "&k="
			if i == at {
				q += c
			}
			q += strconv.Itoa(i % 7)
		}
		q += "&l=1"
	case 3:
		k := "a"
		for i := 0; i < n; i++ {
			k += []string{".b", ".0"}[i%2]
			if i == at {
				k += c
			}
		}
		q = "&" + k + "=1&a.c=2"
	}
	queryOK(q[1:])
}

// C29: many fields.
func C29_sized() {
	sym.Bound("sized", "lists of 16, 17, 33, 65 and 129 (also 257 thorough) names of which any one of the first, middle and last is missing, null, empty or present, as fields, texts, list members and prefixed members")
	n := anySize("n", 257)
	at := middle("n", n)
	e := []*node{nil, {k: kNull}, str(""), str("x"), arr()}[sym.Choose("member", 5)]
	text := ""
	if e != nil {
		text = e.textOf()
	}
	d := jsonutils.NewDict()
	keys := make([]string, n)
	val := func(i int) jsonutils.JSONObject {
		if i == at {
			return e.build()
		}
		return jsonutils.NewString("v" + strconv.Itoa(i))
	}
	switch sym.Choose("what", 4) {
	case 0:
		for i := range keys {
			keys[i] = "k" + strconv.Itoa(i)
			if i != at || e != nil {
				d.Set(keys[i], val(i))
			}
		}
		err := jsonutils.CheckRequiredFields(d, keys)
		sym.Assert((err == nil) == (e != nil && e.k != kNull), "the check succeeds exactly when every field is present and not null")
	case 1:
		for i := range keys {
			keys[i] = "k" + strconv.Itoa(i)
			if i == at && e != nil {
				d.Set(keys[i], val(i))
			}
			if i > at {
				d.Set(keys[i], jsonutils.NewString("late"))
			}
		}
		want, key := text, keys[at]
		if text == "" {
			want, key = "late", ""
			if at < n-1 {
				key = keys[at+1]
			} else {
				want = ""
			}
		}
		s, k := jsonutils.GetAnyString2(d, keys)
		sym.Assert(s == want && k == key && jsonutils.GetAnyString(d, keys) == want, "the first key with a non-empty text is found")
	case 2:
		l := jsonutils.NewArray()
		m := jsonutils.NewDict()
		for i := range keys {
			if i == at && e == nil {
				continue
			}
			l.Add(val(i))
			m.Set(strconv.Itoa(i), val(i))
		}
		got := jsonutils.GetQueryStringArray(dict1("k", l), "k")
		sym.Assert(len(got) == l.Length(), "the list has the elements of the query value")
		if e != nil {
			for i := range got {
				sym.Assert(i == at && got[i] == text || i != at && got[i] == "v"+strconv.Itoa(i), "the list has the elements of the query value")
			}
		}
		if e != nil && e.k != kStr {
			return
		}
		got = jsonutils.GetQueryStringArray(dict1("k", m), "k")
		end := n
		if e == nil {
			end = at
		}
		sym.Assert(len(got) == end, "members are listed until the first gap")
		for i := range got {
			sym.Assert(i == at && got[i] == text || i != at && got[i] == "v"+strconv.Itoa(i), "members are listed in order")
		}
	case 3:
		end := n
		for i := n - 1; i >= 0; i-- {
			if i == at && e == nil {
				end = at
				continue
			}
			d.Set("pre."+strconv.Itoa(i), val(i))
		}
		if e != nil && e.k == kNull {
			end = at
		}
		l := jsonutils.GetArrayOfPrefix(d, "pre")
		sym.Assert(len(l) == end, "members are listed until the first gap or null")
		for i := range l {
			sym.Assert(l[i].Equals(val(i)), "members are listed in order")
		}
	}
}

// C32: big texts.
func C32_sized() {
	sym.Bound("sized", sizedBound)
	detached(bigWith("v", 5, 257, func(name string) *node { return str(sym.Str(name, 1)) }).build().String())
}

// C19: many nodes.
func C19_sized() {
	sym.Bound("sized", "rings of 16, 17, 33 and 65 nodes of four kinds of edges, closed at the first, middle or last node, and lists of that many nodes that all point at the first, middle or last of them")
	n := anySize("n", 65)
	at := middle("n", n)
	nodes := make([]*c19node, n)
	for i := range nodes {
		nodes[i] = &c19node{V: int8(i)}
	}
	nodes[at].V = anyInt8("v")
	if sym.Bool("star") {
		hub := &c19node{V: 1}
		kind := []int{0, 3, 12}[sym.Choose("kind", 3)]
		to := hub
		if sym.Bool("self") {
			to = nodes[at]
		}
		for i := range nodes {
			nodes[i].link(kind, to)
			hub.link(2, nodes[i])
		}
		v := jsonutils.Marshal(hub)
		if sym.Bool("text") {
			var err error
			v, err = jsonutils.ParseString(v.String())
			sym.Assert(err == nil, "the text of a marshalled pointer structure can be parsed")
		}
		r := &c19node{}
		sym.Assert(v.Unmarshal(r) == nil && len(r.L) == n, "a new value can be filled from a marshalled pointer structure")
		for i, m := range r.L {
			var x *c19node
			switch kind {
			case 0:
				x = m.Z
			case 3:
				x = m.M["k"]
			default:
				x = m.B
			}
			sym.Assert(m.V == nodes[i].V, "the contents of the nodes are the same")
			sym.Assert(x != nil && x.V == to.V, "the contents of the nodes are the same")
			if to == hub {
				sym.Assert(x == r, "a path of pointers closes a cycle exactly where it does in the original")
			} else if i == at {
				sym.Assert(x == m, "a path of pointers closes a cycle exactly where it does in the original")
			}
		}
		return
	}
	kind := []int{0, 2, 3, 10}[sym.Choose("kind", 4)]
	for i := 1; i < n; i++ {
		nodes[i-1].link(kind, nodes[i])
	}
	nodes[n-1].link(1, nodes[at])
	c19check(nodes[0], 0)
}

// C21: longer chains of replacements.
func C21_sized() {
	sym.Bound("sized", "chains of 9, 16, 17 and 33 fields in three orders of names, ending in a field, in nothing, or in a cycle to the first, middle or last field; one field set or given")
	n := []int{9, 16, 17, 33}[sym.Choose("n", 4)]
	g := &c21graph{next: make([]int, n), names: make([]string, n)}
	order := sym.Choose("order", 3)
	for i := range g.next {
		g.next[i] = i + 1
		j := []int{i, n - 1 - i, (i * 5) % n}[order]
		g.names[i] = "m" + string([]byte{byte('a' + j/10), byte('a' + j%10)})
	}
	switch sym.Choose("end", 3) {
	case 0:
		g.next[n-1] = c21none
	case 1:
		g.next[n-1] = c21gone
	case 2:
		g.next[n-1] = middle("cycle", n)
	}
	g.make()
	i := middle("set", n)
	c := c21digit("v")
	s := make([]string, n)
	s[i] = c
	if sym.Bool("fill") {
		c21filled(g, i, c)
		return
	}
	c21emits(g, s, sym.Bool("marshalall"))
}

// C36: big slices, maps and many members.
func C36_sized() {
	sym.Bound("sized", "maps, slices and objects of 16, 17, 33, 65 and 129 (257 thorough) entries updated from others of any of these sizes that overlap partly, one key (at most one byte) and its value arbitrary")
	n, m := anySize("n", 257), 17
	if sym.Bool("larger") {
		n, m = m, n
	}
	at := middle("m", m)
	x := sym.Int64In("x", -9, 9)
	special := sym.StrUpTo("key", 1)
	key := func(i int) string {
		if i == at+m/2 {
			return special
		}
		return "k" + strconv.Itoa(i*7%m*1000+i)
	}
	val := func(i int) int64 {
		if i == at {
			return x
		}
		return int64(-i)
	}
	// the source has the entries m/2.. m/2+m
	switch sym.Choose("what", 3) {
	case 0:
		dst, src := map[string]int64{}, map[string]int64{}
		for i := 0; i < n; i++ {
			dst[key(i)] = int64(i)
		}
		for i := 0; i < m; i++ {
			src[key(i+m/2)] = val(i)
		}
		sym.Assert(jsonutils.Update(&dst, src) == nil && len(src) == m, "a map is updated")
		count := 0
		for i := 0; i < n || i < m+m/2; i++ {
			v, ok := dst[key(i)]
			if ok {
				count++
			}
			if i >= m/2 && i < m/2+m {
				sym.Assert(ok && v == val(i-m/2), "a map holds the union, with the source winning")
			} else {
				sym.Assert(ok == (i < n) && (!ok || v == int64(i)), "a map holds the union, with the source winning")
			}
		}
		sym.Assert(count == len(dst), "a map holds the union, with the source winning")
	case 1:
		var dst, src struct {
			A []int64 `json:"a"`
			B int64   `json:"b"`
		}
		dst.B = x
		for i := 0; i < n; i++ {
			dst.A = append(dst.A, int64(i))
		}
		for i := 0; i < m; i++ {
			src.A = append(src.A, val(i))
		}
		src.B = 3
		sym.Assert(jsonutils.Update(&dst, src) == nil && len(dst.A) == m && dst.B == 3, "a list is replaced")
		for i := range dst.A {
			sym.Assert(dst.A[i] == val(i) && src.A[i] == val(i), "a list is replaced")
		}
	case 2:
		dst, src := jsonutils.NewDict(), jsonutils.NewDict()
		for i := 0; i < n; i++ {
			dst.Set(key(i), jsonutils.NewInt(int64(i)))
		}
		for i := 0; i < m; i++ {
			src.Set(key(i+m/2), jsonutils.NewInt(val(i)))
		}
		sym.Assert(jsonutils.Update(dst, src) == nil && src.Length() == m, "an object is updated")
		for i := 0; i < n || i < m+m/2; i++ {
			v, err := dst.Int(key(i))
			if i >= m/2 && i < m/2+m {
				sym.Assert(err == nil && v == val(i-m/2), "an object holds the union, with the source winning")
			} else {
				sym.Assert((err == nil) == (i < n) && (err != nil || v == int64(i)), "an object holds the union, with the source winning")
			}
		}
	}
}
