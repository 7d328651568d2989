package h

import (
	"strings"

	"yunion.io/x/jsonutils"
	"yunion.io/x/pkg/errors"

	"verifharness/sym"
)

type c40in struct {
	W    string
	Back *c40node
}

// c40node is a struct that can be part of cycles.
type c40node struct {
	Num   int64
	Text  string
	Flag  string
	Frac  float64
	Start string
	List  []string
	In    c40in
	Next  *c40node
	Other *c40node
	Kids  []*c40node
	ByKey map[string]*c40node
}

// c40ring is one of the cycles: the marshalled root, the reference in it and
// the node that it refers to, which holds the contents of the last result.
// Only the members named are arbitrary.
func c40ring(any ...string) (v, ref, target jsonutils.JSONObject, n *c40node) {
	n = &c40node{Num: 7, Text: "t", Flag: "off", Frac: 2.5, Start: "2020-01-02T03:04:05Z", List: []string{"p", "q"}, In: c40in{W: "w"}}
	for _, a := range any {
		switch strings.ToLower(a) {
		case "num":
			n.Num = sym.Int64In("num", -9, 99)
		case "text":
			n.Text = sym.StrUpTo("text", 2)
		case "flag":
			n.Flag = []string{"on", "0", "x", "17"}[sym.Choose("flag", 4)]
		case "w":
			n.In.W = sym.StrUpTo("w", 2)
		}
	}
	root := n
	at := []string{}
	way := sym.Choose("where", 3)
	if way == 1 { // below another node
		root = &c40node{Text: "root", Next: n}
		at = []string{"next"}
	}
	from := n
	if way == 2 { // from another node
		from = &c40node{Text: "from"}
		n.Other = from
	}
	kind := sym.Choose("kind", 5)
	switch kind {
	case 0:
		from.Next = n
	case 1:
		from.In.Back = n
	case 2:
		from.Kids = []*c40node{nil, n}
	case 3:
		from.ByKey = map[string]*c40node{"k": n}
	case 4:
		from.Other = n
	}
	if way == 2 && kind == 4 {
		n.Other, n.Next = nil, from
	}
	v = jsonutils.Marshal(root)
	target = c40get(v, at...)
	holder := target
	if way == 2 {
		if kind == 4 {
			holder = c40get(holder, "next")
		} else {
			holder = c40get(holder, "other")
		}
	}
	switch kind {
	case 0:
		ref = c40get(holder, "next")
	case 1:
		ref = c40get(holder, "in", "back")
	case 2:
		l, err := holder.GetArray("kids")
		sym.Assert(err == nil && len(l) == 2 && l[0] == jsonutils.JSONNull, "a list that holds a reference can be read")
		ref = l[1]
	case 3:
		ref = c40get(holder, "by_key", "k")
	case 4:
		ref = c40get(holder, "other")
	}
	_, dict := ref.(*jsonutils.JSONDict)
	sym.Assert(!dict, "a pointer back to a struct that is being marshalled becomes a reference")
	return v, ref, target, n
}

func c40get(v jsonutils.JSONObject, path ...string) jsonutils.JSONObject {
	for _, k := range path {
		m, err := v.GetMap()
		sym.Assert(err == nil && m[k] != nil, "a member of a marshalled struct is there")
		v = m[k]
	}
	return v
}

var c40paths = [][]string{{}, {"num"}, {"text"}, {"flag"}, {"frac"}, {"start"}, {"list"}, {"in"}, {"in", "w"}, {"absent"}, {"num", "x"}, {"in", "absent"}, {"LIST"}, {"Text"}, {"next"}, {"list", "0"}}

func c40err(a, b error) {
	sym.Assert((a == nil) == (b == nil), "a reference refuses a read exactly if the node does")
	if a != nil {
		sym.Assert(errors.Cause(a) == errors.Cause(b), "a reference refuses a read for the reason for which the node does")
	}
}

// c40same compares a read of a reference to the read of the node.
func c40same(a, b jsonutils.JSONObject, p []string) {
	const msg = "a reference reads as the node that it refers to"
	switch sym.Choose("read", 15) {
	case 0:
		sym.Assert(a.Contains(p...) == b.Contains(p...), msg)
	case 1:
		sym.Assert(a.ContainsIgnoreCases(p...) == b.ContainsIgnoreCases(p...), msg)
	case 2:
		x, ex := a.Get(p...)
		y, ey := b.Get(p...)
		sym.Assert(x == y, msg)
		c40err(ex, ey)
	case 3:
		x, ex := a.GetIgnoreCases(p...)
		y, ey := b.GetIgnoreCases(p...)
		sym.Assert(x == y, msg)
		c40err(ex, ey)
	case 4:
		x, ex := a.GetString(p...)
		y, ey := b.GetString(p...)
		sym.Assert(x == y, msg)
		c40err(ex, ey)
	case 5:
		x, ex := a.Int(p...)
		y, ey := b.Int(p...)
		sym.Assert(x == y, msg)
		c40err(ex, ey)
	case 6:
		x, ex := a.Float(p...)
		y, ey := b.Float(p...)
		sym.Assert(x == y, msg)
		c40err(ex, ey)
	case 7:
		x, ex := a.Bool(p...)
		y, ey := b.Bool(p...)
		sym.Assert(x == y, msg)
		c40err(ex, ey)
	case 8:
		x, ex := a.GetMap(p...)
		y, ey := b.GetMap(p...)
		sym.Assert(len(x) == len(y), msg)
		for k := range y {
			sym.Assert(x[k] == y[k], msg)
		}
		c40err(ex, ey)
	case 9:
		x, ex := a.GetArray(p...)
		y, ey := b.GetArray(p...)
		sym.Assert(len(x) == len(y), msg)
		for i := range y {
			sym.Assert(x[i] == y[i] || x[i].String() == y[i].String(), msg)
		}
		c40err(ex, ey)
	case 10:
		i := int(sym.Int64In("index", -3, 2))
		x, ex := a.GetAt(i, p...)
		y, ey := b.GetAt(i, p...)
		sym.Assert(x == y, msg)
		c40err(ex, ey)
	case 11:
		x, ex := a.GetTime(p...)
		y, ey := b.GetTime(p...)
		sym.Assert(x.Equal(y), msg)
		c40err(ex, ey)
	case 12:
		var x, y string
		ex := a.Unmarshal(&x, p...)
		ey := b.Unmarshal(&y, p...)
		sym.Assert(x == y, msg)
		c40err(ex, ey)
	case 13:
		var x, y c40in
		ex := a.Unmarshal(&x, p...)
		ey := b.Unmarshal(&y, p...)
		sym.Assert(x.W == y.W && (x.Back == nil) == (y.Back == nil), msg)
		c40err(ex, ey)
	case 14:
		sym.Assert(a.IsZero() == b.IsZero(), msg)
		x, y := a.Interface(), b.Interface()
		mx, okx := x.(map[string]interface{})
		my, oky := y.(map[string]interface{})
		sym.Assert(okx == oky && len(mx) == len(my), msg)
		for k, e := range my {
			f := mx[k]
			if s, ok := e.(string); ok {
				sym.Assert(f == s, msg)
			}
			if i, ok := e.(int64); ok {
				sym.Assert(f == i, msg)
			}
			sym.Assert((f == nil) == (e == nil), msg)
		}
	}
}

// C40: reads of references.
func C40_reads() {
	sym.Bound("reads", "fifteen rings of pointers (below, at and from another node; through a field, an inner struct, a list, a map and another field), an arbitrary number (-9 to 99), text of at most 2 bytes or flag at the path, all reads with sixteen paths")
	p := c40paths[sym.Choose("path", len(c40paths))]
	_, ref, target, _ := c40ring(p...)
	c40same(ref, target, p)
}

// C40: the contents that a reference shows.
func C40_contents() {
	sym.Bound("contents", "the rings above, every member of the node, and unmarshalling the reference")
	k := sym.Choose("member", 9)
	v, ref, target, n := c40ring([][]string{{"num"}, {"text"}, {"flag"}, {}, {}, {}, {"w"}, {"num"}, {"text"}}[k]...)
	text := v.String()
	const msg = "a reference shows the contents of the struct that was pointed to"
	switch k {
	case 0:
		if n.Num == 0 { // left out
			return
		}
		i, err := ref.Int("num")
		sym.Assert(err == nil && i == n.Num, msg)
	case 1:
		if n.Text == "" {
			return
		}
		s, err := ref.GetString("text")
		sym.Assert(err == nil && s == n.Text, msg)
	case 2:
		b, err := ref.Bool("flag")
		want, ok := truth(n.Flag)
		sym.Assert((err == nil) == ok && b == want, msg)
	case 3:
		f, err := ref.Float("frac")
		sym.Assert(err == nil && f == 2.5, msg)
	case 4:
		tm, err := ref.GetTime("start")
		sym.Assert(err == nil && tm.Year() == 2020 && tm.Second() == 5, msg)
	case 5:
		e, err := ref.GetAt(-1, "list")
		s, _ := e.GetString()
		sym.Assert(err == nil && s == "q", msg)
	case 6:
		w, err := ref.GetString("in", "w")
		sym.Assert(n.In.W == "" || err == nil && w == n.In.W, msg)
	case 7:
		g := &c40node{}
		err := ref.Unmarshal(g)
		sym.Assert(err == nil && g.Num == n.Num && g.Text == n.Text && g.Flag == n.Flag && g.In.W == "w" && len(g.List) == 2, msg)
		back := []*c40node{g.Next, g.In.Back, g.ByKey["k"], g.Other}
		if len(g.Kids) == 2 {
			back = append(back, g.Kids[1])
		}
		for _, o := range []*c40node{g.Other, g.Next} {
			if o != nil && o != g {
				back = append(back, o.Next, o.In.Back, o.ByKey["k"], o.Other)
				if len(o.Kids) == 2 {
					back = append(back, o.Kids[1])
				}
			}
		}
		closed := false
		for _, b := range back {
			closed = closed || b == g
		}
		sym.Assert(closed, "a structure unmarshalled through a reference closes the cycle")
	case 8:
		sym.Assert(!ref.IsZero(), msg)
		s, err := ref.GetString()
		ts := target.String()
		sym.Assert(err == nil && s == ts, msg)
	}
	sym.Assert(v.String() == text, "a read leaves the value as it was")
}

// C40: what a reference is by itself.
func C40_itself() {
	sym.Bound("itself", "the rings above")
	v, ref, target, n := c40ring("text")
	text := ref.String()
	sym.Assert(len(text) > 2 && text[0] == '<' && text[len(text)-1] == '>', "a reference is written as the id of its node between angle brackets")
	id := text[1 : len(text)-1]
	switch sym.Choose("what", 5) {
	case 0:
		sym.Assert(strings.HasPrefix(target.String(), `{"___jnid_":`+id+","), "the node that a reference refers to is written with the id")
		sym.Assert(strings.Count(v.String(), text) == 1, "every reference is written as such")
		sym.Assert(ref.PrettyString() == text && ref.YAMLString() == text, "a reference is written the same way in all formats")
		sym.Assert(ref.QueryString() == "", "a reference adds nothing to a query string")
	case 1:
		sym.Assert(ref.Equals(ref), "a reference equals itself")
		sym.Assert(!ref.Equals(target) && !target.Equals(ref), "a reference does not equal a value")
		sym.Assert(!ref.Equals(jsonutils.JSONNull) && !jsonutils.JSONNull.Equals(ref), "a reference does not equal a value")
		sym.Assert(!ref.Equals(jsonutils.NewString(text)), "a reference does not equal its text")
	case 2:
		again := jsonutils.Marshal(v)
		sym.Assert(again.String() == v.String(), "a value with a reference is marshalled as it is")
		sym.Assert(v.Equals(again), "a value with a reference equals what it is marshalled to")
	case 3:
		// the node, not a copy of it
		s := sym.StrUpTo("new", 1)
		target.(*jsonutils.JSONDict).Set("text", jsonutils.NewString(s))
		g, err := ref.GetString("text")
		sym.Assert(err == nil && g == s, "a reference shows a change of its node")
		target.(*jsonutils.JSONDict).Remove("num")
		sym.Assert(!ref.Contains("num"), "a reference shows a change of its node")
		for _, k := range target.(*jsonutils.JSONDict).SortedKeys() {
			sym.Assert(!ref.IsZero(), "a reference shows a change of its node")
			target.(*jsonutils.JSONDict).Remove(k)
		}
		sym.Assert(ref.IsZero() && target.IsZero(), "a reference shows a change of its node")
	case 4:
		// two references to a node are the same, those to two nodes differ
		o := &c40node{Text: "o"}
		n.Other, n.Next, o.Next, o.Other = o, n, n, o
		w := jsonutils.Marshal(n)
		x := c40get(w, "next")
		y := c40get(w, "other", "next")
		z := c40get(w, "other", "other")
		sym.Assert(x.Equals(y) && y.Equals(x), "references to the same node are equal")
		sym.Assert(!x.Equals(z) && !z.Equals(y), "references to different nodes are not equal")
		sym.Assert(x.String() == y.String() && x.String() != z.String(), "references have the same text if they refer to the same node")
	}
}

// C40: references of a parsed text.
func C40_parsed() {
	sym.Bound("parsed", "a text of one to three references with an arbitrary one- or two-digit id each, in an object or array")
	d := sym.Digs("id", 1+sym.Choose("digits", 2))
	sym.Assume(d[0] != '0') // ids count from 1
	text := []string{`{"a":<` + d + `>}`, `{"a":<` + d + `>,"b":[<` + d + `>,1]}`, `{"___jnid_":` + d + `,"a":<` + d + `>}`, "{\"a\": <" + d + "> , \"b\":2}"}[sym.Choose("text", 4)]
	v, err := jsonutils.ParseString(text)
	sym.Assert(err == nil, "a text with references can be parsed")
	m, err := v.GetMap()
	sym.Assert(err == nil, "a text with references is an object")
	ref := m["a"]
	sym.Assert(ref != nil && ref.String() == "<"+d+">", "a parsed reference keeps its id")
	x, err := v.Get("a")
	sym.Assert(err == nil && x == ref, "a parsed reference can be read")
	switch sym.Choose("read", 4) {
	case 3:
		e := sym.Digs("other", 1)
		sym.Assume(e[0] != '0')
		o, err := jsonutils.ParseString("{\"a\":<" + e + ">}")
		sym.Assert(err == nil, "a text with references can be parsed")
		o, err = o.Get("a")
		sym.Assert(err == nil && o.Equals(ref) == (d == e) && ref.Equals(o) == (d == e), "parsed references are equal exactly if they have the same id")
	case 0:
		sym.Assert(!ref.Contains("a") && ref.IsZero() && ref.Interface() == nil, "a reference to no node reads as null")
	case 1:
		_, err = ref.Int()
		sym.Assert(err != nil, "a reference to no node reads as null")
		_, err = ref.GetMap()
		sym.Assert(err != nil, "a reference to no node reads as null")
	case 2:
		w := strings.ReplaceAll(text, " ", "")
		sym.Assert(v.String() == w, "a text with references is written as it was")
		p, err := jsonutils.ParseString(v.String())
		sym.Assert(err == nil && p.Equals(v), "the text of a value with references is parsed to an equal value")
	}
}
