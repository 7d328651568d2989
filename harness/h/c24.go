package h

import (
	"time"

	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

type c24dst struct {
	A interface{}
	B string
	C jsonutils.JSONObject
	M map[string]jsonutils.JSONObject
}

// changeCopy changes what a read-only operation returned; it must not be part
// of the value itself.
func changeCopy(d *jsonutils.JSONDict) {
	if d != nil {
		d.Set("zz", jsonutils.JSONTrue)
		d.Remove("a")
	}
}

const nReadOps = 16

// readOp runs a group of read-only operations on v, with w as the other value
// where there is one, and returns what they tell.
func readOp(op int, v, w jsonutils.JSONObject, key string) string {
	out := ""
	say := func(s string, err error) {
		if err != nil {
			out += "!"
			return
		}
		out += s + ";"
	}
	d, _ := v.(*jsonutils.JSONDict)
	a, _ := v.(*jsonutils.JSONArray)
	wd, _ := w.(*jsonutils.JSONDict)
	switch op {
	case 0:
		say(v.String(), nil)
	case 1:
		say(v.PrettyString(), nil)
	case nReadOps - 1:
		say(v.YAMLString(), nil)
	case 2:
		say(v.QueryString(), nil)
	case 3:
		e, err := v.Get(key)
		if err == nil {
			say(e.String(), nil)
		}
		v.GetIgnoreCases(key, "A")
		v.Get(key, "b")
		v.Contains(key)
		v.Contains("a", key)
		v.ContainsIgnoreCases(key)
	case 4:
		s, err := v.GetString(key)
		say(s, err)
		v.GetString()
		v.Int()
		v.Int(key)
		v.Float()
		v.Float(key)
		v.Bool()
		v.Bool(key)
		v.GetTime()
		v.GetTime(key)
	case 5:
		m, err := v.GetMap()
		if err == nil {
			m["zz"] = w
			delete(m, "a")
		}
		v.GetMap(key)
		l, err := v.GetArray()
		if err == nil {
			for i := range l {
				l[i] = w
			}
			_ = append(l, w)
		}
		v.GetArray(key)
		v.GetAt(0)
		v.GetAt(-1)
		v.GetAt(0, key)
	case 6:
		v.IsZero()
		if d != nil {
			for i, k := range d.SortedKeys() {
				say(k, nil)
				d.SortedKeys()[i] = "zz"
			}
			d.Length()
			d.Size()
			d.Value()["zz"] = w
		}
		if a != nil {
			a.Length()
			a.Size()
			if l := a.Value(); len(l) > 0 {
				l[0] = w
			}
			a.GetStringArray()
		}
	case 7:
		if v.Equals(w) {
			say("equal", nil)
		}
		v.Equals(v)
		w.Equals(v)
	case 8:
		if d != nil {
			changeCopy(d.Copy())
			changeCopy(d.CopyExcludes("b"))
			changeCopy(d.CopyExcludes(key))
		}
		if a != nil {
			c := a.Copy()
			c.Add(w)
			c.SetAt(0, w)
			c.SetAt(c.Length()-1, v)
		}
	case 9:
		switch c := jsonutils.DeepCopy(v).(type) {
		case *jsonutils.JSONDict:
			for _, k := range c.SortedKeys() {
				e, _ := c.Get(k)
				change(e)
			}
			changeCopy(c)
		case *jsonutils.JSONArray:
			for i := 0; i < c.Length(); i++ {
				e, _ := c.GetAt(i)
				change(e)
			}
			change(c)
		}
	case 10:
		switch x := v.Interface().(type) {
		case map[string]interface{}:
			x["zz"] = 1
			delete(x, "a")
		case []interface{}:
			for i := range x {
				x[i] = 1
			}
			_ = append(x, 2)
		}
	case 11:
		if d != nil && wd != nil {
			p, q, r, s := jsonutils.Diff(d, wd)
			say(p.String()+q.String()+r.String()+s.String(), nil)
			changeCopy(p)
			changeCopy(q)
			changeCopy(r)
			changeCopy(s)
		}
	case 12:
		dst := jsonutils.NewDict()
		dst.Set("a", jsonutils.JSONTrue)
		if d != nil {
			jsonutils.Update(dst, d)
			changeCopy(dst)
			dst = jsonutils.NewDict()
			dst.Update(d)
			changeCopy(dst)
			dst = jsonutils.NewDict()
			dst.UpdateDefault(d)
			changeCopy(dst)
			e := jsonutils.NewDict()
			e.Update(d)
			e.Update(w)
		}
		dst.Add(v, "x", "y")
		if dst.Contains("x", "y") {
			say(dst.String(), nil)
		}
		jsonutils.NewArray(v, w).Add(v)
	case 13:
		var r c24dst
		if v.Unmarshal(&r) == nil {
			say(r.B, nil)
		}
		var m map[string]interface{}
		if v.Unmarshal(&m) == nil && m != nil {
			m["zz"] = 1
		}
		var l []interface{}
		if v.Unmarshal(&l) == nil && len(l) > 0 {
			l[0] = 1
		}
		var i interface{}
		v.Unmarshal(&i)
		var s string
		v.Unmarshal(&s, key)
	case 14:
		say(jsonutils.Marshal(v).String(), nil)
		say(jsonutils.Marshal(struct{ A, B jsonutils.JSONObject }{v, w}).String(), nil)
		say(jsonutils.MarshalAll(map[string]interface{}{"a": v, "b": []jsonutils.JSONObject{w}}).String(), nil)
		jsonutils.CheckRequiredFields(v, []string{"a", key})
		jsonutils.GetAnyString(v, []string{"a", key})
		jsonutils.GetQueryStringArray(v, key)
		jsonutils.GetArrayOfPrefix(v, key)
		jsonutils.GetStringArray(v, key)
		jsonutils.QueryBoolean(v, key, true)
	}
	return out
}

// poke changes a value that is not shared.
func change(v jsonutils.JSONObject) {
	switch c := v.(type) {
	case *jsonutils.JSONDict:
		changeCopy(c)
	case *jsonutils.JSONArray:
		c.Add(jsonutils.JSONNull)
		c.SetAt(0, jsonutils.JSONNull)
	}
}

func c24run(v, w jsonutils.JSONObject, key string, ops int) {
	op := sym.Choose("op", ops)
	first := ""
	sym.Shared("value", []interface{}{v, w}, func() {
		s := readOp(op, v, w, key)
		if sym.Engine() {
			first = s
		}
	})
	if sym.Engine() {
		sym.Assert(first == readOp(op, v, w, key), "every reader sees the same result")
	}
}

// Values built or parsed, of every small shape.
func C24_value() {
	sym.Bound("value", "15 groups of read operations on every value of at most 2 (3 for one way; one more in thorough) values below the top, keys a, b, integers -9..9, strings of one byte; built, parsed, with spare capacity, compared with a copy")
	// parsed, with spare capacity, the other value is a copy, the key
	ways := [][4]int{{0, 0, 0, 0}, {1, 0, 1, 1}, {0, 1, 1, 0}, {1, 1, 0, 0}}
	w0 := sym.Choose("way", len(ways))
	way := ways[w0]
	budget := 2
	if w0 == 2 {
		budget++
	}
	if sym.Thorough() {
		budget++
	}
	n := c24tree("v", 2, &budget)
	v := n.build()
	if way[0] == 1 {
		p, err := jsonutils.ParseString(v.String())
		if err != nil {
			return
		}
		v = p
	}
	// spare capacity, as after a removal
	if d, ok := v.(*jsonutils.JSONDict); ok && way[1] == 1 {
		d.Set("z", jsonutils.JSONNull)
		d.Remove("z")
	}
	var w jsonutils.JSONObject = dict1("a", num(1))
	if way[2] == 1 {
		w = jsonutils.DeepCopy(v)
	}
	c24run(v, w, []string{"a", "b"}[way[3]], nReadOps-1)
}

func c24tree(name string, depth int, budget *int) *node {
	n := &node{}
	if depth > 0 {
		switch sym.Choose(name+".shape", 3) {
		case 1:
			n.k = kArr
		case 2:
			n.k = kObj
		}
	}
	if n.k == 0 {
		switch sym.Choose(name+".kind", 5) {
		case 0:
			return &node{k: kNull}
		case 1:
			return &node{k: kBool, b: true}
		case 2:
			return &node{k: kInt, i: sym.Int64In(name, -9, 9)}
		case 3:
			return str(sym.Str(name, 1))
		}
		return &node{k: kFloat, f: 2.5}
	}
	first := 0
	for *budget > 0 && sym.Choose(name+".more", 2) == 1 {
		*budget--
		if n.k == kArr {
			n.kids = append(n.kids, c24tree(name, depth-1, budget))
		} else if first < 2 {
			k := first + sym.Choose(name+".key", 2-first)
			first = k + 1
			n.add(string([]byte{byte('a' + k)}), c24tree(name, depth-1, budget))
		}
	}
	return n
}

// Values with strings that are read as numbers, times and booleans, with keys
// that need escaping, with many members, and with node references.
func C24_texts() {
	sym.Bound("texts", "16 groups of read operations on 15 texts, three keys, two other values")
	texts := []string{
		`{"a":"1,234.5","b":"$12","c":"2020-01-02T03:04:05Z"}`,
		`{"a":"true","b":"no","A":"x"}`,
		`{"a\n\"":"\u00e9\ud83d\ude00","b":1.5e300,"a":-0.25}`,
		`{"___jnid_":1,"a":{"___jnid_":2,"b":<1>},"b":<2>}`,
		`[{"___jnid_":1,"a":<1>},<1>,[]]`,
		`{"a":1,"b":2,"c":3,"d":4,"e":5,"f":6,"g":7,"h":8,"i":9,"j":10,"k":11}`,
		`[1,2,3,4,5,6,7,8,9]`,
		`{"a.0":1,"a.1":"x","b":{"0":"x","1":"y"},"a":["p","q"]}`,
		`"1,234"`, `"2020-01-02 03:04:05"`, `1e400`, `12`, `null`, `2.5`, `<3>`,
	}
	v, err := jsonutils.ParseString(texts[sym.Choose("text", len(texts))])
	if err != nil {
		return
	}
	var w jsonutils.JSONObject = jsonutils.NewArray(num(1))
	if sym.Bool("dict") {
		w = dict1("a", num(1))
	}
	c24run(v, w, []string{"a", "b", "q"}[sym.Choose("key", 3)], nReadOps)
}

// Values that are large in one dimension: deep, wide, long.
func C24_large() {
	sym.Bound("large", "16 groups of read operations on values nested 1..8 deep (1..24 thorough), with 1..12 (1..40) members or elements, and strings of up to 40 (100) bytes")
	n, m, l := 8, 12, 40
	if sym.Thorough() {
		n, m, l = 24, 40, 100
	}
	var v jsonutils.JSONObject
	switch sym.Choose("dimension", 5) {
	case 0:
		v = num(1)
		for i := sym.Choose("depth", n) + 1; i > 0; i-- {
			v = dict1("a", v)
		}
	case 1:
		v = jsonutils.NewString("s")
		for i := sym.Choose("depth", n) + 1; i > 0; i-- {
			if i%2 == 0 {
				v = jsonutils.NewArray(v, num(int64(i)))
			} else {
				v = dict1("b", v)
			}
		}
	case 2:
		d := jsonutils.NewDict()
		for i := sym.Choose("members", m) + 1; i > 0; i-- {
			d.Set(string([]byte{byte('a' + i*5%26), byte('a' + i)}), num(int64(i)))
		}
		v = d
	case 3:
		a := jsonutils.NewArray()
		for i := sym.Choose("elements", m) + 1; i > 0; i-- {
			a.Add(num(int64(i)))
		}
		v = a
	default:
		b := make([]byte, sym.Choose("len", l)+1)
		for i := range b {
			b[i] = byte('0' + i%10)
		}
		v = dict1("a", jsonutils.NewString(string(b)))
	}
	c24run(v, dict1("a", num(1)), "a", nReadOps)
}

type c24go struct {
	A *c24go
	B jsonutils.JSONObject
	C []*c24go
	D map[string]interface{}
	T time.Time
	E C24Emb
	C24Emb
}

type C24Emb struct {
	X string `json:"x,omitempty"`
	Y string `yunion-deprecated-by:"x"`
}

// Marshalling one Go value from several places, and parsing one text.
func C24_inputs() {
	sym.Bound("inputs", "marshalling one shared cyclic or plain Go value, parsing one shared text with one arbitrary byte")
	d := dict1("a", num(1))
	g := &c24go{B: d, D: map[string]interface{}{"k": d, "l": []int{1}}, E: C24Emb{X: "x"}}
	if sym.Bool("cyclic") {
		g.A = g
		g.C = []*c24go{g, {A: g, B: d}}
	}
	text := []byte(`{"a":[1,2.5,"x\n",{"b":null}],"c":"` + sym.Str("s", 1) + `"}`)
	op := sym.Choose("op", 5)
	run := func() string {
		switch op {
		case 0:
			return jsonutils.Marshal(g).String()
		case 1:
			return jsonutils.MarshalAll(g).String()
		case 2:
			v, err := jsonutils.Parse(text)
			if err != nil {
				return "error"
			}
			return v.String()
		case 3:
			l, err := jsonutils.ParseJsonStreams(text)
			if err != nil || len(l) != 1 {
				return "error"
			}
			return l[0].String()
		}
		e := jsonutils.NewJSONError(text, 3, "x")
		return e.Error()
	}
	first := ""
	sym.Shared("input", []interface{}{g, text, d}, func() {
		s := run()
		if sym.Engine() {
			first = s
		}
	})
	if sym.Engine() {
		sym.Assert(first == run(), "every reader sees the same result")
	}
}
