package h

import (
	"strconv"

	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

// param is one parameter of a query and its values in order.
type param struct {
	key  string
	vals []string
}

func unescape(s string) (string, bool) {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '+':
			b = append(b, ' ')
		case '%':
			if i+2 >= len(s) {
				return "", false
			}
			h, l := hexval(s[i+1]), hexval(s[i+2])
			if h < 0 || l < 0 {
				return "", false
			}
			b = append(b, byte(h)<<4|byte(l))
			i += 2
		default:
			b = append(b, s[i])
		}
	}
	return string(b), true
}

// params reads a query text as application/x-www-form-urlencoded.
func params(q string) (ps []param, ok bool) {
	ok = true
	for len(q) > 0 {
		part := q
		q = ""
		for i := 0; i < len(part); i++ {
			if part[i] == '&' {
				part, q = part[:i], part[i+1:]
				break
			}
		}
		semi := false
		for i := 0; i < len(part); i++ {
			if part[i] == ';' {
				semi = true
			}
		}
		if semi {
			ok = false
			continue
		}
		if part == "" {
			continue
		}
		key, val := part, ""
		for i := 0; i < len(part); i++ {
			if part[i] == '=' {
				key, val = part[:i], part[i+1:]
				break
			}
		}
		key, ok1 := unescape(key)
		val, ok2 := unescape(val)
		if !ok1 || !ok2 {
			ok = false
			continue
		}
		found := false
		for i := range ps {
			if ps[i].key == key {
				ps[i].vals = append(ps[i].vals, val)
				found = true
				break
			}
		}
		if !found {
			ps = append(ps, param{key, []string{val}})
		}
	}
	return ps, ok
}

// tree is where the parameters belong.
type tree struct {
	leaf *string
	segs []string
	subs []*tree
}

func (t *tree) place(v string, path []string) bool {
	if len(path) == 0 {
		if t.leaf != nil || len(t.segs) > 0 {
			return false
		}
		t.leaf = &v
		return true
	}
	if t.leaf != nil {
		return false
	}
	for i, s := range t.segs {
		if s == path[0] {
			return t.subs[i].place(v, path[1:])
		}
	}
	n := &tree{}
	t.segs = append(t.segs, path[0])
	t.subs = append(t.subs, n)
	return n.place(v, path[1:])
}

func number(s string) (int, bool) {
	if len(s) == 0 || len(s) > 5 || len(s) > 1 && s[0] == '0' {
		return 0, false
	}
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + int(s[i]-'0')
	}
	return n, true
}

// list reports whether the node is an array, and whether its keys fit one.
func (t *tree) list() (is, ok bool) {
	for _, s := range t.segs {
		if s == "0" {
			is = true
		}
	}
	if !is {
		return false, true
	}
	for _, s := range t.segs {
		if n, num := number(s); !num || n >= len(t.segs) {
			return true, false
		}
	}
	return true, true
}

func (t *tree) fits(top bool) bool {
	if !top {
		if _, ok := t.list(); !ok {
			return false
		}
	}
	for _, c := range t.subs {
		if !c.fits(false) {
			return false
		}
	}
	return true
}

func (t *tree) shown(v jsonutils.JSONObject, top bool) bool {
	if t.leaf != nil {
		return str(*t.leaf).same(v)
	}
	is, ok := t.list()
	if is && ok && !top {
		a, ok := v.(*jsonutils.JSONArray)
		if !ok || a.Length() != len(t.segs) {
			return false
		}
		for i, s := range t.segs {
			n, _ := number(s)
			e, err := a.GetAt(n)
			if err != nil || !t.subs[i].shown(e, false) {
				return false
			}
		}
		return true
	}
	d, ok := v.(*jsonutils.JSONDict)
	if !ok || d.Length() != len(t.segs) {
		return false
	}
	for i, s := range t.segs {
		e, err := d.Get(s)
		if err != nil || !t.subs[i].shown(e, false) {
			return false
		}
	}
	return true
}

func split(s string) []string {
	var out []string
	start := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '.' {
			out = append(out, s[start:i])
			start = i + 1
		}
	}
	return out
}

func queryOK(q string) {
	ps, ok := params(q)
	root := &tree{}
	placed := ok
	for i := range ps {
		path := split(ps[i].key)
		if len(ps[i].vals) == 1 {
			placed = root.place(ps[i].vals[0], path) && placed
			continue
		}
		// a repeated parameter is a list
		for j, v := range ps[i].vals {
			at := append(append([]string{}, path...), strconv.Itoa(j))
			placed = root.place(v, at) && placed
		}
	}
	fits := placed && root.fits(true)
	sym.MapOrder(true)
	v, err := jsonutils.ParseQueryString(q)
	sym.MapOrder(false)
	sym.Assert(err == nil || !fits, "a query without conflicts is accepted")
	sym.Assert(err != nil || placed, "a malformed query or one with conflicting parameters is an error")
	if err == nil {
		sym.Assert(root.shown(v, true), "every parameter is at its path with its values in order")
		sym.Observe("value", v.String())
	}
}

// C23: short arbitrary texts.
func C23_bytes() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	sym.Bound("texts", "every text of at most 3 bytes (4 thorough)")
	queryOK(sym.StrUpTo("q", n))
}

// C23: texts over the characters with a meaning.
func C23_syntax() {
	n := 5
	if sym.Thorough() {
		n = 6
	}
	sym.Bound("syntax", "every text of at most 5 (6 thorough) characters out of a . = & 0 1")
	k := sym.Choose("len", n+1)
	b := make([]byte, k)
	for i := range b {
		b[i] = "a.=&01"[sym.Choose("c", 6)]
	}
	queryOK(string(b))
}

// C23: conflict-prone keys, under every iteration order of the parameters.
func C23_keys() {
	keys := []string{"a", "a.b", "a.0", "a.1", "a.0.b", "a.0.0", "a.1.0", "a.00", "a.b.0", "", ".", "a.", "0", "1", "0.a", "a.-1", "a.10", "a.2"}
	n := 3
	if sym.Thorough() {
		n = 4
	}
	sym.Bound("keys", "every list of at most 3 (4 thorough) parameters out of 18 keys that nest, repeat or conflict, distinct values, every iteration order of the parameter map")
	q := ""
	for i := sym.Choose("n", n+1); i > 0; i-- {
		if q != "" {
			q += "&"
		}
		q += keys[sym.Choose("key", len(keys))] + "=" + string([]byte{byte('p' + i)})
	}
	queryOK(q)
}

// C23: percent escapes.
func C23_escape() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	sym.Bound("escapes", "a percent sign or plus with up to 3 (4 thorough) arbitrary bytes after it in key or value")
	t := []string{"%", "+"}[sym.Choose("lead", 2)] + sym.StrUpTo("t", n)
	if sym.Choose("place", 2) == 0 {
		queryOK("k=" + t)
	} else {
		queryOK(t + "=v")
	}
}
