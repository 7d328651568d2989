package h

import (
	"strconv"
	"strings"

	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

// hugely is set while the harnesses for big values are run with sizes beyond.
var hugely bool

func hugelyDo(f func()) {
	hugely = true
	defer func() { hugely = false }()
	sym.Bound("huge", "as sized, with 1030 entries or bytes instead of 600, 300 instead of 129, 100 instead of 65")
	f()
}

const hugeBound = "an array and an object of 1030 entries, a nesting of 300 levels, and a string and a key of 1030 and 4100 bytes, with one arbitrary ASCII byte in the middle or at the end"

// huge is a value that is far beyond the sizes that big has.
func huge(name string, depth int) *node {
	hole := func() *node { return str(sym.ASCII(name+".byte", 1)) }
	text := func() string {
		n := []int{1030, 4100}[sym.Choose(name+".len", 2)]
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyz "[i%27]
		}
		c := sym.Byte(name + ".byte")
		sym.Assume(c < 0x80)
		b[[]int{n / 2, n - 1}[sym.Choose(name+".at", 2)]] = c
		return string(b)
	}
	switch kind := sym.Choose(name+".huge", 5); kind {
	case 0, 1:
		const n = 1030
		at := []int{n / 2, n - 1}[sym.Choose(name+".at", 2)]
		v := &node{k: kArr + kind}
		for i := 0; i < n; i++ {
			c := &node{k: kInt, i: int64(i)}
			if i == at {
				c = hole()
			}
			v.kids = append(v.kids, c)
			if kind == 1 {
				v.keys = append(v.keys, "k"+strconv.Itoa((i*7)%n*10000+i))
			}
		}
		return v
	case 2:
		v := hole()
		for i := 0; i < depth; i++ {
			if i%3 == 0 {
				v = obj1("k", v)
			} else {
				v = arr(v)
			}
		}
		return v
	case 3:
		return arr(str(text()))
	}
	return obj1(text(), &node{k: kInt, i: 1})
}

// C02: huge values.
func C02_huge() {
	sym.Bound("huge", hugeBound)
	roundTrip(huge("v", 300))
}

// C03: huge values.
func C03_huge() {
	sym.Bound("huge", hugeBound+" (70 levels)")
	prettyTrip(huge("v", 70))
}

// C04: huge values.
func C04_huge() {
	sym.Bound("huge", hugeBound)
	n := huge("v", 300)
	decodable(n.build(), n)
}

// other is a huge value with another byte in the same place, and whether it
// is the same byte.
func (n *node) other(name string) (*node, bool) {
	m := *n
	m.keys = append([]string{}, n.keys...)
	m.kids = append([]*node{}, n.kids...)
	put := func(s string) (string, bool) {
		b := []byte(s)
		at := []int{len(b) / 2, len(b) - 1}[sym.Choose(name+".at", 2)]
		was := b[at]
		b[at] = sym.Byte(name + ".byte")
		sym.Assume(b[at] < 0x80)
		return string(b), b[at] == was
	}
	same := false
	if len(n.keys) > 0 && len(n.keys[0]) > 100 {
		m.keys[0], same = put(n.keys[0])
		return &m, same
	}
	at := 0
	if len(n.kids) > 1 {
		at = []int{0, len(n.kids) / 2, len(n.kids) - 1}[sym.Choose(name+".kid", 3)]
	}
	c := *n.kids[at]
	switch c.k {
	case kStr:
		c.s, same = put(c.s)
	case kInt:
		i := c.i
		c.i = sym.Int64In(name, -9, 2000)
		same = i == c.i
	default:
		m.kids[at], same = c.other(name)
		return &m, same
	}
	m.kids[at] = &c
	return &m, same
}

// C08: huge values.
func C08_huge() {
	sym.Bound("huge", hugeBound+"; compared with the same value with another byte or number in any of three places")
	n := huge("v", 300)
	a, b := n.build(), n.build()
	sym.Assert(a.Equals(b) && b.Equals(a) && a.Equals(a), "values of the same content are equal")
	m, same := n.other("w")
	c := m.build()
	sym.Assert(a.Equals(c) == same && c.Equals(a) == same, "values are equal exactly if the content is")
}

// C09: huge values.
func C09_huge() {
	sym.Bound("huge", hugeBound)
	n := huge("v", 300)
	v := n.build()
	c := jsonutils.DeepCopy(v)
	sym.Assert(n.same(c) && n.same(v), "the copy equals the source")
	switch x := c.(type) {
	case *jsonutils.JSONDict:
		k := x.SortedKeys()
		x.Set(k[len(k)/2], jsonutils.NewString("new"))
		x.Remove(k[len(k)-1])
	case *jsonutils.JSONArray:
		for i := 0; i < x.Length(); i += 1 + x.Length()/9 {
			e, _ := x.GetAt(i)
			if _, ok := e.(*jsonutils.JSONInt); ok {
				jsonutils.NewInt(-5).Unmarshal(e)
			} else if _, ok := e.(*jsonutils.JSONString); ok {
				jsonutils.NewString("new").Unmarshal(e)
			}
		}
		sym.Assert(n.same(v), "a change of an element of the copy leaves the source alone")
		x.SetAt(x.Length()/2, jsonutils.NewString("new"))
	}
	sym.Assert(n.same(v), "a change of the copy leaves the source alone")
}

// C05: huge values.
func C05_huge() { hugelyDo(C05_sized) }

// C06: huge values.
func C06_huge() { hugelyDo(C06_sized) }

// C07: huge values.
func C07_huge() { hugelyDo(C07_sized) }

// C10: huge values.
func C10_huge() { hugelyDo(C10_sized) }

// C11: huge values.
func C11_huge() { hugelyDo(C11_sized) }

// C12: huge values.
func C12_huge() { hugelyDo(C12_sized) }

// C13: huge values.
func C13_huge() { hugelyDo(C13_sized) }

// C14: huge values.
func C14_huge() { hugelyDo(C14_sized) }

// C15: huge values.
func C15_huge() { hugelyDo(C15_sized) }

// C16: huge values.
func C16_huge() { hugelyDo(C16_sized) }

// C17: huge values.
func C17_huge() { hugelyDo(C17_sized) }

// C18: huge values.
func C18_huge() { hugelyDo(C18_sized) }

// C19: huge values.
func C19_huge() { hugelyDo(C19_sized) }

// C21: huge values.
func C21_huge() { hugelyDo(C21_sized) }

// C22: huge values.
func C22_huge() { hugelyDo(C22_sized) }

// C23: huge values.
func C23_huge() { hugelyDo(C23_sized) }

// C25: huge values.
func C25_huge() { hugelyDo(C25_sized) }

// C29: huge values.
func C29_huge() { hugelyDo(C29_sized) }

// C31: huge values.
func C31_huge() { hugelyDo(C31_sized) }

// C32: huge values.
func C32_huge() { hugelyDo(C32_sized) }

// C35: huge values.
func C35_huge() { hugelyDo(C35_sized) }

// C36: huge values.
func C36_huge() { hugelyDo(C36_sized) }

// C37: huge values.
func C37_huge() { hugelyDo(C37_sized) }

// C38: huge values.
func C38_huge() { hugelyDo(C38_sized) }

// deepest is a number of levels that overflows the stack if each takes a call:
// the engine takes 40000 calls for an overflow, and Go a gigabyte (here a
// quarter of it).
func deepest() int {
	if sym.Engine() {
		return 60000
	}
	return 4000000
}

// C01: texts of millions of levels.
func C01_huge() {
	sym.Bound("huge", "texts of 4 million (60000 in the engine, which takes 40000 nested calls for an overflow) opening brackets of five kinds, closed or not, alone, after other text or inside a value, and one of 9000 levels")
	open := []string{"[", `{"a":`, "[ ", `[{"":`, "{'b' : [1,"}[sym.Choose("open", 5)]
	shut := map[string]string{"[": "]", `{"a":`: "}", "[ ": " ]", `[{"":`: "}]", "{'b' : [1,": "]}"}[open]
	n := deepest() / strings.Count(open+" ", open[:1])
	small := sym.Bool("small")
	if small {
		n = 4500
	}
	text := strings.Repeat(open, n)
	if sym.Bool("closed") {
		text += "0" + strings.Repeat(shut, n)
	} else {
		text += sym.StrUpTo("end", 1)
	}
	at := 0
	switch sym.Choose("where", 3) {
	case 1:
		text = `{"x":[],"y":[1,` + text
	case 2:
		text = "null " + text
		at = 5
	}
	v, end, err := jsonutils.ParseStream(tight(text), at)
	if err == nil {
		sym.Assert(v != nil && end > at && end <= len(text), "the end offset lies within the text")
		if small {
			sym.Assert(len(v.String()) > n, "a parsed value can be rendered")
		}
		return
	}
	sym.Assert(v == nil, "a text yields a value or an error")
}

// C23: keys of millions of steps.
func C23_deep_huge() {
	sym.Bound("deep", "query keys of 2 million steps (30000 in the engine, which takes 40000 nested calls for an overflow) of four kinds, alone or with another parameter that shares a part")
	step := []string{"a.", "0.", "a.0.", "."}[sym.Choose("step", 4)]
	n := deepest()
	small := sym.Bool("small")
	if small {
		n = 240
	}
	key := "k." + strings.Repeat(step, n/len(step)) + "z"
	q := key + "=" + sym.ASCII("v", 1)
	switch sym.Choose("more", 3) {
	case 1:
		q = "k." + strings.Repeat(step, n/len(step)/2) + "y=1&" + q
	case 2:
		q += "&" + key + ".y=2"
	}
	v, err := jsonutils.ParseQueryString(q)
	sym.Assert((v == nil) == (err != nil), "a query yields an object or an error")
}
