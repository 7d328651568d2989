package h

import "strconv"

// rfc is an independent strict decoder of RFC 8259 texts.
type rfc struct {
	s   string
	i   int
	bad bool
}

func rfcParse(s string) (*node, bool) {
	r := &rfc{s: s}
	r.ws()
	n := r.value(0)
	r.ws()
	if r.bad || r.i != len(s) {
		return nil, false
	}
	return n, true
}

func (r *rfc) peek() byte {
	if r.i < len(r.s) {
		return r.s[r.i]
	}
	return 0
}

func (r *rfc) fail() *node {
	r.bad = true
	return &node{}
}

func (r *rfc) ws() {
	for r.i < len(r.s) {
		switch r.s[r.i] {
		case ' ', '\t', '\n', '\r':
			r.i++
		default:
			return
		}
	}
}

func (r *rfc) word(w string) bool {
	if len(r.s)-r.i >= len(w) && r.s[r.i:r.i+len(w)] == w {
		r.i += len(w)
		return true
	}
	r.bad = true
	return false
}

func (r *rfc) value(depth int) *node {
	if r.bad || depth > 2000 {
		return r.fail()
	}
	switch c := r.peek(); {
	case c == '{':
		r.i++
		n := &node{k: kObj}
		r.ws()
		if r.peek() == '}' {
			r.i++
			return n
		}
		for !r.bad {
			r.ws()
			k := r.str()
			r.ws()
			if r.peek() != ':' {
				return r.fail()
			}
			r.i++
			r.ws()
			v := r.value(depth + 1)
			n.keys = append(n.keys, k)
			n.kids = append(n.kids, v)
			r.ws()
			switch r.peek() {
			case ',':
				r.i++
			case '}':
				r.i++
				return n
			default:
				return r.fail()
			}
		}
	case c == '[':
		r.i++
		n := &node{k: kArr}
		r.ws()
		if r.peek() == ']' {
			r.i++
			return n
		}
		for !r.bad {
			r.ws()
			n.kids = append(n.kids, r.value(depth+1))
			r.ws()
			switch r.peek() {
			case ',':
				r.i++
			case ']':
				r.i++
				return n
			default:
				return r.fail()
			}
		}
	case c == '"':
		return &node{k: kStr, s: r.str()}
	case c == 'n':
		r.word("null")
		return &node{k: kNull}
	case c == 't':
		r.word("true")
		return &node{k: kBool, b: true}
	case c == 'f':
		r.word("false")
		return &node{k: kBool}
	case c == '-' || c >= '0' && c <= '9':
		return r.number()
	}
	return r.fail()
}

func (r *rfc) number() *node {
	start := r.i
	if r.peek() == '-' {
		r.i++
	}
	d0 := r.i
	for r.peek() >= '0' && r.peek() <= '9' {
		r.i++
	}
	if r.i == d0 || r.s[d0] == '0' && r.i-d0 > 1 {
		return r.fail()
	}
	frac := false
	if r.peek() == '.' {
		frac = true
		r.i++
		f0 := r.i
		for r.peek() >= '0' && r.peek() <= '9' {
			r.i++
		}
		if r.i == f0 {
			return r.fail()
		}
	}
	if r.peek() == 'e' || r.peek() == 'E' {
		frac = true
		r.i++
		if r.peek() == '+' || r.peek() == '-' {
			r.i++
		}
		e0 := r.i
		for r.peek() >= '0' && r.peek() <= '9' {
			r.i++
		}
		if r.i == e0 {
			return r.fail()
		}
	}
	if !frac {
		if i, err := strconv.ParseInt(r.s[start:r.i], 10, 64); err == nil {
			return &node{k: kInt, i: i}
		}
	}
	f, err := strconv.ParseFloat(r.s[start:r.i], 64)
	if err != nil {
		return r.fail()
	}
	return &node{k: kFloat, f: f}
}

func hexval(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func (r *rfc) hex4() int {
	v := 0
	for k := 0; k < 4; k++ {
		h := -1
		if r.i < len(r.s) {
			h = hexval(r.s[r.i])
		}
		if h < 0 {
			r.bad = true
			return 0
		}
		v = v*16 + h
		r.i++
	}
	return v
}

// utf appends the UTF-8 form of a code point.
func utf(b []byte, c int) []byte {
	switch {
	case c < 0x80:
		return append(b, byte(c))
	case c < 0x800:
		return append(b, byte(0xc0|c>>6), byte(0x80|c&0x3f))
	case c < 0x10000:
		return append(b, byte(0xe0|c>>12), byte(0x80|c>>6&0x3f), byte(0x80|c&0x3f))
	}
	return append(b, byte(0xf0|c>>18), byte(0x80|c>>12&0x3f), byte(0x80|c>>6&0x3f), byte(0x80|c&0x3f))
}

func (r *rfc) str() string {
	if r.peek() != '"' {
		r.bad = true
		return ""
	}
	r.i++
	var b []byte
	for r.i < len(r.s) && !r.bad {
		c := r.s[r.i]
		r.i++
		switch {
		case c == '"':
			return string(b)
		case c < 0x20:
			r.bad = true
		case c != '\\':
			b = append(b, c)
		default:
			e := r.peek()
			r.i++
			switch e {
			case '"', '\\', '/':
				b = append(b, e)
			case 'b':
				b = append(b, 8)
			case 'f':
				b = append(b, 12)
			case 'n':
				b = append(b, 10)
			case 'r':
				b = append(b, 13)
			case 't':
				b = append(b, 9)
			case 'u':
				v := r.hex4()
				if v >= 0xd800 && v < 0xdc00 && r.i+1 < len(r.s) && r.s[r.i] == '\\' && r.s[r.i+1] == 'u' {
					r.i += 2
					w := r.hex4()
					if w < 0xdc00 || w > 0xdfff {
						r.bad = true
					}
					v = 0x10000 + (v-0xd800)<<10 + (w - 0xdc00)
				} else if v >= 0xd800 && v < 0xe000 {
					r.bad = true
				}
				b = utf(b, v)
			default:
				r.bad = true
			}
		}
	}
	r.bad = true
	return ""
}

// numEq compares models with numbers by value.
func (n *node) numEq(o *node) bool {
	switch n.k {
	case kInt, kFloat:
		if n.k == kInt && o.k == kInt {
			return n.i == o.i
		}
		a, b := n.f, o.f
		if n.k == kInt {
			a = float64(n.i)
		}
		if o.k == kInt {
			b = float64(o.i)
		}
		return (o.k == kInt || o.k == kFloat) && a == b
	case kArr, kObj:
		if o.k != n.k || len(n.kids) != len(o.kids) {
			return false
		}
		var index map[string]int
		for i, c := range n.kids {
			if n.k == kArr {
				if !c.numEq(o.kids[i]) {
					return false
				}
				continue
			}
			hit := false
			if len(o.keys) > 700 { // none of these is arbitrary
				if index == nil {
					index = map[string]int{}
					for j, k := range o.keys {
						index[k] = j
					}
				}
				if j, ok := index[n.keys[i]]; !ok || !c.numEq(o.kids[j]) {
					return false
				}
				continue
			}
			for j, k := range o.keys {
				if k == n.keys[i] {
					hit = c.numEq(o.kids[j])
					break
				}
			}
			if !hit {
				return false
			}
		}
		return true
	}
	return n.eq(o)
}
