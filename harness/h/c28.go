package h

import (
	"strconv"

	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

func digitRun(s string) int {
	n := 0
	for n < len(s) && s[n] >= '0' && s[n] <= '9' {
		n++
	}
	return n
}

// grouped reads digit groups separated by sep: the integer digits, the length
// read and the number of groups.
func grouped(s string, sep byte) (digits string, n, groups int) {
	for {
		k := digitRun(s[n:])
		if k == 0 || k > 3 {
			return "", 0, 0
		}
		digits += s[n : n+k]
		n += k
		groups++
		if n < len(s) && s[n] == sep {
			n++
			continue
		}
		if groups > 1 && k != 3 {
			return "", 0, 0
		}
		return digits, n, groups
	}
}

// money gives the plain decimal text of a number text.
func money(s string) (string, bool) {
	sign := ""
	if len(s) > 0 && (s[0] == '+' || s[0] == '-') {
		sign, s = s[:1], s[1:]
	}
	tail := func(rest string, mark byte) (string, bool) {
		if rest == "" {
			return "", true
		}
		if rest[0] != mark || digitRun(rest[1:]) != len(rest)-1 {
			return "", false
		}
		return "." + rest[1:], true
	}
	n := digitRun(s)
	if t, ok := tail(s[n:], '.'); ok {
		return sign + s, n > 0 || len(t) > 1
	}
	if d, k, g := grouped(s, ','); g > 1 {
		if t, ok := tail(s[k:], '.'); ok {
			return sign + d + t, true
		}
	}
	if d, k, g := grouped(s, '.'); g > 1 {
		if t, ok := tail(s[k:], ','); ok {
			return sign + d + t, true
		}
	}
	if t, ok := tail(s[n:], ','); ok && n <= 3 {
		return sign + s[:n] + t, n > 0 || len(t) > 1
	}
	return "", false
}

func isInteger(s string) bool {
	if len(s) > 0 && (s[0] == '+' || s[0] == '-') {
		s = s[1:]
	}
	return s != "" && digitRun(s) == len(s)
}

func moneyOK(s string) {
	plain, ok := money(s)
	v := jsonutils.NewString(s)
	f := 0.25
	err := v.Unmarshal(&f)
	if !ok {
		sym.Assert(err != nil && f == 0.25, "a text that is no number is an error")
	} else {
		want, perr := strconv.ParseFloat(plain, 64)
		sym.Assert(perr == nil, "the plain number is readable")
		sym.Assert(err == nil && f == want, "a grouped number is read by value, a plain one unchanged")
	}
	i := int64(77)
	err = v.Unmarshal(&i)
	if ok && isInteger(plain) {
		want, perr := strconv.ParseInt(plain, 10, 64)
		sym.Assert(perr == nil && err == nil && i == want, "a grouped integer is read by value, a plain one unchanged")
		if s[0] != '+' && s[0] != '-' {
			u := uint64(77)
			err = dict1("u", v).Unmarshal(&struct{ U *uint64 }{&u})
			sym.Assert(err == nil && int64(u) == want, "a grouped integer is read by value, a plain one unchanged")
		}
	} else {
		sym.Assert(err != nil && i == 77, "a text that is no integer is an error")
	}
}

// C28: every text over digits, signs and separators.
func C28_text() {
	n := 8
	if sym.Thorough() {
		n = 9
	}
	sym.Bound("texts", "every text of 1 to 8 (9 thorough) characters out of digits + - , .")
	k := 1 + sym.Choose("len", n)
	b := make([]byte, k)
	for i := range b {
		switch sym.Choose("class", 4) {
		case 0:
			b[i] = sym.ByteIn("digit", '0', '9')
		case 1:
			b[i] = ','
		case 2:
			b[i] = '.'
		default:
			b[i] = '-'
			if sym.Bool("plus") {
				b[i] = '+'
			}
		}
	}
	moneyOK(string(b))
}

// C28: longer texts in one of the groupings, with one character changed.
func C28_long() {
	sym.Bound("long texts", "numbers of up to three groups with any digits and up to 3 decimals in either grouping or ungrouped, optionally signed, with one character dropped, doubled or replaced by a separator")
	mark, point := byte(','), byte('.')
	style := sym.Choose("style", 3)
	if style == 1 {
		mark, point = '.', ','
	}
	var b []byte
	digits := func(n int) {
		for ; n > 0; n-- {
			b = append(b, sym.ByteIn("digit", '0', '9'))
		}
	}
	if sym.Choose("sign", 2) == 1 {
		b = append(b, '-')
	}
	digits(1 + sym.Choose("first", 3))
	for g := sym.Choose("groups", 3); g > 0; g-- {
		if style < 2 {
			b = append(b, mark)
		}
		digits(3)
	}
	if d := sym.Choose("decimals", 4); d > 0 {
		b = append(b, point)
		digits(d - 1)
	}
	if sym.Choose("change", 2) == 1 {
		at := sym.Choose("at", len(b))
		switch sym.Choose("how", 4) {
		case 0:
			b = append(b[:at:at], b[at+1:]...)
		case 1:
			b = append(append(b[:at+1:at+1], b[at]), b[at+1:]...)
		case 2:
			b[at] = ','
		default:
			b[at] = '.'
		}
	}
	sym.Assume(len(b) > 0)
	moneyOK(string(b))
}
