package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Term is a hash-consed SMT term. w==0: Bool sort, else bit-vector of width w.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd // n-ary
	OOr  // n-ary
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OZExt
	OSExt
	OExtract // val = hi<<8|lo
	OConcat
	OIte
	OTab // table lookup: args[0] index (width<=16), tab values, default last
	OFEq // floating point (bits) ops; width of args 32/64
	OFLt
	OFLe
	OFIsNaN
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFOfS // signed bv -> float of width w
	OFOfU // unsigned bv -> float of width w
	OFToS // float -> signed bv w (truncation)
	OFToU
	OFToF // float -> float of width w
	OUF   // uninterpreted function
)

const (
	uNone  = int32(-1) // no variables
	uMulti = int32(-2) // several variables, or a wide one
)

type Term struct {
	op    Op
	w     uint8
	una   int32 // small variable index if the term depends on exactly that variable
	id    int32
	val   uint64
	args  []*Term
	name  string
	lo    uint64
	hi    uint64
	tab   []uint64
	set   *[4]uint64 // truth set for unary boolean terms (lazy)
	hasUF bool
	rem   bool // a sum with a quotient or remainder in it
	vars  []*Term
	ep    uint64 // evaluation memo
	evv   uint64
}

type termKey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c int32
	s       string
}

type Terms struct {
	tab       map[termKey]*Term
	all       []*Term
	vars      []*Term // by variable index
	vmap      map[string]*Term
	T, F      *Term
	evalCache map[int32]map[int32][]uint64
	epoch     uint64
	envVals   []uint64
	envOne    uint64
	envAll    bool
	divs      map[divKey]divRes
}

func newTerms() *Terms {
	ts := &Terms{tab: map[termKey]*Term{}, vmap: map[string]*Term{}}
	ts.T = ts.mk(&Term{op: OConst, w: 0, val: 1, una: uNone})
	ts.F = ts.mk(&Term{op: OConst, w: 0, val: 0, una: uNone})
	return ts
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (ts *Terms) mk(t *Term) *Term {
	k := termKey{op: t.op, w: t.w, val: t.val, a: -1, b: -1, c: -1, s: t.name}
	switch len(t.args) {
	case 0:
	case 1:
		k.a = t.args[0].id
	case 2:
		k.a, k.b = t.args[0].id, t.args[1].id
	case 3:
		k.a, k.b, k.c = t.args[0].id, t.args[1].id, t.args[2].id
	default:
		var sb strings.Builder
		sb.WriteString(t.name)
		for _, a := range t.args {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
		k.s = sb.String()
	}
	if t.op == OTab {
		var sb strings.Builder
		for _, v := range t.tab {
			fmt.Fprintf(&sb, ",%x", v)
		}
		k.s = sb.String()
	}
	if r, ok := ts.tab[k]; ok {
		return r
	}
	t.id = int32(len(ts.all))
	if t.op != OVar && t.op != OConst {
		u := uNone
		for _, a := range t.args {
			if a.hasUF {
				t.hasUF = true
			}
			switch t.op {
			case OAdd, OSub, OMul, OExtract, OZExt, OShl:
				t.rem = t.rem || a.rem
			case OUDiv, OURem:
				t.rem = true
			}
			if a.una == uNone {
				continue
			}
			if u == uNone {
				u = a.una
			} else if u != a.una {
				u = uMulti
			}
		}
		if t.op == OUF {
			t.hasUF = true
		}
		if t.hasUF {
			u = uMulti
		}
		t.una = u
		ts.interval(t)
	}
	ts.all = append(ts.all, t)
	ts.tab[k] = t
	return t
}

func (ts *Terms) Const(v uint64, w uint8) *Term {
	if w == 0 {
		return ts.Bool(v != 0)
	}
	v &= mask(w)
	return ts.mk(&Term{op: OConst, w: w, val: v, una: uNone, lo: v, hi: v})
}

func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.T
	}
	return ts.F
}

// Var returns the variable of the given name; lo..hi restrict it statically.
func (ts *Terms) Var(name string, w uint8, lo, hi uint64) *Term {
	if t, ok := ts.vmap[name]; ok {
		if t.w != w || t.lo != lo || t.hi != hi {
			panic("variable redeclared: " + name)
		}
		return t
	}
	idx := int32(len(ts.vars))
	t := &Term{op: OVar, w: w, val: uint64(idx), una: idx, name: name, lo: lo, hi: hi}
	if w > 8 {
		t.una = uMulti
	}
	t = ts.mk(t)
	ts.vars = append(ts.vars, t)
	ts.vmap[name] = t
	return t
}

func (ts *Terms) interval(t *Term) {
	if t.w == 0 {
		return
	}
	m := mask(t.w)
	t.lo, t.hi = 0, m
	a := t.args
	switch t.op {
	case OAdd:
		h, c := bits.Add64(a[0].hi, a[1].hi, 0)
		if c == 0 && h <= m {
			t.lo, t.hi = a[0].lo+a[1].lo, h
		} else if a[1].op == OConst && a[0].lo >= (m-a[1].val+1) && a[1].val != 0 {
			// adding a negative constant
			t.lo, t.hi = (a[0].lo+a[1].val)&m, (a[0].hi+a[1].val)&m
		}
	case OSub:
		if a[0].lo >= a[1].hi {
			t.lo, t.hi = a[0].lo-a[1].hi, a[0].hi-a[1].lo
		}
	case OMul:
		hh, h := bits.Mul64(a[0].hi, a[1].hi)
		if hh == 0 && h <= m {
			t.lo, t.hi = a[0].lo*a[1].lo, h
		}
	case OUDiv:
		if a[1].lo > 0 {
			t.lo, t.hi = a[0].lo/a[1].hi, a[0].hi/a[1].lo
		}
	case OURem:
		if a[1].lo > 0 {
			t.hi = a[1].hi - 1
			if a[0].hi < t.hi {
				t.hi = a[0].hi
			}
		}
	case OBAnd:
		t.hi = a[0].hi
		if a[1].hi < t.hi {
			t.hi = a[1].hi
		}
	case OBOr:
		t.lo = a[0].lo
		if a[1].lo > t.lo {
			t.lo = a[1].lo
		}
		n := bits.Len64(a[0].hi | a[1].hi)
		if n < 64 {
			t.hi = (uint64(1) << uint(n)) - 1
		}
		t.hi &= m
	case OBXor:
		n := bits.Len64(a[0].hi | a[1].hi)
		if n < 64 {
			t.hi = (uint64(1) << uint(n)) - 1
		}
	case OLShr:
		if a[1].op == OConst && a[1].val < 64 {
			t.lo, t.hi = a[0].lo>>a[1].val, a[0].hi>>a[1].val
		} else {
			t.hi = a[0].hi
		}
	case OShl:
		if a[1].op == OConst && a[1].val < 64 && a[0].hi <= m>>a[1].val {
			t.lo, t.hi = a[0].lo<<a[1].val, a[0].hi<<a[1].val
		}
	case OZExt:
		t.lo, t.hi = a[0].lo, a[0].hi
	case OSExt:
		if a[0].hi < uint64(1)<<(a[0].w-1) {
			t.lo, t.hi = a[0].lo, a[0].hi
		}
	case OExtract:
		lo := t.val & 0xff
		if lo == 0 && a[0].hi <= m {
			t.lo, t.hi = a[0].lo, a[0].hi
		}
	case OIte:
		t.lo, t.hi = a[1].lo, a[1].hi
		if a[2].lo < t.lo {
			t.lo = a[2].lo
		}
		if a[2].hi > t.hi {
			t.hi = a[2].hi
		}
	case OTab:
		t.lo, t.hi = t.tab[0], t.tab[0]
		for _, v := range t.tab {
			if v < t.lo {
				t.lo = v
			}
			if v > t.hi {
				t.hi = v
			}
		}
	}
}

func isC(t *Term) bool { return t.op == OConst }

func (ts *Terms) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return ts.Bool(a.val == 0)
	case ONot:
		return a.args[0]
	case OUlt:
		return ts.Ule(a.args[1], a.args[0])
	case OUle:
		return ts.Ult(a.args[1], a.args[0])
	case OSlt:
		return ts.Sle(a.args[1], a.args[0])
	case OSle:
		return ts.Slt(a.args[1], a.args[0])
	}
	return ts.mk(&Term{op: ONot, args: []*Term{a}})
}

func (ts *Terms) nary(op Op, xs []*Term) *Term {
	unit, zero := ts.T, ts.F
	if op == OOr {
		unit, zero = ts.F, ts.T
	}
	var out []*Term
	seen := map[int32]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x.id] {
			return true
		}
		if seen[ts.Not(x).id] {
			return false
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return ts.mk(&Term{op: op, args: out})
}

func (ts *Terms) And(xs ...*Term) *Term { return ts.nary(OAnd, xs) }
func (ts *Terms) Or(xs ...*Term) *Term  { return ts.nary(OOr, xs) }
func (ts *Terms) Implies(a, b *Term) *Term {
	return ts.Or(ts.Not(a), b)
}

func (ts *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return ts.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d", a.w, b.w))
	}
	if isC(a) && isC(b) {
		return ts.Bool(a.val == b.val)
	}
	if isC(a) {
		a, b = b, a
	}
	if a.w == 0 {
		if isC(b) {
			if b.val == 1 {
				return a
			}
			return ts.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return ts.mk(&Term{op: OEq, args: []*Term{a, b}})
	}
	if a.hi < b.lo || b.hi < a.lo {
		return ts.F
	}
	if isC(b) {
		switch a.op {
		case OZExt:
			x := a.args[0]
			if b.val > mask(x.w) {
				return ts.F
			}
			return ts.Eq(x, ts.Const(b.val, x.w))
		case OSExt:
			x := a.args[0]
			if uint64(sext(b.val&mask(x.w), x.w))&mask(a.w) != b.val {
				return ts.F
			}
			return ts.Eq(x, ts.Const(b.val, x.w))
		case OAdd:
			if isC(a.args[1]) {
				return ts.Eq(a.args[0], ts.Const(b.val-a.args[1].val, a.w))
			}
		case OSub:
			if isC(a.args[0]) {
				return ts.Eq(a.args[1], ts.Const(a.args[0].val-b.val, a.w))
			}
		case OBXor:
			if isC(a.args[1]) {
				return ts.Eq(a.args[0], ts.Const(b.val^a.args[1].val, a.w))
			}
		case OIte:
			x, y := a.args[1], a.args[2]
			if isC(x) || isC(y) {
				return ts.Or(ts.And(a.args[0], ts.Eq(x, b)), ts.And(ts.Not(a.args[0]), ts.Eq(y, b)))
			}
		}
	} else {
		if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w {
			return ts.Eq(a.args[0], b.args[0])
		}
		if a.op == OSExt && b.op == OSExt && a.args[0].w == b.args[0].w {
			return ts.Eq(a.args[0], b.args[0])
		}
		if a.op == OAdd && b.op == OAdd && isC(a.args[1]) && a.args[1] == b.args[1] {
			return ts.Eq(a.args[0], b.args[0])
		}
		if linear(a) && linear(b) {
			if t := ts.eqCancel(a, b); t != nil {
				return t
			}
		}
	}
	if !isC(b) && a.id > b.id {
		a, b = b, a
	}
	return ts.mk(&Term{op: OEq, args: []*Term{a, b}})
}

func (ts *Terms) Ult(a, b *Term) *Term {
	if a == b {
		return ts.F
	}
	if isC(a) && isC(b) {
		return ts.Bool(a.val < b.val)
	}
	if a.hi < b.lo {
		return ts.T
	}
	if a.lo >= b.hi {
		return ts.F
	}
	if a.op == OZExt && isC(b) {
		x := a.args[0]
		if b.val > mask(x.w) {
			return ts.T
		}
		return ts.Ult(x, ts.Const(b.val, x.w))
	}
	if b.op == OZExt && isC(a) {
		x := b.args[0]
		if a.val > mask(x.w) {
			return ts.F
		}
		return ts.Ult(ts.Const(a.val, x.w), x)
	}
	if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w {
		return ts.Ult(a.args[0], b.args[0])
	}
	// x + y < x without overflow
	if a.op == OAdd && (a.args[0] == b || a.args[1] == b) {
		if h, c := bits.Add64(a.args[0].hi, a.args[1].hi, 0); c == 0 && h <= mask(a.w) {
			return ts.F
		}
	}
	if isC(b) && b.val == 1 {
		return ts.Eq(a, ts.Const(0, a.w))
	}
	return ts.mk(&Term{op: OUlt, args: []*Term{a, b}})
}

func (ts *Terms) Ule(a, b *Term) *Term {
	if a == b {
		return ts.T
	}
	if isC(a) && isC(b) {
		return ts.Bool(a.val <= b.val)
	}
	if a.hi <= b.lo {
		return ts.T
	}
	if a.lo > b.hi {
		return ts.F
	}
	if a.op == OZExt && isC(b) {
		x := a.args[0]
		if b.val >= mask(x.w) {
			return ts.T
		}
		return ts.Ule(x, ts.Const(b.val, x.w))
	}
	if b.op == OZExt && isC(a) {
		x := b.args[0]
		if a.val > mask(x.w) {
			return ts.F
		}
		return ts.Ule(ts.Const(a.val, x.w), x)
	}
	if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w {
		return ts.Ule(a.args[0], b.args[0])
	}
	if b.op == OAdd && (b.args[0] == a || b.args[1] == a) {
		if h, c := bits.Add64(b.args[0].hi, b.args[1].hi, 0); c == 0 && h <= mask(a.w) {
			return ts.T
		}
	}
	if isC(b) && b.val == 0 {
		return ts.Eq(a, b)
	}
	return ts.mk(&Term{op: OUle, args: []*Term{a, b}})
}

func nonneg(t *Term) bool { return t.hi <= mask(t.w)>>1 }

func (ts *Terms) Slt(a, b *Term) *Term {
	if a == b {
		return ts.F
	}
	if isC(a) && isC(b) {
		return ts.Bool(sext(a.val, a.w) < sext(b.val, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return ts.Ult(a, b)
	}
	if a.op == OSExt && isC(b) {
		x := a.args[0]
		if v := sext(b.val, b.w); sext(b.val&mask(x.w), x.w) == v {
			return ts.Slt(x, ts.Const(b.val, x.w))
		} else {
			return ts.Bool(v > 0)
		}
	}
	if b.op == OSExt && isC(a) {
		x := b.args[0]
		if v := sext(a.val, a.w); sext(a.val&mask(x.w), x.w) == v {
			return ts.Slt(ts.Const(a.val, x.w), x)
		} else {
			return ts.Bool(v < 0)
		}
	}
	return ts.mk(&Term{op: OSlt, args: []*Term{a, b}})
}

func (ts *Terms) Sle(a, b *Term) *Term {
	if a == b {
		return ts.T
	}
	if isC(a) && isC(b) {
		return ts.Bool(sext(a.val, a.w) <= sext(b.val, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return ts.Ule(a, b)
	}
	if a.op == OSExt && isC(b) {
		x := a.args[0]
		if v := sext(b.val, b.w); sext(b.val&mask(x.w), x.w) == v {
			return ts.Sle(x, ts.Const(b.val, x.w))
		} else {
			return ts.Bool(v > 0)
		}
	}
	if b.op == OSExt && isC(a) {
		x := b.args[0]
		if v := sext(a.val, a.w); sext(a.val&mask(x.w), x.w) == v {
			return ts.Sle(ts.Const(a.val, x.w), x)
		} else {
			return ts.Bool(v < 0)
		}
	}
	return ts.mk(&Term{op: OSle, args: []*Term{a, b}})
}

func foldBin(op Op, a, b uint64, w uint8) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m, true
	case OSub:
		return (a - b) & m, true
	case OMul:
		return (a * b) & m, true
	case OUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OSDiv:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			if sa < 0 {
				return 1, true
			}
			return m, true
		}
		if sb == -1 {
			return uint64(-sa) & m, true
		}
		return uint64(sa/sb) & m, true
	case OSRem:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			return a, true
		}
		if sb == -1 {
			return 0, true
		}
		return uint64(sa%sb) & m, true
	case OBAnd:
		return a & b, true
	case OBOr:
		return a | b, true
	case OBXor:
		return a ^ b, true
	case OShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OLShr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & m, true
	}
	return 0, false
}

func (ts *Terms) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %d width %d %d", op, a.w, b.w))
	}
	w := a.w
	if isC(a) && isC(b) {
		v, _ := foldBin(op, a.val, b.val, w)
		return ts.Const(v, w)
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if isC(a) || (!isC(b) && a.id > b.id) {
			a, b = b, a
		}
	}
	if isC(b) {
		switch op {
		case OSub:
			return ts.Bin(OAdd, a, ts.Const(-b.val, w))
		case OAdd:
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && isC(a.args[1]) {
				return ts.Bin(OAdd, a.args[0], ts.Const(a.args[1].val+b.val, w))
			}
		case OMul:
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
			if a.op == OMul && isC(a.args[1]) {
				return ts.Bin(OMul, a.args[0], ts.Const(a.args[1].val*b.val, w))
			}
		case OUDiv:
			if b.val == 1 {
				return a
			}
			if b.val != 0 && b.val&(b.val-1) == 0 {
				return ts.Bin(OLShr, a, ts.Const(uint64(bits.TrailingZeros64(b.val)), w))
			}
			if a.hi < b.val && b.val != 0 {
				return ts.Const(0, w)
			}
			if a.op == OZExt && b.val != 0 && b.val <= mask(a.args[0].w) {
				x := a.args[0]
				return ts.ZExt(ts.Bin(op, x, ts.Const(b.val, x.w)), w)
			}
			if b.val != 0 {
				if a.op == OUDiv && isC(a.args[1]) {
					if hi, lo := bits.Mul64(a.args[1].val, b.val); hi == 0 && lo <= mask(w) {
						return ts.Bin(OUDiv, a.args[0], ts.Const(lo, w))
					}
				}
				if q, _ := ts.divmod(a, b.val); q != nil {
					return q
				}
			}
		case OURem:
			if b.val != 0 && b.val&(b.val-1) == 0 {
				return ts.Bin(OBAnd, a, ts.Const(b.val-1, w))
			}
			if a.hi < b.val {
				return a
			}
			if a.op == OZExt && b.val != 0 && b.val <= mask(a.args[0].w) {
				x := a.args[0]
				return ts.ZExt(ts.Bin(op, x, ts.Const(b.val, x.w)), w)
			}
			if b.val != 0 {
				if _, r := ts.divmod(a, b.val); r != nil {
					return r
				}
			}
		case OSDiv, OSRem:
			if nonneg(a) && nonneg(b) {
				if op == OSDiv {
					return ts.Bin(OUDiv, a, b)
				}
				return ts.Bin(OURem, a, b)
			}
		case OBAnd:
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if b.val&(b.val+1) == 0 && a.hi <= b.val {
				return a
			}
			if a.op == OZExt {
				x := a.args[0]
				return ts.ZExt(ts.Bin(OBAnd, x, ts.Const(b.val, x.w)), w)
			}
		case OBOr, OBXor:
			if b.val == 0 {
				return a
			}
		case OShl, OLShr, OAShr:
			if b.val == 0 {
				return a
			}
			if op != OAShr && b.val >= uint64(w) {
				return ts.Const(0, w)
			}
			if op == OAShr && nonneg(a) {
				return ts.Bin(OLShr, a, b)
			}
			if op == OLShr && a.hi>>b.val == 0 {
				return ts.Const(0, w)
			}
		}
	}
	if op == OSub && (a.op == OAdd || a.op == OSub || b.op == OAdd || b.op == OSub) {
		if t := ts.cancel(a, b); t != nil {
			return t
		}
	}
	if (op == OAdd || op == OSub) && (a.rem || b.rem) {
		if t := ts.recombine(a, b, op); t != nil {
			return t
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return ts.Const(0, w)
		case OBAnd, OBOr:
			return a
		}
	}
	if isC(a) && a.val == 0 && op == OSub && b.op == OSub && isC(b.args[0]) && b.args[0].val == 0 {
		return b.args[1]
	}
	if isC(a) && a.val == 0 {
		switch op {
		case OShl, OLShr, OAShr:
			return a
		}
	}
	// distribute over ite with constant arms and constant other operand
	if isC(b) && a.op == OIte && isC(a.args[1]) && isC(a.args[2]) {
		return ts.Ite(a.args[0], ts.Bin(op, a.args[1], b), ts.Bin(op, a.args[2], b))
	}
	return ts.mk(&Term{op: op, w: w, args: []*Term{a, b}})
}

func (ts *Terms) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if isC(a) {
		return ts.Const(a.val, w)
	}
	if a.op == OZExt {
		return ts.ZExt(a.args[0], w)
	}
	if a.op == OExtract && a.val&0xff == 0 && a.args[0].hi <= mask(a.w) {
		x := a.args[0]
		if w >= x.w {
			return ts.ZExt(x, w)
		}
		return ts.Extract(x, w-1, 0)
	}
	if a.op == OIte && isC(a.args[1]) && isC(a.args[2]) {
		return ts.Ite(a.args[0], ts.ZExt(a.args[1], w), ts.ZExt(a.args[2], w))
	}
	return ts.mk(&Term{op: OZExt, w: w, args: []*Term{a}})
}

func (ts *Terms) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if isC(a) {
		return ts.Const(uint64(sext(a.val, a.w)), w)
	}
	if nonneg(a) {
		return ts.ZExt(a, w)
	}
	if a.op == OSExt {
		return ts.SExt(a.args[0], w)
	}
	return ts.mk(&Term{op: OSExt, w: w, args: []*Term{a}})
}

func (ts *Terms) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if lo == 0 && w == a.w {
		return a
	}
	if isC(a) {
		return ts.Const(a.val>>lo, w)
	}
	if a.op == OZExt || a.op == OSExt {
		x := a.args[0]
		if hi < x.w {
			return ts.Extract(x, hi, lo)
		}
		if lo == 0 {
			if a.op == OZExt {
				return ts.ZExt(x, w)
			}
			return ts.SExt(x, w)
		}
		if a.op == OZExt && lo >= x.w {
			return ts.Const(0, w)
		}
	}
	if lo == 0 {
		switch a.op {
		case OAdd, OSub, OMul, OBAnd, OBOr, OBXor:
			if a.una != uMulti || a.args[0].op == OZExt || a.args[1].op == OZExt {
				return ts.Bin(a.op, ts.Extract(a.args[0], hi, 0), ts.Extract(a.args[1], hi, 0))
			}
		case OIte:
			return ts.Ite(a.args[0], ts.Extract(a.args[1], hi, 0), ts.Extract(a.args[2], hi, 0))
		}
	}
	return ts.mk(&Term{op: OExtract, w: w, val: uint64(hi)<<8 | uint64(lo), args: []*Term{a}})
}

func (ts *Terms) Ite(c, a, b *Term) *Term {
	if isC(c) {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if isC(a) && isC(b) {
			if a.val == 1 {
				return c
			}
			return ts.Not(c)
		}
		if isC(a) {
			if a.val == 1 {
				return ts.Or(c, b)
			}
			return ts.And(ts.Not(c), b)
		}
		if isC(b) {
			if b.val == 1 {
				return ts.Or(ts.Not(c), a)
			}
			return ts.And(c, a)
		}
	}
	if c.op == ONot {
		return ts.Ite(c.args[0], b, a)
	}
	if b.op == OIte && b.args[1] == a {
		return ts.Ite(ts.Or(c, b.args[0]), a, b.args[2])
	}
	return ts.mk(&Term{op: OIte, w: a.w, args: []*Term{c, a, b}})
}

// Tab builds tab[idx]; idx must be known to be < len(tab).
func (ts *Terms) Tab(idx *Term, tab []uint64, w uint8) *Term {
	if isC(idx) {
		if idx.val < uint64(len(tab)) {
			return ts.Const(tab[idx.val], w)
		}
		return ts.Const(0, w)
	}
	same := true
	for _, v := range tab {
		if v != tab[0] {
			same = false
		}
	}
	if same {
		return ts.Const(tab[0], w)
	}
	if idx.op == OZExt {
		x := idx.args[0]
		if uint64(len(tab)) <= mask(x.w)+1 {
			return ts.Tab(x, tab, w)
		}
	}
	n := uint64(len(tab))
	if idx.hi+1 < n && idx.hi+1 != 0 {
		tab = tab[:idx.hi+1]
	}
	if w == 0 {
		// boolean table: disjunction of index ranges
		var ors []*Term
		for i := 0; i < len(tab); {
			if tab[i] == 0 {
				i++
				continue
			}
			j := i
			for j < len(tab) && tab[j] != 0 {
				j++
			}
			ors = append(ors, ts.And(ts.Ule(ts.Const(uint64(i), idx.w), idx), ts.Ule(idx, ts.Const(uint64(j-1), idx.w))))
			i = j
		}
		return ts.Or(ors...)
	}
	return ts.mk(&Term{op: OTab, w: w, args: []*Term{idx}, tab: tab})
}

func (ts *Terms) Fp(op Op, w uint8, args ...*Term) *Term {
	all := true
	for _, a := range args {
		if !isC(a) {
			all = false
		}
	}
	t := &Term{op: op, w: w, args: args}
	if all {
		return ts.Const(evalFp(op, w, args, func(t *Term) uint64 { return t.val }), w)
	}
	switch op {
	case OFIsNaN:
		if ts.finiteFp(args[0]) {
			return ts.F
		}
	case OFEq:
		if args[0] == args[1] {
			return ts.Not(ts.Fp(OFIsNaN, 0, args[0]))
		}
		if args[0].id > args[1].id {
			t.args = []*Term{args[1], args[0]}
		}
	case OFToF:
		if args[0].w == w {
			return args[0]
		}
		if w == 32 && args[0].op == OFToF && args[0].args[0].w == 32 {
			return args[0].args[0] // float32 -> float64 -> float32 is exact (quiet NaNs aside)
		}
	}
	return ts.mk(t)
}

// finiteFp reports that t is certainly neither NaN nor infinite.
func (ts *Terms) finiteFp(t *Term) bool {
	switch t.op {
	case OConst:
		f := fbits(t.val, t.w)
		return f-f == 0
	case OFOfS, OFOfU:
		return true
	case OFNeg:
		return ts.finiteFp(t.args[0])
	case OFDiv:
		// an integer divided by at least 1
		return t.args[0].op != OConst && t.args[1].op == OConst && math.Abs(fbits(t.args[1].val, t.w)) >= 1 && ts.finiteFp(t.args[0]) && ts.finiteFp(t.args[1])
	case OFMul:
		a := t.args[0]
		return (a.op == OFOfS || a.op == OFOfU) && t.args[1].op == OConst && math.Abs(fbits(t.args[1].val, t.w)) < 1e200 && t.w == 64
	}
	return false
}

func (ts *Terms) UF(name string, w uint8, args ...*Term) *Term {
	return ts.mk(&Term{op: OUF, w: w, name: name, args: args})
}

func fbits(v uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func unfbits(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalFp(op Op, w uint8, a []*Term, ev func(*Term) uint64) uint64 {
	x := ev(a[0])
	aw := a[0].w
	var y uint64
	if len(a) > 1 {
		y = ev(a[1])
	}
	fx, fy := fbits(x, aw), 0.0
	if len(a) > 1 {
		fy = fbits(y, aw)
	}
	switch op {
	case OFEq:
		return b2u(fx == fy)
	case OFLt:
		return b2u(fx < fy)
	case OFLe:
		return b2u(fx <= fy)
	case OFIsNaN:
		return b2u(fx != fx)
	case OFAdd:
		if w == 32 {
			return uint64(math.Float32bits(float32(fx) + float32(fy)))
		}
		return unfbits(fx+fy, w)
	case OFSub:
		if w == 32 {
			return uint64(math.Float32bits(float32(fx) - float32(fy)))
		}
		return unfbits(fx-fy, w)
	case OFMul:
		if w == 32 {
			return uint64(math.Float32bits(float32(fx) * float32(fy)))
		}
		return unfbits(fx*fy, w)
	case OFDiv:
		if w == 32 {
			return uint64(math.Float32bits(float32(fx) / float32(fy)))
		}
		return unfbits(fx/fy, w)
	case OFNeg:
		return x ^ (uint64(1) << (w - 1))
	case OFOfS:
		if w == 32 {
			return uint64(math.Float32bits(float32(sext(x, aw))))
		}
		return math.Float64bits(float64(sext(x, aw)))
	case OFOfU:
		if w == 32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(float64(x))
	case OFToS:
		return uint64(int64(fx)) & mask(w)
	case OFToU:
		return uint64(fx) & mask(w)
	case OFToF:
		return unfbits(fx, w)
	}
	panic("evalFp")
}

// eval computes a term under an assignment of variables (by index).
// evIn sets the assignment used by ev: vals[i] for variable i where present
// and in range (its lower bound otherwise), or one for every variable if vals
// is nil.
func (ts *Terms) evIn(vals []uint64, one uint64) {
	ts.epoch++
	ts.envVals, ts.envOne, ts.envAll = vals, one, vals == nil
}

// ev evaluates t under the current assignment.
func (ts *Terms) ev(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		if ts.envAll {
			return ts.envOne
		}
		if int(t.val) < len(ts.envVals) {
			if v := ts.envVals[t.val]; v >= t.lo && v <= t.hi {
				return v
			}
		}
		return t.lo
	}
	if t.ep == ts.epoch {
		return t.evv
	}
	ev := ts.ev
	var r uint64
	a := t.args
	switch t.op {
	case ONot:
		r = 1 - ev(a[0])
	case OAnd:
		r = 1
		for _, x := range a {
			if ev(x) == 0 {
				r = 0
				break
			}
		}
	case OOr:
		for _, x := range a {
			if ev(x) == 1 {
				r = 1
				break
			}
		}
	case OEq:
		r = b2u(ev(a[0]) == ev(a[1]))
	case OUlt:
		r = b2u(ev(a[0]) < ev(a[1]))
	case OUle:
		r = b2u(ev(a[0]) <= ev(a[1]))
	case OSlt:
		r = b2u(sext(ev(a[0]), a[0].w) < sext(ev(a[1]), a[0].w))
	case OSle:
		r = b2u(sext(ev(a[0]), a[0].w) <= sext(ev(a[1]), a[0].w))
	case OZExt:
		r = ev(a[0])
	case OSExt:
		r = uint64(sext(ev(a[0]), a[0].w)) & mask(t.w)
	case OExtract:
		r = (ev(a[0]) >> (t.val & 0xff)) & mask(t.w)
	case OConcat:
		r = ev(a[0])<<a[1].w | ev(a[1])
	case OIte:
		if ev(a[0]) == 1 {
			r = ev(a[1])
		} else {
			r = ev(a[2])
		}
	case OTab:
		i := ev(a[0])
		if i < uint64(len(t.tab)) {
			r = t.tab[i]
		}
	case OUF:
		panic(evalUF{})
	default:
		if t.op >= OFEq && t.op <= OFToF {
			r = evalFp(t.op, t.w, a, ev)
		} else {
			v, ok := foldBin(t.op, ev(a[0]), ev(a[1]), t.w)
			if !ok {
				panic(fmt.Sprintf("eval op %d", t.op))
			}
			r = v
		}
	}
	t.ep, t.evv = ts.epoch, r
	return r
}

type evalUF struct{}

// truthSet returns, for a boolean term over one small variable, the set of
// variable values making it true.
func (ts *Terms) truthSet(t *Term) *[4]uint64 {
	if t.set != nil {
		return t.set
	}
	var s [4]uint64
	switch t.op {
	case ONot:
		x := ts.truthSet(t.args[0])
		for i := range s {
			s[i] = ^x[i]
		}
	case OAnd:
		s = [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
		for _, a := range t.args {
			x := ts.truthSet(a)
			for i := range s {
				s[i] &= x[i]
			}
		}
	case OOr:
		for _, a := range t.args {
			x := ts.truthSet(a)
			for i := range s {
				s[i] |= x[i]
			}
		}
	default:
		v := ts.vars[t.una]
		m := uint64(1)
		if v.w > 0 {
			m = mask(v.w)
		}
		for x := uint64(0); x <= m; x++ {
			ts.evIn(nil, x)
			if ts.ev(t) == 1 {
				s[x>>6] |= 1 << (x & 63)
			}
		}
	}
	t.set = &s
	return t.set
}

// ---- SMT-LIB printing -----------------------------------------------------

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.w)/4, t.val)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		return fmt.Sprintf("v%d", t.val)
	}
	return fmt.Sprintf("t%d", t.id)
}

func toFp(r string, w uint8) string {
	if w == 32 {
		return "((_ to_fp 8 24) " + r + ")"
	}
	return "((_ to_fp 11 53) " + r + ")"
}

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat", OIte: "ite",
	OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq", OFIsNaN: "fp.isNaN", OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div",
}

// body prints one level of the term.
func (t *Term) body() string {
	var sb strings.Builder
	a := t.args
	switch t.op {
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-a[0].w, a[0].ref())
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-a[0].w, a[0].ref())
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&0xff, a[0].ref())
	case OTab:
		// nested ite grouped by runs of equal values, default = most common
		cnt := map[uint64]int{}
		for _, v := range t.tab {
			cnt[v]++
		}
		var def uint64
		best := -1
		for i, v := range t.tab {
			_ = i
			if cnt[v] > best {
				best, def = cnt[v], v
			}
		}
		closing := 0
		c := func(v uint64, w uint8) string { return (&Term{op: OConst, w: w, val: v}).ref() }
		for i := 0; i < len(t.tab); {
			j := i
			for j < len(t.tab) && t.tab[j] == t.tab[i] {
				j++
			}
			if t.tab[i] != def {
				if j == i+1 {
					fmt.Fprintf(&sb, "(ite (= %s %s) %s ", a[0].ref(), c(uint64(i), a[0].w), c(t.tab[i], t.w))
				} else {
					fmt.Fprintf(&sb, "(ite (and (bvule %s %s) (bvule %s %s)) %s ", c(uint64(i), a[0].w), a[0].ref(), a[0].ref(), c(uint64(j-1), a[0].w), c(t.tab[i], t.w))
				}
				closing++
			}
			i = j
		}
		sb.WriteString(c(def, t.w))
		sb.WriteString(strings.Repeat(")", closing))
		return sb.String()
	case OFEq, OFLt, OFLe, OFIsNaN:
		sb.WriteString("(" + opNames[t.op])
		for _, x := range a {
			sb.WriteString(" " + toFp(x.ref(), x.w))
		}
		sb.WriteString(")")
		return sb.String()
	case OFAdd, OFSub, OFMul, OFDiv:
		return fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s %s))", opNames[t.op], toFp(a[0].ref(), a[0].w), toFp(a[1].ref(), a[1].w))
	case OFNeg:
		return fmt.Sprintf("(bvxor %s %s)", a[0].ref(), (&Term{op: OConst, w: t.w, val: uint64(1) << (t.w - 1)}).ref())
	case OFOfS, OFOfU:
		n := "to_fp"
		if t.op == OFOfU {
			n = "to_fp_unsigned"
		}
		if t.w == 32 {
			return fmt.Sprintf("(fp.to_ieee_bv ((_ %s 8 24) RNE %s))", n, a[0].ref())
		}
		return fmt.Sprintf("(fp.to_ieee_bv ((_ %s 11 53) RNE %s))", n, a[0].ref())
	case OFToF:
		if t.w == 32 {
			return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp 8 24) RNE %s))", toFp(a[0].ref(), a[0].w))
		}
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp 11 53) RNE %s))", toFp(a[0].ref(), a[0].w))
	case OFToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, toFp(a[0].ref(), a[0].w))
	case OFToU:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, toFp(a[0].ref(), a[0].w))
	case OUF:
		if len(a) == 0 {
			return "uf_" + t.ufName()
		}
		sb.WriteString("(uf_" + t.ufName())
		for _, x := range a {
			sb.WriteString(" " + x.ref())
		}
		sb.WriteString(")")
		return sb.String()
	}
	sb.WriteString("(" + opNames[t.op])
	for _, x := range a {
		sb.WriteString(" " + x.ref())
	}
	sb.WriteString(")")
	return sb.String()
}

func (t *Term) ufName() string {
	return fmt.Sprintf("%s_%d_%d", t.name, len(t.args), t.w)
}

// vars collects the variables of a term.
func (t *Term) collectVars(seen map[int32]bool, out *[]*Term) {
	if seen[t.id] || t.una == uNone && !t.hasUF {
		return
	}
	seen[t.id] = true
	if t.op == OVar {
		*out = append(*out, t)
		return
	}
	for _, a := range t.args {
		a.collectVars(seen, out)
	}
}
