package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"strings"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type mapEnt struct {
	k    V
	v    V
	dead V
}

type MapObj struct {
	t    *RType
	ents []*mapEnt
	idx  map[any]*mapEnt
	n    int
	nsym int
}

type iterState struct {
	pos   V
	ents  []*mapEnt // map iteration
	str   V
	isMap bool
}

func (m *M) keyOf(v V, t *RType) (any, bool) {
	switch t.k {
	case kString:
		s, ok := strOf(v)
		return s, ok
	case kBool, kInt:
		if v.x != nil {
			return nil, false
		}
		return v.n, true
	case kFloat:
		if v.x != nil {
			return nil, false
		}
		f := fbits(v.n, t.w)
		return f, f == f
	case kPtr, kUnsafe, kChan:
		switch p := v.x.(type) {
		case nil:
			return nil, true
		case *V:
			return p, true
		case *RType:
			return p, true
		}
		return nil, false
	case kIface:
		if v.x == nil {
			return "nil-interface\x00", true
		}
		i := v.x.(*IF)
		k, ok := m.keyOf(i.v, i.t)
		if !ok {
			if !types.Comparable(i.t.t) {
				m.throw("hash of unhashable type %s", i.t.t)
			}
			return nil, false
		}
		return ifKey{i.t, k}, true
	case kStruct, kArray:
		t.init()
		sv := v.x.(*SV)
		var sb strings.Builder
		for i, e := range sv.f {
			et := t.elem
			if t.k == kStruct {
				et = t.fields[i]
			}
			k, ok := m.keyOf(e, et)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v;", k, k)
		}
		return "S\x00" + sb.String(), true
	}
	m.throw("hash of unhashable type %s", t.t)
	return nil, false
}

type ifKey struct {
	t *RType
	k any
}

func (m *M) mapFind(mo *MapObj, k V) *mapEnt {
	if mo == nil {
		return nil
	}
	mo.t.init()
	kk, conc := m.keyOf(k, mo.t.key)
	if conc && mo.nsym == 0 {
		return mo.idx[kk]
	}
	if conc {
		if e := mo.idx[kk]; e != nil {
			return e
		}
	}
	for _, e := range mo.ents {
		if e.dead.n != 0 {
			continue
		}
		if conc {
			if _, ec := m.keyOf(e.k, mo.t.key); ec {
				continue
			}
		}
		eq := m.equal(k, e.k, mo.t.key)
		if eq.x == nil {
			if eq.n != 0 {
				return e
			}
			continue
		}
		if m.branch(eq.x.(*Term)) {
			return e
		}
	}
	return nil
}

func (m *M) mapSet(mv V, k, v V) {
	if mv.x == nil {
		m.throw("assignment to entry in nil map")
	}
	mo := mv.x.(*MapObj)
	m.checkMapFrozen(mo)
	if e := m.mapFind(mo, k); e != nil {
		m.trail = append(m.trail, trailEnt{p: &e.v, old: e.v, t: nil})
		e.v = v
		return
	}
	e := &mapEnt{k: k, v: v}
	mo.t.init()
	kk, conc := m.keyOf(k, mo.t.key)
	redo := func() {
		mo.ents = append(mo.ents, e)
		mo.n++
		if conc {
			mo.idx[kk] = e
		} else {
			mo.nsym++
		}
	}
	undo := func() {
		for i := len(mo.ents) - 1; i >= 0; i-- {
			if mo.ents[i] == e {
				mo.ents = append(mo.ents[:i:i], mo.ents[i+1:]...)
				break
			}
		}
		mo.n--
		if conc {
			delete(mo.idx, kk)
		} else {
			mo.nsym--
		}
	}
	redo()
	m.note(undo, redo)
}

func (m *M) mapDelete(mv V, k V) {
	if mv.x == nil {
		return
	}
	mo := mv.x.(*MapObj)
	m.checkMapFrozen(mo)
	e := m.mapFind(mo, k)
	if e == nil {
		return
	}
	kk, conc := m.keyOf(e.k, mo.t.key)
	old := append([]*mapEnt(nil), mo.ents...)
	redo := func() {
		ents := make([]*mapEnt, 0, len(mo.ents))
		for _, x := range mo.ents {
			if x != e {
				ents = append(ents, x)
			}
		}
		mo.ents = ents
		mo.n--
		e.dead = V{n: 1}
		if conc {
			delete(mo.idx, kk)
		} else {
			mo.nsym--
		}
	}
	undo := func() {
		mo.ents = append([]*mapEnt(nil), old...)
		mo.n++
		e.dead = V{}
		if conc {
			mo.idx[kk] = e
		} else {
			mo.nsym++
		}
	}
	redo()
	m.note(undo, redo)
}

func newMap(t *RType) *MapObj { return &MapObj{t: t, idx: map[any]*mapEnt{}} }

// equal builds a == b for values of type t as a boolean value.
func (m *M) equal(a, b V, t *RType) V {
	switch t.k {
	case kBool, kInt:
		if a.x == nil && b.x == nil {
			return bV(a.n == b.n)
		}
		w := t.w
		if t.k == kBool {
			w = 0
		}
		return tV(m.ts.Eq(m.term(a, w), m.term(b, w)))
	case kFloat:
		return tV(m.ts.Fp(OFEq, 0, m.term(a, t.w), m.term(b, t.w)))
	case kString:
		if s1, ok := strOf(a); ok {
			if s2, ok := strOf(b); ok {
				return bV(s1 == s2)
			}
		}
		n := strLen(a)
		if n != strLen(b) {
			return V{}
		}
		cs := make([]*Term, 0, n)
		for i := 0; i < n; i++ {
			e := m.ts.Eq(m.term(strByte(a, i), 8), m.term(strByte(b, i), 8))
			if e.op == OConst {
				if e.val == 0 {
					return V{}
				}
				continue
			}
			cs = append(cs, e)
		}
		return tV(m.ts.And(cs...))
	case kPtr, kUnsafe, kChan:
		return bV(ptrEq(a, b))
	case kSlice, kMap, kFunc:
		if a.x != nil && b.x != nil {
			m.throw("comparing uncomparable type %s", t.t)
		}
		return bV(a.x == nil && b.x == nil)
	case kIface:
		ai, aok := a.x.(*IF)
		bi, bok := b.x.(*IF)
		if !aok || !bok {
			return bV(!aok && !bok)
		}
		if ai.t != bi.t {
			return V{}
		}
		if ai.t.k == kSlice || ai.t.k == kMap || ai.t.k == kFunc || !types.Comparable(ai.t.t) {
			m.throw("comparing uncomparable type %s", ai.t.t)
		}
		return m.equal(ai.v, bi.v, ai.t)
	case kStruct, kArray:
		t.init()
		as, bs := a.x.(*SV), b.x.(*SV)
		var cs []*Term
		for i := range as.f {
			et := t.elem
			if t.k == kStruct {
				et = t.fields[i]
			}
			e := m.equal(as.f[i], bs.f[i], et)
			if e.x == nil {
				if e.n == 0 {
					return V{}
				}
				continue
			}
			cs = append(cs, e.x.(*Term))
		}
		return tV(m.ts.And(cs...))
	}
	m.unsupported("equal on %s", t.t)
	return V{}
}

func ptrEq(a, b V) bool {
	switch x := a.x.(type) {
	case *SymPtr, *DataPtr:
		return a.x == b.x
	default:
		return x == b.x && a.n == b.n
	}
}

func (m *M) strLess(a, b V) V {
	if s1, ok := strOf(a); ok {
		if s2, ok := strOf(b); ok {
			return bV(s1 < s2)
		}
	}
	la, lb := strLen(a), strLen(b)
	n := la
	if lb < n {
		n = lb
	}
	r := m.ts.Bool(la < lb)
	for i := n - 1; i >= 0; i-- {
		x, y := m.term(strByte(a, i), 8), m.term(strByte(b, i), 8)
		r = m.ts.Or(m.ts.Ult(x, y), m.ts.And(m.ts.Eq(x, y), r))
	}
	return tV(r)
}

func (m *M) concat(a, b V) V {
	if strLen(a) == 0 {
		if b.x == nil {
			return V{x: ""}
		}
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	if s1, ok := strOf(a); ok {
		if s2, ok := strOf(b); ok {
			return V{x: s1 + s2}
		}
	}
	ab, bb := strBytes(a), strBytes(b)
	out := make([]V, 0, len(ab)+len(bb))
	out = append(append(out, ab...), bb...)
	return V{x: &SS{out}}
}

func (m *M) not(v V) V {
	if v.x == nil {
		return bV(v.n == 0)
	}
	return tV(m.ts.Not(v.x.(*Term)))
}

var intOps = map[token.Token]Op{token.ADD: OAdd, token.SUB: OSub, token.MUL: OMul, token.AND: OBAnd, token.OR: OBOr, token.XOR: OBXor}

func (m *M) binop(op token.Token, a, b V, t, bt *RType) V {
	switch op {
	case token.EQL:
		return m.equal(a, b, t)
	case token.NEQ:
		return m.not(m.equal(a, b, t))
	}
	switch t.k {
	case kInt:
		return m.intBin(op, a, b, t, bt)
	case kFloat:
		x, y := m.term(a, t.w), m.term(b, t.w)
		switch op {
		case token.ADD:
			return tV(m.ts.Fp(OFAdd, t.w, x, y))
		case token.SUB:
			return tV(m.ts.Fp(OFSub, t.w, x, y))
		case token.MUL:
			return tV(m.ts.Fp(OFMul, t.w, x, y))
		case token.QUO:
			return tV(m.ts.Fp(OFDiv, t.w, x, y))
		case token.LSS:
			return tV(m.ts.Fp(OFLt, 0, x, y))
		case token.LEQ:
			return tV(m.ts.Fp(OFLe, 0, x, y))
		case token.GTR:
			return tV(m.ts.Fp(OFLt, 0, y, x))
		case token.GEQ:
			return tV(m.ts.Fp(OFLe, 0, y, x))
		}
	case kString:
		switch op {
		case token.ADD:
			return m.concat(a, b)
		case token.LSS:
			return m.strLess(a, b)
		case token.GTR:
			return m.strLess(b, a)
		case token.LEQ:
			return m.not(m.strLess(b, a))
		case token.GEQ:
			return m.not(m.strLess(a, b))
		}
	case kBool:
		x, y := m.term(a, 0), m.term(b, 0)
		switch op {
		case token.AND, token.LAND:
			return tV(m.ts.And(x, y))
		case token.OR, token.LOR:
			return tV(m.ts.Or(x, y))
		}
	}
	m.unsupported("binop %s on %s", op, t.t)
	return V{}
}

func (m *M) intBin(op token.Token, a, b V, t, bt *RType) V {
	w := t.w
	if op == token.SHL || op == token.SHR {
		return m.shift(op, a, b, t, bt)
	}
	if a.x == nil && b.x == nil {
		x, y := a.n, b.n
		mk := mask(w)
		switch op {
		case token.ADD:
			return V{n: (x + y) & mk}
		case token.SUB:
			return V{n: (x - y) & mk}
		case token.MUL:
			return V{n: (x * y) & mk}
		case token.AND:
			return V{n: x & y}
		case token.OR:
			return V{n: x | y}
		case token.XOR:
			return V{n: x ^ y}
		case token.AND_NOT:
			return V{n: x &^ y}
		case token.LSS:
			if t.signed {
				return bV(sext(x, w) < sext(y, w))
			}
			return bV(x < y)
		case token.LEQ:
			if t.signed {
				return bV(sext(x, w) <= sext(y, w))
			}
			return bV(x <= y)
		case token.GTR:
			if t.signed {
				return bV(sext(x, w) > sext(y, w))
			}
			return bV(x > y)
		case token.GEQ:
			if t.signed {
				return bV(sext(x, w) >= sext(y, w))
			}
			return bV(x >= y)
		case token.QUO, token.REM:
			if y == 0 {
				m.throw("integer divide by zero")
			}
			o := OUDiv
			switch {
			case op == token.QUO && t.signed:
				o = OSDiv
			case op == token.REM && t.signed:
				o = OSRem
			case op == token.REM:
				o = OURem
			}
			r, _ := foldBin(o, x, y, w)
			return V{n: r}
		}
	}
	x, y := m.term(a, w), m.term(b, w)
	if o, ok := intOps[op]; ok {
		return tV(m.ts.Bin(o, x, y))
	}
	switch op {
	case token.AND_NOT:
		return tV(m.ts.Bin(OBAnd, x, m.ts.Bin(OBXor, y, m.ts.Const(mask(w), w))))
	case token.LSS:
		if t.signed {
			return tV(m.ts.Slt(x, y))
		}
		return tV(m.ts.Ult(x, y))
	case token.LEQ:
		if t.signed {
			return tV(m.ts.Sle(x, y))
		}
		return tV(m.ts.Ule(x, y))
	case token.GTR:
		if t.signed {
			return tV(m.ts.Slt(y, x))
		}
		return tV(m.ts.Ult(y, x))
	case token.GEQ:
		if t.signed {
			return tV(m.ts.Sle(y, x))
		}
		return tV(m.ts.Ule(y, x))
	case token.QUO, token.REM:
		if !isC(y) || y.val == 0 {
			if m.branch(m.ts.Eq(y, m.ts.Const(0, w))) {
				m.throw("integer divide by zero")
			}
		}
		o := OUDiv
		switch {
		case op == token.QUO && t.signed:
			o = OSDiv
		case op == token.REM && t.signed:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		return tV(m.ts.Bin(o, x, y))
	}
	m.unsupported("int op %s", op)
	return V{}
}

func (m *M) shift(op token.Token, a, b V, t, bt *RType) V {
	w := t.w
	if b.x == nil {
		if bt.signed && sext(b.n, bt.w) < 0 {
			m.throw("negative shift amount")
		}
		c := b.n
		if a.x == nil {
			o := OShl
			if op == token.SHR {
				o = OLShr
				if t.signed {
					o = OAShr
				}
			}
			if c > 64 {
				c = 64
			}
			r, _ := foldBin(o, a.n, c, w)
			return V{n: r}
		}
		if c >= uint64(w) {
			if op == token.SHR && t.signed {
				c = uint64(w) - 1
			} else {
				return V{}
			}
		}
		o := OShl
		if op == token.SHR {
			o = OLShr
			if t.signed {
				o = OAShr
			}
		}
		return tV(m.ts.Bin(o, m.term(a, w), m.ts.Const(c, w)))
	}
	bt2 := b.x.(*Term)
	if bt.signed && !nonneg(bt2) {
		if m.branch(m.ts.Slt(bt2, m.ts.Const(0, bt2.w))) {
			m.throw("negative shift amount")
		}
	}
	var cnt *Term
	if bt2.w > w {
		big := m.ts.Ule(m.ts.Const(uint64(w), bt2.w), bt2)
		cnt = m.ts.Ite(big, m.ts.Const(uint64(w), w), m.ts.Extract(bt2, w-1, 0))
	} else {
		cnt = m.ts.ZExt(bt2, w)
	}
	o := OShl
	if op == token.SHR {
		o = OLShr
		if t.signed {
			o = OAShr
		}
	}
	return tV(m.ts.Bin(o, m.term(a, w), cnt))
}

func (m *M) convInt(v V, from, to *RType) V {
	if v.x == nil {
		n := v.n
		if from.signed {
			n = uint64(sext(n, from.w))
		}
		return V{n: n & mask(to.w)}
	}
	t := v.x.(*Term)
	return tV(m.convTerm(t, from.signed, to.w))
}

func (m *M) convTerm(t *Term, signed bool, w uint8) *Term {
	switch {
	case w < t.w:
		return m.ts.Extract(t, w-1, 0)
	case w > t.w && signed:
		return m.ts.SExt(t, w)
	case w > t.w:
		return m.ts.ZExt(t, w)
	}
	return t
}

func (m *M) floatToInt(v V, from, to *RType) V {
	if v.x == nil {
		f := fbits(v.n, from.w)
		var n uint64
		switch {
		case to.signed && to.w == 64:
			n = uint64(int64(f))
		case to.signed && to.w == 32:
			n = uint64(int32(f))
		case to.signed && to.w == 16:
			n = uint64(int16(f))
		case to.signed:
			n = uint64(int8(f))
		case to.w == 64:
			n = uint64(f)
		case to.w == 32:
			n = uint64(uint32(f))
		case to.w == 16:
			n = uint64(uint16(f))
		default:
			n = uint64(uint8(f))
		}
		return V{n: n & mask(to.w)}
	}
	t := v.x.(*Term)
	if from.w == 32 {
		t = m.ts.Fp(OFToF, 64, t)
	}
	lim := func(f float64) *Term { return m.ts.Const(math.Float64bits(f), 64) }
	if to.signed || to.w < 64 {
		in := m.ts.And(m.ts.Fp(OFLe, 0, lim(-9223372036854775808.0), t), m.ts.Fp(OFLt, 0, t, lim(9223372036854775808.0)))
		r := m.ts.Ite(in, m.ts.Fp(OFToS, 64, t), m.ts.Const(1<<63, 64))
		if to.w == 64 {
			return tV(r)
		}
		// in range of the narrow type: exact; outside the result is
		// implementation defined and not modelled
		lo, hi := -math.Ldexp(1, int(to.w)-1), math.Ldexp(1, int(to.w)-1)
		if !to.signed {
			lo, hi = -math.Ldexp(1, 31), math.Ldexp(1, 32)
		}
		if to.signed && to.w < 32 {
			lo, hi = -math.Ldexp(1, 31), math.Ldexp(1, 31)
		}
		ok := m.ts.And(m.ts.Fp(OFLe, 0, lim(lo), t), m.ts.Fp(OFLt, 0, t, lim(hi)))
		if !m.branch(ok) {
			m.unsupported("out-of-range float to int conversion")
		}
		return tV(m.ts.Extract(m.ts.Fp(OFToS, 64, t), to.w-1, 0))
	}
	ok := m.ts.And(m.ts.Fp(OFLt, 0, lim(-1), t), m.ts.Fp(OFLt, 0, t, lim(9223372036854775808.0)))
	if !m.branch(ok) {
		ok = m.ts.And(m.ts.Fp(OFLe, 0, lim(9223372036854775808.0), t), m.ts.Fp(OFLt, 0, t, lim(18446744073709551616.0)))
		if !m.branch(ok) {
			m.unsupported("out-of-range float to uint64 conversion")
		}
		return tV(m.ts.Fp(OFToU, 64, t))
	}
	return tV(m.ts.Fp(OFToS, 64, t))
}

func (m *M) convert(v V, from, to *RType) V {
	switch to.k {
	case kInt:
		switch from.k {
		case kInt:
			return m.convInt(v, from, to)
		case kFloat:
			return m.floatToInt(v, from, to)
		case kUnsafe:
			return V{x: nil, n: ptrNum(v)}
		}
	case kFloat:
		switch from.k {
		case kInt:
			t := m.term(v, from.w)
			if from.signed {
				return tV(m.ts.Fp(OFOfS, to.w, t))
			}
			return tV(m.ts.Fp(OFOfU, to.w, t))
		case kFloat:
			return tV(m.ts.Fp(OFToF, to.w, m.term(v, from.w)))
		}
	case kString:
		switch from.k {
		case kString:
			return v
		case kInt:
			if v.x == nil {
				r := sext(v.n, from.w)
				if !from.signed && (v.n > utf8.MaxRune) {
					r = utf8.RuneError
				}
				if r < 0 || r > utf8.MaxRune {
					r = utf8.RuneError
				}
				return V{x: string(rune(r))}
			}
			r := m.convInt(v, from, m.p.rt(types.Typ[types.Int32]))
			sl := m.callF(m.p.lookup("unicode/utf8", "AppendRune"), V{}, r)
			return mkBytesStr(sliceOf(sl))
		case kSlice:
			from.init()
			if from.elem.w == 8 {
				return mkBytesStr(sliceOf(v))
			}
			// []rune
			var out []V
			for _, r := range sliceOf(v) {
				out = append(out, strBytes(m.convert(r, from.elem, to))...)
			}
			return mkBytesStr(out)
		}
	case kSlice:
		if from.k == kString {
			to.init()
			if to.elem.w == 8 {
				b := strBytes(v)
				n := len(b)
				c := growCap(0, 0, n, 1, false)
				if n <= 32 && c < 32 {
					// small conversions may use a 32 byte stack buffer; the
					// capacity is unspecified
					c = n
				}
				a := make([]V, n, c)
				copy(a, b)
				return mkSlice(a)
			}
			var out []V
			pos := 0
			for pos < strLen(v) {
				r, sz := m.decodeRune(v, pos)
				out = append(out, r)
				pos += sz
			}
			if out == nil {
				out = []V{}
			}
			return mkSlice(out)
		}
		return v
	case kPtr, kUnsafe:
		if from.k == kInt {
			if v.x == nil && v.n == 0 {
				return V{}
			}
			m.unsupported("integer to pointer conversion")
		}
		return v
	case kArray:
		if from.k == kSlice {
			to.init()
			a := sliceOf(v)
			if len(a) < to.alen {
				m.throw("cannot convert slice with length %d to array", len(a))
			}
			return copyV(V{x: &SV{a[:to.alen]}})
		}
	}
	if from.k == to.k {
		return v
	}
	m.unsupported("convert %s to %s", from.t, to.t)
	return V{}
}

func ptrNum(v V) uint64 {
	if p, ok := v.x.(*V); ok {
		return uint64(uintptr(unsafe.Pointer(p)))
	}
	return 0
}

// decodeRune decodes one rune of s at pos.
func (m *M) decodeRune(s V, pos int) (V, int) {
	b := strByte(s, pos)
	if b.x == nil {
		if b.n < 0x80 {
			return V{n: b.n}, 1
		}
		// concrete sequence?
		n := strLen(s)
		end := pos + 4
		if end > n {
			end = n
		}
		if str, ok := strOf(subStr(s, pos, end)); ok {
			r, sz := utf8.DecodeRuneInString(str)
			return V{n: uint64(uint32(r))}, sz
		}
	} else {
		t := b.x.(*Term)
		if m.branch(m.ts.Ult(t, m.ts.Const(0x80, 8))) {
			return tV(m.ts.ZExt(t, 32)), 1
		}
	}
	n := strLen(s)
	end := pos + 4
	if end > n {
		end = n
	}
	r := m.callF(m.p.lookup("unicode/utf8", "DecodeRuneInString"), subStr(s, pos, end)).x.([]V)
	return r[0], m.concInt(r[1])
}

var growCache = map[[4]int]int{}

func growCap(oldLen, oldCap, add int, size int64, ptrs bool) int {
	need := oldLen + add
	if need <= oldCap {
		return oldCap
	}
	if size == 0 {
		return need
	}
	var et reflect.Type
	if ptrs || size%8 == 0 && size > 8 {
		et = reflect.TypeOf(unsafe.Pointer(nil))
		if size > 8 {
			et = reflect.ArrayOf(int(size/8), et)
		}
	} else {
		et = reflect.ArrayOf(int(size), reflect.TypeOf(byte(0)))
	}
	st := reflect.SliceOf(et)
	s := reflect.MakeSlice(st, oldLen, oldCap)
	return reflect.AppendSlice(s, reflect.MakeSlice(st, add, add)).Cap()
}

func (m *M) doAppend(dst V, add []V, elem *RType) V {
	a := sliceOf(dst)
	if len(add) == 0 {
		return dst
	}
	n := len(a) + len(add)
	if n <= cap(a) {
		r := a[:n]
		for i, v := range add {
			m.storeElem(&r[len(a)+i], v, elem)
		}
		return mkSlice(r)
	}
	elem.init()
	c := growCap(len(a), cap(a), len(add), elem.size, hasPointers(elem, 0))
	r := make([]V, n, c)
	for i := range a {
		r[i] = copyV(a[i])
	}
	for i, v := range add {
		r[len(a)+i] = copyV(v)
	}
	if elem.k == kStruct || elem.k == kArray {
		full := r[:c]
		for i := n; i < c; i++ {
			full[i] = zeroV(elem)
		}
	}
	return mkSlice(r)
}

// storeElem writes into an existing cell that may be an unused (zero) slot.
func (m *M) storeElem(p *V, v V, t *RType) {
	if (t.k == kStruct || t.k == kArray) && p.x == nil {
		m.set(p, zeroV(t))
	}
	m.store(p, v, t)
}

func hasPointers(t *RType, d int) bool {
	switch t.k {
	case kBool, kInt, kFloat, kComplex:
		return false
	case kStruct:
		t.init()
		for _, f := range t.fields {
			if hasPointers(f, d+1) {
				return true
			}
		}
		return false
	case kArray:
		t.init()
		return t.alen > 0 && hasPointers(t.elem, d+1)
	}
	return true
}

func (m *M) load(p V, t *RType) V {
	switch x := p.x.(type) {
	case *V:
		v := *x
		if v.x == nil {
			return v
		}
		switch t.k {
		case kStruct, kArray:
			return copyV(v)
		case kString:
			if sl, ok := v.x.(*SL); ok {
				return mkBytesStr(sl.a)
			}
		}
		return v
	case nil:
		m.throw("invalid memory address or nil pointer dereference")
	case *SymPtr:
		return m.selectElem(x.a, x.idx, t)
	case *DataPtr:
		if len(x.a) > 0 {
			return x.a[0]
		}
	}
	m.unsupported("load through %T", p.x)
	return V{}
}

// selectElem builds a[idx] for scalar elements, idx known to be in range.
func (m *M) selectElem(a []V, idx *Term, t *RType) V {
	w := t.w
	if t.k == kBool {
		w = 0
	}
	allc := true
	for i := range a {
		if a[i].x != nil {
			allc = false
			break
		}
	}
	ix := idx
	if ix.w > 16 {
		ix = m.ts.Extract(ix, 15, 0)
	}
	if allc && len(a) <= 65536 {
		tab := make([]uint64, len(a))
		for i := range a {
			tab[i] = a[i].n
		}
		return tV(m.ts.Tab(ix, tab, w))
	}
	r := m.term(a[len(a)-1], w)
	for i := len(a) - 2; i >= 0; i-- {
		r = m.ts.Ite(m.ts.Eq(ix, m.ts.Const(uint64(i), ix.w)), m.term(a[i], w), r)
	}
	return tV(r)
}

// index checks bounds and returns a concrete or symbolic in-range index.
func (m *M) index(i V, it *RType, n int) (int, *Term) {
	if i.x == nil {
		k := sext(i.n, it.w)
		if !it.signed {
			k = int64(i.n)
		}
		if k < 0 || k >= int64(n) {
			m.throw("index out of range [%d] with length %d", k, n)
		}
		return int(k), nil
	}
	t := i.x.(*Term)
	if n == 0 {
		m.throw("index out of range with length 0")
	}
	var in *Term
	if uint64(n-1) >= mask(t.w) {
		in = m.ts.T
	} else {
		in = m.ts.Ult(t, m.ts.Const(uint64(n), t.w))
	}
	if !m.branch(in) {
		m.throw("index out of range with length %d", n)
	}
	if n == 1 {
		return 0, nil
	}
	return 0, t
}

func scalarK(t *RType) bool { return t.k == kBool || t.k == kInt || t.k == kFloat }

func (m *M) ptrCell(p V) *V {
	switch x := p.x.(type) {
	case *V:
		return x
	case nil:
		m.throw("invalid memory address or nil pointer dereference")
	case *SymPtr:
		k := m.concretize(x.idx)
		return &x.a[k]
	}
	m.unsupported("pointer %T", p.x)
	return nil
}

func (m *M) storeP(p V, v V, t *RType) {
	switch x := p.x.(type) {
	case *V:
		m.store(x, v, t)
		return
	case nil:
		m.throw("invalid memory address or nil pointer dereference")
	case *SymPtr:
		if scalarK(t) {
			w := t.w
			if t.k == kBool {
				w = 0
			}
			for i := range x.a {
				c := m.ts.Eq(x.idx, m.ts.Const(uint64(i), x.idx.w))
				m.store(&x.a[i], m.iteB(c, v, x.a[i], w), t)
			}
			return
		}
	}
	m.unsupported("store through %T", p.x)
}

func (fn *Fn) dst(v ssa.Value) int32 { return fn.slots[v] }

func (fn *Fn) compileInstr(p *Prog, in ssa.Instruction) instr {
	switch x := in.(type) {
	case *ssa.Alloc:
		d := fn.dst(x)
		t := p.rt(x.Type().Underlying().(*types.Pointer).Elem())
		if x.Heap && zeroSized(t) {
			// the allocator returns one address for all of them
			return func(m *M, fr *frame) {
				c := m.zeroCells[t]
				if c == nil {
					c = new(V)
					*c = zeroV(t)
					if m.zeroCells == nil {
						m.zeroCells = map[*RType]*V{}
					}
					m.zeroCells[t] = c
				}
				fr.r[d] = V{x: c}
			}
		}
		return func(m *M, fr *frame) {
			c := new(V)
			*c = zeroV(t)
			fr.r[d] = V{x: c}
		}
	case *ssa.BinOp:
		d := fn.dst(x)
		a, b := fn.operand(p, x.X), fn.operand(p, x.Y)
		t, bt := p.rt(x.X.Type()), p.rt(x.Y.Type())
		op := x.Op
		if t.k == kUnsafe && bt.k != kUnsafe {
			t = bt // nil constant on the left
		}
		if t.k == kIface && bt.k != kIface && (op == token.EQL || op == token.NEQ) {
			return func(m *M, fr *frame) {
				r := V{x: &IF{bt, b.get(m, fr)}}
				fr.r[d] = m.binop(op, a.get(m, fr), r, t, bt)
			}
		}
		if bt.k == kIface && t.k != kIface && (op == token.EQL || op == token.NEQ) {
			return func(m *M, fr *frame) {
				l := V{x: &IF{t, a.get(m, fr)}}
				fr.r[d] = m.binop(op, l, b.get(m, fr), bt, bt)
			}
		}
		if t.k == kInt && t.signed == false && op == token.LSS {
			return func(m *M, fr *frame) {
				l, r := a.get(m, fr), b.get(m, fr)
				if l.x == nil && r.x == nil {
					fr.r[d] = bV(l.n < r.n)
					return
				}
				fr.r[d] = m.binop(op, l, r, t, bt)
			}
		}
		return func(m *M, fr *frame) {
			fr.r[d] = m.binop(op, a.get(m, fr), b.get(m, fr), t, bt)
		}
	case *ssa.UnOp:
		d := fn.dst(x)
		a := fn.operand(p, x.X)
		t := p.rt(x.Type())
		switch x.Op {
		case token.MUL:
			return func(m *M, fr *frame) {
				fr.r[d] = m.load(a.get(m, fr), t)
			}
		case token.NOT:
			return func(m *M, fr *frame) {
				fr.r[d] = m.not(a.get(m, fr))
			}
		case token.SUB:
			return func(m *M, fr *frame) {
				v := a.get(m, fr)
				if t.k == kFloat {
					fr.r[d] = tV(m.ts.Fp(OFNeg, t.w, m.term(v, t.w)))
					return
				}
				if v.x == nil {
					fr.r[d] = V{n: -v.n & mask(t.w)}
					return
				}
				fr.r[d] = tV(m.ts.Bin(OSub, m.ts.Const(0, t.w), v.x.(*Term)))
			}
		case token.XOR:
			return func(m *M, fr *frame) {
				v := a.get(m, fr)
				if v.x == nil {
					fr.r[d] = V{n: ^v.n & mask(t.w)}
					return
				}
				fr.r[d] = tV(m.ts.Bin(OBXor, v.x.(*Term), m.ts.Const(mask(t.w), t.w)))
			}
		}
		return func(m *M, fr *frame) { m.unsupported("unop %s", x.Op) }
	case *ssa.Call:
		return fn.compileCall(p, &x.Call, fn.dst(x))
	case *ssa.ChangeInterface, *ssa.ChangeType:
		v := in.(ssa.Value)
		d := fn.dst(v)
		var src ssa.Value
		if c, ok := in.(*ssa.ChangeInterface); ok {
			src = c.X
		} else {
			src = in.(*ssa.ChangeType).X
		}
		a := fn.operand(p, src)
		return func(m *M, fr *frame) { fr.r[d] = a.get(m, fr) }
	case *ssa.Convert, *ssa.MultiConvert:
		v := in.(ssa.Value)
		d := fn.dst(v)
		var src ssa.Value
		if c, ok := in.(*ssa.Convert); ok {
			src = c.X
		} else {
			src = in.(*ssa.MultiConvert).X
		}
		a := fn.operand(p, src)
		from, to := p.rt(src.Type()), p.rt(v.Type())
		return func(m *M, fr *frame) { fr.r[d] = m.convert(a.get(m, fr), from, to) }
	case *ssa.Extract:
		d := fn.dst(x)
		a := fn.operand(p, x.Tuple)
		i := x.Index
		return func(m *M, fr *frame) { fr.r[d] = a.get(m, fr).x.([]V)[i] }
	case *ssa.Field:
		d := fn.dst(x)
		a := fn.operand(p, x.X)
		i := x.Field
		return func(m *M, fr *frame) { fr.r[d] = a.get(m, fr).x.(*SV).f[i] }
	case *ssa.FieldAddr:
		d := fn.dst(x)
		a := fn.operand(p, x.X)
		i := x.Field
		return func(m *M, fr *frame) {
			v := a.get(m, fr)
			c, ok := v.x.(*V)
			if !ok {
				c = m.ptrCell(v)
			}
			sv, ok := c.x.(*SV)
			if !ok {
				m.unsupported("field address in %T", c.x)
			}
			fr.r[d] = V{x: &sv.f[i]}
		}
	case *ssa.Index:
		d := fn.dst(x)
		a, b := fn.operand(p, x.X), fn.operand(p, x.Index)
		t, it := p.rt(x.X.Type()), p.rt(x.Index.Type())
		et := p.rt(x.Type())
		return func(m *M, fr *frame) {
			v, i := a.get(m, fr), b.get(m, fr)
			if t.k == kString {
				fr.r[d] = m.strIndex(v, i, it)
				return
			}
			sv := v.x.(*SV)
			k, st := m.index(i, it, len(sv.f))
			if st == nil {
				fr.r[d] = sv.f[k]
			} else if scalarK(et) {
				fr.r[d] = m.selectElem(sv.f, st, et)
			} else {
				fr.r[d] = sv.f[m.concretize(st)]
			}
		}
	case *ssa.IndexAddr:
		d := fn.dst(x)
		a, b := fn.operand(p, x.X), fn.operand(p, x.Index)
		it := p.rt(x.Index.Type())
		et := p.rt(x.Type().Underlying().(*types.Pointer).Elem())
		isSlice := p.rt(x.X.Type()).k == kSlice
		return func(m *M, fr *frame) {
			v, i := a.get(m, fr), b.get(m, fr)
			var el []V
			if isSlice {
				el = sliceOf(v)
			} else {
				el = m.ptrCell(v).x.(*SV).f
			}
			k, st := m.index(i, it, len(el))
			if st == nil {
				fr.r[d] = V{x: &el[k]}
			} else if scalarK(et) {
				fr.r[d] = V{x: &SymPtr{el, st}}
			} else {
				fr.r[d] = V{x: &el[m.concretize(st)]}
			}
		}
	case *ssa.Lookup:
		d := fn.dst(x)
		a, b := fn.operand(p, x.X), fn.operand(p, x.Index)
		t, it := p.rt(x.X.Type()), p.rt(x.Index.Type())
		ok2 := x.CommaOk
		return func(m *M, fr *frame) {
			v, k := a.get(m, fr), b.get(m, fr)
			if t.k == kString {
				fr.r[d] = m.strIndex(v, k, it)
				return
			}
			t.init()
			var e *mapEnt
			if v.x != nil {
				e = m.mapFind(v.x.(*MapObj), k)
			}
			var r V
			if e != nil {
				r = copyV(e.v)
			} else {
				r = zeroV(t.elem)
			}
			if ok2 {
				fr.r[d] = V{x: []V{r, bV(e != nil)}}
			} else {
				fr.r[d] = r
			}
		}
	case *ssa.MakeClosure:
		d := fn.dst(x)
		f := x.Fn.(*ssa.Function)
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, fn.operand(p, b))
		}
		return func(m *M, fr *frame) {
			env := make([]V, len(bs))
			for i := range bs {
				env[i] = bs[i].get(m, fr)
			}
			fr.r[d] = V{x: &Closure{fn: f, env: env}}
		}
	case *ssa.MakeInterface:
		d := fn.dst(x)
		a := fn.operand(p, x.X)
		t := p.rt(x.X.Type())
		return func(m *M, fr *frame) {
			fr.r[d] = V{x: &IF{t, a.get(m, fr)}}
		}
	case *ssa.MakeMap:
		d := fn.dst(x)
		t := p.rt(x.Type())
		return func(m *M, fr *frame) { fr.r[d] = V{x: newMap(t)} }
	case *ssa.MakeSlice:
		d := fn.dst(x)
		l, c := fn.operand(p, x.Len), fn.operand(p, x.Cap)
		t := p.rt(x.Type())
		lt, ct := p.rt(x.Len.Type()), p.rt(x.Cap.Type())
		return func(m *M, fr *frame) {
			n := m.concLen(l.get(m, fr), lt)
			k := m.concLen(c.get(m, fr), ct)
			if n < 0 || n > 1<<28 {
				m.throw("makeslice: len out of range")
			}
			if k < n || k > 1<<28 {
				m.throw("makeslice: cap out of range")
			}
			if k > 1<<22 {
				m.unsupported("makeslice of %d", k)
			}
			t.init()
			a := make([]V, k)
			if t.elem.k == kStruct || t.elem.k == kArray {
				for i := range a {
					a[i] = zeroV(t.elem)
				}
			}
			fr.r[d] = mkSlice(a[:n])
		}
	case *ssa.MapUpdate:
		a, b, c := fn.operand(p, x.Map), fn.operand(p, x.Key), fn.operand(p, x.Value)
		return func(m *M, fr *frame) { m.mapSet(a.get(m, fr), b.get(m, fr), c.get(m, fr)) }
	case *ssa.Range:
		d := fn.dst(x)
		a := fn.operand(p, x.X)
		isMap := p.rt(x.X.Type()).k == kMap
		repo := fn
		return func(m *M, fr *frame) {
			v := a.get(m, fr)
			it := &iterState{isMap: isMap}
			if isMap {
				if v.x != nil {
					mo := v.x.(*MapObj)
					it.ents = append([]*mapEnt(nil), mo.ents...)
					if m.mapOrder && repo.inRepo && len(it.ents) > 1 && !m.inInit {
						m.permute(it.ents)
					}
				}
			} else {
				it.str = v
			}
			fr.r[d] = V{x: it}
		}
	case *ssa.Next:
		d := fn.dst(x)
		a := fn.operand(p, x.Iter)
		tup := x.Type().(*types.Tuple)
		kt, vt := p.rt(tup.At(1).Type()), p.rt(tup.At(2).Type())
		return func(m *M, fr *frame) {
			it := a.get(m, fr).x.(*iterState)
			if it.isMap {
				for int(it.pos.n) < len(it.ents) {
					e := it.ents[it.pos.n]
					m.setRaw(&it.pos, V{n: it.pos.n + 1}, p.tInt)
					if e.dead.n != 0 {
						continue
					}
					fr.r[d] = V{x: []V{{n: 1}, e.k, copyV(e.v)}}
					return
				}
				fr.r[d] = V{x: []V{{}, zeroOr(kt), zeroOr(vt)}}
				return
			}
			pos := int(it.pos.n)
			if pos >= strLen(it.str) {
				fr.r[d] = V{x: []V{{}, {}, {}}}
				return
			}
			r, sz := m.decodeRune(it.str, pos)
			m.setRaw(&it.pos, V{n: uint64(pos + sz)}, p.tInt)
			fr.r[d] = V{x: []V{{n: 1}, {n: uint64(pos)}, r}}
		}
	case *ssa.RunDefers:
		return func(m *M, fr *frame) { m.runDefers(fr) }
	case *ssa.Slice:
		d := fn.dst(x)
		a := fn.operand(p, x.X)
		t := p.rt(x.X.Type())
		var lo, hi, mx *opnd
		var lt, ht, mt *RType
		if x.Low != nil {
			o := fn.operand(p, x.Low)
			lo, lt = &o, p.rt(x.Low.Type())
		}
		if x.High != nil {
			o := fn.operand(p, x.High)
			hi, ht = &o, p.rt(x.High.Type())
		}
		if x.Max != nil {
			o := fn.operand(p, x.Max)
			mx, mt = &o, p.rt(x.Max.Type())
		}
		return func(m *M, fr *frame) {
			v := a.get(m, fr)
			l, h, c := 0, -1, -1
			if lo != nil {
				l = m.concLen(lo.get(m, fr), lt)
			}
			if hi != nil {
				h = m.concLen(hi.get(m, fr), ht)
			}
			if mx != nil {
				c = m.concLen(mx.get(m, fr), mt)
			}
			if t.k == kString {
				n := strLen(v)
				if hi == nil {
					h = n
				}
				if h < 0 || h > n || l < 0 || l > h {
					m.throw("slice bounds out of range [%d:%d] with length %d", l, h, n)
				}
				fr.r[d] = subStr(v, l, h)
				return
			}
			var el []V
			wasNil := false
			if t.k == kSlice {
				wasNil = v.x == nil
				el = sliceOf(v)
			} else {
				el = m.ptrCell(v).x.(*SV).f
			}
			if hi == nil {
				h = len(el)
			}
			if mx == nil {
				c = cap(el)
			}
			if h < 0 || h > cap(el) || l < 0 || l > h || c < h || c > cap(el) {
				m.throw("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, c, cap(el))
			}
			if wasNil {
				fr.r[d] = V{}
				return
			}
			fr.r[d] = mkSlice(el[l:h:c])
		}
	case *ssa.SliceToArrayPointer:
		d := fn.dst(x)
		a := fn.operand(p, x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(m *M, fr *frame) {
			v := a.get(m, fr)
			el := sliceOf(v)
			if len(el) < n {
				m.throw("cannot convert slice with length %d to array or pointer to array with length %d", len(el), n)
			}
			if v.x == nil {
				fr.r[d] = V{}
				return
			}
			c := new(V)
			*c = V{x: &SV{el[:n:n]}}
			fr.r[d] = V{x: c}
		}
	case *ssa.Store:
		a, b := fn.operand(p, x.Addr), fn.operand(p, x.Val)
		t := p.rt(x.Val.Type())
		if zeroSized(t) {
			return func(m *M, fr *frame) {
				if c, ok := a.get(m, fr).x.(*V); !ok || c != m.zeroCells[t] {
					m.storeP(a.get(m, fr), b.get(m, fr), t)
				}
			}
		}
		return func(m *M, fr *frame) { m.storeP(a.get(m, fr), b.get(m, fr), t) }
	case *ssa.TypeAssert:
		d := fn.dst(x)
		a := fn.operand(p, x.X)
		t := p.rt(x.AssertedType)
		ok2 := x.CommaOk
		return func(m *M, fr *frame) {
			v := a.get(m, fr)
			i, _ := v.x.(*IF)
			ok := false
			var r V
			if t.k == kIface {
				if i != nil && m.implements(i.t, t) {
					ok, r = true, v
				}
			} else if i != nil && i.t == t {
				ok, r = true, i.v
			}
			if ok2 {
				if !ok {
					r = zeroV(t)
				}
				fr.r[d] = V{x: []V{r, bV(ok)}}
				return
			}
			if !ok {
				if i == nil {
					m.throw("interface conversion: interface is nil, not %s", t.t)
				}
				m.throw("interface conversion: interface is %s, not %s", i.t.t, t.t)
			}
			fr.r[d] = r
		}
	case *ssa.Defer:
		return fn.compileDefer(p, x)
	case *ssa.Go:
		return func(m *M, fr *frame) { m.unsupported("go statement in %s", fn.name) }
	case *ssa.MakeChan:
		d := fn.dst(x)
		return func(m *M, fr *frame) {
			if m.inInit {
				c := new(V)
				fr.r[d] = V{x: c}
				return
			}
			m.unsupported("make chan")
		}
	case *ssa.Select, *ssa.Send:
		return func(m *M, fr *frame) { m.unsupported("channel operation") }
	}
	s := fmt.Sprintf("%T", in)
	return func(m *M, fr *frame) { m.unsupported("instruction %s", s) }
}

func zeroOr(t *RType) V {
	if t.k == kInvalid {
		return V{}
	}
	return zeroV(t)
}

func (m *M) setRaw(p *V, v V, t *RType) {
	m.trail = append(m.trail, trailEnt{p: p, old: *p, t: t})
	*p = v
}

func (m *M) permute(e []*mapEnt) {
	if len(e) > 6 { // as stored, reversed, or started in the middle
		o := append([]*mapEnt(nil), e...)
		switch m.choose(3) {
		case 1:
			for i := range e {
				e[i] = o[len(o)-1-i]
			}
		case 2:
			for i := range e {
				e[i] = o[(i+len(o)/2)%len(o)]
			}
		}
		return
	}
	for i := 0; i < len(e)-1; i++ {
		k := m.choose(len(e) - i)
		e[i], e[i+k] = e[i+k], e[i]
	}
}

func (m *M) concLen(v V, t *RType) int {
	if v.x == nil {
		if t.signed {
			return int(sext(v.n, t.w))
		}
		return int(v.n)
	}
	n := m.concretize(v.x.(*Term))
	if t.signed {
		return int(sext(n, t.w))
	}
	return int(n)
}

func (m *M) strIndex(v, i V, it *RType) V {
	n := strLen(v)
	k, st := m.index(i, it, n)
	if st == nil {
		return strByte(v, k)
	}
	if s, ok := v.x.(string); ok {
		tab := make([]uint64, len(s))
		for j := range tab {
			tab[j] = uint64(s[j])
		}
		ix := st
		if ix.w > 16 {
			ix = m.ts.Extract(ix, 15, 0)
		}
		return tV(m.ts.Tab(ix, tab, 8))
	}
	return m.selectElem(strBytes(v), st, m.p.tByte)
}

func (m *M) implements(t, iface *RType) bool {
	if r, ok := t.impl.Load(iface); ok {
		return r.(bool)
	}
	r := types.Implements(t.t, iface.u.(*types.Interface))
	t.impl.Store(iface, r)
	return r
}

func (p *Prog) method(t *RType, f *types.Func) *ssa.Function {
	id := f.Id()
	if r, ok := t.mcache.Load(id); ok {
		if r == nil {
			return nil
		}
		return r.(*ssa.Function)
	}
	p.mu.Lock()
	sel := p.prog.MethodSets.MethodSet(t.t).Lookup(f.Pkg(), f.Name())
	p.mu.Unlock()
	if sel == nil {
		return nil
	}
	r := p.prog.MethodValue(sel)
	t.mcache.Store(id, r)
	return r
}

func (m *M) invoke(recv V, f *types.Func, args []V) V {
	i, ok := recv.x.(*IF)
	if !ok || i == nil {
		m.throw("invalid memory address or nil pointer dereference")
	}
	fn := m.p.method(i.t, f)
	if fn == nil {
		m.unsupported("method %s on %s", f, i.t.t)
	}
	full := make([]V, 0, len(args)+1)
	full = append(append(full, i.v), args...)
	return m.call(m.p.fn(fn), full, nil)
}

func (fn *Fn) compileCall(p *Prog, c *ssa.CallCommon, d int32) instr {
	args := make([]opnd, len(c.Args))
	for i, a := range c.Args {
		args[i] = fn.operand(p, a)
	}
	if c.IsInvoke() {
		recv := fn.operand(p, c.Value)
		f := c.Method
		return func(m *M, fr *frame) {
			i, ok := recv.get(m, fr).x.(*IF)
			if !ok || i == nil {
				m.throw("invalid memory address or nil pointer dereference")
			}
			cf := m.p.method(i.t, f)
			if cf == nil {
				m.unsupported("method %s on %s", f, i.t.t)
			}
			full := make([]V, len(args)+1)
			full[0] = i.v
			for k := range args {
				full[k+1] = args[k].get(m, fr)
			}
			r := m.call(m.p.fn(cf), full, nil)
			fr.r[d] = r
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		bi := compileBuiltin(p, b, c)
		return func(m *M, fr *frame) {
			var tmp [4]V
			av := tmp[:0]
			for k := range args {
				av = append(av, args[k].get(m, fr))
			}
			r := bi(m, av)
			fr.r[d] = r
		}
	}
	if f := c.StaticCallee(); f != nil {
		if _, isClosure := c.Value.(*ssa.MakeClosure); !isClosure {
			cf := p.fn(f)
			return func(m *M, fr *frame) {
				av := make([]V, len(args))
				for k := range args {
					av[k] = args[k].get(m, fr)
				}
				r := m.call(cf, av, nil)
				fr.r[d] = r
			}
		}
	}
	fv := fn.operand(p, c.Value)
	return func(m *M, fr *frame) {
		f := fv.get(m, fr)
		av := make([]V, len(args))
		for k := range args {
			av[k] = args[k].get(m, fr)
		}
		r := m.callV(f, av)
		fr.r[d] = r
	}
}

func (fn *Fn) compileDefer(p *Prog, x *ssa.Defer) instr {
	c := &x.Call
	args := make([]opnd, len(c.Args))
	for i, a := range c.Args {
		args[i] = fn.operand(p, a)
	}
	get := func(m *M, fr *frame) []V {
		av := make([]V, len(args))
		for k := range args {
			av[k] = args[k].get(m, fr)
		}
		return av
	}
	if c.IsInvoke() {
		recv := fn.operand(p, c.Value)
		f := c.Method
		return func(m *M, fr *frame) {
			fr.defers = append(fr.defers, &deferred{recv: recv.get(m, fr), inv: f, args: get(m, fr)})
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		bi := compileBuiltin(p, b, c)
		return func(m *M, fr *frame) {
			fr.defers = append(fr.defers, &deferred{bi: bi, args: get(m, fr)})
		}
	}
	fv := fn.operand(p, c.Value)
	return func(m *M, fr *frame) {
		fr.defers = append(fr.defers, &deferred{fn: fv.get(m, fr), args: get(m, fr)})
	}
}

func compileBuiltin(p *Prog, b *ssa.Builtin, c *ssa.CallCommon) func(m *M, a []V) V {
	var at []*RType
	for _, x := range c.Args {
		at = append(at, p.rt(x.Type()))
	}
	switch b.Name() {
	case "append":
		st := at[0]
		if st.k != kSlice {
			st = p.rt(c.Signature().Results().At(0).Type())
		}
		return func(m *M, a []V) V {
			st.init()
			if len(a) == 1 {
				return a[0]
			}
			if at[1].k == kString {
				return m.doAppend(a[0], strBytes(a[1]), st.elem)
			}
			return m.doAppend(a[0], sliceOf(a[1]), st.elem)
		}
	case "len":
		return func(m *M, a []V) V {
			switch at[0].k {
			case kString:
				return V{n: uint64(strLen(a[0]))}
			case kSlice:
				return V{n: uint64(len(sliceOf(a[0])))}
			case kMap:
				if a[0].x == nil {
					return V{}
				}
				return V{n: uint64(a[0].x.(*MapObj).n)}
			case kArray:
				return V{n: uint64(at[0].alen)}
			case kPtr:
				return V{n: uint64(at[0].init().elem.alen)}
			}
			m.unsupported("len")
			return V{}
		}
	case "cap":
		return func(m *M, a []V) V {
			switch at[0].k {
			case kSlice:
				return V{n: uint64(cap(sliceOf(a[0])))}
			case kArray:
				return V{n: uint64(at[0].alen)}
			case kPtr:
				return V{n: uint64(at[0].init().elem.alen)}
			}
			m.unsupported("cap")
			return V{}
		}
	case "copy":
		return func(m *M, a []V) V {
			dst := sliceOf(a[0])
			var src []V
			if at[1].k == kString {
				src = strBytes(a[1])
			} else {
				src = sliceOf(a[1])
			}
			n := len(dst)
			if len(src) < n {
				n = len(src)
			}
			tmp := make([]V, n)
			for i := range tmp {
				tmp[i] = copyV(src[i])
			}
			et := at[0].init().elem
			for i := range tmp {
				m.store(&dst[i], tmp[i], et)
			}
			return V{n: uint64(n)}
		}
	case "delete":
		return func(m *M, a []V) V { m.mapDelete(a[0], a[1]); return V{} }
	case "clear":
		return func(m *M, a []V) V {
			if at[0].k == kSlice {
				et := at[0].init().elem
				s := sliceOf(a[0])
				for i := range s {
					m.store(&s[i], zeroV(et), et)
				}
				return V{}
			}
			if a[0].x != nil {
				mo := a[0].x.(*MapObj)
				for _, e := range append([]*mapEnt(nil), mo.ents...) {
					m.mapDelete(a[0], e.k)
				}
			}
			return V{}
		}
	case "panic":
		return func(m *M, a []V) V { panic(&tPanic{v: a[0], msg: m.panicMsg(a[0])}) }
	case "recover":
		return func(m *M, a []V) V {
			fr := m.panFrame
			if fr == nil || fr.pan == nil || fr.recovered {
				return V{}
			}
			fr.recovered = true
			return fr.pan.v
		}
	case "print", "println":
		return func(m *M, a []V) V { return V{} }
	case "min", "max":
		op := token.LSS
		if b.Name() == "max" {
			op = token.GTR
		}
		return func(m *M, a []V) V {
			r := a[0]
			for _, v := range a[1:] {
				c := m.binop(op, v, r, at[0], at[0])
				if c.x == nil {
					if c.n != 0 {
						r = v
					}
					continue
				}
				if scalarK(at[0]) {
					r = m.iteB(c.x.(*Term), v, r, at[0].w)
				} else if m.branch(c.x.(*Term)) {
					r = v
				}
			}
			return r
		}
	case "ssa:wrapnilchk":
		return func(m *M, a []V) V {
			if a[0].x == nil {
				m.throw("value method called using nil pointer")
			}
			return a[0]
		}
	case "ssa:deferstack":
		return func(m *M, a []V) V { return V{} }
	case "SliceData":
		return func(m *M, a []V) V {
			if a[0].x == nil {
				return V{}
			}
			return V{x: &DataPtr{a: sliceOf(a[0])}}
		}
	case "StringData":
		return func(m *M, a []V) V { return V{x: &DataPtr{s: a[0]}} }
	case "String":
		return func(m *M, a []V) V {
			n := m.concInt(a[1])
			if n == 0 {
				return mkStr("")
			}
			switch d := a[0].x.(type) {
			case *DataPtr:
				if d.a != nil {
					return mkBytesStr(d.a[:n])
				}
				return subStr(d.s, 0, n)
			}
			m.unsupported("unsafe.String of %T", a[0].x)
			return V{}
		}
	case "Slice":
		return func(m *M, a []V) V {
			n := m.concInt(a[1])
			switch d := a[0].x.(type) {
			case *DataPtr:
				if d.a != nil {
					return mkSlice(d.a[:n:n])
				}
				return mkSlice(strBytes(subStr(d.s, 0, n)))
			}
			m.unsupported("unsafe.Slice of %T", a[0].x)
			return V{}
		}
	case "close":
		return func(m *M, a []V) V { return V{} }
	}
	n := b.Name()
	return func(m *M, a []V) V { m.unsupported("builtin %s", n); return V{} }
}

func zeroSized(t *RType) bool {
	switch u := t.u.(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !zeroSized(t.p.rt(u.Field(i).Type())) {
				return false
			}
		}
		return true
	case *types.Array:
		return u.Len() == 0 || zeroSized(t.p.rt(u.Elem()))
	}
	return false
}
