package main

import (
	"math/big"
	"math/bits"
)

// Linear normalisation of bit-vector arithmetic. A term is read as
// k + Σ c·a (mod 2^w), with the atoms a taken as unsigned integers. It is used
// to simplify divisions by constants (time arithmetic) and to recognise a
// number put together again from its digits.

type linForm struct {
	w     uint8
	k     uint64
	atoms []*Term
	coef  []uint64 // mod 2^w
}

func (f *linForm) add(a *Term, c uint64) {
	c &= mask(f.w)
	for i, x := range f.atoms {
		if x == a {
			f.coef[i] = (f.coef[i] + c) & mask(f.w)
			return
		}
	}
	f.atoms = append(f.atoms, a)
	f.coef = append(f.coef, c)
}

func (f *linForm) scale(o *linForm, c uint64) {
	f.k = (f.k + c*o.k) & mask(f.w)
	for i, a := range o.atoms {
		f.add(a, c*o.coef[i])
	}
}

const linMax = 24

// lin returns the linear form of t modulo 2^w, where w <= t.w.
func (ts *Terms) lin(t *Term, w uint8) *linForm {
	f := &linForm{w: w}
	ts.linTo(f, t, 1, 0)
	return f
}

func (ts *Terms) linTo(f *linForm, t *Term, c uint64, depth int) {
	if depth > 40 || len(f.atoms) > linMax {
		f.add(t, c)
		return
	}
	switch t.op {
	case OConst:
		f.k = (f.k + c*t.val) & mask(f.w)
	case OAdd:
		ts.linTo(f, t.args[0], c, depth+1)
		ts.linTo(f, t.args[1], c, depth+1)
	case OSub:
		ts.linTo(f, t.args[0], c, depth+1)
		ts.linTo(f, t.args[1], -c, depth+1)
	case OMul:
		if isC(t.args[1]) {
			ts.linTo(f, t.args[0], c*t.args[1].val, depth+1)
			return
		}
		f.add(t, c)
	case OShl:
		if isC(t.args[1]) && t.args[1].val < uint64(t.w) {
			ts.linTo(f, t.args[0], c<<t.args[1].val, depth+1)
			return
		}
		f.add(t, c)
	case OExtract:
		x := t.args[0]
		if t.val&0xff == 0 && (t.w >= f.w || x.hi <= mask(t.w)) {
			ts.linTo(f, x, c, depth+1)
			return
		}
		if t.val&0xff == 0 && t.w < f.w {
			if ts.linWhole(f, x, t.w, c) {
				return
			}
		}
		f.add(t, c)
	case OZExt:
		x := t.args[0]
		if x.w >= f.w {
			ts.linTo(f, x, c, depth+1)
			return
		}
		if !ts.linWhole(f, x, x.w, c) {
			f.add(x, c)
		}
	default:
		f.add(t, c)
	}
}

// linWhole adds c times the value of t modulo 2^w (w < f.w) when that value
// can be written as an integer combination, i.e. when nothing wraps.
func (ts *Terms) linWhole(f *linForm, t *Term, w uint8, c uint64) bool {
	switch t.op {
	case OAdd, OSub, OMul, OShl, OExtract, OZExt:
	default:
		if t.hi <= mask(w) {
			f.add(t, c)
			return true
		}
		return false
	}
	g := ts.lin(t, w)
	k, ok := g.whole()
	if !ok || len(g.atoms) > linMax {
		return false
	}
	// coefficients are signed w-bit numbers, the constant is the integer k
	f.k = (f.k + c*k) & mask(f.w)
	for i, a := range g.atoms {
		f.add(a, c*uint64(sext(g.coef[i], w)))
	}
	return true
}

// bounds returns the least and greatest value of Σ coef·atom over the
// integers (coefficients signed).
func (f *linForm) bounds() (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	var x, y big.Int
	for i, a := range f.atoms {
		c := sext(f.coef[i], f.w)
		x.SetInt64(c)
		y.SetUint64(a.lo)
		y.Mul(&y, &x)
		x.Mul(&x, new(big.Int).SetUint64(a.hi))
		if c >= 0 {
			lo.Add(lo, &y)
			hi.Add(hi, &x)
		} else {
			lo.Add(lo, &x)
			hi.Add(hi, &y)
		}
	}
	return
}

// whole returns the constant kk (mod 2^64) such that kk + Σ coef·atom, over
// the integers, always lies in 0..2^w-1 and so is the value of the form.
func (f *linForm) whole() (uint64, bool) {
	k, ok := f.wholeBig()
	if !ok {
		return 0, false
	}
	var m big.Int
	m.SetUint64(^uint64(0))
	return k.And(k, &m).Uint64(), true
}

func (f *linForm) wholeBig() (*big.Int, bool) {
	lo, hi := f.bounds()
	k := new(big.Int).SetUint64(f.k)
	lo.Add(lo, k)
	hi.Add(hi, k)
	lo.Rsh(lo, uint(f.w)) // floor
	hi.Rsh(hi, uint(f.w))
	if lo.Cmp(hi) != 0 {
		return nil, false
	}
	lo.Lsh(lo, uint(f.w))
	return k.Sub(k, lo), true
}

// build makes a term of width w for the form.
func (ts *Terms) build(f *linForm) *Term {
	w := f.w
	var s *Term
	for i, a := range f.atoms {
		c := f.coef[i]
		if c == 0 {
			continue
		}
		x := a
		if x.w < w {
			x = ts.ZExt(x, w)
		} else if x.w > w {
			x = ts.Extract(x, w-1, 0)
		}
		neg := sext(c, w) < 0
		if neg {
			c = -c & mask(w)
		}
		if c != 1 {
			x = ts.Bin(OMul, x, ts.Const(c, w))
		}
		switch {
		case s == nil && neg:
			s = ts.Bin(OSub, ts.Const(0, w), x)
		case s == nil:
			s = x
		case neg:
			s = ts.binRaw(OSub, s, x)
		default:
			if s.id > x.id {
				s, x = x, s
			}
			s = ts.binRaw(OAdd, s, x)
		}
	}
	if s == nil {
		return ts.Const(f.k, w)
	}
	if f.k != 0 {
		s = ts.binRaw(OAdd, s, ts.Const(f.k, w))
	}
	return s
}

func (ts *Terms) binRaw(op Op, a, b *Term) *Term {
	if isC(a) && isC(b) {
		v, _ := foldBin(op, a.val, b.val, a.w)
		return ts.Const(v, a.w)
	}
	return ts.mk(&Term{op: op, w: a.w, args: []*Term{a, b}})
}

type divKey struct {
	a *Term
	c uint64
}

type divRes struct{ q, r *Term }

// divmod splits a by the constant c; q is nil when nothing can be said.
func (ts *Terms) divmod(a *Term, c uint64) (q, r *Term) {
	key := divKey{a, c}
	if x, ok := ts.divs[key]; ok {
		return x.q, x.r
	}
	q, r = ts.divmod1(a, c)
	if ts.divs == nil {
		ts.divs = map[divKey]divRes{}
	}
	ts.divs[key] = divRes{q, r}
	return
}

func (ts *Terms) divmod1(a *Term, c uint64) (q, r *Term) {
	w := a.w
	if a.lo/c == a.hi/c {
		n := a.lo / c
		return ts.Const(n, w), ts.Bin(OSub, a, ts.Const(n*c, w))
	}
	switch a.op {
	case OAdd, OSub, OMul, OShl, OExtract, OZExt:
	default:
		return nil, nil
	}
	f := ts.lin(a, w)
	if len(f.atoms) > linMax {
		return nil, nil
	}
	k, ok := f.wholeBig()
	if !ok {
		return nil, nil
	}
	cc := new(big.Int).SetUint64(c)
	Q, R := &linForm{w: w}, &linForm{w: w}
	for i, x := range f.atoms {
		co := sext(f.coef[i], w)
		if co == 0 {
			continue
		}
		ab := uint64(co)
		if co < 0 {
			ab = -ab
		}
		if ab%c == 0 {
			v := ab / c
			if co < 0 {
				v = -v
			}
			Q.add(x, v)
		} else {
			R.add(x, uint64(co))
		}
	}
	var kq, kr big.Int
	kq.DivMod(k, cc, &kr) // Euclidean: 0 <= kr < c
	low := func(x *big.Int) uint64 {
		var m big.Int
		m.SetUint64(^uint64(0))
		return m.And(&m, x).Uint64() & mask(w)
	}
	for try := 0; try < 2; try++ {
		lo, hi := R.bounds()
		lo.Add(lo, &kr)
		hi.Add(hi, &kr)
		if lo.Sign() >= 0 && hi.Cmp(cc) < 0 {
			Q.k, R.k = low(&kq), low(&kr)
			return ts.build(Q), ts.build(R)
		}
		if try == 0 && lo.Sign() >= 0 && len(Q.atoms) > 0 && hi.BitLen() <= int(w) {
			Q.k, R.k = low(&kq), low(&kr)
			x := ts.build(R)
			d, m := ts.Bin(OUDiv, x, ts.Const(c, w)), ts.Bin(OURem, x, ts.Const(c, w))
			return ts.Bin(OAdd, ts.build(Q), d), m
		}
		kr.Sub(&kr, cc)
		kq.Add(&kq, big.NewInt(1))
	}
	return nil, nil
}

// cancel computes a-b when parts of the two cancel out.
func (ts *Terms) cancel(a, b *Term) *Term {
	w := a.w
	f := &linForm{w: w}
	ts.linTo(f, a, 1, 0)
	n := len(f.atoms)
	if n > linMax || n == 0 {
		return nil
	}
	ts.linTo(f, b, mask(w), 0)
	if len(f.atoms) > linMax {
		return nil
	}
	for _, c := range f.coef {
		if c == 0 {
			return ts.build(f)
		}
	}
	return nil
}

func linear(t *Term) bool {
	switch t.op {
	case OAdd, OSub, OMul, OShl, OExtract, OZExt, OVar:
		return true
	}
	return false
}

// eqCancel simplifies a == b when parts of the two sides cancel out.
func (ts *Terms) eqCancel(a, b *Term) *Term {
	w := a.w
	f := &linForm{w: w}
	ts.linTo(f, a, 1, 0)
	if len(f.atoms) > linMax {
		return nil
	}
	ts.linTo(f, b, mask(w), 0)
	if len(f.atoms) > linMax {
		return nil
	}
	P, N := &linForm{w: w}, &linForm{w: w, k: -f.k & mask(w)}
	cancelled := false
	for i, c := range f.coef {
		switch {
		case c == 0:
			cancelled = true
		case sext(c, w) > 0:
			P.add(f.atoms[i], c)
		default:
			N.add(f.atoms[i], -c)
		}
	}
	if !cancelled {
		return nil
	}
	return ts.Eq(ts.build(P), ts.build(N))
}

// recombine rewrites sums in which a quotient and a remainder of the same
// number meet: c·(x/c) + x%c = x and x - c·(x/c) = x%c.
func (ts *Terms) recombine(a, b *Term, op Op) *Term {
	w := a.w
	f := &linForm{w: w}
	ts.linTo(f, a, 1, 0)
	c1 := uint64(1)
	if op == OSub {
		c1 = mask(w)
	}
	ts.linTo(f, b, c1, 0)
	if len(f.atoms) > linMax {
		return nil
	}
	any := false
	for changed := true; changed; {
		changed = false
		for i, x := range f.atoms {
			if f.coef[i] == 0 {
				continue
			}
			if x.op == OURem && isC(x.args[1]) {
				c, y := x.args[1].val, x.args[0]
				if hi, _ := bits.Mul64(f.coef[i], c); hi == 0 || sext(f.coef[i], w) < 0 {
					for j, z := range f.atoms {
						if f.coef[j] == (f.coef[i]*c)&mask(w) && f.coef[j] != 0 && ts.isQuot(z, y, c) {
							al := f.coef[i]
							f.coef[i], f.coef[j] = 0, 0
							if y.w < w {
								f.add(y, al)
							} else {
								ts.linTo(f, y, al, 0)
							}
							changed = true
							break
						}
					}
				}
			}
			if !changed && x.op == OUDiv && isC(x.args[1]) && sext(f.coef[i], w) < 0 {
				// α·y - α·c·(y/c) = α·(y%c)
				c, y := x.args[1].val, x.args[0]
				for j, z := range f.atoms {
					al := f.coef[j]
					if al == 0 || j == i {
						continue
					}
					if stripped(z) == stripped(y) && f.coef[i] == (-al*c)&mask(w) {
						f.coef[i], f.coef[j] = 0, 0
						f.add(ts.Bin(OURem, y, ts.Const(c, y.w)), al)
						changed = true
						break
					}
					// y may itself be a quotient folded into one division
					if z.op == OUDiv && isC(z.args[1]) && stripped(z.args[0]) == stripped(y) && c%z.args[1].val == 0 {
						c2 := c / z.args[1].val
						if f.coef[i] == (-al*c2)&mask(w) {
							f.coef[i], f.coef[j] = 0, 0
							f.add(ts.Bin(OURem, z, ts.Const(c2, z.w)), al)
							changed = true
							break
						}
					}
				}
			}
			if changed {
				break
			}
		}
		any = any || changed
	}
	if !any {
		return nil
	}
	return ts.build(f)
}

// isQuot reports that z is y/c.
func (ts *Terms) isQuot(z, y *Term, c uint64) bool {
	if z.op != OUDiv || !isC(z.args[1]) {
		return false
	}
	if stripped(z.args[0]) == stripped(y) && z.args[1].val == c {
		return true
	}
	y = stripped(y)
	return y.op == OUDiv && isC(y.args[1]) && stripped(z.args[0]) == stripped(y.args[0]) && y.args[1].val*c == z.args[1].val && z.args[1].val/c == y.args[1].val
}

// stripped removes conversions that keep the (unsigned) value.
func stripped(t *Term) *Term {
	for {
		switch {
		case t.op == OZExt:
		case t.op == OExtract && t.val&0xff == 0 && t.args[0].hi <= mask(t.w):
		default:
			return t
		}
		t = t.args[0]
	}
}
