package main

import (
	"math/rand"
	"testing"
)

// TestSimplifier builds random arithmetic terms and compares the simplified
// term with the meaning of the operations on random values.
func TestSimplifier(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	consts := []uint64{0, 1, 2, 3, 5, 7, 10, 48, 60, 97, 100, 208, 1000, 3600, 86400, 1000000, 1 << 31, 1 << 32, 1 << 63, ^uint64(0), ^uint64(47)}
	widths := []uint8{8, 16, 32, 64}
	for round := 0; round < 60000; round++ {
		ts := newTerms()
		type node struct {
			t *Term
			v []uint64
		}
		const K = 12
		var ns []node
		nv := 1 + rng.Intn(4)
		for i := 0; i < nv; i++ {
			w := widths[rng.Intn(4)]
			lo, hi := uint64(0), mask(w)
			if rng.Intn(4) > 0 {
				hi = uint64(rng.Intn(1 << uint(1+rng.Intn(20)))) & mask(w)
				if rng.Intn(2) == 0 {
					lo = hi / 2
				}
			}
			n := node{t: ts.Var(string(rune('a'+i)), w, lo, hi)}
			for k := 0; k < K; k++ {
				x := lo
				if hi > lo {
					switch rng.Intn(5) {
					case 0:
						x = hi
					case 1:
					default:
						x = lo + rng.Uint64()%(hi-lo+1|1)
						if x > hi {
							x = hi
						}
					}
				}
				n.v = append(n.v, x)
			}
			ns = append(ns, n)
		}
		konst := func(w uint8) node {
			c := consts[rng.Intn(len(consts))] & mask(w)
			n := node{t: ts.Const(c, w)}
			for k := 0; k < K; k++ {
				n.v = append(n.v, c)
			}
			return n
		}
		conv := func(n node, w uint8) node {
			if n.t.w == w {
				return n
			}
			o := node{}
			if n.t.w < w {
				sg := rng.Intn(4) == 0
				if sg {
					o.t = ts.SExt(n.t, w)
				} else {
					o.t = ts.ZExt(n.t, w)
				}
				for _, x := range n.v {
					if sg {
						x = uint64(sext(x, n.t.w)) & mask(w)
					}
					o.v = append(o.v, x)
				}
				return o
			}
			o.t = ts.Extract(n.t, w-1, 0)
			for _, x := range n.v {
				o.v = append(o.v, x&mask(w))
			}
			return o
		}
		ops := []Op{OAdd, OAdd, OAdd, OSub, OSub, OMul, OMul, OUDiv, OUDiv, OURem, OURem, OSDiv, OSRem, OBAnd, OBOr, OShl, OLShr}
		for step := 0; step < 25; step++ {
			a := ns[rng.Intn(len(ns))]
			w := a.t.w
			if rng.Intn(3) == 0 {
				w = widths[rng.Intn(4)]
			}
			a = conv(a, w)
			op := ops[rng.Intn(len(ops))]
			var b node
			if rng.Intn(2) == 0 || op == OUDiv || op == OURem || op == OMul || op == OShl || op == OLShr {
				b = konst(w)
			} else {
				b = conv(ns[rng.Intn(len(ns))], w)
				if op == OSDiv || op == OSRem {
					continue
				}
			}
			if isC(b.t) && b.t.val == 0 && (op == OUDiv || op == OURem || op == OSDiv || op == OSRem) {
				continue // the engine checks for zero first
			}
			if rng.Intn(4) == 0 && (op == OAdd || op == OSub || op == OMul) {
				a, b = b, a
			}
			o := node{t: ts.Bin(op, a.t, b.t)}
			for k := range a.v {
				v, _ := foldBin(op, a.v[k], b.v[k], w)
				o.v = append(o.v, v&mask(w))
			}
			ns = append(ns, o)
			if rng.Intn(3) == 0 && w == a.t.w {
				// q, r pairs give the recombination rules something to do
				c := konst(w)
				if c.t.val != 0 {
					q := node{t: ts.Bin(OUDiv, a.t, c.t)}
					r := node{t: ts.Bin(OURem, a.t, c.t)}
					p := node{t: ts.Bin(OMul, q.t, c.t)}
					for k := range a.v {
						q.v = append(q.v, a.v[k]/c.v[k])
						r.v = append(r.v, a.v[k]%c.v[k])
						p.v = append(p.v, a.v[k]/c.v[k]*c.v[k])
					}
					ns = append(ns, q, r, p)
					s := node{t: ts.Bin(OAdd, p.t, r.t)}
					d := node{t: ts.Bin(OSub, a.t, p.t)}
					for k := range a.v {
						s.v = append(s.v, a.v[k])
						d.v = append(d.v, r.v[k])
					}
					ns = append(ns, s, d)
				}
			}
		}
		for k := 0; k < K; k++ {
			vals := make([]uint64, nv)
			for i := range vals {
				vals[i] = ns[i].v[k]
			}
			ts.evIn(vals, 0)
			for i, n := range ns {
				if got := ts.ev(n.t); got != n.v[k] {
					t.Fatalf("round %d node %d width %d: %d, want %d\n%s", round, i, n.t.w, got, n.v[k], n.t.body())
				}
				if n.v[k] < n.t.lo || n.v[k] > n.t.hi {
					t.Fatalf("round %d node %d: %d outside %d..%d", round, i, n.v[k], n.t.lo, n.t.hi)
				}
			}
			for q := 0; q < 20; q++ {
				a, b := ns[rng.Intn(len(ns))], ns[rng.Intn(len(ns))]
				if a.t.w != b.t.w {
					continue
				}
				w := a.t.w
				type cmp struct {
					t *Term
					v bool
				}
				for ci, c := range []cmp{{ts.Eq(a.t, b.t), a.v[k] == b.v[k]}, {ts.Ult(a.t, b.t), a.v[k] < b.v[k]}, {ts.Ule(a.t, b.t), a.v[k] <= b.v[k]}, {ts.Slt(a.t, b.t), sext(a.v[k], w) < sext(b.v[k], w)}, {ts.Sle(a.t, b.t), sext(a.v[k], w) <= sext(b.v[k], w)}} {
					ts.evIn(vals, 0)
					if (ts.ev(c.t) == 1) != c.v {
						t.Fatalf("round %d comparison %d of %d and %d wrong", round, ci, a.v[k], b.v[k])
					}
				}
			}
		}
	}
}
