package main

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   V // closure
	args []V
	bi   func(m *M, args []V) V
	inv  *types.Func
	recv V
}

type frame struct {
	fn        *Fn
	r         []V
	defers    []*deferred
	pan       *tPanic // in flight while running defers
	recovered bool
	caller    *frame
	ret       V
}


func (m *M) where() string {
	if m.curFrame == nil {
		return "?"
	}
	fr := m.curFrame
	pos := ""
	if fr.fn.f.Prog != nil && m.curBlk >= 0 && m.curBlk < len(fr.fn.blks) {
		b := &fr.fn.blks[m.curBlk]
		p := b.pos
		if b.iff != nil && b.iff.pos.IsValid() {
			p = b.iff.pos
		}
		if p.IsValid() {
			q := fr.fn.f.Prog.Fset.Position(p)
			pos = fmt.Sprintf(" %s:%d", q.Filename[strings.LastIndex(q.Filename, "/")+1:], q.Line)
		}
	}
	return fr.fn.name + pos
}

func (m *M) throw(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	panic(&tPanic{v: V{x: &IF{m.p.tRuntimeErr, mkStr(s)}}, msg: "runtime error: " + s})
}

func (m *M) callV(f V, args []V) V {
	if f.x == nil {
		m.throw("invalid memory address or nil pointer dereference")
	}
	c, ok := f.x.(*Closure)
	if !ok {
		m.unsupported("call of %T", f.x)
	}
	if c.nat != nil {
		return c.nat(m, args)
	}
	return m.call(m.p.fn(c.fn), args, c.env)
}

func (m *M) callF(f *ssa.Function, args ...V) V {
	return m.call(m.p.fn(f), args, nil)
}

func anySym(args []V) bool {
	for _, a := range args {
		if symDeep(a, 3) {
			return true
		}
	}
	return false
}

func symDeep(v V, d int) bool {
	switch x := v.x.(type) {
	case *Term, *SS:
		return true
	case *SV:
		if d > 0 {
			for _, e := range x.f {
				if symDeep(e, d-1) {
					return true
				}
			}
		}
	case *SL:
		if d > 0 {
			for i, e := range x.a {
				if i > 40 {
					break
				}
				if symDeep(e, d-1) {
					return true
				}
			}
		}
	case *IF:
		if d > 0 {
			return symDeep(x.v, d-1)
		}
	case *V:
		if d > 0 {
			return symDeep(*x, d-1)
		}
	}
	return false
}

func (m *M) call(fn *Fn, args []V, env []V) V {
	if !fn.ready {
		fn.prep(m.p)
	}
	if fn.intr != nil {
		return fn.intr(m, args)
	}
	if fn.subst != nil {
		return m.call(m.p.fn(fn.subst), args, env)
	}
	if fn.err != "" {
		m.unsupported("%s (called from %s)", fn.err, m.where())
	}
	if !m.inInit && !m.funcs[fn] {
		m.funcs[fn] = true
	}
	if fn.scalarRes && !m.inInit && m.opts.Merge && !fn.harness && m.nestDepth < 4 {
		if v, ok := m.callMerged(fn, args, env); ok {
			return v
		}
	}
	return m.exec(fn, args, env)
}

func (m *M) exec(fn *Fn, args []V, env []V) V {
	fr := &frame{fn: fn, caller: m.curFrame}
	fr.r = make([]V, fn.nregs)
	copy(fr.r, args)
	copy(fr.r[fn.nparams:], env)
	m.depth++
	if m.depth > m.opts.MaxDepth {
		m.depth = 0
		panic(pathAbort{"steps", "stack depth"})
	}
	saved := m.curFrame
	savedBlk := m.curBlk
	if fn.hasDefer {
		m.runDeferring(fr)
	} else {
		m.run(fr, 0, -1, nil)
	}
	m.curFrame = saved
	m.curBlk = savedBlk
	m.depth--
	return fr.ret
}

func (m *M) runDeferring(fr *frame) {
	func() {
		depth := m.depth
		nest := m.nest
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(*tPanic)
			if !ok || m.nest != nest {
				if _, ie := r.(*internalErr); !ie && m.opts.Debug {
					if e, ok := r.(error); ok {
						r = &internalErr{e, trimStack(string(debug.Stack()))}
					}
				}
				panic(r)
			}
			m.depth = depth
			fr.pan = tp
			m.runDefers(fr)
			if !fr.recovered {
				panic(fr.pan)
			}
			fr.pan = nil
			m.curFrame = fr
			if fr.fn.recover_ >= 0 {
				m.run(fr, fr.fn.recover_, -1, nil)
			} else {
				fr.ret = m.zeroResults(fr.fn)
			}
		}()
		m.run(fr, 0, -1, nil)
	}()
}

func (m *M) zeroResults(fn *Fn) V {
	switch fn.nres {
	case 0:
		return V{}
	case 1:
		return zeroV(fn.resT[0])
	}
	t := make([]V, fn.nres)
	for i := range t {
		t[i] = zeroV(fn.resT[i])
	}
	return V{x: t}
}

func (m *M) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		m.runDeferred(fr, d)
	}
}

func (m *M) runDeferred(fr *frame, d *deferred) {
	savedP := m.panFrame
	m.panFrame = fr
	nest := m.nest
	depth := m.depth
	defer func() {
		m.panFrame = savedP
		if r := recover(); r != nil {
			if tp, ok := r.(*tPanic); ok && m.nest == nest {
				m.depth = depth
				// a new panic replaces the old one
				fr.pan = tp
				fr.recovered = false
				m.runDefers(fr)
				if !fr.recovered {
					panic(fr.pan)
				}
				return
			}
			panic(r)
		}
	}()
	if d.bi != nil {
		d.bi(m, d.args)
		return
	}
	if d.inv != nil {
		m.invoke(d.recv, d.inv, d.args)
		return
	}
	m.callV(d.fn, d.args)
}

// run executes fr from block b (entered from prev; prev == -2 means the phis
// are already done) until return or, if stop is given, until a stop block is
// about to be entered. It reports the stop block and its predecessor.
func (m *M) run(fr *frame, b, prev int, stop []bool) (int, int) {
	fn := fr.fn
	m.curFrame = fr
	for {
		blk := &fn.blks[b]
		if blk.phis != nil && prev >= 0 {
			mv := blk.phis[blk.predIx[prev]]
			if len(mv) == 1 {
				fr.r[mv[0].dst] = mv[0].src.get(m, fr)
			} else {
				var tmp [16]V
				t := tmp[:0]
				for i := range mv {
					t = append(t, mv[i].src.get(m, fr))
				}
				for i := range mv {
					fr.r[mv[i].dst] = t[i]
				}
			}
		}
		m.curBlk = b
		m.steps += int64(blk.nins)
		if m.nest != nil && m.steps > m.rootLimit {
			panic(subAbort{"root"})
		}
		if m.steps > m.nextCheck {
			m.nextCheck = m.steps + 20000
			m.checkTime()
		}
		if m.steps > m.maxSteps {
			panic(pathAbort{"steps", "step bound in " + m.where()})
		}
		for _, in := range blk.ins {
			in(m, fr)
		}
		m.curFrame = fr
		m.curBlk = b
		switch blk.tk {
		case tJump:
			prev, b = b, blk.next
		case tIf:
			c := blk.iff.cond.get(m, fr)
			var v bool
			if c.x == nil {
				v = c.n != 0
			} else {
				t := c.x.(*Term)
				if !m.inInit && m.opts.Merge && m.nestDepth < 4 && !fn.noMerge {
					nb, done, ok := m.mergeIf(fr, b, blk.iff, t)
					if ok {
						if done {
							return -1, -1
						}
						if stop != nil && stop[nb] {
							return nb, -2
						}
						prev, b = -2, nb
						continue
					}
				}
				v = m.branch(t)
			}
			prev = b
			if v {
				b = blk.iff.t
			} else {
				b = blk.iff.f
			}
		case tReturn:
			switch len(blk.ret) {
			case 0:
				fr.ret = V{}
			case 1:
				fr.ret = blk.ret[0].get(m, fr)
			default:
				t := make([]V, len(blk.ret))
				for i := range t {
					t[i] = blk.ret[i].get(m, fr)
				}
				fr.ret = V{x: t}
			}
			return -1, -1
		case tPanicK:
			v := blk.pan.get(m, fr)
			panic(&tPanic{v: v, msg: m.panicMsg(v)})
		}
		if stop != nil && stop[b] {
			return b, prev
		}
	}
}

func (m *M) panicMsg(v V) string {
	i, ok := v.x.(*IF)
	if !ok || i == nil {
		return "panic(nil)"
	}
	if s, ok := strOf(i.v); ok && i.t.k == kString {
		return "panic: " + s
	}
	return "panic of type " + i.t.t.String()
}

// ---- merging -----------------------------------------------------------------

func (m *M) marker(site any, decide func() bool) (on, rec bool, key decKey) {
	key = m.decAt(site)
	if e := m.nest; e != nil && e.pos < len(e.prefix) {
		d := e.prefix[e.pos]
		e.pos++
		e.cur = append(e.cur, d)
		return d == 1, false, key
	}
	if m.replaying() {
		d := m.log[m.logPos]
		m.logPos++
		if m.nest != nil {
			m.nest.cur = append(m.nest.cur, uint64(d))
			m.decMemo[key] = uint64(d)
		}
		return d == 1, false, key
	}
	if v, ok := m.decMemo[key]; ok {
		on = v == 1
	} else {
		on = decide()
		if m.nest != nil {
			m.decMemo[key] = b2u(on)
		}
	}
	d := byte(0)
	if on {
		d = 1
	}
	m.log = append(m.log, d)
	m.logPos++
	return on, true, key
}

// markerDone records the final decision of a recorded marker.
func (m *M) markerDone(rec, ok bool, at int, key decKey) {
	if !rec {
		if !ok {
			panic(pathAbort{"unsupported", "internal: merge diverged in replay"})
		}
		return
	}
	if !ok {
		if m.nest != nil {
			m.decMemo[key] = 0
		}
		m.log = append(m.log[:at], 0)
		m.logPos = len(m.log)
	}
	if m.nest != nil {
		m.nest.cur = append(m.nest.cur, b2u(ok))
	}
}

func (m *M) mergeIf(fr *frame, b int, iff *If2, cond *Term) (nb int, done, ok bool) {
	if len(fr.defers) > 0 && fr.pan != nil {
		return 0, false, false
	}
	st := m.siteStat[iff]
	if st == nil {
		st = &siteStat{}
		m.siteStat[iff] = st
	}
	on, rec, key := m.marker(iff, func() bool {
		if st.tries >= 4 && st.gain*4 < st.tries {
			return false
		}
		// cheap exit: forced branches need no merging
		return true
	})
	if !on {
		if rec && m.nest != nil {
			m.nest.cur = append(m.nest.cur, 0)
		}
		return 0, false, false
	}
	at := m.logPos - 1
	stop := fr.fn.stopSet(b, iff)
	nd := len(fr.defers)
	outs := m.subExplore(m.opts.MaxRegion, 4000, func(o *outcome) {
		f2 := &frame{fn: fr.fn, caller: fr.caller, defers: append([]*deferred(nil), fr.defers...), pan: fr.pan, recovered: fr.recovered}
		f2.r = append([]V(nil), fr.r...)
		v := m.branch(cond)
		nx := iff.f
		if v {
			nx = iff.t
		}
		var tb, pv int
		if stop[nx] {
			tb, pv = nx, b
		} else {
			tb, pv = m.run(f2, nx, b, stop)
		}
		if len(f2.defers) != nd {
			o.abn = true
			return
		}
		if tb < 0 {
			o.kind = 1
			o.res = f2.ret
			return
		}
		blk := &fr.fn.blks[tb]
		if blk.phis != nil && pv >= 0 {
			mv := blk.phis[blk.predIx[pv]]
			t := make([]V, len(mv))
			for i := range mv {
				t[i] = mv[i].src.get(m, f2)
			}
			for i := range mv {
				f2.r[mv[i].dst] = t[i]
			}
		}
		o.target = tb
		o.regs = f2.r
	})
	m.curFrame = fr
	m.curBlk = b
	if outs != nil {
		n := 0
		for _, o := range outs {
			if o.abn {
				n++
			}
		}
		if n == len(outs) {
			outs = nil
			if rec {
				m.log = m.log[:at+1]
				m.logPos = at + 1
			}
		}
	}
	if rec {
		st = m.siteStat[iff]
		st.tries++
	}
	if outs == nil {
		if rec {
			st.fails++
		}
		m.markerDone(rec, false, at, key)
		return 0, false, false
	}
	m.markerDone(rec, true, at, key)
	groups := m.group(fr.fn, outs)
	if rec {
		if len(groups) < len(outs) {
			st.gain++
		}
		m.stats.merges++
		m.stats.mergedPaths += int64(len(outs) - len(groups))
	}
	wits := make([]*Model, len(groups))
	for i, g := range groups {
		wits[i] = g.outs[0].wit
	}
	k := m.chooseGroup(wits)
	g := groups[k]
	m.fresh = g.fresh
	if len(groups) > 1 {
		m.addPC(g.cond(m))
	}
	if g.outs[0].abn {
		// residual: run normally under its condition
		return m.resume(fr, b, iff, cond)
	}
	g.apply(m)
	if g.outs[0].kind == 1 {
		fr.ret = g.res
		return 0, true, true
	}
	copy(fr.r, g.regs)
	return g.outs[0].target, false, true
}

// resume takes the (now forced) branch normally.
func (m *M) resume(fr *frame, b int, iff *If2, cond *Term) (int, bool, bool) {
	v := m.branch(cond)
	nx := iff.f
	if v {
		nx = iff.t
	}
	blk := &fr.fn.blks[nx]
	if blk.phis != nil {
		mv := blk.phis[blk.predIx[b]]
		t := make([]V, len(mv))
		for i := range mv {
			t[i] = mv[i].src.get(m, fr)
		}
		for i := range mv {
			fr.r[mv[i].dst] = t[i]
		}
	}
	return nx, false, true
}

type group struct {
	outs  []*outcome
	res   V
	regs  []V
	wr    []write
	ops   []trailEnt
	fresh int
	fn    *Fn
}

func (g *group) cond(m *M) *Term {
	if len(g.outs) == 1 {
		return m.ts.And(g.outs[0].delta...)
	}
	ors := make([]*Term, len(g.outs))
	for i, o := range g.outs {
		ors[i] = m.ts.And(o.delta...)
	}
	return m.ts.Or(ors...)
}

func (g *group) apply(m *M) {
	if len(g.outs) == 1 {
		for i := range g.ops {
			e := &g.ops[i]
			if e.p != nil {
				m.trail = append(m.trail, trailEnt{p: e.p, old: *e.p})
				*e.p = e.old
			} else {
				e.redo()
				m.note(e.undo, e.redo)
			}
		}
		return
	}
	for _, w := range g.wr {
		m.trail = append(m.trail, trailEnt{p: w.p, old: *w.p})
		*w.p = w.v
	}
}

// group partitions outcomes into sets that can share one merged state.
func (m *M) group(fn *Fn, outs []*outcome) []*group {
	var gs []*group
next:
	for _, o := range outs {
		o.cond = m.ts.And(o.delta...)
		if !o.abn && !o.opaque {
			for _, g := range gs {
				h := g.outs[0]
				if h.abn || h.opaque || h.kind != o.kind || h.target != o.target {
					continue
				}
				if g.tryAdd(m, fn, o) {
					continue next
				}
			}
		}
		g := &group{outs: []*outcome{o}, res: o.res, regs: o.regs, wr: o.writes, ops: o.ops, fresh: o.fresh, fn: fn}
		gs = append(gs, g)
	}
	return gs
}

func (g *group) tryAdd(m *M, fn *Fn, o *outcome) bool {
	var res V
	var regs []V
	if o.kind == 1 {
		v, ok := m.mergeRes(o.cond, o.res, g.res, fn)
		if !ok {
			return false
		}
		res = v
	} else {
		live := fn.live[o.target]
		regs = append([]V(nil), g.regs...)
		blk := &fn.blks[o.target]
		try := func(i int) bool {
			v, ok := m.mergeT(o.cond, o.regs[i], g.regs[i], fn.regT[i])
			if ok {
				regs[i] = v
			}
			return ok
		}
		for w, bits := range live {
			for k := 0; bits != 0; k++ {
				if bits&1 == 1 {
					if !try(w*64 + k) {
						return false
					}
				}
				bits >>= 1
			}
		}
		_ = blk
	}
	// memory
	if len(o.writes) == 0 && len(g.wr) == 0 {
		g.outs = append(g.outs, o)
		g.res, g.regs = res, regs
		if o.fresh > g.fresh {
			g.fresh = o.fresh
		}
		return true
	}
	mine := map[*V]V{}
	for _, w := range o.writes {
		mine[w.p] = w.v
	}
	var wr []write
	done := map[*V]bool{}
	for _, w := range g.wr {
		done[w.p] = true
		ov, ok := mine[w.p]
		if !ok {
			ov = *w.p // unchanged on this path
		}
		v, ok := m.mergeT(o.cond, ov, w.v, w.t)
		if !ok {
			return false
		}
		wr = append(wr, write{w.p, v, w.t})
	}
	for _, w := range o.writes {
		if done[w.p] {
			continue
		}
		v, ok := m.mergeT(o.cond, w.v, *w.p, w.t)
		if !ok {
			return false
		}
		wr = append(wr, write{w.p, v, w.t})
	}
	g.wr = wr
	g.outs = append(g.outs, o)
	g.res, g.regs = res, regs
	if o.fresh > g.fresh {
		g.fresh = o.fresh
	}
	return true
}

// mergeV builds ite(c, a, b).
func (m *M) mergeV(c *Term, a, b V, d int) (V, bool) {
	if a.x == nil && b.x == nil {
		if a.n == b.n {
			return a, true
		}
		return V{}, false // width unknown here; see mergeTyped
	}
	if at, ok := a.x.(*Term); ok {
		if bt, ok := b.x.(*Term); ok {
			if at.w != bt.w {
				return V{}, false
			}
			return tV(m.ts.Ite(c, at, bt)), true
		}
		if b.x == nil {
			return tV(m.ts.Ite(c, at, m.ts.constOf(b.n, at.w))), true
		}
		return V{}, false
	}
	if bt, ok := b.x.(*Term); ok {
		if a.x == nil {
			return tV(m.ts.Ite(c, m.ts.constOf(a.n, bt.w), bt)), true
		}
		return V{}, false
	}
	switch ax := a.x.(type) {
	case string, *SS:
		switch b.x.(type) {
		case string, *SS, nil:
		default:
			return V{}, false
		}
		if strLen(a) != strLen(b) {
			return V{}, false
		}
		if s1, ok := a.x.(string); ok {
			if s2, ok := b.x.(string); ok && s1 == s2 {
				return a, true
			}
		}
		ab, bb := strBytes(a), strBytes(b)
		out := make([]V, len(ab))
		for i := range ab {
			out[i] = m.iteB(c, ab[i], bb[i], 8)
		}
		return mkBytesStr(out), true
	case []V:
		bx, ok := b.x.([]V)
		if !ok || len(bx) != len(ax) {
			return V{}, false
		}
		out := make([]V, len(ax))
		for i := range ax {
			v, ok := m.mergeV(c, ax[i], bx[i], d+1)
			if !ok {
				return V{}, false
			}
			out[i] = v
		}
		return V{x: out}, true
	case *SV:
		bx, ok := b.x.(*SV)
		if !ok || len(bx.f) != len(ax.f) || d > 4 {
			return V{}, false
		}
		if ax == bx {
			return a, true
		}
		out := make([]V, len(ax.f))
		for i := range ax.f {
			v, ok := m.mergeV(c, ax.f[i], bx.f[i], d+1)
			if !ok {
				return V{}, false
			}
			out[i] = v
		}
		return V{x: &SV{out}}, true
	case *IF:
		bx, ok := b.x.(*IF)
		if !ok || ax.t != bx.t {
			return V{}, false
		}
		if ax == bx {
			return a, true
		}
		v, ok := m.mergeT(c, ax.v, bx.v, ax.t)
		if !ok {
			return V{}, false
		}
		return V{x: &IF{ax.t, v}}, true
	case *SL:
		bx, ok := b.x.(*SL)
		if !ok {
			return V{}, false
		}
		if len(ax.a) == len(bx.a) && cap(ax.a) == cap(bx.a) && (cap(ax.a) == 0 || &ax.a[:1][0] == &bx.a[:1][0]) {
			return a, true
		}
		return V{}, false
	case *SymPtr, *DataPtr:
		return V{}, false
	case *iterState:
		return V{}, false
	case *Closure:
		bx, ok := b.x.(*Closure)
		if ok && bx == ax {
			return a, true
		}
		return V{}, false
	}
	if a.x == b.x && a.n == b.n {
		return a, true
	}
	return V{}, false
}

func (ts *Terms) constOf(n uint64, w uint8) *Term {
	if w == 0 {
		return ts.Bool(n != 0)
	}
	return ts.Const(n, w)
}

func (m *M) iteB(c *Term, a, b V, w uint8) V {
	if a.x == nil && b.x == nil && a.n == b.n {
		return a
	}
	return tV(m.ts.Ite(c, m.term(a, w), m.term(b, w)))
}

func (m *M) term(v V, w uint8) *Term {
	if v.x == nil {
		if w == 0 {
			return m.ts.Bool(v.n != 0)
		}
		return m.ts.Const(v.n, w)
	}
	t, ok := v.x.(*Term)
	if !ok {
		m.unsupported("term of %T", v.x)
	}
	return t
}

func (m *M) mergeRes(c *Term, a, b V, fn *Fn) (V, bool) {
	switch fn.nres {
	case 0:
		return V{}, true
	case 1:
		return m.mergeT(c, a, b, fn.resT[0])
	}
	at, bt := a.x.([]V), b.x.([]V)
	out := make([]V, len(at))
	for i := range at {
		v, ok := m.mergeT(c, at[i], bt[i], fn.resT[i])
		if !ok {
			return V{}, false
		}
		out[i] = v
	}
	return V{x: out}, true
}

// mergeT builds ite(c, a, b) for values of type t (nil if unknown).
func (m *M) mergeT(c *Term, a, b V, t *RType) (V, bool) {
	if t == nil {
		return m.mergeV(c, a, b, 0)
	}
	switch t.k {
	case kBool:
		return m.iteB(c, a, b, 0), true
	case kInt, kFloat:
		return m.iteB(c, a, b, t.w), true
	case kStruct, kArray:
		as, ok1 := a.x.(*SV)
		bs, ok2 := b.x.(*SV)
		if !ok1 || !ok2 {
			return V{}, false
		}
		if as == bs {
			return a, true
		}
		t.init()
		out := make([]V, len(as.f))
		for i := range as.f {
			et := t.elem
			if t.k == kStruct {
				et = t.fields[i]
			}
			v, ok := m.mergeT(c, as.f[i], bs.f[i], et)
			if !ok {
				return V{}, false
			}
			out[i] = v
		}
		return V{x: &SV{out}}, true
	case kTuple:
		at, ok1 := a.x.([]V)
		bt, ok2 := b.x.([]V)
		if !ok1 || !ok2 || len(at) != len(bt) {
			return V{}, false
		}
		tt := t.t.(*types.Tuple)
		out := make([]V, len(at))
		for i := range at {
			v, ok := m.mergeT(c, at[i], bt[i], m.p.rt(tt.At(i).Type()))
			if !ok {
				return V{}, false
			}
			out[i] = v
		}
		return V{x: out}, true
	}
	return m.mergeV(c, a, b, 1)
}

// callMerged runs a scalar-valued function over all its paths and merges the
// results, if it forks at all.
func (m *M) callMerged(fn *Fn, args []V, env []V) (V, bool) {
	if len(fn.blks) < 2 {
		return V{}, false
	}
	st := m.callStat[fn]
	if st == nil {
		st = &siteStat{}
		m.callStat[fn] = st
	}
	if !anySym(args) && !anySym(env) {
		return V{}, false
	}
	on, rec, key := m.marker(fn, func() bool {
		return !(st.tries >= 6 && st.gain*6 < st.tries)
	})
	if !on {
		if rec && m.nest != nil {
			m.nest.cur = append(m.nest.cur, 0)
		}
		return V{}, false
	}
	at := m.logPos - 1
	frm, blk := m.curFrame, m.curBlk
	outs := m.subExplore(m.opts.MaxCall, 60000, func(o *outcome) {
		o.kind = 1
		o.res = m.exec(fn, args, env)
	})
	m.curFrame, m.curBlk = frm, blk
	if outs != nil {
		bad := false
		for _, o := range outs {
			if o.abn {
				bad = true
			}
		}
		if bad {
			outs = nil
			if rec {
				m.log = m.log[:at+1]
				m.logPos = at + 1
			}
		}
	}
	if rec {
		st.tries++
	}
	m.markerDone(rec, outs != nil, at, key)
	if outs == nil {
		if rec {
			st.fails++
		}
		return V{}, false
	}
	// typed merge of results
	groups := m.group(fn, outs)
	if rec {
		if len(groups) < len(outs) || len(outs) == 1 {
			st.gain++
		}
		m.stats.merges++
		m.stats.mergedPaths += int64(len(outs) - len(groups))
	}
	wits := make([]*Model, len(groups))
	for i, g := range groups {
		wits[i] = g.outs[0].wit
	}
	k := m.chooseGroup(wits)
	g := groups[k]
	m.fresh = g.fresh
	if len(groups) > 1 {
		m.addPC(g.cond(m))
	} else if len(g.outs) > 1 && m.wit != nil && !m.replaying() {
		// the witness of one merged path is a witness of all
	}
	g.apply(m)
	return g.res, true
}
