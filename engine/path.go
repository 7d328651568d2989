package main

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"runtime/debug"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Model assigns values to variables (by per-worker index); missing variables
// have their lower bound.
type Model struct{ vals []uint64 }

func (m *M) mval(w *Model, t *Term) uint64 {
	if int(t.val) < len(w.vals) {
		v := w.vals[t.val]
		if v < t.lo || v > t.hi {
			return t.lo
		}
		return v
	}
	return t.lo
}

type trailEnt struct {
	p    *V
	t    *RType
	old  V
	undo func()
	redo func()
}

// pathAbort ends the current top-level path without a verdict.
type pathAbort struct {
	kind string // "unsupported", "infeasible", "steps", "unknown", "stop"
	msg  string
}

// subAbort ends the current nested exploration path.
type subAbort struct{ why string }

// tPanic is a panic of the interpreted program.
type tPanic struct {
	v   V
	msg string
}

type pend struct {
	prefix []uint64
	wit    *Model
}

type explorer struct {
	parent *explorer
	prefix []uint64
	pos    int
	cur    []uint64
	pend   []pend
}

type pcEnt struct {
	c   *Term
	h   uint64    // hash of the path condition up to here
	old [4]uint64 // previous domain for unary constraints
}

type M struct {
	p    *Prog
	ts   *Terms
	sol  *Solver
	id   int
	opts *Opts

	globals   []*V
	zeroCells map[*RType]*V
	trail     []trailEnt
	pc        []pcEnt
	dom       [][4]uint64 // per variable
	unary     map[int32][]*Term
	multi     []*Term
	multiCnt  map[int32]int
	wit       *Model
	log       []byte
	logPos    int // replay position; == len(log) when recording
	nest      *explorer
	nestDepth int
	newAlts   []Alt
	fresh     int
	decMemo   map[decKey]uint64
	steps     int64
	pathStart time.Time
	nextCheck int64
	maxPath   time.Duration
	maxSteps  int64
	rootLimit int64
	depth     int
	noMerge   int

	qcache  map[string]qres
	evalWit *Model
	evalEp  uint64

	inInit      bool
	memo        map[string]V
	obs         []obsEnt
	asserts     int
	reached     map[string]bool
	inputs      []inputEnt
	allocN      int64
	stats       Stats
	mapOrder    bool
	freezeOn    bool
	frozen      map[*V]string
	frozenMaps  map[*MapObj]string
	siteStat    map[*If2]*siteStat
	callStat    map[*Fn]*siteStat
	funcs       map[*Fn]bool
	curFrame    *frame
	curBlk      int
	panFrame    *frame
	initOK      map[*ssa.Package]bool
	initing     map[*ssa.Package]bool
	lazyTried   map[*ssa.Package]bool
	incompl     map[string]int
	vios        []*violation
	harness     string
	exempt      int
	rnd         uint64
	forkSites   map[string]int64
	closeN      int
	mapLabel    int
	initMsgs    []string
	side        map[*V]*V // hidden state of modelled library objects
	sideMaps    map[*V]*MapObj
	tier        int
	names       map[string]int
	bounds      map[string]string
	deadline    func() bool
	known       map[string]bool
	pendingWit  map[string]uint64
	sideNew     []*V
	freezeLabel string
	digitMemo   map[digitKey]V
	digitRev    map[*Term]digitKey
	floatNote   map[*Term][]V
}

type siteStat struct{ tries, fails, gain int }

type Alt struct {
	log []byte
	wit []NV
}

type NV struct {
	Name string
	Val  uint64
}

type obsEnt struct {
	label string
	v     V
	t     *RType
}

type inputEnt struct {
	name string
	v    *Term
	kind string
	val  uint64
}

type qres struct {
	res  Res
	vals []uint64
	vars []*Term
}

type violation struct {
	kind    string
	msg     string
	wit     *Model
	inputs  []NV
	harness string
	native  string
}

type Stats struct {
	paths, complete, infeasible, incomplete int64
	instrs                                  int64
	branches, forks, merges, mergedPaths    int64
	assertQ, assertConst                    int64
	cacheHits, domHits, quickWit, finite    int64
}

func (m *M) unsupported(format string, a ...any) {
	panic(pathAbort{"unsupported", fmt.Sprintf(format, a...)})
}

func (m *M) eval(t *Term, w *Model) uint64 {
	if t.op == OConst {
		return t.val
	}
	if m.evalWit != w || m.evalEp != m.ts.epoch {
		m.ts.evIn(w.valsOr(), 0)
		m.evalWit, m.evalEp = w, m.ts.epoch
	}
	return m.ts.ev(t)
}

var noVals = []uint64{}

func (w *Model) valsOr() []uint64 {
	if w.vals == nil {
		return noVals
	}
	return w.vals
}

// ---- trail -----------------------------------------------------------------

func (m *M) set(p *V, v V) {
	if m.freezeOn {
		m.checkFrozen(p)
	}
	m.trail = append(m.trail, trailEnt{p: p, old: *p})
	*p = v
}

// store writes v (a register value) of type t to memory; structs in place.
func (m *M) store(p *V, v V, t *RType) {
	if sv, ok := v.x.(*SV); ok {
		d, ok := p.x.(*SV)
		if !ok {
			m.unsupported("struct store into %T", p.x)
		}
		var et *RType
		if t != nil {
			t.init()
			et = t.elem
		}
		for i := range sv.f {
			if t != nil && t.k == kStruct {
				et = t.fields[i]
			}
			m.store(&d.f[i], sv.f[i], et)
		}
		return
	}
	if m.freezeOn {
		m.checkFrozen(p)
	}
	m.trail = append(m.trail, trailEnt{p: p, old: *p, t: t})
	*p = v
}

func (m *M) note(undo, redo func()) {
	m.trail = append(m.trail, trailEnt{undo: undo, redo: redo})
}

func (m *M) undoTo(n int) {
	for i := len(m.trail) - 1; i >= n; i-- {
		e := &m.trail[i]
		if e.p != nil {
			*e.p = e.old
		} else {
			e.undo()
		}
		*e = trailEnt{}
	}
	m.trail = m.trail[:n]
}

// ---- path condition --------------------------------------------------------

func (m *M) smallVar(idx int32) bool { return idx >= 0 }

func (m *M) domOf(idx int32) *[4]uint64 {
	for int(idx) >= len(m.dom) {
		i := len(m.dom)
		m.dom = append(m.dom, initialDom(m.ts.vars[i]))
	}
	return &m.dom[idx]
}

func initialDom(v *Term) [4]uint64 {
	var d [4]uint64
	if v.w > 8 {
		return d
	}
	hi := v.hi
	if v.w == 0 {
		hi = 1
	}
	for x := v.lo; x <= hi; x++ {
		d[x>>6] |= 1 << (x & 63)
	}
	return d
}

func inter(a, b *[4]uint64) (r [4]uint64, nonempty bool) {
	for i := range a {
		r[i] = a[i] & b[i]
		if r[i] != 0 {
			nonempty = true
		}
	}
	return
}

func pick(a *[4]uint64) uint64 {
	for i, w := range a {
		if w != 0 {
			return uint64(i*64 + bits.TrailingZeros64(w))
		}
	}
	return 0
}

func (m *M) addPC(c *Term) {
	if c.op == OAnd {
		for _, a := range c.args {
			m.addPC(a)
		}
		return
	}
	if c.op == OConst {
		return
	}
	e := pcEnt{c: c}
	if c.una >= 0 {
		d := m.domOf(c.una)
		e.old = *d
		nd, _ := inter(d, m.ts.truthSet(c))
		*d = nd
		m.unary[c.una] = append(m.unary[c.una], c)
	} else {
		m.multi = append(m.multi, c)
		for _, v := range m.ts.varsOf(c) {
			m.multiCnt[int32(v.val)]++
		}
	}
	e.h = (m.pcHash()^uint64(uint32(c.id)))*0x9E3779B97F4A7C15 + 0x7F4A7C15
	e.h ^= e.h >> 29
	m.pc = append(m.pc, e)
}

func (m *M) pcHash() uint64 {
	if len(m.pc) == 0 {
		return 0
	}
	return m.pc[len(m.pc)-1].h
}

// decKey identifies a decision point of the current path. Nested explorations
// revisit such points; what was decided there first is decided again.
type decKey struct {
	site  any
	pc    uint64
	trail int
	fresh int
}

func (m *M) decAt(site any) decKey { return decKey{site, m.pcHash(), len(m.trail), m.fresh} }

func (m *M) pcUndo(n int) {
	for i := len(m.pc) - 1; i >= n; i-- {
		e := &m.pc[i]
		c := e.c
		if c.una >= 0 {
			m.dom[c.una] = e.old
			u := m.unary[c.una]
			m.unary[c.una] = u[:len(u)-1]
		} else {
			m.multi = m.multi[:len(m.multi)-1]
			for _, v := range m.ts.varsOf(c) {
				m.multiCnt[int32(v.val)]--
			}
		}
	}
	m.pc = m.pc[:n]
}

// slice returns the path constraints that share variables (transitively) with
// c, and all variables involved.
func (m *M) slice(c *Term) ([]*Term, []*Term) {
	seen := map[int32]bool{}
	var work, vars []*Term
	for _, v := range m.ts.varsOf(c) {
		if !seen[int32(v.val)] {
			seen[int32(v.val)] = true
			work = append(work, v)
		}
	}
	used := make([]bool, len(m.multi))
	var cs []*Term
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		vars = append(vars, v)
		cs = append(cs, m.unary[int32(v.val)]...)
		if m.multiCnt[int32(v.val)] == 0 {
			continue
		}
		for i, mc := range m.multi {
			if used[i] {
				continue
			}
			hit := false
			mv := m.ts.varsOf(mc)
			for _, x := range mv {
				if x == v {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				cs = append(cs, mc)
				for _, x := range mv {
					if !seen[int32(x.val)] {
						seen[int32(x.val)] = true
						work = append(work, x)
					}
				}
			}
		}
	}
	return cs, vars
}

// query decides satisfiability of PC ∧ c with the solver and returns a full
// witness on sat.
func (m *M) query(c *Term, fin bool) (Res, *Model) {
	cs, vars := m.slice(c)
	cs = append(cs, c)
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	key := make([]byte, 0, len(cs)*4)
	last := int32(-1)
	uniq := cs[:0]
	for _, x := range cs {
		if x.id == last {
			continue
		}
		last = x.id
		uniq = append(uniq, x)
		key = binary.LittleEndian.AppendUint32(key, uint32(x.id))
	}
	r, ok := m.qcache[string(key)]
	if !ok {
		if vals := m.guess(c, uniq, vars); vals != nil {
			m.stats.quickWit++
			m.qcache[string(key)] = qres{rSat, vals, vars}
			return rSat, m.withVals(vars, vals)
		}
		if fin {
			r, ok = m.finite(c, uniq, vars)
		}
		if !ok {
			r.vars = vars
			r.res, r.vals = m.sol.check(uniq, vars)
		}
		if len(m.qcache) > 300000 {
			clear(m.qcache)
		}
		m.qcache[string(key)] = r
	} else {
		m.stats.cacheHits++
	}
	if r.res != rSat {
		return r.res, nil
	}
	return rSat, m.withVals(r.vars, r.vals)
}

// guess looks for an assignment near the current witness that satisfies the
// constraints cs (which include c); nil if it finds none.
func (m *M) guess(c *Term, cs, vars []*Term) []uint64 {
	cv := m.ts.varsOf(c)
	if len(cv) == 0 || len(cv) > 40 {
		return nil
	}
	n := len(m.wit.vals)
	for _, v := range vars {
		if int(v.val) >= n {
			n = int(v.val) + 1
		}
	}
	base := make([]uint64, n)
	for i := range base {
		base[i] = m.mval(m.wit, m.ts.vars[i])
	}
	var consts []uint64
	for _, v := range cv {
		if v.w > 8 {
			consts = constsOf(c)
			break
		}
	}
	rnd := m.rnd*2862933555777941757 + uint64(uint32(c.id))
	next := func(k int) int {
		rnd = rnd*6364136223846793005 + 1442695040888963407
		return int((rnd >> 33) % uint64(k))
	}
	vals := make([]uint64, n)
	for try := 0; try < 64; try++ {
		copy(vals, base)
		nv := 1
		if try >= 16 {
			nv = 1 + next(3)
		}
		if try >= 48 {
			nv = len(cv)
		}
		for k := 0; k < nv; k++ {
			v := cv[next(len(cv))]
			if nv == len(cv) {
				v = cv[k]
			}
			if v.w <= 8 {
				d := m.domOf(int32(v.val))
				cnt := 0
				for _, w := range d {
					cnt += bits.OnesCount64(w)
				}
				if cnt == 0 {
					return nil
				}
				vals[v.val] = nth(d, next(cnt))
			} else {
				x := base[v.val]
				switch next(6) {
				case 0:
					x++
				case 1:
					x--
				case 2:
					x = uint64(next(12))
				case 3:
					x = -uint64(next(12))
				case 4:
					x ^= 1 << uint(next(int(v.w)))
				case 5:
					if len(consts) > 0 {
						x = consts[next(len(consts))] + uint64(next(3)) - 1
					}
				}
				x &= mask(v.w)
				if x < v.lo || x > v.hi {
					x = v.lo + x%(v.hi-v.lo+1)
				}
				vals[v.val] = x
			}
		}
		m.ts.evIn(vals, 0)
		if m.ts.ev(c) != 1 {
			continue
		}
		ok := true
		for _, x := range cs {
			if m.ts.ev(x) != 1 {
				ok = false
				break
			}
		}
		if ok {
			out := make([]uint64, len(vars))
			for i, v := range vars {
				out[i] = vals[v.val]
			}
			return out
		}
	}
	return nil
}

func nth(d *[4]uint64, k int) uint64 {
	for i, w := range d {
		c := bits.OnesCount64(w)
		if k >= c {
			k -= c
			continue
		}
		for ; k > 0; k-- {
			w &= w - 1
		}
		return uint64(i*64 + bits.TrailingZeros64(w))
	}
	return 0
}

func constsOf(t *Term) []uint64 {
	var out []uint64
	seen := map[int32]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t.id] || len(seen) > 400 {
			return
		}
		seen[t.id] = true
		if t.op == OConst && t.w > 8 {
			out = append(out, t.val)
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	return out
}

func (m *M) withVals(vars []*Term, vals []uint64) *Model {
	n := len(m.wit.vals)
	for _, v := range vars {
		if int(v.val) >= n {
			n = int(v.val) + 1
		}
	}
	w := &Model{vals: make([]uint64, n)}
	copy(w.vals, m.wit.vals)
	for i := len(m.wit.vals); i < n; i++ {
		w.vals[i] = m.ts.vars[i].lo
	}
	for i, v := range vars {
		w.vals[v.val] = vals[i]
	}
	return w
}

// possible decides whether PC ∧ c is satisfiable.
func (m *M) possible(c *Term) (Res, *Model) {
	if c.op == OConst {
		if c.val == 1 {
			return rSat, m.wit
		}
		return rUnsat, nil
	}
	if c.una >= 0 {
		d, ne := inter(m.domOf(c.una), m.ts.truthSet(c))
		if !ne {
			m.stats.domHits++
			return rUnsat, nil
		}
		if m.multiCnt[c.una] == 0 {
			m.stats.domHits++
			return rSat, m.withVals([]*Term{m.ts.vars[c.una]}, []uint64{pick(&d)})
		}
	}
	return m.query(c, true)
}

// finite decides PC ∧ c by complete evaluation when the variables involved
// have few possible values altogether.
func (m *M) finite(c *Term, cs, vars []*Term) (qres, bool) {
	const limit = 3000
	if len(vars) > 4 {
		return qres{}, false
	}
	size := 1
	doms := make([][]uint64, len(vars))
	for i, v := range vars {
		if v.w > 8 {
			return qres{}, false
		}
		d := m.domOf(int32(v.val))
		n := 0
		for _, w := range d {
			n += bits.OnesCount64(w)
		}
		size *= n
		if size > limit {
			return qres{}, false
		}
		for w, x := range d {
			for ; x != 0; x &= x - 1 {
				doms[i] = append(doms[i], uint64(w*64+bits.TrailingZeros64(x)))
			}
		}
	}
	m.stats.finite++
	if size == 0 {
		return qres{res: rUnsat, vars: vars}, true
	}
	conds := []*Term{c}
	for _, x := range cs {
		if x.una < 0 {
			conds = append(conds, x)
		}
	}
	n := 0
	for _, v := range vars {
		if int(v.val) >= n {
			n = int(v.val) + 1
		}
	}
	vals := make([]uint64, n)
	idx := make([]int, len(vars))
	for {
		for i, v := range vars {
			vals[v.val] = doms[i][idx[i]]
		}
		m.ts.evIn(vals, 0)
		ok := true
		for _, x := range conds {
			if m.ts.ev(x) != 1 {
				ok = false
				break
			}
		}
		if ok {
			out := make([]uint64, len(vars))
			for i, v := range vars {
				out[i] = vals[v.val]
			}
			return qres{rSat, out, vars}, true
		}
		k := 0
		for k < len(idx) {
			idx[k]++
			if idx[k] < len(doms[k]) {
				break
			}
			idx[k] = 0
			k++
		}
		if k == len(idx) {
			return qres{res: rUnsat, vars: vars}, true
		}
	}
}

// feas determines which outcomes of c are possible, with witnesses.
func (m *M) feas(c *Term) (t, f bool, wt, wf *Model) {
	m.stats.branches++
	if m.eval(c, m.wit) == 1 {
		t, wt = true, m.wit
		r, w := m.possible(m.ts.Not(c))
		switch r {
		case rSat:
			f, wf = true, w
		case rUnknown:
			m.unknownSide()
		}
	} else {
		f, wf = true, m.wit
		r, w := m.possible(c)
		switch r {
		case rSat:
			t, wt = true, w
		case rUnknown:
			m.unknownSide()
		}
	}
	return
}

func (m *M) unknownSide() {
	// one side of a branch could not be decided: the claim loses that side
	m.stats.incomplete++
	m.noteIncomplete("solver gave no answer for one side of a branch")
}

const (
	evF = iota
	evT
	evFF // forced false
	evFT // forced true
)

func (m *M) replaying() bool { return m.logPos < len(m.log) }

// checkTime ends a path that takes far longer than any path of code that
// terminates within the bounds. The input that leads there is then tried
// natively.
func (m *M) checkTime() {
	if !m.pathStart.IsZero() {
		if d := time.Since(m.pathStart); d > m.opts.MaxPath {
			panic(pathAbort{"time", "time bound of one path in " + m.where()})
		}
	}
}

// branch returns the truth value of c on this path, forking if both are
// possible.
func (m *M) branch(c *Term) bool {
	if c.op == OConst {
		return c.val == 1
	}
	m.checkTime()
	if e := m.nest; e != nil {
		if e.pos < len(e.prefix) {
			d := e.prefix[e.pos]
			e.pos++
			e.cur = append(e.cur, d)
			if d < evFF {
				m.take(c, d == evT)
			}
			return d&1 == 1
		}
		var ev byte
		var wt, wf *Model
		if m.replaying() {
			ev = m.log[m.logPos]
			m.logPos++
		} else {
			t, f, a, b := m.feas(c)
			wt, wf = a, b
			switch {
			case t && f:
				ev = 10
			case t:
				ev = evFT
			default:
				ev = evFF
			}
			m.log = append(m.log, ev)
			m.logPos++
		}
		e.pos = len(e.prefix) + 1 // keep pos beyond prefix
		if ev != 10 {
			e.cur = append(e.cur, uint64(ev))
			return ev == evFT
		}
		alt := append(append([]uint64(nil), e.cur...), evF)
		e.pend = append(e.pend, pend{alt, wf})
		e.cur = append(e.cur, evT)
		if wt != nil {
			m.wit = wt
		}
		m.take(c, true)
		return true
	}
	if m.replaying() {
		d := m.log[m.logPos]
		m.logPos++
		if d < evFF {
			m.take(c, d == evT)
		}
		return d&1 == 1
	}
	t, f, wt, wf := m.feas(c)
	if t && f {
		m.stats.forks++
		if m.forkSites != nil {
			m.forkSites[m.where()]++
		}
		// stay on the side of the current witness
		side := wt == m.wit
		alt := append(append(make([]byte, 0, len(m.log)+1), m.log...), byte(b2u(!side)))
		w := wf
		if !side {
			w = wt
		}
		m.newAlts = append(m.newAlts, Alt{alt, m.exportWit(w)})
		m.log = append(m.log, byte(b2u(side)))
		m.logPos++
		m.take(c, side)
		return side
	}
	d := byte(evFF)
	if t {
		d = evFT
	}
	m.log = append(m.log, d)
	m.logPos++
	return t
}

func (m *M) take(c *Term, v bool) {
	if !v {
		c = m.ts.Not(c)
	}
	m.addPC(c)
}

func (m *M) exportWit(w *Model) []NV {
	out := make([]NV, 0, len(w.vals))
	for i, v := range w.vals {
		t := m.ts.vars[i]
		if v != t.lo {
			out = append(out, NV{t.name, v})
		}
	}
	return out
}

// evValue records a value decided by compute in the event log.
func (m *M) evValue(site any, compute func() uint64) uint64 {
	if e := m.nest; e != nil {
		if e.pos < len(e.prefix) {
			v := e.prefix[e.pos]
			e.pos++
			e.cur = append(e.cur, v)
			return v
		}
		k := m.decAt(site)
		v := m.logValue(func() uint64 {
			if v, ok := m.decMemo[k]; ok {
				return v
			}
			return compute()
		})
		m.decMemo[k] = v
		e.pos = len(e.prefix) + 1
		e.cur = append(e.cur, v)
		return v
	}
	return m.logValue(compute)
}

func (m *M) logValue(compute func() uint64) uint64 {
	if m.replaying() {
		v := binary.LittleEndian.Uint64(m.log[m.logPos:])
		m.logPos += 8
		return v
	}
	v := compute()
	m.log = binary.LittleEndian.AppendUint64(m.log, v)
	m.logPos += 8
	return v
}

// concretize returns a concrete value of t on this path, forking over all
// possible values.
func (m *M) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	for i := 0; ; i++ {
		if i > 70000 {
			m.unsupported("concretize: too many values")
		}
		v := m.evValue(t, func() uint64 { return m.eval(t, m.wit) })
		if m.branch(m.ts.Eq(t, m.ts.Const(v, t.w))) {
			return v
		}
	}
}

func (m *M) concInt(v V) int {
	if v.x == nil {
		return int(v.n)
	}
	t, ok := v.x.(*Term)
	if !ok {
		m.unsupported("concInt of %T", v.x)
	}
	return int(sext(m.concretize(t), t.w))
}

// choose makes an unconstrained choice among n alternatives.
func (m *M) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if e := m.nest; e != nil {
		if e.pos < len(e.prefix) {
			d := e.prefix[e.pos]
			e.pos++
			e.cur = append(e.cur, d)
			return int(d)
		}
		e.pos = len(e.prefix) + 1
		for k := n - 1; k >= 1; k-- {
			alt := append(append([]uint64(nil), e.cur...), uint64(k))
			e.pend = append(e.pend, pend{alt, m.wit})
		}
		e.cur = append(e.cur, 0)
		return 0
	}
	if m.replaying() {
		d := m.log[m.logPos]
		m.logPos++
		return int(d)
	}
	if n > 250 {
		m.unsupported("choose among %d", n)
	}
	for k := n - 1; k >= 1; k-- {
		alt := append(append(make([]byte, 0, len(m.log)+1), m.log...), byte(k))
		m.newAlts = append(m.newAlts, Alt{alt, m.exportWit(m.wit)})
	}
	m.log = append(m.log, 0)
	m.logPos++
	return 0
}

// chooseGroup picks one of several merged outcome groups, each with a witness.
func (m *M) chooseGroup(wits []*Model) int {
	n := len(wits)
	if n <= 1 {
		// a single group adds no constraint: the witness at entry stays valid
		return 0
	}
	if e := m.nest; e != nil {
		if e.pos < len(e.prefix) {
			d := e.prefix[e.pos]
			e.pos++
			e.cur = append(e.cur, d)
			return int(d)
		}
		for k := n - 1; k >= 1; k-- {
			alt := append(append([]uint64(nil), e.cur...), uint64(k))
			e.pend = append(e.pend, pend{alt, wits[k]})
		}
		e.cur = append(e.cur, 0)
		if !m.replaying() && wits[0] != nil {
			m.wit = wits[0]
		}
		return 0
	}
	if m.replaying() {
		d := m.log[m.logPos]
		m.logPos++
		return int(d)
	}
	for k := n - 1; k >= 1; k-- {
		alt := append(append(make([]byte, 0, len(m.log)+1), m.log...), byte(k))
		m.newAlts = append(m.newAlts, Alt{alt, m.exportWit(wits[k])})
		m.stats.forks++
	}
	if m.forkSites != nil {
		m.forkSites[m.where()] += int64(n - 1)
	}
	m.log = append(m.log, 0)
	m.logPos++
	m.wit = wits[0]
	return 0
}

func (m *M) assume(c *Term) {
	if c.op == OConst {
		if c.val == 0 {
			panic(pathAbort{"infeasible", "assume"})
		}
		return
	}
	// decided like a branch whose other side is discarded
	if m.nest != nil {
		panic(subAbort{"assume"})
	}
	if m.replaying() {
		d := m.log[m.logPos]
		m.logPos++
		if d == evT {
			m.take(c, true)
		}
		return
	}
	if m.eval(c, m.wit) != 1 {
		r, w := m.possible(c)
		if r == rUnsat {
			panic(pathAbort{"infeasible", "assume"})
		}
		if r == rUnknown {
			m.unknownSide()
			panic(pathAbort{"unknown", "assume"})
		}
		m.wit = w
	}
	m.log = append(m.log, evT)
	m.logPos++
	m.take(c, true)
}

// assert decides the assertion for every value on this path.
func (m *M) assert(c *Term, msg string) {
	if m.nest != nil {
		panic(subAbort{"assert"})
	}
	m.asserts++
	if c.op == OConst {
		m.stats.assertConst++
		if c.val == 1 {
			return
		}
		panic(violationAbort{"assert", msg})
	}
	if m.replaying() {
		d := m.log[m.logPos]
		m.logPos++
		if d == evT {
			m.take(c, true)
			return
		}
		return
	}
	m.stats.assertQ++
	nc := m.ts.Not(c)
	r, w := m.query(nc, false)
	switch r {
	case rUnsat:
		m.log = append(m.log, evFT)
		m.logPos++
		return
	case rSat:
		ow := m.wit
		m.wit = w
		m.addViolation("assert", msg)
		m.wit = ow
		// continue on the satisfying side if there is one
		if m.eval(c, m.wit) != 1 {
			r, w := m.possible(c)
			if r != rSat {
				panic(pathAbort{"stop", "assertion always fails"})
			}
			m.wit = w
		}
		m.log = append(m.log, evT)
		m.logPos++
		m.take(c, true)
	default:
		m.stats.incomplete++
		m.noteIncomplete("assertion undecided (solver timeout): " + msg)
		m.log = append(m.log, evFT)
		m.logPos++
	}
}

type violationAbort struct{ kind, msg string }

func (ts *Terms) varsOf(t *Term) []*Term {
	if t.vars == nil {
		seen := map[int32]bool{}
		out := []*Term{}
		t.collectVars(seen, &out)
		t.vars = out
	}
	return t.vars
}

// freshName returns a name that is the same whenever this point of this path
// is reached again.
func (m *M) freshName(base string) string {
	m.fresh++
	return fmt.Sprintf("%s!%d", base, m.fresh)
}

// ---- nested exploration ------------------------------------------------------

type internalErr struct {
	r     any
	stack string
}

func (e *internalErr) Error() string { return fmt.Sprint(e.r, "\n", e.stack) }

type write struct {
	p *V
	v V
	t *RType
}

type outcome struct {
	kind   int // 0 block, 1 return
	target int
	regs   []V
	res    V
	writes []write
	ops    []trailEnt // full segment for redo
	opaque bool
	delta  []*Term
	cond   *Term
	wit    *Model
	abn    bool
	fresh  int
	frameN int
}

// subExplore enumerates the paths of run from the current state. It restores
// the state and reports the outcomes, or nil if merging is not worthwhile.
func (m *M) subExplore(maxPaths int, maxSteps int64, run func(o *outcome)) (outs []*outcome) {
	base, pcBase, wit, fresh := len(m.trail), len(m.pc), m.wit, m.fresh
	logStart := m.logPos
	recording := !m.replaying()
	e := &explorer{parent: m.nest}
	m.nest = e
	m.nestDepth++
	if e.parent == nil {
		m.rootLimit = m.steps + m.opts.RootSteps
	}
	oldMax := m.maxSteps
	depth, exempt, panFrame := m.depth, m.exempt, m.panFrame
	restore := func() {
		m.nest = e.parent
		m.nestDepth--
		m.wit = wit
		m.maxSteps = oldMax
		m.depth, m.exempt, m.panFrame = depth, exempt, panFrame
	}
	fail := func() []*outcome {
		m.undoTo(base)
		m.pcUndo(pcBase)
		m.fresh = fresh
		restore()
		if recording {
			m.log = m.log[:logStart]
			m.logPos = logStart
		}
		return nil
	}
	for {
		o := &outcome{}
		m.maxSteps = m.steps + maxSteps
		up := false
		abort := func() (ab bool) {
			defer func() {
				if r := recover(); r != nil {
					switch x := r.(type) {
					case subAbort:
						ab = x.why == "root"
						up = ab
						o.abn = true
					case *tPanic:
						o.abn = true
					case pathAbort:
						if x.kind == "time" {
							panic(r)
						}
						o.abn = true
						if x.kind == "steps" {
							ab = true
						}
					case violationAbort:
						o.abn = true
					default:
						if m.opts.Debug {
							if _, ok := r.(*internalErr); !ok {
								r = &internalErr{r, trimStack(string(debug.Stack()))}
							}
						}
						panic(r)
					}
				}
			}()
			run(o)
			return false
		}()
		m.depth, m.exempt, m.panFrame = depth, exempt, panFrame
		for i := pcBase; i < len(m.pc); i++ {
			o.delta = append(o.delta, m.pc[i].c)
		}
		o.wit = m.wit
		o.fresh = m.fresh
		if !o.abn {
			seg := m.trail[base:]
			o.ops = make([]trailEnt, len(seg))
			seen := map[*V]bool{}
			for i, t := range seg {
				if t.p != nil {
					v := *t.p
					o.ops[i] = trailEnt{p: t.p, old: v} // old holds the final value here
					if !seen[t.p] {
						seen[t.p] = true
						o.writes = append(o.writes, write{t.p, v, t.t})
					}
				} else {
					o.ops[i] = t
					o.opaque = true
				}
			}
		}
		m.undoTo(base)
		m.pcUndo(pcBase)
		m.fresh = fresh
		outs = append(outs, o)
		if up && e.parent != nil {
			fail()
			panic(subAbort{"root"})
		}
		if abort || len(outs)+len(e.pend) > maxPaths {
			return fail()
		}
		if len(e.pend) == 0 {
			break
		}
		p := e.pend[len(e.pend)-1]
		e.pend = e.pend[:len(e.pend)-1]
		e.prefix, e.pos, e.cur = p.prefix, 0, nil
		if p.wit != nil {
			m.wit = p.wit
		}
	}
	restore()
	return outs
}
