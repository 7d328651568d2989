package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Opts struct {
	Merge     bool
	MaxRegion int
	MaxCall   int
	MaxSteps  int64
	MaxDepth  int
	RootSteps int64
	SolverMs  int
	MaxPath   time.Duration
	Debug     bool
}

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "gosym: "+format+"\n", a...)
	os.Exit(2)
}

func newM(p *Prog, id int, opts *Opts, tier int) *M {
	m := &M{p: p, id: id, opts: opts, tier: tier}
	m.resetTerms()
	m.funcs = map[*Fn]bool{}
	m.siteStat = map[*If2]*siteStat{}
	m.callStat = map[*Fn]*siteStat{}
	m.side = map[*V]*V{}
	m.incompl = map[string]int{}
	m.bounds = map[string]string{}
	m.floatNote = map[*Term][]V{}
	m.wit = &Model{}
	if os.Getenv("GOSYM_FORKS") != "" {
		m.forkSites = map[string]int64{}
	}
	m.runInit()
	m.sideNew = nil
	return m
}

func (m *M) resetTerms() {
	m.ts = newTerms()
	if m.sol != nil {
		old := m.sol
		old.stop()
		m.sol = newSolver(m.ts, m.opts.SolverMs)
		m.sol.queries, m.sol.sat, m.sol.unsat, m.sol.unknown, m.sol.dur, m.sol.maxDur = old.queries, old.sat, old.unsat, old.unknown, old.dur, old.maxDur
	} else {
		m.sol = newSolver(m.ts, m.opts.SolverMs)
	}
	m.qcache = map[string]qres{}
	m.evalWit = nil
	m.unary = map[int32][]*Term{}
	m.multiCnt = map[int32]int{}
	m.multi = nil
	m.dom = nil
}

func (m *M) noteIncomplete(msg string) { m.incompl[msg]++ }

// pathResult is what one execution established.
type pathResult struct {
	status string // complete, infeasible, incomplete, violation
	reason string
	inputs []NV
	obs    []string
	known  []string
}

func (m *M) runPath(h *ssa.Function, alt Alt) (res pathResult) {
	if len(m.ts.all) > 1500000 {
		m.resetTerms()
	}
	m.trail = m.trail[:0]
	m.pc = m.pc[:0]
	m.dom = m.dom[:0]
	clear(m.unary)
	clear(m.multiCnt)
	m.multi = m.multi[:0]
	m.log = append(m.log[:0:0], alt.log...)
	m.logPos = 0
	m.nest = nil
	m.nestDepth = 0
	m.newAlts = nil
	m.fresh = 0
	m.decMemo = map[decKey]uint64{}
	m.steps, m.nextCheck = 0, 20000
	m.pathStart = time.Now()
	m.maxSteps = m.opts.MaxSteps
	m.depth = 0
	m.exempt = 0
	m.curFrame, m.panFrame = nil, nil
	m.obs = nil
	m.asserts = 0
	m.reached = map[string]bool{}
	m.inputs = nil
	m.mapOrder = false
	m.freezeOn = false
	m.frozen, m.frozenMaps = nil, nil
	m.vios = nil
	m.names = map[string]int{}
	m.known = map[string]bool{}
	m.memo = map[string]V{}
	m.digitMemo = nil
	m.digitRev = nil
	clear(m.floatNote)
	m.wit = &Model{}
	if len(alt.wit) > 0 {
		m.pendingWit = map[string]uint64{}
		for _, nv := range alt.wit {
			m.pendingWit[nv.Name] = nv.Val
		}
		m.applyWit()
	} else {
		m.pendingWit = nil
	}
	m.stats.paths++
	func() {
		defer func() {
			r := recover()
			if r == nil {
				res.status = "complete"
				return
			}
			switch x := r.(type) {
			case pathAbort:
				switch x.kind {
				case "infeasible", "stop":
					res.status = x.kind
				case "steps", "time":
					res.status = "steps"
					res.reason = x.msg
				default:
					res.status = "incomplete"
					res.reason = x.msg
				}
			case *tPanic:
				res.status = "violation"
				m.addViolation("panic", x.msg)
			case violationAbort:
				res.status = "violation"
				m.addViolation(x.kind, x.msg)
			case subAbort:
				res.status = "incomplete"
				res.reason = "internal: stray " + x.why
			default:
				res.status = "incomplete"
				res.reason = fmt.Sprintf("internal error: %v in %s", r, m.where())
				if m.opts.Debug || !internalSeen[fmt.Sprint(r)] {
					internalMu.Lock()
					internalSeen[fmt.Sprint(r)] = true
					internalMu.Unlock()
					fmt.Fprintf(os.Stderr, "internal error: %v in %s\n%s\n", r, m.where(), trimStack(string(debug.Stack())))
				}
			}
		}()
		m.exec2h(h)
	}()
	m.nest = nil
	switch res.status {
	case "complete":
		m.stats.complete++
		if m.reached == nil {
			m.reached = map[string]bool{}
		}
	case "infeasible", "stop":
		m.stats.infeasible++
	case "incomplete":
		m.stats.incomplete++
		m.noteIncomplete(res.reason)
	}
	if res.status == "complete" {
		for i := range m.pc {
			if m.eval(m.pc[i].c, m.wit) != 1 {
				res.status, res.reason = "incomplete", "internal: witness violates the path condition"
				m.stats.complete--
				m.stats.incomplete++
				m.noteIncomplete(res.reason)
				break
			}
		}
	}
	res.inputs = m.inputVals(m.wit)
	for _, o := range m.obs {
		res.obs = append(res.obs, o.label+"="+m.concreteStr(o.v))
	}
	for k := range m.known {
		res.known = append(res.known, k)
	}
	m.stats.instrs += m.steps
	if d := time.Since(m.pathStart); d > m.maxPath {
		m.maxPath = d
	}
	m.pathStart = time.Time{}
	m.freezeOn = false
	m.undoTo(0)
	for _, c := range m.sideNew {
		delete(m.side, c)
	}
	m.sideNew = m.sideNew[:0]
	return
}

var internalSeen = map[string]bool{}
var internalMu sync.Mutex

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	var out []string
	for i := 0; i < len(l) && len(out) < 24; i++ {
		if strings.Contains(l[i], "/verif/engine") {
			out = append(out, l[i])
		}
	}
	return strings.Join(out, "\n")
}

func (m *M) exec2h(h *ssa.Function) {
	fn := m.p.fn(h)
	fn.prep(m.p)
	m.exec(fn, nil, nil)
}

// applyWit moves named witness values to variables that exist by now.
func (m *M) applyWit() {
	w := &Model{vals: make([]uint64, len(m.ts.vars))}
	for i, t := range m.ts.vars {
		if v, ok := m.pendingWit[t.name]; ok {
			w.vals[i] = v
		} else {
			w.vals[i] = t.lo
		}
	}
	m.wit = w
}

func (m *M) inputVals(w *Model) []NV {
	var out []NV
	for _, i := range m.inputs {
		if i.v == nil {
			out = append(out, NV{i.name, i.val})
		} else {
			out = append(out, NV{i.name, m.mval(w, i.v)})
		}
	}
	return out
}

// concreteStr evaluates a string value under the witness.
func (m *M) concreteStr(v V) string {
	b := strBytes(v)
	out := make([]byte, len(b))
	for i := range b {
		if t, ok := b[i].x.(*Term); ok {
			out[i] = byte(m.eval(t, m.wit))
		} else {
			out[i] = byte(b[i].n)
		}
	}
	return string(out)
}

func (m *M) addViolation(kind, msg string) {
	if kind != "assert" {
		msg = msg + " at " + m.where()
	}
	m.vios = append(m.vios, &violation{kind: kind, msg: msg, wit: m.wit, inputs: m.inputVals(m.wit)})
}

// ---- read-only checking -------------------------------------------------------

func (m *M) freeze(v V, label string) {
	m.frozen = map[*V]string{}
	m.frozenMaps = map[*MapObj]string{}
	m.freezeLabel = label
	m.freezeWalk(v, label, 0)
	for pkg := range m.p.repoPkgs {
		for _, mem := range pkg.Members {
			if g, ok := mem.(*ssa.Global); ok && m.initOK[pkg] {
				m.global(m.p.globalIdx(g))
			}
		}
	}
	for i, g := range m.globals {
		if g == nil {
			continue
		}
		m.p.gmu.Lock()
		gl := m.p.globs[i]
		m.p.gmu.Unlock()
		if gl.Pkg != nil && m.p.repoPkgs[gl.Pkg] {
			m.freezeCell(g, "package variable "+gl.Name(), 0)
		}
	}
	m.freezeOn = true
	m.note(func() { m.freezeOn = false }, func() { m.freezeOn = true })
}

func (m *M) unfreeze() {
	m.freezeOn = false
}

func (m *M) freezeCell(c *V, label string, d int) {
	if _, ok := m.frozen[c]; ok || d > 200 {
		return
	}
	m.frozen[c] = label
	m.freezeWalk(*c, label, d+1)
}

func (m *M) freezeWalk(v V, label string, d int) {
	switch x := v.x.(type) {
	case *V:
		m.freezeCell(x, label, d)
	case *SL:
		// also the spare capacity, which others may be sharing
		a := x.a[:cap(x.a)]
		for i := range a {
			m.freezeCell(&a[i], label, d)
		}
	case *SV:
		for i := range x.f {
			m.freezeCell(&x.f[i], label, d)
		}
	case *IF:
		m.freezeWalk(x.v, label, d)
	case *MapObj:
		if _, ok := m.frozenMaps[x]; ok {
			return
		}
		m.frozenMaps[x] = label
		for _, e := range x.ents {
			m.freezeWalk(e.v, label, d)
			m.freezeWalk(e.k, label, d)
		}
	}
}

func (m *M) checkFrozen(p *V) {
	if l, ok := m.frozen[p]; ok && m.exempt == 0 {
		if m.nest != nil {
			panic(subAbort{"frozen write"})
		}
		m.freezeOn = false
		panic(violationAbort{"shared-write", "writes " + l})
	}
}

func (m *M) checkMapFrozen(mo *MapObj) {
	if !m.freezeOn || m.exempt != 0 {
		return
	}
	if l, ok := m.frozenMaps[mo]; ok {
		if m.nest != nil {
			panic(subAbort{"frozen write"})
		}
		m.freezeOn = false
		panic(violationAbort{"shared-write", "writes map in " + l})
	}
}

var startTime = time.Now()
