package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	oReg opKind = iota
	oConst
	oGlobal
)

type opnd struct {
	k    opKind
	slot int32
	c    V
}

func (o *opnd) get(m *M, fr *frame) V {
	switch o.k {
	case oReg:
		return fr.r[o.slot]
	case oConst:
		return o.c
	}
	return V{x: m.global(int(o.slot))}
}

type instr func(m *M, fr *frame)

type phiMove struct {
	dst int32
	src opnd
}

type termKind uint8

const (
	tJump termKind = iota
	tIf
	tReturn
	tPanicK
)

// If2 identifies a conditional branch site.
type If2 struct {
	cond  opnd
	t, f  int
	stop  []bool // region stop set, nil if merging is not possible
	pos   token.Pos
	ready bool
	mu    sync.Once
}

type Blk struct {
	ins    []instr
	phis   [][]phiMove // per predecessor index
	tk     termKind
	iff    *If2
	next   int
	ret    []opnd
	pan    opnd
	predIx map[int]int // predecessor block -> index
	pos    token.Pos
	nins   int
}

type Fn struct {
	f         *ssa.Function
	name      string
	blks      []Blk
	nregs     int
	nparams   int
	nfree     int
	recover_  int
	hasDefer  bool
	slots     map[ssa.Value]int32
	err       string
	ready     bool
	mu        sync.Mutex
	intr      func(m *M, args []V) V
	subst     *ssa.Function
	scalarRes bool
	liveOnce  sync.Once
	live      [][]uint64 // live regs after phis per block
	ipdom     []int
	loops     [][]int // enclosing loop headers per block
	inRepo    bool
	isModel   bool
	harness   bool
	noMerge   bool
	nres      int
	resT      []*RType
	regT      []*RType
	id        int
}

func (p *Prog) fn(f *ssa.Function) *Fn {
	if x, ok := p.fns.Load(f); ok {
		return x.(*Fn)
	}
	nf := &Fn{f: f, name: f.String()}
	x, _ := p.fns.LoadOrStore(f, nf)
	return x.(*Fn)
}

func (fn *Fn) prep(p *Prog) {
	if fn.ready {
		return
	}
	fn.mu.Lock()
	defer fn.mu.Unlock()
	if fn.ready {
		return
	}
	f := fn.f
	name := fn.name
	if o := f.Origin(); o != nil {
		name = o.String()
		if name == "reflect.TypeFor" {
			t := p.rt(f.TypeArgs()[0])
			fn.intr = func(m *M, args []V) V { return m.mkType(t) }
			fn.ready = true
			return
		}
	}
	if in, ok := intrinsics[name]; ok {
		fn.intr = in
		fn.ready = true
		return
	}
	if f.Synthetic == "package initializer" {
		fn.intr = func(m *M, args []V) V { return V{} }
		fn.ready = true
		return
	}
	if s, ok := p.subst[name]; ok && s != f {
		fn.subst = s
		fn.ready = true
		return
	}
	if f.Blocks == nil {
		p.build(f)
	}
	if f.Blocks == nil {
		if in := patternIntrinsic(f, name); in != nil {
			fn.intr = in
			fn.ready = true
			return
		}
		fn.err = "no body: " + name
		fn.ready = true
		return
	}
	fn.compile(p)
	fn.ready = true
}

func (p *Prog) build(f *ssa.Function) {
	pkg := f.Pkg
	if pkg == nil && f.Origin() != nil {
		pkg = f.Origin().Pkg
	}
	if pkg != nil {
		pkg.Build()
	}
}

func (p *Prog) globalIdx(g *ssa.Global) int {
	if i, ok := p.glob.Load(g); ok {
		return i.(int)
	}
	p.gmu.Lock()
	defer p.gmu.Unlock()
	if i, ok := p.glob.Load(g); ok {
		return i.(int)
	}
	i := p.nglob
	p.nglob++
	p.globs = append(p.globs, g)
	p.glob.Store(g, i)
	return i
}

func (m *M) global(i int) *V {
	if i < len(m.globals) && m.globals[i] != nil {
		return m.globals[i]
	}
	m.p.gmu.Lock()
	g := m.p.globs[i]
	m.p.gmu.Unlock()
	for len(m.globals) <= i {
		m.globals = append(m.globals, nil)
	}
	if g.Pkg != nil && !m.initOK[g.Pkg] && !m.initing[g.Pkg] && !allowedGlobal[g.String()] && !m.lazyInit(g.Pkg) && !m.inInit {
		m.unsupported("global %s of uninitialised package", g)
	}
	if m.globals[i] != nil {
		return m.globals[i]
	}
	c := new(V)
	*c = zeroV(m.p.rt(g.Type().(*types.Pointer).Elem()))
	m.globals[i] = c
	return c
}

func constV(p *Prog, c *ssa.Const) (V, error) {
	t := p.rt(c.Type())
	if c.Value == nil {
		return zeroV(t), nil
	}
	switch t.k {
	case kBool:
		return bV(constant.BoolVal(c.Value)), nil
	case kInt:
		v := constant.ToInt(c.Value)
		if t.signed {
			n, ok := constant.Int64Val(v)
			if !ok {
				u, _ := constant.Uint64Val(v)
				n = int64(u)
			}
			return V{n: uint64(n) & mask(t.w)}, nil
		}
		n, ok := constant.Uint64Val(v)
		if !ok {
			i, _ := constant.Int64Val(v)
			n = uint64(i)
		}
		return V{n: n & mask(t.w)}, nil
	case kFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return V{n: unfbits(f, t.w)}, nil
	case kString:
		if c.Value.Kind() == constant.String {
			return V{x: constant.StringVal(c.Value)}, nil
		}
		if n, ok := constant.Int64Val(c.Value); ok {
			return V{x: string(rune(n))}, nil
		}
	case kComplex:
		return V{}, nil
	case kIface:
		return V{}, fmt.Errorf("interface constant")
	}
	return V{}, fmt.Errorf("constant of type %s", c.Type())
}

func (fn *Fn) operand(p *Prog, v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		c, err := constV(p, x)
		if err != nil {
			fn.err = err.Error()
		}
		return opnd{k: oConst, c: c}
	case *ssa.Global:
		return opnd{k: oGlobal, slot: int32(p.globalIdx(x))}
	case *ssa.Function:
		return opnd{k: oConst, c: V{x: p.closureOf(x)}}
	case *ssa.Builtin:
		return opnd{k: oConst, c: V{}}
	}
	s, ok := fn.slots[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %s in %s", v, fn.name))
	}
	return opnd{k: oReg, slot: s}
}

func (p *Prog) closureOf(f *ssa.Function) *Closure {
	if c, ok := p.clos.Load(f); ok {
		return c.(*Closure)
	}
	c, _ := p.clos.LoadOrStore(f, &Closure{fn: f})
	return c.(*Closure)
}

func (fn *Fn) compile(p *Prog) {
	f := fn.f
	fn.slots = map[ssa.Value]int32{}
	n := int32(0)
	add := func(v ssa.Value) {
		fn.slots[v] = n
		var rt *RType
		if _, ok := v.(*ssa.Range); !ok && v.Type() != nil {
			rt = p.rt(v.Type())
		}
		fn.regT = append(fn.regT, rt)
		n++
	}
	for _, x := range f.Params {
		add(x)
	}
	fn.nparams = len(f.Params)
	for _, x := range f.FreeVars {
		add(x)
	}
	fn.nfree = len(f.FreeVars)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				fn.hasDefer = true
			}
		}
	}
	fn.nregs = int(n)
	fn.recover_ = -1
	if f.Recover != nil {
		fn.recover_ = f.Recover.Index
	}
	res := f.Signature.Results()
	fn.nres = res.Len()
	fn.scalarRes = res.Len() > 0
	for i := 0; i < res.Len(); i++ {
		rt := p.rt(res.At(i).Type())
		fn.resT = append(fn.resT, rt)
		switch rt.k {
		case kBool, kInt, kFloat:
		default:
			fn.scalarRes = false
		}
	}
	pkg := f.Pkg
	if pkg == nil && f.Origin() != nil {
		pkg = f.Origin().Pkg
	}
	if pkg == nil && f.Parent() != nil {
		pkg = f.Parent().Pkg
	}
	if pkg != nil {
		fn.inRepo = p.repoPkgs[pkg]
		path := pkg.Pkg.Path()
		fn.isModel = path == "verifharness/models"
		fn.harness = path == "verifharness/h"
	}
	fn.blks = make([]Blk, len(f.Blocks))
	for bi, b := range f.Blocks {
		blk := &fn.blks[bi]
		blk.predIx = map[int]int{}
		for i, pr := range b.Preds {
			blk.predIx[pr.Index] = i
		}
		nphi := 0
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			nphi++
			if blk.phis == nil {
				blk.phis = make([][]phiMove, len(b.Preds))
			}
			for i, e := range ph.Edges {
				blk.phis[i] = append(blk.phis[i], phiMove{fn.slots[ph], fn.operand(p, e)})
			}
		}
		for _, in := range b.Instrs[nphi:] {
			if in.Pos().IsValid() && !blk.pos.IsValid() {
				blk.pos = in.Pos()
			}
			switch x := in.(type) {
			case *ssa.Jump:
				blk.tk = tJump
				blk.next = b.Succs[0].Index
			case *ssa.If:
				blk.tk = tIf
				blk.iff = &If2{cond: fn.operand(p, x.Cond), t: b.Succs[0].Index, f: b.Succs[1].Index, pos: x.Cond.Pos()}
			case *ssa.Return:
				blk.tk = tReturn
				for _, r := range x.Results {
					blk.ret = append(blk.ret, fn.operand(p, r))
				}
			case *ssa.Panic:
				blk.tk = tPanicK
				blk.pan = fn.operand(p, x.X)
			case *ssa.DebugRef:
			default:
				ci := fn.compileInstr(p, in)
				if ci != nil {
					blk.ins = append(blk.ins, ci)
				}
			}
		}
		blk.nins = len(blk.ins) + 1
	}
}

// analyse computes post-dominators, loop headers and liveness.
func (fn *Fn) analyse() {
	fn.liveOnce.Do(func() {
		f := fn.f
		n := len(f.Blocks)
		// post-dominators with virtual exit n (iterative, bitsets)
		words := (n + 1 + 63) / 64
		pd := make([][]uint64, n+1)
		full := make([]uint64, words)
		for i := 0; i <= n; i++ {
			full[i/64] |= 1 << (i % 64)
		}
		for i := 0; i < n; i++ {
			pd[i] = append([]uint64(nil), full...)
		}
		pd[n] = make([]uint64, words)
		pd[n][n/64] |= 1 << (n % 64)
		for ch := true; ch; {
			ch = false
			for i := n - 1; i >= 0; i-- {
				b := f.Blocks[i]
				nw := append([]uint64(nil), full...)
				if len(b.Succs) == 0 {
					// panicking blocks do not constrain post-dominance of the rest
					if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
						nw = append([]uint64(nil), full...)
					} else {
						copy(nw, pd[n])
					}
				}
				for _, s := range b.Succs {
					for k := range nw {
						nw[k] &= pd[s.Index][k]
					}
				}
				nw[i/64] |= 1 << (i % 64)
				for k := range nw {
					if nw[k] != pd[i][k] {
						pd[i] = nw
						ch = true
						break
					}
				}
			}
		}
		cnt := func(s []uint64) int {
			c := 0
			for i := 0; i <= n; i++ {
				if s[i/64]>>(i%64)&1 == 1 {
					c++
				}
			}
			return c
		}
		fn.ipdom = make([]int, n)
		for i := 0; i < n; i++ {
			fn.ipdom[i] = n
			best := -1
			for j := 0; j <= n; j++ {
				if j != i && pd[i][j/64]>>(j%64)&1 == 1 {
					if c := cnt(pd[j]); c > best {
						best = c
						fn.ipdom[i] = j
					}
				}
			}
		}
		// natural loops: headers per block
		fn.loops = make([][]int, n)
		for _, b := range f.Blocks {
			for _, s := range b.Succs {
				if s.Dominates(b) {
					// back edge b -> s
					body := map[int]bool{s.Index: true}
					st := []*ssa.BasicBlock{b}
					for len(st) > 0 {
						x := st[len(st)-1]
						st = st[:len(st)-1]
						if body[x.Index] {
							continue
						}
						body[x.Index] = true
						st = append(st, x.Preds...)
					}
					for x := range body {
						fn.loops[x] = append(fn.loops[x], s.Index)
					}
				}
			}
		}
		// liveness
		rw := (fn.nregs + 63) / 64
		liveIn := make([][]uint64, n) // before phis, excluding phi uses
		after := make([][]uint64, n)
		for i := range liveIn {
			liveIn[i] = make([]uint64, rw)
			after[i] = make([]uint64, rw)
		}
		for ch := true; ch; {
			ch = false
			for i := n - 1; i >= 0; i-- {
				b := f.Blocks[i]
				cur := make([]uint64, rw)
				for _, s := range b.Succs {
					for k := range cur {
						cur[k] |= liveIn[s.Index][k]
					}
					// phi uses on this edge
					for _, in := range s.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						for pi, pr := range s.Preds {
							if pr == b {
								if sl, ok := fn.slots[ph.Edges[pi]]; ok {
									cur[sl/64] |= 1 << (sl % 64)
								}
							}
						}
					}
				}
				k := len(b.Instrs) - 1
				for ; k >= 0; k-- {
					in := b.Instrs[k]
					if _, ok := in.(*ssa.Phi); ok {
						break
					}
					if v, ok := in.(ssa.Value); ok {
						sl := fn.slots[v]
						cur[sl/64] &^= 1 << (sl % 64)
					}
					var ops [12]*ssa.Value
					for _, op := range in.Operands(ops[:0]) {
						if *op == nil {
							continue
						}
						if sl, ok := fn.slots[*op]; ok {
							cur[sl/64] |= 1 << (sl % 64)
						}
					}
				}
				aft := append([]uint64(nil), cur...)
				for ; k >= 0; k-- {
					if v, ok := b.Instrs[k].(ssa.Value); ok {
						sl := fn.slots[v]
						cur[sl/64] &^= 1 << (sl % 64)
					}
				}
				for x := range cur {
					if cur[x] != liveIn[i][x] || aft[x] != after[i][x] {
						ch = true
					}
				}
				liveIn[i], after[i] = cur, aft
			}
		}
		fn.live = after
	})
}

func (fn *Fn) stopSet(b int, iff *If2) []bool {
	iff.mu.Do(func() {
		fn.analyse()
		n := len(fn.f.Blocks)
		st := make([]bool, n)
		if pd := fn.ipdom[b]; pd < n {
			st[pd] = true
		}
		for _, h := range fn.loops[b] {
			st[h] = true
		}
		iff.stop = st
	})
	return iff.stop
}
