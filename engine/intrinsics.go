package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(m *M, a []V) V

var intrinsics map[string]func(m *M, a []V) V

var allowedGlobal = map[string]bool{
	"unicode.MaxRune": true,
	"time.localLoc":   true,
	"time.utcLoc":     true,
}

func tuple(vs ...V) V { return V{x: vs} }

func nop(m *M, a []V) V { return V{} }

func (m *M) cstr(v V) string {
	s, ok := strOf(v)
	if !ok {
		b := strBytes(v)
		buf := make([]byte, len(b))
		for i := range b {
			buf[i] = byte(m.concByte(b[i]))
		}
		return string(buf)
	}
	return s
}

func (m *M) concByte(v V) uint64 {
	if t, ok := v.x.(*Term); ok {
		return m.concretize(t)
	}
	return v.n
}

const nSample = 6

// sampleStr and sampleBits follow a few values of what cannot be encoded; the
// other values stay undecided.
func (m *M) sampleStr(v V, why string) string {
	if s, ok := strOf(v); ok {
		return s
	}
	if m.nest != nil {
		panic(subAbort{"sample"})
	}
	b := strBytes(v)
	buf := make([]byte, len(b))
	for k := 0; k < nSample; k++ {
		c := m.ts.Bool(true)
		for i := range b {
			t, ok := b[i].x.(*Term)
			if !ok {
				buf[i] = byte(b[i].n)
				continue
			}
			x := m.logValue(func() uint64 { return m.eval(t, m.wit) })
			buf[i] = byte(x)
			c = m.ts.And(c, m.ts.Eq(t, m.ts.Const(x, t.w)))
		}
		if m.branch(c) {
			return string(buf)
		}
	}
	m.unsupported("%s", why)
	return ""
}

func (m *M) sampleBits(v V, why string) uint64 {
	t, ok := v.x.(*Term)
	if !ok {
		return v.n
	}
	if m.nest != nil {
		panic(subAbort{"sample"})
	}
	for k := 0; k < nSample; k++ {
		x := m.logValue(func() uint64 { return m.eval(t, m.wit) })
		if m.branch(m.ts.Eq(t, m.ts.Const(x, t.w))) {
			return x
		}
	}
	m.unsupported("%s", why)
	return 0
}

func goStrings(ss []string) V {
	if ss == nil {
		return V{}
	}
	a := make([]V, len(ss))
	for i := range a {
		a[i] = mkStr(ss[i])
	}
	return mkSlice(a)
}

func init() {
	intrinsics = map[string]func(m *M, a []V) V{}
	in := intrinsics

	// ---- harness primitives
	const S = "verifharness/sym."
	in[S+"Byte"] = func(m *M, a []V) V { return m.input(m.cstr(a[0]), 8, 0, 255, "byte") }
	in[S+"ByteIn"] = func(m *M, a []V) V { return m.input(m.cstr(a[0]), 8, a[1].n, a[2].n, "byte") }
	in[S+"Bool"] = func(m *M, a []V) V { return m.input(m.cstr(a[0]), 0, 0, 1, "bool") }
	in[S+"Int64"] = func(m *M, a []V) V { return m.input(m.cstr(a[0]), 64, 0, math.MaxUint64, "int") }
	in[S+"Uint64"] = in[S+"Int64"]
	in[S+"Int64In"] = func(m *M, a []V) V {
		lo, hi := int64(a[1].n), int64(a[2].n)
		if lo >= 0 {
			return m.input(m.cstr(a[0]), 64, uint64(lo), uint64(hi), "int")
		}
		// offset encoding keeps the range a plain interval
		v := m.input(m.cstr(a[0]), 64, 0, uint64(hi)-uint64(lo), "int")
		if v.x == nil {
			return V{n: v.n + uint64(lo)}
		}
		return tV(m.ts.Bin(OAdd, v.x.(*Term), m.ts.Const(uint64(lo), 64)))
	}
	in[S+"Choose"] = func(m *M, a []V) V {
		if m.nest != nil {
			panic(subAbort{"choose"})
		}
		n := int(a[1].n)
		name := m.inputName(m.cstr(a[0]))
		k := m.choose(n)
		m.inputs = append(m.inputs, inputEnt{name: name, kind: "choice", val: uint64(k)})
		return V{n: uint64(k)}
	}
	in[S+"Assume"] = func(m *M, a []V) V { m.assume(m.term(a[0], 0)); return V{} }
	in[S+"Assert"] = func(m *M, a []V) V { m.assert(m.term(a[0], 0), m.cstr(a[1])); return V{} }
	in[S+"Reach"] = func(m *M, a []V) V {
		if m.nest != nil {
			panic(subAbort{"reach"})
		}
		m.reached[m.cstr(a[0])] = true
		return V{}
	}
	in[S+"Thorough"] = func(m *M, a []V) V { return bV(m.tier > 0) }
	in[S+"Engine"] = func(m *M, a []V) V { return bV(true) }
	in[S+"Bound"] = func(m *M, a []V) V {
		m.bounds[m.cstr(a[0])] = m.cstr(a[1])
		return V{}
	}
	in[S+"MapOrder"] = func(m *M, a []V) V {
		old := m.mapOrder
		v := a[0].n != 0
		m.mapOrder = v
		m.note(func() { m.mapOrder = old }, func() { m.mapOrder = v })
		return V{}
	}
	in[S+"Observe"] = func(m *M, a []V) V {
		if m.nest != nil {
			panic(subAbort{"observe"})
		}
		m.obs = append(m.obs, obsEnt{label: m.cstr(a[0]), v: a[1], t: m.p.tString})
		return V{}
	}
	in[S+"Concrete"] = func(m *M, a []V) V { return mkStr(m.cstr(a[0])) }
	in[S+"ConcreteInt"] = func(m *M, a []V) V { return V{n: uint64(int64(m.concInt(a[0])))} }
	in[S+"Sample"] = func(m *M, a []V) V { return mkStr(m.sampleStr(a[0], m.cstr(a[1]))) }
	in[S+"SampleUint"] = func(m *M, a []V) V { return V{n: m.sampleBits(a[0], m.cstr(a[1]))} }
	in[S+"SampleFloat"] = func(m *M, a []V) V { return V{n: m.sampleBits(a[0], m.cstr(a[1]))} }
	in[S+"IsSymbolic"] = func(m *M, a []V) V { return bV(symDeep(a[0], 3)) }
	in[S+"Skip"] = func(m *M, a []V) V {
		if m.nest != nil {
			panic(subAbort{"skip"})
		}
		m.unsupported("%s", m.cstr(a[0]))
		return V{}
	}
	in[S+"Shared"] = func(m *M, a []V) V {
		if m.nest != nil {
			panic(subAbort{"shared"})
		}
		m.freeze(a[1], m.cstr(a[0]))
		m.callV(a[2], nil)
		m.unfreeze()
		return V{}
	}
	in[S+"Known"] = func(m *M, a []V) V {
		if m.nest != nil {
			panic(subAbort{"known"})
		}
		m.known[m.cstr(a[0])] = true
		return V{}
	}
	in[S+"Digits"] = symDigits
	in[S+"Memo"] = nil
	delete(in, S+"Memo")
	in[S+"FreshByte"] = func(m *M, a []V) V {
		t := m.ts.Var(m.freshName(m.cstr(a[0])), 8, a[1].n, a[2].n)
		m.witVar(t)
		return V{x: t}
	}
	in[S+"Decided"] = func(m *M, a []V) V {
		// whether a boolean is known without splitting
		t, ok := a[0].x.(*Term)
		return bV(!ok || t.op == OConst)
	}

	// ---- runtime and low-level helpers
	in["internal/abi.NoEscape"] = func(m *M, a []V) V { return a[0] }
	in["internal/abi.Escape"] = func(m *M, a []V) V { return a[0] }
	in["internal/race.Acquire"] = nop
	in["internal/race.Release"] = nop
	in["internal/race.ReleaseMerge"] = nop
	in["internal/race.Enable"] = nop
	in["internal/race.Disable"] = nop
	in["internal/race.Read"] = nop
	in["internal/race.Write"] = nop
	in["internal/race.ReadRange"] = nop
	in["internal/race.WriteRange"] = nop
	in["internal/race.Errors"] = nop
	in["runtime.Callers"] = func(m *M, a []V) V { return V{} }
	in["runtime.GC"] = nop
	in["runtime.KeepAlive"] = nop
	in["runtime.SetFinalizer"] = nop
	in["runtime.Gosched"] = nop
	in["runtime.Caller"] = func(m *M, a []V) V { return tuple(V{}, mkStr(""), V{}, V{}) }
	in["runtime/debug.Stack"] = func(m *M, a []V) V { return V{} }
	in["runtime/debug.PrintStack"] = nop
	in["os.Getenv"] = func(m *M, a []V) V { return mkStr("") }
	in["(*internal/godebug.Setting).Value"] = func(m *M, a []V) V { return mkStr("") }
	in["(*internal/godebug.Setting).IncNonDefault"] = nop
	in["(*internal/godebug.Setting).Name"] = func(m *M, a []V) V { return mkStr("") }
	in["internal/godebug.New"] = func(m *M, a []V) V {
		c := new(V)
		*c = V{x: &SV{}}
		return V{x: c}
	}
	in["time.runtimeNano"] = func(m *M, a []V) V { return V{n: 1} }
	in["time.now"] = func(m *M, a []V) V { return tuple(V{n: 1700000000}, V{n: 0}, V{n: 1}) }
	in["(*time.Location).get"] = func(m *M, a []V) V {
		if a[0].x == nil {
			return V{x: m.global(m.p.globalIdx(m.p.pkgs["time"].Var("utcLoc")))}
		}
		return a[0]
	}
	in["internal/synctest.IsInBubble"] = func(m *M, a []V) V { return V{} }
	in["time.runtimeNow"] = func(m *M, a []V) V { return tuple(V{n: 1700000000}, V{n: 0}, V{n: 1}) }
	in["time.runtimeIsBubbled"] = func(m *M, a []V) V { return V{} }

	// ---- math
	f64 := func(f func(float64) float64) func(m *M, a []V) V {
		return func(m *M, a []V) V {
			if a[0].x != nil {
				m.unsupported("symbolic float math")
			}
			return V{n: math.Float64bits(f(math.Float64frombits(a[0].n)))}
		}
	}
	ident := func(m *M, a []V) V { return a[0] }
	in["math.Float64bits"] = ident
	in["math.Float64frombits"] = ident
	in["math.Float32bits"] = ident
	in["math.Float32frombits"] = ident
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Log": math.Log, "Exp": math.Exp, "Round": math.Round} {
		in["math."+n] = f64(f)
	}
	in["math.Abs"] = func(m *M, a []V) V {
		t := m.term(a[0], 64)
		return tV(m.ts.Bin(OBAnd, t, m.ts.Const(1<<63-1, 64)))
	}
	in["math.Pow"] = func(m *M, a []V) V {
		if a[0].x != nil || a[1].x != nil {
			m.unsupported("symbolic math.Pow")
		}
		return V{n: math.Float64bits(math.Pow(math.Float64frombits(a[0].n), math.Float64frombits(a[1].n)))}
	}
	in["math/bits.Mul64"] = func(m *M, a []V) V {
		if a[0].x != nil || a[1].x != nil {
			m.unsupported("symbolic 128-bit multiply")
		}
		hi, lo := bits.Mul64(a[0].n, a[1].n)
		return tuple(V{n: hi}, V{n: lo})
	}
	conc1 := func(name string, f func(uint64) uint64) {
		in["math/bits."+name] = func(m *M, a []V) V {
			if a[0].x != nil {
				return V{n: f(m.concretize(a[0].x.(*Term)))}
			}
			return V{n: f(a[0].n)}
		}
	}
	conc1("Len64", func(x uint64) uint64 { return uint64(bits.Len64(x)) })
	conc1("Len32", func(x uint64) uint64 { return uint64(bits.Len32(uint32(x))) })
	conc1("Len", func(x uint64) uint64 { return uint64(bits.Len64(x)) })
	conc1("LeadingZeros64", func(x uint64) uint64 { return uint64(bits.LeadingZeros64(x)) })
	conc1("TrailingZeros64", func(x uint64) uint64 { return uint64(bits.TrailingZeros64(x)) })
	conc1("TrailingZeros32", func(x uint64) uint64 { return uint64(bits.TrailingZeros32(uint32(x))) })
	conc1("OnesCount64", func(x uint64) uint64 { return uint64(bits.OnesCount64(x)) })

	// ---- bytes and strings
	idxByte := func(m *M, b []V, c V) V {
		r := m.ts.Const(mask(64), 64)
		ct := m.term(c, 8)
		for i := len(b) - 1; i >= 0; i-- {
			e := m.ts.Eq(m.term(b[i], 8), ct)
			r = m.ts.Ite(e, m.ts.Const(uint64(i), 64), r)
		}
		return tV(r)
	}
	lastByte := func(m *M, b []V, c V) V {
		r := m.ts.Const(mask(64), 64)
		ct := m.term(c, 8)
		for i := 0; i < len(b); i++ {
			e := m.ts.Eq(m.term(b[i], 8), ct)
			r = m.ts.Ite(e, m.ts.Const(uint64(i), 64), r)
		}
		return tV(r)
	}
	countByte := func(m *M, b []V, c V) V {
		r := m.ts.Const(0, 64)
		ct := m.term(c, 8)
		for i := range b {
			e := m.ts.Eq(m.term(b[i], 8), ct)
			r = m.ts.Bin(OAdd, r, m.ts.Ite(e, m.ts.Const(1, 64), m.ts.Const(0, 64)))
		}
		return tV(r)
	}
	in["internal/bytealg.IndexByte"] = func(m *M, a []V) V { return idxByte(m, sliceOf(a[0]), a[1]) }
	in["internal/bytealg.IndexByteString"] = func(m *M, a []V) V {
		if s, ok := strOf(a[0]); ok && a[1].x == nil {
			return V{n: uint64(int64(strings.IndexByte(s, byte(a[1].n))))}
		}
		return idxByte(m, strBytes(a[0]), a[1])
	}
	in["internal/bytealg.LastIndexByte"] = func(m *M, a []V) V { return lastByte(m, sliceOf(a[0]), a[1]) }
	in["internal/bytealg.LastIndexByteString"] = func(m *M, a []V) V { return lastByte(m, strBytes(a[0]), a[1]) }
	in["internal/bytealg.Count"] = func(m *M, a []V) V { return countByte(m, sliceOf(a[0]), a[1]) }
	in["internal/bytealg.CountString"] = func(m *M, a []V) V { return countByte(m, strBytes(a[0]), a[1]) }
	cmp := func(m *M, x, y V) V {
		lt, eq := m.term(m.strLess(x, y), 0), m.term(m.equal(x, y, m.p.tString), 0)
		return tV(m.ts.Ite(lt, m.ts.Const(mask(64), 64), m.ts.Ite(eq, m.ts.Const(0, 64), m.ts.Const(1, 64))))
	}
	in["internal/bytealg.Compare"] = func(m *M, a []V) V {
		return cmp(m, mkBytesStr(sliceOf(a[0])), mkBytesStr(sliceOf(a[1])))
	}
	in["internal/bytealg.CompareString"] = func(m *M, a []V) V { return cmp(m, a[0], a[1]) }
	in["internal/bytealg.abigen_runtime_cmpstring"] = in["internal/bytealg.CompareString"]
	in["strings.Compare"] = in["internal/bytealg.CompareString"]
	in["internal/bytealg.Equal"] = func(m *M, a []V) V {
		return m.equal(mkBytesStr(sliceOf(a[0])), mkBytesStr(sliceOf(a[1])), m.p.tString)
	}
	in["bytes.Equal"] = in["internal/bytealg.Equal"]
	in["internal/bytealg.MakeNoZero"] = func(m *M, a []V) V {
		n := m.concInt(a[0])
		return mkSlice(make([]V, n))
	}
	index := func(m *M, s, sub V) V {
		if x, ok := strOf(s); ok {
			if y, ok := strOf(sub); ok {
				return V{n: uint64(int64(strings.Index(x, y)))}
			}
		}
		n, k := strLen(s), strLen(sub)
		r := m.ts.Const(mask(64), 64)
		for i := n - k; i >= 0; i-- {
			e := m.term(m.equal(subStr(s, i, i+k), sub, m.p.tString), 0)
			r = m.ts.Ite(e, m.ts.Const(uint64(i), 64), r)
		}
		return tV(r)
	}
	in["internal/bytealg.IndexString"] = func(m *M, a []V) V { return index(m, a[0], a[1]) }
	in["strings.Index"] = in["internal/bytealg.IndexString"]
	in["internal/stringslite.Index"] = in["internal/bytealg.IndexString"]
	in["internal/stringslite.IndexByte"] = in["internal/bytealg.IndexByteString"]
	in["strings.IndexByte"] = in["internal/bytealg.IndexByteString"]
	in["internal/bytealg.Index"] = func(m *M, a []V) V { return index(m, mkBytesStr(sliceOf(a[0])), mkBytesStr(sliceOf(a[1]))) }
	in["bytes.Index"] = in["internal/bytealg.Index"]
	in["strings.Contains"] = func(m *M, a []V) V {
		r := index(m, a[0], a[1])
		return m.not(m.equal(r, V{n: mask(64)}, m.p.tInt))
	}
	in["strings.Clone"] = ident
	in["internal/stringslite.Clone"] = ident
	in["strings.ToLower"] = func(m *M, a []V) V { return m.asciiCase(a[0], 'A', 'Z', 32, "strings", "ToLower") }
	in["strings.ToUpper"] = func(m *M, a []V) V { return m.asciiCase(a[0], 'a', 'z', mask(8)-31, "strings", "ToUpper") }
	in["strings.EqualFold"] = func(m *M, a []V) V {
		if x, ok := strOf(a[0]); ok {
			if y, ok := strOf(a[1]); ok {
				return bV(strings.EqualFold(x, y))
			}
		}
		if !m.branch(m.allASCII(a[0], a[1])) {
			return m.realCall("strings", "EqualFold", a)
		}
		return m.equal(m.lowerASCII(a[0], 'A', 'Z', 32), m.lowerASCII(a[1], 'A', 'Z', 32), m.p.tString)
	}

	// ---- unicode
	pred := func(name string, f func(rune) bool) {
		in["unicode."+name] = func(m *M, a []V) V {
			if a[0].x == nil {
				return bV(f(rune(int32(uint32(a[0].n)))))
			}
			return tV(m.runePred(name, f, a[0].x.(*Term)))
		}
	}
	pred("IsSpace", unicode.IsSpace)
	pred("IsUpper", unicode.IsUpper)
	pred("IsLower", unicode.IsLower)
	pred("IsDigit", unicode.IsDigit)
	pred("IsNumber", unicode.IsNumber)
	pred("IsLetter", unicode.IsLetter)
	pred("IsPrint", unicode.IsPrint)
	pred("IsGraphic", unicode.IsGraphic)
	pred("IsControl", unicode.IsControl)
	pred("IsPunct", unicode.IsPunct)
	pred("IsSymbol", unicode.IsSymbol)
	rmap := func(name string, f func(rune) rune) {
		in["unicode."+name] = func(m *M, a []V) V {
			if a[0].x == nil {
				return V{n: uint64(uint32(f(rune(int32(uint32(a[0].n))))))}
			}
			t := a[0].x.(*Term)
			if t.hi < 256 {
				tab := make([]uint64, int(t.hi)+1)
				for i := range tab {
					tab[i] = uint64(uint32(f(rune(i))))
				}
				return tV(m.ts.Tab(m.ts.Extract(t, 7, 0), tab, 32))
			}
			return tV(m.runeMap(name, f, t))
		}
	}
	rmap("ToLower", unicode.ToLower)
	rmap("ToUpper", unicode.ToUpper)
	rmap("SimpleFold", unicode.SimpleFold)
	in["strconv.IsPrint"] = nil
	delete(in, "strconv.IsPrint")
	pr := func(m *M, a []V) V {
		if a[0].x == nil {
			return bV(strconv.IsPrint(rune(int32(uint32(a[0].n)))))
		}
		return tV(m.runePred("strconv.IsPrint", strconv.IsPrint, a[0].x.(*Term)))
	}
	in["strconv.IsPrint"] = pr
	in["internal/strconv.IsPrint"] = pr

	// ---- strconv on concrete floats
	in["verifharness/sym.NativeFormatFloat"] = func(m *M, a []V) V {
		if a[0].x != nil {
			m.unsupported("symbolic float formatting")
		}
		return mkStr(strconv.FormatFloat(math.Float64frombits(a[0].n), byte(a[1].n), int(int64(a[2].n)), int(a[3].n)))
	}
	in["verifharness/sym.NativeParseFloat"] = func(m *M, a []V) V {
		s := m.cstr(a[0])
		f, err := strconv.ParseFloat(s, int(a[1].n))
		k := 0
		if err != nil {
			k = 1
			if err.(*strconv.NumError).Err == strconv.ErrRange {
				k = 2
			}
		}
		return tuple(V{n: math.Float64bits(f)}, V{n: uint64(k)})
	}
	in["verifharness/sym.NativeParseUint"] = func(m *M, a []V) V {
		u, err := strconv.ParseUint(m.cstr(a[0]), int(int64(a[1].n)), int(a[2].n))
		k := 0
		if err != nil {
			k = 1
			if err.(*strconv.NumError).Err == strconv.ErrRange {
				k = 2
			}
		}
		return tuple(V{n: u}, V{n: uint64(k)})
	}
	in["verifharness/sym.IsConcrete"] = func(m *M, a []V) V { _, ok := strOf(a[0]); return bV(ok) }
	in["verifharness/sym.IsConcreteF"] = func(m *M, a []V) V { return bV(a[0].x == nil) }
	in["verifharness/sym.IsConcreteI"] = func(m *M, a []V) V { return bV(a[0].x == nil) }
	in["verifharness/sym.DigitsOf"] = func(m *M, a []V) V {
		// the number whose digits (made by Digits) the text is
		bs := strBytes(a[0])
		if len(bs) > 1 {
			if t, ok := bs[0].x.(*Term); ok {
				if dk, ok := m.digitRev[t]; ok && dk.k == len(bs) {
					ds := strBytes(m.digitMemo[dk])
					same := true
					for i := range ds {
						same = same && ds[i].x == bs[i].x
					}
					if same {
						return tuple(tV(dk.t), V{n: 1})
					}
				}
			}
		}
		return tuple(V{}, V{})
	}
	in["verifharness/sym.FloatNote"] = func(m *M, a []V) V {
		// remembers text for a float term: note(f, neg, mant, scale)
		if t, ok := a[0].x.(*Term); ok {
			m.noteFloat(t, a[1:])
		}
		return V{}
	}
	in["verifharness/sym.FloatText"] = func(m *M, a []V) V {
		if t, ok := a[0].x.(*Term); ok {
			if v, ok := m.floatNote[t]; ok {
				return tuple(append(append([]V(nil), v...), V{n: 1})...)
			}
		}
		return tuple(V{}, V{}, V{}, V{})
	}

	// ---- sync
	for _, n := range []string{"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock"} {
		in[n] = nop
	}
	// what is written under a lock is not written concurrently
	exempt := func(d int) func(m *M, a []V) V {
		return func(m *M, a []V) V {
			m.exempt += d
			m.note(func() { m.exempt -= d }, func() { m.exempt += d })
			return V{}
		}
	}
	for _, n := range []string{"sync.Mutex", "sync.RWMutex", "internal/sync.Mutex"} {
		in["(*"+n+").Lock"] = exempt(1)
		in["(*"+n+").Unlock"] = exempt(-1)
	}
	in["(*sync.Mutex).TryLock"] = func(m *M, a []V) V { return bV(true) }
	in["(*sync.Once).Do"] = func(m *M, a []V) V {
		c := m.sideCell(a[0])
		if c.n != 0 {
			return V{}
		}
		m.setRaw(c, V{n: 1}, m.p.tInt)
		exempt(1)(m, nil)
		m.callV(a[1], nil)
		exempt(-1)(m, nil)
		return V{}
	}
	in["(*sync.Pool).Get"] = func(m *M, a []V) V {
		sv := a[0].x.(*V).x.(*SV)
		f := sv.f[len(sv.f)-1]
		if f.x == nil {
			return V{}
		}
		return m.callV(f, nil)
	}
	in["(*sync.Pool).Put"] = nop
	anyMap := func(m *M) *RType { return m.p.rt(types.NewMap(m.p.tAny.t, m.p.tAny.t)) }
	smap := func(m *M, v V) *MapObj {
		c := m.sideCell(v)
		if c.x == nil {
			m.setRaw(c, V{x: newMap(anyMap(m))}, nil)
		}
		return c.x.(*MapObj)
	}
	in["(*sync.Map).Load"] = func(m *M, a []V) V {
		if e := m.mapFind(smap(m, a[0]), a[1]); e != nil {
			return tuple(e.v, V{n: 1})
		}
		return tuple(V{}, V{})
	}
	in["(*sync.Map).Store"] = func(m *M, a []V) V { m.mapSet(V{x: smap(m, a[0])}, a[1], a[2]); return V{} }
	in["(*sync.Map).LoadOrStore"] = func(m *M, a []V) V {
		mo := smap(m, a[0])
		if e := m.mapFind(mo, a[1]); e != nil {
			return tuple(e.v, V{n: 1})
		}
		m.mapSet(V{x: mo}, a[1], a[2])
		return tuple(a[2], V{})
	}
	in["(*sync.Map).Delete"] = func(m *M, a []V) V { m.mapDelete(V{x: smap(m, a[0])}, a[1]); return V{} }
	in["(*sync/atomic.Value).Load"] = func(m *M, a []V) V { return *m.sideCell(a[0]) }
	in["(*sync/atomic.Value).Store"] = func(m *M, a []V) V { m.setRaw(m.sideCell(a[0]), a[1], nil); return V{} }

	// ---- errors of the standard library that look inside types
	in["errors.Is"] = nil
	delete(in, "errors.Is")

	// ---- regexp
	reOf := func(m *M, v V) *regexp.Regexp {
		c, ok := v.x.(*V)
		if !ok {
			m.throw("invalid memory address or nil pointer dereference")
		}
		r, ok := c.x.(*regexp.Regexp)
		if !ok {
			m.unsupported("regexp object %T", c.x)
		}
		return r
	}
	mkRe := func(m *M, a []V) V {
		s := m.cstr(a[0])
		r, err := regexp.Compile(s)
		if err != nil {
			m.throw("regexp: Compile(%s): %v", s, err)
		}
		c := new(V)
		c.x = r
		return V{x: c}
	}
	in["regexp.MustCompile"] = mkRe
	in["regexp.Compile"] = func(m *M, a []V) V { return tuple(mkRe(m, a), V{}) }
	in["(*regexp.Regexp).MatchString"] = func(m *M, a []V) V {
		re := reOf(m, a[0])
		if s, ok := strOf(a[1]); ok {
			return bV(re.MatchString(s))
		}
		if t := m.regexTerm(re, a[1]); t != nil {
			return tV(t)
		}
		return bV(re.MatchString(m.cstr(a[1])))
	}
	in["(*regexp.Regexp).FindStringSubmatch"] = func(m *M, a []V) V {
		return goStrings(reOf(m, a[0]).FindStringSubmatch(m.cstr(a[1])))
	}
	in["(*regexp.Regexp).FindString"] = func(m *M, a []V) V {
		return mkStr(reOf(m, a[0]).FindString(m.cstr(a[1])))
	}
	in["(*regexp.Regexp).FindAllString"] = func(m *M, a []V) V {
		return goStrings(reOf(m, a[0]).FindAllString(m.cstr(a[1]), int(int64(a[2].n))))
	}
	in["(*regexp.Regexp).FindStringIndex"] = func(m *M, a []V) V {
		l := reOf(m, a[0]).FindStringIndex(m.cstr(a[1]))
		return intSlice(l)
	}
	in["(*regexp.Regexp).FindAllStringIndex"] = func(m *M, a []V) V {
		l := reOf(m, a[0]).FindAllStringIndex(m.cstr(a[1]), int(int64(a[2].n)))
		if l == nil {
			return V{}
		}
		var out []V
		for _, x := range l {
			out = append(out, intSlice(x))
		}
		return mkSlice(out)
	}
	in["(*regexp.Regexp).ReplaceAllString"] = func(m *M, a []V) V {
		return mkStr(reOf(m, a[0]).ReplaceAllString(m.cstr(a[1]), m.cstr(a[2])))
	}
	in["(*regexp.Regexp).String"] = func(m *M, a []V) V { return mkStr(reOf(m, a[0]).String()) }

	reflectIntrinsics()
	for _, n := range []string{"Len", "Kind", "IsNil", "Elem", "IsValid", "Type", "CanSet", "Set"} {
		if f := intrinsics["(reflect.Value)."+n]; f != nil {
			intrinsics["(internal/reflectlite.Value)."+n] = f
		}
	}
}

func intSlice(l []int) V {
	if l == nil {
		return V{}
	}
	out := make([]V, len(l))
	for i, x := range l {
		out[i] = V{n: uint64(int64(x))}
	}
	return mkSlice(out)
}

// patternIntrinsic resolves body-less functions by name pattern.
func patternIntrinsic(f *ssa.Function, name string) func(m *M, a []V) V {
	if strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "internal/runtime/atomic.") {
		n := f.Name()
		sig := f.Signature
		switch {
		case strings.HasPrefix(n, "Load"):
			return func(m *M, a []V) V { return m.load(a[0], m.p.rt(sig.Results().At(0).Type())) }
		case strings.HasPrefix(n, "Store"):
			return func(m *M, a []V) V { m.storeP(a[0], a[1], m.p.rt(sig.Params().At(1).Type())); return V{} }
		case strings.HasPrefix(n, "Add"):
			return func(m *M, a []V) V {
				t := m.p.rt(sig.Params().At(1).Type())
				v := V{n: (m.load(a[0], t).n + a[1].n) & mask(t.w)}
				m.storeP(a[0], v, t)
				return v
			}
		case strings.HasPrefix(n, "Swap"):
			return func(m *M, a []V) V {
				t := m.p.rt(sig.Params().At(1).Type())
				old := m.load(a[0], t)
				m.storeP(a[0], a[1], t)
				return old
			}
		case strings.HasPrefix(n, "CompareAndSwap"), strings.HasPrefix(n, "Cas"):
			return func(m *M, a []V) V {
				t := m.p.rt(sig.Params().At(1).Type())
				old := m.load(a[0], t)
				if ptrEq(old, a[1]) {
					m.storeP(a[0], a[2], t)
					return bV(true)
				}
				return V{}
			}
		}
	}
	return nil
}

// realCall runs the real body of a function that has an intrinsic.
func (m *M) realCall(pkg, name string, args []V) V {
	f := m.p.lookup(pkg, name)
	key := "real:" + pkg + "." + name
	x, ok := m.p.fns2.Load(key)
	if !ok {
		nf := &Fn{f: f, name: f.String()}
		nf.compile(m.p)
		nf.ready = true
		x, _ = m.p.fns2.LoadOrStore(key, nf)
	}
	return m.exec(x.(*Fn), args, nil)
}

func (m *M) allASCII(vs ...V) *Term {
	var cs []*Term
	for _, v := range vs {
		for _, b := range strBytes(v) {
			cs = append(cs, m.ts.Ult(m.term(b, 8), m.ts.Const(0x80, 8)))
		}
	}
	return m.ts.And(cs...)
}

func (m *M) lowerASCII(v V, lo, hi, add uint64) V {
	b := strBytes(v)
	out := make([]V, len(b))
	for i := range b {
		if b[i].x == nil {
			n := b[i].n
			if n >= lo && n <= hi {
				n = (n + add) & 255
			}
			out[i] = V{n: n}
			continue
		}
		t := b[i].x.(*Term)
		in := m.ts.And(m.ts.Ule(m.ts.Const(lo, 8), t), m.ts.Ule(t, m.ts.Const(hi, 8)))
		out[i] = tV(m.ts.Ite(in, m.ts.Bin(OAdd, t, m.ts.Const(add, 8)), t))
	}
	return mkBytesStr(out)
}

func (m *M) asciiCase(v V, lo, hi, add uint64, pkg, name string) V {
	if s, ok := strOf(v); ok {
		if name == "ToLower" {
			return mkStr(strings.ToLower(s))
		}
		return mkStr(strings.ToUpper(s))
	}
	if !m.branch(m.allASCII(v)) {
		return m.realCall(pkg, name, []V{v})
	}
	return m.lowerASCII(v, lo, hi, add)
}

var runeRanges = map[string][][2]rune{}

func (m *M) runePred(name string, f func(rune) bool, t *Term) *Term {
	m.p.gmu.Lock()
	rs, ok := runeRanges[name]
	if !ok {
		for r := rune(0); r <= unicode.MaxRune; r++ {
			if f(r) {
				s := r
				for r <= unicode.MaxRune && f(r) {
					r++
				}
				rs = append(rs, [2]rune{s, r - 1})
			}
		}
		runeRanges[name] = rs
	}
	m.p.gmu.Unlock()
	var ors []*Term
	for _, r := range rs {
		if uint64(r[0]) > t.hi || uint64(r[1]) < t.lo {
			continue
		}
		ors = append(ors, m.ts.And(m.ts.Ule(m.ts.Const(uint64(r[0]), t.w), t), m.ts.Ule(t, m.ts.Const(uint64(r[1]), t.w))))
	}
	return m.ts.Or(ors...)
}

// caseSeg maps lo..hi: r -> r+d, or for alternating segments the runes at
// even distance from lo by d and the others by d2.
type caseSeg struct {
	lo, hi rune
	d, d2  int32
	alt    bool
}

var caseSegs = map[string][]caseSeg{}

func (m *M) runeMap(name string, f func(rune) rune, t *Term) *Term {
	m.p.gmu.Lock()
	segs, ok := caseSegs[name]
	if !ok {
		delta := func(r rune) int32 { return f(r) - r }
		for r := rune(0); r <= unicode.MaxRune; {
			d := delta(r)
			e := r
			for e < unicode.MaxRune && delta(e+1) == d {
				e++
			}
			if e == r && r+3 <= unicode.MaxRune {
				d2 := delta(r + 1)
				for e < unicode.MaxRune {
					want := d
					if (e+1-r)%2 == 1 {
						want = d2
					}
					if delta(e+1) != want {
						break
					}
					e++
				}
				if e >= r+2 {
					segs = append(segs, caseSeg{r, e, d, d2, true})
					r = e + 1
					continue
				}
				e = r
			}
			segs = append(segs, caseSeg{r, e, d, d, false})
			r = e + 1
		}
		segs[len(segs)-1].hi = 0x7fffffff
		caseSegs[name] = segs
	}
	m.p.gmu.Unlock()
	ts := m.ts
	add := func(d int32) *Term {
		if d == 0 {
			return t
		}
		return ts.Bin(OAdd, t, ts.Const(uint64(uint32(d)), 32))
	}
	var build func(segs []caseSeg) *Term
	build = func(segs []caseSeg) *Term {
		if len(segs) == 1 {
			s := segs[0]
			if !s.alt {
				return add(s.d)
			}
			return ts.Ite(ts.Eq(ts.Bin(OBAnd, t, ts.Const(1, 32)), ts.Const(uint64(s.lo&1), 32)), add(s.d), add(s.d2))
		}
		k := len(segs) / 2
		return ts.Ite(ts.Ult(t, ts.Const(uint64(segs[k].lo), 32)), build(segs[:k]), build(segs[k:]))
	}
	for len(segs) > 1 && uint64(segs[0].hi) < t.lo {
		segs = segs[1:]
	}
	for len(segs) > 1 && uint64(segs[len(segs)-1].lo) > t.hi {
		segs = segs[:len(segs)-1]
	}
	// a negative rune maps to itself in every table used here
	if t.hi > 0x7fffffff {
		return ts.Ite(ts.Ult(t, ts.Const(0x80000000, 32)), build(segs), t)
	}
	return build(segs)
}

// sideCell is the hidden state of a modelled library object.
func (m *M) sideCell(p V) *V {
	c, ok := p.x.(*V)
	if !ok {
		if p.x == nil {
			m.throw("invalid memory address or nil pointer dereference")
		}
		m.unsupported("library object %T", p.x)
	}
	s := m.side[c]
	if s == nil {
		s = new(V)
		m.side[c] = s
		m.sideNew = append(m.sideNew, c)
	}
	return s
}

// ---- regexps over symbolic strings -------------------------------------------

func (m *M) regexTerm(re *regexp.Regexp, v V) *Term {
	p, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		return nil
	}
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		return nil
	}
	for i := range prog.Inst {
		in := &prog.Inst[i]
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1:
			for _, r := range in.Rune {
				if r >= 0x80 && r != unicode.MaxRune {
					return nil
				}
			}
		}
	}
	ts := m.ts
	b := strBytes(v)
	n := len(b)
	needASCII := false
	for i := range prog.Inst {
		in := &prog.Inst[i]
		switch in.Op {
		case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			needASCII = true
		case syntax.InstRune, syntax.InstRune1:
			if len(in.Rune) > 0 && in.Rune[len(in.Rune)-1] == unicode.MaxRune {
				needASCII = true
			}
			if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
				for _, r := range in.Rune {
					for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
						if f >= 0x80 {
							needASCII = true
						}
					}
				}
			}
		}
	}
	if needASCII && !m.branch(m.allASCII(v)) {
		return nil
	}
	isWord := func(i int) *Term {
		if i < 0 || i >= n {
			return ts.F
		}
		t := m.term(b[i], 8)
		rg := func(lo, hi uint64) *Term {
			return ts.And(ts.Ule(ts.Const(lo, 8), t), ts.Ule(t, ts.Const(hi, 8)))
		}
		return ts.Or(rg('0', '9'), rg('A', 'Z'), rg('a', 'z'), rg('_', '_'))
	}
	cond := func(op syntax.EmptyOp, pos int) *Term {
		c := ts.T
		if op&syntax.EmptyBeginText != 0 && pos != 0 {
			return ts.F
		}
		if op&syntax.EmptyEndText != 0 && pos != n {
			return ts.F
		}
		if op&syntax.EmptyBeginLine != 0 && pos != 0 {
			c = ts.And(c, ts.Eq(m.term(b[pos-1], 8), ts.Const('\n', 8)))
		}
		if op&syntax.EmptyEndLine != 0 && pos != n {
			c = ts.And(c, ts.Eq(m.term(b[pos], 8), ts.Const('\n', 8)))
		}
		if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
			d := ts.Not(ts.Eq(isWord(pos-1), isWord(pos)))
			if op&syntax.EmptyWordBoundary != 0 {
				c = ts.And(c, d)
			} else {
				c = ts.And(c, ts.Not(d))
			}
		}
		return c
	}
	matched := ts.F
	cur := make([]*Term, len(prog.Inst))
	for i := range cur {
		cur[i] = ts.F
	}
	var add func(st []*Term, pc uint32, c *Term, pos int, seen map[uint32]bool)
	add = func(st []*Term, pc uint32, c *Term, pos int, seen map[uint32]bool) {
		if c == ts.F || seen[pc] {
			return
		}
		seen[pc] = true
		defer delete(seen, pc)
		in := &prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(st, in.Out, c, pos, seen)
			add(st, in.Arg, c, pos, seen)
		case syntax.InstCapture, syntax.InstNop:
			add(st, in.Out, c, pos, seen)
		case syntax.InstEmptyWidth:
			add(st, in.Out, ts.And(c, cond(syntax.EmptyOp(in.Arg), pos)), pos, seen)
		case syntax.InstMatch:
			matched = ts.Or(matched, c)
		case syntax.InstFail:
		default:
			st[pc] = ts.Or(st[pc], c)
		}
	}
	for pos := 0; pos <= n; pos++ {
		add(cur, uint32(prog.Start), ts.T, pos, map[uint32]bool{})
		if pos == n {
			break
		}
		next := make([]*Term, len(prog.Inst))
		for i := range next {
			next[i] = ts.F
		}
		t := m.term(b[pos], 8)
		for pc, c := range cur {
			if c == ts.F {
				continue
			}
			in := &prog.Inst[pc]
			var ors []*Term
			for x := 0; x < 128; x++ {
				if in.MatchRune(rune(x)) {
					s := x
					for x < 128 && in.MatchRune(rune(x)) {
						x++
					}
					ors = append(ors, ts.And(ts.Ule(ts.Const(uint64(s), 8), t), ts.Ule(t, ts.Const(uint64(x-1), 8))))
				}
			}
			add(next, in.Out, ts.And(c, ts.Or(ors...)), pos+1, map[uint32]bool{})
		}
		cur = next
	}
	return matched
}

// ---- inputs -----------------------------------------------------------------

func (m *M) inputName(base string) string {
	m.names[base]++
	if k := m.names[base]; k > 1 {
		return fmt.Sprintf("%s#%d", base, k)
	}
	return base
}

func (m *M) input(base string, w uint8, lo, hi uint64, kind string) V {
	if m.nest != nil {
		panic(subAbort{"input"})
	}
	name := m.inputName(base)
	t := m.ts.Var(fmt.Sprintf("%s:%d:%x:%x", name, w, lo, hi), w, lo, hi)
	m.witVar(t)
	m.inputs = append(m.inputs, inputEnt{name: name, v: t, kind: kind})
	return tV(t)
}

// symDigits returns the k decimal digits of u (known to have at most k) as
// symbolic bytes, tied to u by a constraint.
func symDigits(m *M, a []V) V {
	k := int(a[1].n)
	if a[0].x == nil {
		s := strconv.FormatUint(a[0].n, 10)
		for len(s) < k {
			s = "0" + s
		}
		return mkStr(s)
	}
	u := a[0].x.(*Term)
	if m.digitMemo == nil {
		m.digitMemo = map[digitKey]V{}
	}
	dk := digitKey{u, k}
	if v, ok := m.digitMemo[dk]; ok {
		return v
	}
	if k == 1 {
		v := mkBytesStr([]V{tV(m.ts.Bin(OAdd, m.ts.Extract(u, 7, 0), m.ts.Const('0', 8)))})
		return v
	}
	if m.nest != nil {
		panic(subAbort{"digits"})
	}
	out := make([]V, k)
	sum := m.ts.Const(0, 64)
	var vars []*Term
	base := m.freshName("digit")
	for i := 0; i < k; i++ {
		lo := uint64('0')
		d := m.ts.Var(fmt.Sprintf("%s.%d", base, i), 8, lo, '9')
		m.witVar(d)
		vars = append(vars, d)
		out[i] = V{x: d}
		sum = m.ts.Bin(OAdd, m.ts.Bin(OMul, sum, m.ts.Const(10, 64)), m.ts.ZExt(m.ts.Bin(OSub, d, m.ts.Const('0', 8)), 64))
	}
	if !m.replaying() {
		s := strconv.FormatUint(m.eval(u, m.wit), 10)
		for len(s) < k {
			s = "0" + s
		}
		vals := make([]uint64, k)
		for i := range vals {
			vals[i] = uint64(s[len(s)-k+i])
		}
		m.wit = m.withVals(vars, vals)
	}
	m.addPC(m.ts.Eq(sum, u))
	v := mkBytesStr(out)
	if m.digitRev == nil {
		m.digitRev = map[*Term]digitKey{}
	}
	m.digitMemo[dk] = v
	m.digitRev[vars[0]] = dk
	m.note(func() { delete(m.digitMemo, dk); delete(m.digitRev, vars[0]) }, func() { m.digitMemo[dk] = v; m.digitRev[vars[0]] = dk })
	return v
}

type digitKey struct {
	t *Term
	k int
}

func (m *M) noteFloat(t *Term, v []V) {
	old, had := m.floatNote[t]
	cp := append([]V(nil), v...)
	m.floatNote[t] = cp
	m.note(func() {
		if had {
			m.floatNote[t] = old
		} else {
			delete(m.floatNote, t)
		}
	}, func() { m.floatNote[t] = cp })
}

// witVar gives a variable that may be new to this worker its value in the
// witness of the path.
func (m *M) witVar(t *Term) {
	if int(t.val) < len(m.wit.vals) || m.pendingWit == nil {
		return
	}
	v, ok := m.pendingWit[t.name]
	if !ok {
		return
	}
	m.wit = m.withVals([]*Term{t}, []uint64{v})
}
