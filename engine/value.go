package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// V is a machine value. Scalars are concrete in n (x == nil) or symbolic
// (x is a *Term). Strings: x is string, *SS or nil (empty). Pointers: *V,
// *SymPtr, *DataPtr or nil. Slices: *SL or nil. Structs and arrays: *SV.
// Maps: *MapObj. Interfaces: *IF or nil. Functions: *Closure or nil.
// Tuples: []V.
type V struct {
	n uint64
	x any
}

type SS struct{ b []V } // symbolic string (at least one symbolic byte)

type SL struct{ a []V }

type SV struct{ f []V }

type SymPtr struct {
	a   []V
	idx *Term
}

type DataPtr struct {
	a []V // backing bytes (slice data), or
	s V   // string
}

type IF struct {
	t *RType
	v V
}

type Closure struct {
	fn  *ssa.Function
	env []V
	nat func(m *M, args []V) V // native closures
	id  int
}

type kind uint8

const (
	kInvalid kind = iota
	kBool
	kInt
	kFloat
	kComplex
	kString
	kPtr
	kUnsafe
	kSlice
	kArray
	kStruct
	kMap
	kIface
	kFunc
	kChan
	kTuple
)

type RType struct {
	t      types.Type
	u      types.Type
	k      kind
	w      uint8
	signed bool
	id     int
	p      *Prog

	once    sync.Once
	fields  []*RType // struct fields
	elem    *RType   // pointer, slice, array, map, chan
	key     *RType
	alen    int
	size    int64
	mset    *types.MethodSet
	msOnce  sync.Once
	meths   []*types.Selection // exported methods sorted by name
	mOnce   sync.Once
	impl    sync.Map // *RType iface -> bool
	mcache  sync.Map // method name -> *ssa.Function
	growFn  func(oldCap, newLen int) int
	strOnce sync.Once
	strv    string
}

type Prog struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	sizes    types.Sizes
	mu       sync.Mutex
	tmap     typeutil.Map
	tcache   sync.Map
	ntypes   int
	fns      sync.Map // *ssa.Function -> *Fn
	fns2     sync.Map
	glob     sync.Map // *ssa.Global -> int
	nglob    int
	gmu      sync.Mutex
	globs    []*ssa.Global
	clos     sync.Map
	subst    map[string]*ssa.Function // stdlib function -> model
	built    sync.Map
	repoPkgs map[*ssa.Package]bool

	tString, tInt, tError, tByte, tBool, tInt64, tFloat64, tAny, tUint8, tRtypePtr, tRValue, tStringSlice, tRuntimeErr *RType
}

func (p *Prog) rt(t types.Type) *RType {
	if r, ok := p.tcache.Load(t); ok {
		return r.(*RType)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if r := p.tmap.At(t); r != nil {
		p.tcache.Store(t, r)
		return r.(*RType)
	}
	r := &RType{t: t, u: t.Underlying(), p: p}
	p.ntypes++
	r.id = p.ntypes
	switch u := r.u.(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			r.k = kBool
		case u.Info()&types.IsInteger != 0:
			r.k = kInt
			r.signed = u.Info()&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				r.w = 8
			case types.Int16, types.Uint16:
				r.w = 16
			case types.Int32, types.Uint32:
				r.w = 32
			default:
				r.w = 64
			}
		case u.Info()&types.IsFloat != 0:
			r.k = kFloat
			r.w = 64
			if u.Kind() == types.Float32 {
				r.w = 32
			}
		case u.Info()&types.IsComplex != 0:
			r.k = kComplex
		case u.Info()&types.IsString != 0:
			r.k = kString
		case u.Kind() == types.UnsafePointer:
			r.k = kUnsafe
		case u.Kind() == types.UntypedNil:
			r.k = kUnsafe
		}
	case *types.Pointer:
		r.k = kPtr
	case *types.Slice:
		r.k = kSlice
	case *types.Array:
		r.k = kArray
		r.alen = int(u.Len())
	case *types.Struct:
		r.k = kStruct
	case *types.Map:
		r.k = kMap
	case *types.Interface:
		r.k = kIface
	case *types.Signature:
		r.k = kFunc
	case *types.Chan:
		r.k = kChan
	case *types.Tuple:
		r.k = kTuple
	}
	p.tmap.Set(t, r)
	p.tcache.Store(t, r)
	return r
}

func (r *RType) init() *RType {
	r.once.Do(func() {
		p := r.p
		switch u := r.u.(type) {
		case *types.Pointer:
			r.elem = p.rt(u.Elem())
		case *types.Slice:
			r.elem = p.rt(u.Elem())
		case *types.Array:
			r.elem = p.rt(u.Elem())
		case *types.Map:
			r.elem = p.rt(u.Elem())
			r.key = p.rt(u.Key())
		case *types.Chan:
			r.elem = p.rt(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				r.fields = append(r.fields, p.rt(u.Field(i).Type()))
			}
		}
		if r.k != kTuple && r.k != kInvalid {
			r.size = p.sizes.Sizeof(r.t)
		}
	})
	return r
}

func zeroV(r *RType) V {
	switch r.k {
	case kStruct:
		r.init()
		f := make([]V, len(r.fields))
		for i, ft := range r.fields {
			f[i] = zeroV(ft)
		}
		return V{x: &SV{f}}
	case kArray:
		r.init()
		f := make([]V, r.alen)
		if r.elem.k == kStruct || r.elem.k == kArray {
			for i := range f {
				f[i] = zeroV(r.elem)
			}
		}
		return V{x: &SV{f}}
	}
	return V{}
}

func copyV(v V) V {
	if s, ok := v.x.(*SV); ok {
		f := make([]V, len(s.f))
		for i, e := range s.f {
			if e.x == nil {
				f[i] = e
			} else {
				f[i] = copyV(e)
			}
		}
		return V{x: &SV{f}}
	}
	return v
}

func mkStr(s string) V { return V{x: s} }

func bV(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}

func tV(t *Term) V {
	if t.op == OConst {
		return V{n: t.val}
	}
	return V{x: t}
}

// strOf returns the concrete string of v.
func strOf(v V) (string, bool) {
	switch s := v.x.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func strLen(v V) int {
	switch s := v.x.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SS:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v.x))
}

func strByte(v V, i int) V {
	switch s := v.x.(type) {
	case string:
		return V{n: uint64(s[i])}
	case *SS:
		return s.b[i]
	}
	panic("strByte")
}

func strBytes(v V) []V {
	switch s := v.x.(type) {
	case nil:
		return nil
	case string:
		b := make([]V, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = V{n: uint64(s[i])}
		}
		return b
	case *SS:
		return s.b
	}
	panic(fmt.Sprintf("strBytes of %T", v.x))
}

// mkBytesStr builds a string value from bytes (copies).
func mkBytesStr(b []V) V {
	if len(b) == 0 {
		return V{x: ""}
	}
	for i := range b {
		if b[i].x != nil {
			return V{x: &SS{append([]V(nil), b...)}}
		}
	}
	buf := make([]byte, len(b))
	for i := range b {
		buf[i] = byte(b[i].n)
	}
	return V{x: string(buf)}
}

func subStr(v V, lo, hi int) V {
	switch s := v.x.(type) {
	case nil:
		return V{x: ""}
	case string:
		return V{x: s[lo:hi]}
	case *SS:
		if lo == 0 && hi == len(s.b) {
			return v
		}
		b := s.b[lo:hi]
		for i := range b {
			if b[i].x != nil {
				return V{x: &SS{b[:len(b):len(b)]}}
			}
		}
		return mkBytesStr(b)
	}
	panic("subStr")
}

func sliceOf(v V) []V {
	if v.x == nil {
		return nil
	}
	return v.x.(*SL).a
}

func mkSlice(a []V) V { return V{x: &SL{a}} }

func isSym(v V) bool {
	switch v.x.(type) {
	case *Term, *SS:
		return true
	}
	return false
}
