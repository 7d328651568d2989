package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RV is the content of a reflect.Value.
type RV struct {
	t    *RType
	v    V  // value, if addr is nil
	addr *V // memory, if addressable
	ro   bool
	me   any // map entry marker
}

func (m *M) mkRV(t *RType, v V, addr *V, ro bool) V {
	return V{x: &SV{[]V{{}, {x: &RV{t: t, v: v, addr: addr, ro: ro}}, {n: 1}}}}
}

func (m *M) noRV() V { return V{x: &SV{make([]V, 3)}} }

func rvOf(v V) *RV {
	sv, ok := v.x.(*SV)
	if !ok || len(sv.f) != 3 {
		return nil
	}
	r, _ := sv.f[1].x.(*RV)
	return r
}

func (m *M) rv(v V, method string) *RV {
	r := rvOf(v)
	if r == nil {
		m.panicStr("reflect: call of reflect.Value." + method + " on zero Value")
	}
	return r
}

func (m *M) panicStr(s string) {
	panic(&tPanic{v: V{x: &IF{m.p.tString, mkStr(s)}}, msg: "panic: " + s})
}

func (m *M) rvLoad(r *RV) V {
	if r.addr != nil {
		return m.load(V{x: r.addr}, r.t)
	}
	return r.v
}

func rkind(t *RType) reflect.Kind {
	switch t.k {
	case kBool:
		return reflect.Bool
	case kInt:
		switch t.u.(*types.Basic).Kind() {
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		}
		return reflect.Int
	case kFloat:
		if t.w == 32 {
			return reflect.Float32
		}
		return reflect.Float64
	case kComplex:
		return reflect.Complex128
	case kString:
		return reflect.String
	case kPtr:
		return reflect.Ptr
	case kUnsafe:
		return reflect.UnsafePointer
	case kSlice:
		return reflect.Slice
	case kArray:
		return reflect.Array
	case kStruct:
		return reflect.Struct
	case kMap:
		return reflect.Map
	case kIface:
		return reflect.Interface
	case kFunc:
		return reflect.Func
	case kChan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func (t *RType) String() string {
	t.strOnce.Do(func() {
		t.strv = types.TypeString(t.t, func(p *types.Package) string { return p.Name() })
		t.strv = strings.ReplaceAll(t.strv, "interface{", "interface {")
		if t.strv == "any" {
			t.strv = "interface {}"
		}
		t.strv = strings.ReplaceAll(t.strv, "interface {}", "interface {}")
		t.strv = fixAny(t.strv)
	})
	return t.strv
}

// fixAny rewrites the type name any to interface {} as reflect prints it.
func fixAny(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], "any") && (i == 0 || !isIdent(s[i-1])) && (i+3 == len(s) || !isIdent(s[i+3])) {
			sb.WriteString("interface {}")
			i += 3
			continue
		}
		sb.WriteByte(s[i])
		i++
	}
	return sb.String()
}

func isIdent(c byte) bool {
	return c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func (m *M) mkType(t *RType) V {
	if t == nil {
		return V{}
	}
	return V{x: &IF{m.p.tRtypePtr, V{x: t}}}
}

func (m *M) typeOf(v V) *RType {
	switch x := v.x.(type) {
	case *RType:
		return x
	case *IF:
		return m.typeOf(x.v)
	case nil:
		m.throw("invalid memory address or nil pointer dereference")
	}
	m.unsupported("reflect.Type %T", v.x)
	return nil
}

// methods lists the exported methods of t by name.
func (t *RType) methods() []*types.Selection {
	t.mOnce.Do(func() {
		if t.k == kIface {
			return
		}
		t.p.mu.Lock()
		ms := t.p.prog.MethodSets.MethodSet(t.t)
		t.p.mu.Unlock()
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				t.meths = append(t.meths, ms.At(i))
			}
		}
		sort.Slice(t.meths, func(i, j int) bool { return t.meths[i].Obj().Name() < t.meths[j].Obj().Name() })
	})
	return t.meths
}

func (m *M) numMethod(t *RType) int {
	if t.k == kIface {
		return t.u.(*types.Interface).NumMethods()
	}
	return len(t.methods())
}

func (m *M) sfield(t *RType, i int) V {
	st := t.u.(*types.Struct)
	t.init()
	f := st.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	off := m.p.sizes.Offsetsof(structVars(st))[i]
	return V{x: &SV{[]V{mkStr(f.Name()), mkStr(pkg), m.mkType(t.fields[i]), mkStr(st.Tag(i)), {n: uint64(off)}, intSlice([]int{i}), bV(f.Embedded())}}}
}

func structVars(st *types.Struct) []*types.Var {
	var vs []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		vs = append(vs, st.Field(i))
	}
	return vs
}

func (m *M) rvField(r *RV, i int) V {
	if r.t.k != kStruct {
		m.panicStr("reflect: call of reflect.Value.Field on " + rkind(r.t).String() + " Value")
	}
	r.t.init()
	st := r.t.u.(*types.Struct)
	if i < 0 || i >= st.NumFields() {
		m.panicStr("reflect: Field index out of range")
	}
	ro := r.ro || !st.Field(i).Exported()
	if r.ro {
		ro = true
	}
	if r.addr != nil {
		return m.mkRV(r.t.fields[i], V{}, &r.addr.x.(*SV).f[i], ro)
	}
	return m.mkRV(r.t.fields[i], r.v.x.(*SV).f[i], nil, ro)
}

func (m *M) rvElem(r *RV) V {
	v := m.rvLoad(r)
	switch r.t.k {
	case kIface:
		i, _ := v.x.(*IF)
		if i == nil {
			return m.noRV()
		}
		return m.mkRV(i.t, i.v, nil, r.ro)
	case kPtr:
		if v.x == nil {
			return m.noRV()
		}
		c, ok := v.x.(*V)
		if !ok {
			c = m.ptrCell(v)
		}
		r.t.init()
		return m.mkRV(r.t.elem, V{}, c, r.ro)
	}
	m.panicStr("reflect: call of reflect.Value.Elem on " + rkind(r.t).String() + " Value")
	return V{}
}

func (m *M) rvIface(r *RV) V {
	v := m.rvLoad(r)
	if r.t.k == kIface {
		return v
	}
	return V{x: &IF{r.t, copyV(v)}}
}

func (m *M) mustSet(r *RV, name string) {
	if r.ro {
		m.panicStr("reflect: reflect.Value." + name + " using value obtained using unexported field")
	}
	if r.addr == nil {
		m.panicStr("reflect: reflect.Value." + name + " using unaddressable value")
	}
}

func (m *M) kindPanic(name string, r *RV) {
	m.panicStr("reflect: call of reflect.Value." + name + " on " + rkind(r.t).String() + " Value")
}

func (m *M) assignTo(v V, from, to *RType, what string) V {
	if from == to {
		return v
	}
	if to.k == kIface {
		if from.k == kIface {
			if v.x == nil {
				return V{}
			}
			i := v.x.(*IF)
			if m.implements(i.t, to) || types.AssignableTo(from.t, to.t) {
				return v
			}
		} else if m.implements(from, to) {
			return V{x: &IF{from, copyV(v)}}
		}
	} else if types.AssignableTo(from.t, to.t) {
		return v
	}
	m.panicStr(what + ": value of type " + from.String() + " is not assignable to type " + to.String())
	return V{}
}

func (m *M) rvSet(dst *RV, v V, from *RType) {
	nv := m.assignTo(v, from, dst.t, "reflect.Set")
	m.store(dst.addr, copyV(nv), dst.t)
}

func isSigned(t *RType) bool { return t.k == kInt && t.signed }

func (m *M) rvIsZero(v V, t *RType) V {
	switch t.k {
	case kBool:
		return m.not(v)
	case kInt:
		return m.equal(v, V{}, t)
	case kFloat:
		return tV(m.ts.Eq(m.term(v, t.w), m.ts.Const(0, t.w)))
	case kString:
		return bV(strLen(v) == 0)
	case kStruct, kArray:
		t.init()
		var cs []*Term
		for i, e := range v.x.(*SV).f {
			et := t.elem
			if t.k == kStruct {
				et = t.fields[i]
			}
			cs = append(cs, m.term(m.rvIsZero(e, et), 0))
		}
		return tV(m.ts.And(cs...))
	}
	return bV(v.x == nil)
}

func (p *Prog) ptrTo(t *RType) *RType   { return p.rt(types.NewPointer(t.t)) }
func (p *Prog) sliceTo(t *RType) *RType { return p.rt(types.NewSlice(t.t)) }

// bound method as a native closure
func (m *M) methodVal(recv V, rt *RType, sel *types.Selection) V {
	fn := m.p.method(rt, sel.Obj().(*types.Func))
	sig := m.p.rt(sel.Type())
	cl := &Closure{nat: func(m *M, args []V) V {
		full := append([]V{recv}, args...)
		return m.call(m.p.fn(fn), full, nil)
	}}
	return m.mkRV(sig, V{x: cl}, nil, false)
}

func (m *M) findMethod(r *RV, name string) V {
	t := r.t
	v := m.rvLoad(r)
	if t.k == kIface {
		it := t.u.(*types.Interface)
		for i := 0; i < it.NumMethods(); i++ {
			f := it.Method(i)
			if f.Name() == name {
				if v.x == nil {
					m.panicStr("reflect: Method on nil interface value")
				}
				sig := m.p.rt(f.Type())
				return m.mkRV(sig, V{x: &Closure{nat: func(m *M, args []V) V { return m.invoke(v, f, args) }}}, nil, r.ro)
			}
		}
		return m.noRV()
	}
	for _, s := range t.methods() {
		if s.Obj().Name() == name {
			x := m.methodVal(copyV(v), t, s)
			rvOf(x).ro = r.ro
			return x
		}
	}
	return m.noRV()
}

func (m *M) rvCall(r *RV, args []V) []V {
	sig := r.t.u.(*types.Signature)
	f := m.rvLoad(r)
	if f.x == nil {
		m.panicStr("reflect: call of nil function")
	}
	if sig.Variadic() {
		m.unsupported("reflect call of variadic function")
	}
	if len(args) < sig.Params().Len() {
		m.panicStr("reflect: Call with too few input arguments")
	}
	if len(args) > sig.Params().Len() {
		m.panicStr("reflect: Call with too many input arguments")
	}
	var av []V
	for i, a := range args {
		ar := m.rv(a, "Call")
		av = append(av, m.assignTo(copyV(m.rvLoad(ar)), ar.t, m.p.rt(sig.Params().At(i).Type()), "reflect.Value.Call"))
	}
	res := m.callV(f, av)
	n := sig.Results().Len()
	var out []V
	for i := 0; i < n; i++ {
		v := res
		if n > 1 {
			v = res.x.([]V)[i]
		}
		out = append(out, m.mkRV(m.p.rt(sig.Results().At(i).Type()), v, nil, false))
	}
	return out
}

func (m *M) convertible(from, to *RType) bool { return types.ConvertibleTo(from.t, to.t) }

func reflectIntrinsics() {
	in := intrinsics
	// ---- package functions
	in["reflect.TypeOf"] = func(m *M, a []V) V {
		if a[0].x == nil {
			return V{}
		}
		return m.mkType(a[0].x.(*IF).t)
	}
	in["reflect.ValueOf"] = func(m *M, a []V) V {
		if a[0].x == nil {
			return m.noRV()
		}
		i := a[0].x.(*IF)
		return m.mkRV(i.t, copyV(i.v), nil, false)
	}
	in["reflect.New"] = func(m *M, a []V) V {
		if a[0].x == nil {
			m.panicStr("reflect: New(nil)")
		}
		t := m.typeOf(a[0])
		c := new(V)
		*c = zeroV(t)
		return m.mkRV(m.p.ptrTo(t), V{x: c}, nil, false)
	}
	in["reflect.Zero"] = func(m *M, a []V) V {
		t := m.typeOf(a[0])
		return m.mkRV(t, zeroV(t), nil, false)
	}
	in["reflect.Indirect"] = func(m *M, a []V) V {
		r := rvOf(a[0])
		if r == nil || r.t.k != kPtr {
			return a[0]
		}
		return m.rvElem(r)
	}
	in["reflect.MakeSlice"] = func(m *M, a []V) V {
		t := m.typeOf(a[0])
		t.init()
		n, c := m.concInt(a[1]), m.concInt(a[2])
		if n < 0 {
			m.panicStr("reflect.MakeSlice: negative len")
		}
		if c < n {
			m.panicStr("reflect.MakeSlice: len > cap")
		}
		s := make([]V, c)
		if t.elem.k == kStruct || t.elem.k == kArray {
			for i := range s {
				s[i] = zeroV(t.elem)
			}
		}
		return m.mkRV(t, mkSlice(s[:n]), nil, false)
	}
	mkMap := func(m *M, a []V) V {
		t := m.typeOf(a[0])
		return m.mkRV(t, V{x: newMap(t)}, nil, false)
	}
	in["reflect.MakeMap"] = mkMap
	in["reflect.MakeMapWithSize"] = mkMap
	in["reflect.PtrTo"] = func(m *M, a []V) V { return m.mkType(m.p.ptrTo(m.typeOf(a[0]))) }
	in["reflect.PointerTo"] = in["reflect.PtrTo"]
	in["reflect.SliceOf"] = func(m *M, a []V) V { return m.mkType(m.p.sliceTo(m.typeOf(a[0]))) }
	in["reflect.MapOf"] = func(m *M, a []V) V {
		return m.mkType(m.p.rt(types.NewMap(m.typeOf(a[0]).t, m.typeOf(a[1]).t)))
	}
	in["reflect.StructOf"] = func(m *M, a []V) V {
		var fields []*types.Var
		var tags []string
		for _, f := range sliceOf(a[0]) {
			x := f.x.(*SV).f
			if strLen(x[1]) != 0 {
				m.unsupported("reflect.StructOf with unexported fields")
			}
			fields = append(fields, types.NewField(0, nil, m.cstr(x[0]), m.typeOf(x[2]).t, x[6].n != 0))
			tags = append(tags, m.cstr(x[3]))
		}
		return m.mkType(m.p.rt(types.NewStruct(fields, tags)))
	}
	appendRV := func(m *M, dst *RV, els []V) V {
		dst.t.init()
		return m.mkRV(dst.t, m.doAppend(m.rvLoad(dst), els, dst.t.elem), nil, false)
	}
	in["reflect.Append"] = func(m *M, a []V) V {
		dst := m.rv(a[0], "Append")
		if dst.t.k != kSlice {
			m.kindPanic("Append", dst)
		}
		dst.t.init()
		var els []V
		for _, e := range sliceOf(a[1]) {
			er := m.rv(e, "Append")
			els = append(els, m.assignTo(m.rvLoad(er), er.t, dst.t.elem, "reflect.Set"))
		}
		return appendRV(m, dst, els)
	}
	in["reflect.AppendSlice"] = func(m *M, a []V) V {
		return appendRV(m, m.rv(a[0], "AppendSlice"), sliceOf(m.rvLoad(m.rv(a[1], "AppendSlice"))))
	}
	in["reflect.Copy"] = func(m *M, a []V) V {
		d, s := m.rv(a[0], "Copy"), m.rv(a[1], "Copy")
		var dst, src []V
		if d.t.k == kArray {
			dst = d.addr.x.(*SV).f
		} else {
			dst = sliceOf(m.rvLoad(d))
		}
		sv := m.rvLoad(s)
		switch s.t.k {
		case kArray:
			src = sv.x.(*SV).f
		case kString:
			src = strBytes(sv)
		default:
			src = sliceOf(sv)
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		for i := 0; i < n; i++ {
			m.store(&dst[i], copyV(src[i]), d.t.init().elem)
		}
		return V{n: uint64(n)}
	}
	in["reflect.Swapper"] = func(m *M, a []V) V {
		sl := sliceOf(a[0].x.(*IF).v)
		et := a[0].x.(*IF).t.init().elem
		return V{x: &Closure{nat: func(m *M, args []V) V {
			i, j := m.concInt(args[0]), m.concInt(args[1])
			x, y := copyV(sl[i]), copyV(sl[j])
			m.store(&sl[i], y, et)
			m.store(&sl[j], x, et)
			return V{}
		}}}
	}
	in["internal/reflectlite.Swapper"] = in["reflect.Swapper"]
	in["internal/reflectlite.TypeOf"] = in["reflect.TypeOf"]
	in["internal/reflectlite.ValueOf"] = in["reflect.ValueOf"]
	in["reflect.DeepEqual"] = func(m *M, a []V) V {
		return m.deepEqual(a[0], a[1], m.p.tAny, 0)
	}
	in["reflect.TypeAssert"] = nil
	delete(in, "reflect.TypeAssert")

	// ---- Type methods
	ty := func(name string, f func(m *M, t *RType, a []V) V) {
		g := func(m *M, a []V) V { return f(m, m.typeOf(a[0]), a[1:]) }
		in["(*reflect.rtype)."+name] = g
		in["(internal/reflectlite.rtype)."+name] = g
	}
	ty("Kind", func(m *M, t *RType, a []V) V { return V{n: uint64(rkind(t))} })
	ty("String", func(m *M, t *RType, a []V) V { return mkStr(t.String()) })
	ty("Name", func(m *M, t *RType, a []V) V {
		switch x := types.Unalias(t.t).(type) {
		case *types.Named:
			s := t.String()
			if i := strings.LastIndexByte(strings.SplitN(s, "[", 2)[0], '.'); i >= 0 {
				s = s[i+1:]
			}
			return mkStr(s)
		case *types.Basic:
			return mkStr(x.Name())
		}
		return mkStr("")
	})
	ty("PkgPath", func(m *M, t *RType, a []V) V {
		if n, ok := types.Unalias(t.t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return mkStr(n.Obj().Pkg().Path())
		}
		return mkStr("")
	})
	ty("Elem", func(m *M, t *RType, a []V) V {
		t.init()
		if t.elem == nil {
			m.panicStr("reflect: Elem of invalid type " + t.String())
		}
		return m.mkType(t.elem)
	})
	ty("Key", func(m *M, t *RType, a []V) V {
		t.init()
		if t.k != kMap {
			m.panicStr("reflect: Key of non-map type " + t.String())
		}
		return m.mkType(t.key)
	})
	ty("Len", func(m *M, t *RType, a []V) V {
		if t.k != kArray {
			m.panicStr("reflect: Len of non-array type " + t.String())
		}
		return V{n: uint64(t.alen)}
	})
	ty("Bits", func(m *M, t *RType, a []V) V { t.init(); return V{n: uint64(t.size * 8)} })
	ty("Size", func(m *M, t *RType, a []V) V { t.init(); return V{n: uint64(t.size)} })
	ty("NumField", func(m *M, t *RType, a []V) V {
		if t.k != kStruct {
			m.panicStr("reflect: NumField of non-struct type " + t.String())
		}
		return V{n: uint64(t.u.(*types.Struct).NumFields())}
	})
	ty("Field", func(m *M, t *RType, a []V) V {
		if t.k != kStruct {
			m.panicStr("reflect: Field of non-struct type " + t.String())
		}
		i := int(int64(a[0].n))
		if i < 0 || i >= t.u.(*types.Struct).NumFields() {
			m.panicStr("reflect: Field index out of bounds")
		}
		return m.sfield(t, i)
	})
	ty("FieldByName", func(m *M, t *RType, a []V) V {
		st := t.u.(*types.Struct)
		n := m.cstr(a[0])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return tuple(m.sfield(t, i), V{n: 1})
			}
		}
		return tuple(zeroV(m.p.rt(m.p.pkgs["reflect"].Type("StructField").Type())), V{})
	})
	ty("NumMethod", func(m *M, t *RType, a []V) V { return V{n: uint64(m.numMethod(t))} })
	ty("Implements", func(m *M, t *RType, a []V) V {
		if a[0].x == nil {
			m.panicStr("reflect: nil type passed to Type.Implements")
		}
		u := m.typeOf(a[0])
		if u.k != kIface {
			m.panicStr("reflect: non-interface type passed to Type.Implements")
		}
		return bV(m.implements(t, u))
	})
	ty("AssignableTo", func(m *M, t *RType, a []V) V { return bV(types.AssignableTo(t.t, m.typeOf(a[0]).t)) })
	ty("ConvertibleTo", func(m *M, t *RType, a []V) V { return bV(m.convertible(t, m.typeOf(a[0]))) })
	ty("Comparable", func(m *M, t *RType, a []V) V { return bV(types.Comparable(t.t)) })
	ty("common", func(m *M, t *RType, a []V) V { m.unsupported("reflect internals"); return V{} })
	ty("NumIn", func(m *M, t *RType, a []V) V { return V{n: uint64(t.u.(*types.Signature).Params().Len())} })
	ty("NumOut", func(m *M, t *RType, a []V) V { return V{n: uint64(t.u.(*types.Signature).Results().Len())} })
	ty("In", func(m *M, t *RType, a []V) V {
		return m.mkType(m.p.rt(t.u.(*types.Signature).Params().At(int(a[0].n)).Type()))
	})
	ty("Out", func(m *M, t *RType, a []V) V {
		return m.mkType(m.p.rt(t.u.(*types.Signature).Results().At(int(a[0].n)).Type()))
	})
	ty("IsVariadic", func(m *M, t *RType, a []V) V { return bV(t.u.(*types.Signature).Variadic()) })
	ty("MethodByName", func(m *M, t *RType, a []V) V {
		n := m.cstr(a[0])
		z := zeroV(m.p.rt(m.p.pkgs["reflect"].Type("Method").Type()))
		for i, s := range t.methods() {
			if s.Obj().Name() == n {
				z.x.(*SV).f[0] = mkStr(n)
				z.x.(*SV).f[4] = V{n: uint64(i)}
				return tuple(z, V{n: 1})
			}
		}
		return tuple(z, V{})
	})

	// ---- Value methods
	va := func(name string, f func(m *M, r *RV, a []V) V) {
		in["(reflect.Value)."+name] = func(m *M, a []V) V { return f(m, m.rv(a[0], name), a[1:]) }
	}
	in["(reflect.Value).Kind"] = func(m *M, a []V) V {
		if r := rvOf(a[0]); r != nil {
			return V{n: uint64(rkind(r.t))}
		}
		return V{}
	}
	in["(reflect.Value).IsValid"] = func(m *M, a []V) V { return bV(rvOf(a[0]) != nil) }
	in["(reflect.Value).CanAddr"] = func(m *M, a []V) V { r := rvOf(a[0]); return bV(r != nil && r.addr != nil) }
	in["(reflect.Value).CanSet"] = func(m *M, a []V) V {
		r := rvOf(a[0])
		return bV(r != nil && r.addr != nil && !r.ro)
	}
	va("CanInterface", func(m *M, r *RV, a []V) V { return bV(!r.ro) })
	va("Type", func(m *M, r *RV, a []V) V { return m.mkType(r.t) })
	va("Elem", func(m *M, r *RV, a []V) V { return m.rvElem(r) })
	va("Interface", func(m *M, r *RV, a []V) V {
		if r.ro {
			m.panicStr("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return m.rvIface(r)
	})
	va("Addr", func(m *M, r *RV, a []V) V {
		if r.addr == nil {
			m.panicStr("reflect.Value.Addr of unaddressable value")
		}
		return m.mkRV(m.p.ptrTo(r.t), V{x: r.addr}, nil, r.ro)
	})
	va("IsNil", func(m *M, r *RV, a []V) V {
		switch r.t.k {
		case kPtr, kMap, kSlice, kFunc, kChan, kUnsafe, kIface:
			return bV(m.rvLoad(r).x == nil)
		}
		m.kindPanic("IsNil", r)
		return V{}
	})
	va("IsZero", func(m *M, r *RV, a []V) V { return m.rvIsZero(m.rvLoad(r), r.t) })
	va("NumField", func(m *M, r *RV, a []V) V {
		if r.t.k != kStruct {
			m.kindPanic("NumField", r)
		}
		return V{n: uint64(r.t.u.(*types.Struct).NumFields())}
	})
	va("Field", func(m *M, r *RV, a []V) V { return m.rvField(r, int(int64(a[0].n))) })
	va("FieldByName", func(m *M, r *RV, a []V) V {
		st := r.t.u.(*types.Struct)
		n := m.cstr(a[0])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return m.rvField(r, i)
			}
		}
		return m.noRV()
	})
	va("Len", func(m *M, r *RV, a []V) V {
		v := m.rvLoad(r)
		switch r.t.k {
		case kSlice:
			return V{n: uint64(len(sliceOf(v)))}
		case kArray:
			return V{n: uint64(r.t.alen)}
		case kString:
			return V{n: uint64(strLen(v))}
		case kMap:
			if v.x == nil {
				return V{}
			}
			return V{n: uint64(v.x.(*MapObj).n)}
		}
		m.kindPanic("Len", r)
		return V{}
	})
	va("Cap", func(m *M, r *RV, a []V) V {
		switch r.t.k {
		case kSlice:
			return V{n: uint64(cap(sliceOf(m.rvLoad(r))))}
		case kArray:
			return V{n: uint64(r.t.alen)}
		}
		m.kindPanic("Cap", r)
		return V{}
	})
	va("Index", func(m *M, r *RV, a []V) V {
		i := m.concInt(a[0])
		r.t.init()
		switch r.t.k {
		case kSlice:
			s := sliceOf(m.rvLoad(r))
			if i < 0 || i >= len(s) {
				m.panicStr("reflect: slice index out of range")
			}
			return m.mkRV(r.t.elem, V{}, &s[i], r.ro)
		case kArray:
			if i < 0 || i >= r.t.alen {
				m.panicStr("reflect: array index out of range")
			}
			if r.addr != nil {
				return m.mkRV(r.t.elem, V{}, &r.addr.x.(*SV).f[i], r.ro)
			}
			return m.mkRV(r.t.elem, r.v.x.(*SV).f[i], nil, r.ro)
		case kString:
			v := m.rvLoad(r)
			if i < 0 || i >= strLen(v) {
				m.panicStr("reflect: string index out of range")
			}
			return m.mkRV(m.p.tByte, strByte(v, i), nil, r.ro)
		}
		m.kindPanic("Index", r)
		return V{}
	})
	num := func(name string, ok func(t *RType) bool, to func(m *M) *RType) {
		va(name, func(m *M, r *RV, a []V) V {
			if !ok(r.t) {
				m.kindPanic(name, r)
			}
			return m.convert(m.rvLoad(r), r.t, to(m))
		})
	}
	num("Int", isSigned, func(m *M) *RType { return m.p.tInt64 })
	num("Uint", func(t *RType) bool { return t.k == kInt && !t.signed }, func(m *M) *RType { return m.p.rt(types.Typ[types.Uint64]) })
	num("Float", func(t *RType) bool { return t.k == kFloat }, func(m *M) *RType { return m.p.tFloat64 })
	va("Bool", func(m *M, r *RV, a []V) V {
		if r.t.k != kBool {
			m.kindPanic("Bool", r)
		}
		return m.rvLoad(r)
	})
	in["(reflect.Value).String"] = func(m *M, a []V) V {
		r := rvOf(a[0])
		if r == nil {
			return mkStr("<invalid Value>")
		}
		if r.t.k == kString {
			v := m.rvLoad(r)
			if v.x == nil {
				return mkStr("")
			}
			return v
		}
		return mkStr("<" + r.t.String() + " Value>")
	}
	va("Bytes", func(m *M, r *RV, a []V) V {
		if r.t.k != kSlice {
			m.kindPanic("Bytes", r)
		}
		return m.rvLoad(r)
	})
	va("Pointer", func(m *M, r *RV, a []V) V {
		v := m.rvLoad(r)
		switch r.t.k {
		case kPtr, kUnsafe, kMap, kChan, kFunc:
			return V{x: v.x, n: 0}
		case kSlice:
			if s := sliceOf(v); cap(s) > 0 {
				return V{x: &s[:1][0]}
			}
			return V{}
		}
		m.kindPanic("Pointer", r)
		return V{}
	})
	in["(reflect.Value).UnsafePointer"] = in["(reflect.Value).Pointer"]
	va("Set", func(m *M, r *RV, a []V) V {
		m.mustSet(r, "Set")
		x := m.rv(a[0], "Set")
		if x.ro {
			m.panicStr("reflect: reflect.Value.Set using value obtained using unexported field")
		}
		m.rvSet(r, m.rvLoad(x), x.t)
		return V{}
	})
	va("SetZero", func(m *M, r *RV, a []V) V {
		m.mustSet(r, "SetZero")
		m.store(r.addr, zeroV(r.t), r.t)
		return V{}
	})
	set := func(name string, ok func(t *RType) bool, from func(m *M) *RType) {
		va(name, func(m *M, r *RV, a []V) V {
			m.mustSet(r, name)
			if !ok(r.t) {
				m.kindPanic(name, r)
			}
			v := a[0]
			if from != nil {
				v = m.convert(v, from(m), r.t)
			}
			m.store(r.addr, v, r.t)
			return V{}
		})
	}
	set("SetInt", isSigned, func(m *M) *RType { return m.p.tInt64 })
	set("SetUint", func(t *RType) bool { return t.k == kInt && !t.signed }, func(m *M) *RType { return m.p.rt(types.Typ[types.Uint64]) })
	set("SetFloat", func(t *RType) bool { return t.k == kFloat }, func(m *M) *RType { return m.p.tFloat64 })
	set("SetBool", func(t *RType) bool { return t.k == kBool }, nil)
	set("SetString", func(t *RType) bool { return t.k == kString }, nil)
	set("SetBytes", func(t *RType) bool { return t.k == kSlice }, nil)
	va("SetLen", func(m *M, r *RV, a []V) V {
		m.mustSet(r, "SetLen")
		n := m.concInt(a[0])
		s := sliceOf(m.rvLoad(r))
		if n < 0 || n > cap(s) {
			m.panicStr("reflect: slice length out of range in SetLen")
		}
		m.store(r.addr, mkSlice(s[:n]), r.t)
		return V{}
	})
	va("Grow", func(m *M, r *RV, a []V) V {
		m.mustSet(r, "Grow")
		s := sliceOf(m.rvLoad(r))
		n := m.concInt(a[0])
		if len(s)+n <= cap(s) {
			return V{}
		}
		r.t.init()
		add := make([]V, n)
		for i := range add {
			add[i] = zeroV(r.t.elem)
		}
		g := sliceOf(m.doAppend(mkSlice(s), add, r.t.elem))
		m.store(r.addr, mkSlice(g[:len(s)]), r.t)
		return V{}
	})
	va("Slice", func(m *M, r *RV, a []V) V {
		i, j := m.concInt(a[0]), m.concInt(a[1])
		v := m.rvLoad(r)
		switch r.t.k {
		case kString:
			if i < 0 || j < i || j > strLen(v) {
				m.panicStr("reflect.Value.Slice: string slice index out of bounds")
			}
			return m.mkRV(r.t, subStr(v, i, j), nil, r.ro)
		case kSlice:
			s := sliceOf(v)
			if i < 0 || j < i || j > cap(s) {
				m.panicStr("reflect.Value.Slice: slice index out of bounds")
			}
			return m.mkRV(r.t, mkSlice(s[i:j]), nil, r.ro)
		}
		m.unsupported("reflect.Value.Slice on %s", r.t)
		return V{}
	})
	va("SetMapIndex", func(m *M, r *RV, a []V) V {
		if r.t.k != kMap {
			m.kindPanic("SetMapIndex", r)
		}
		if r.ro {
			m.panicStr("reflect: reflect.Value.SetMapIndex using value obtained using unexported field")
		}
		r.t.init()
		k := m.rv(a[0], "SetMapIndex")
		kv := m.assignTo(m.rvLoad(k), k.t, r.t.key, "reflect.Value.SetMapIndex")
		e := rvOf(a[1])
		mv := m.rvLoad(r)
		if e == nil {
			m.mapDelete(mv, kv)
			return V{}
		}
		m.mapSet(mv, kv, copyV(m.assignTo(m.rvLoad(e), e.t, r.t.elem, "reflect.Value.SetMapIndex")))
		return V{}
	})
	va("MapIndex", func(m *M, r *RV, a []V) V {
		if r.t.k != kMap {
			m.kindPanic("MapIndex", r)
		}
		r.t.init()
		k := m.rv(a[0], "MapIndex")
		kv := m.assignTo(m.rvLoad(k), k.t, r.t.key, "reflect.Value.MapIndex")
		mv := m.rvLoad(r)
		if mv.x == nil {
			return m.noRV()
		}
		e := m.mapFind(mv.x.(*MapObj), kv)
		if e == nil {
			return m.noRV()
		}
		return m.mkRV(r.t.elem, copyV(e.v), nil, r.ro || k.ro)
	})
	va("MapKeys", func(m *M, r *RV, a []V) V {
		if r.t.k != kMap {
			m.kindPanic("MapKeys", r)
		}
		r.t.init()
		mv := m.rvLoad(r)
		out := []V{}
		if mv.x != nil {
			ents := append([]*mapEnt(nil), mv.x.(*MapObj).ents...)
			if m.mapOrder && len(ents) > 1 {
				m.permute(ents)
			}
			for _, e := range ents {
				out = append(out, m.mkRV(r.t.key, e.k, nil, r.ro))
			}
		}
		return mkSlice(out)
	})
	va("MapRange", func(m *M, r *RV, a []V) V {
		it := &iterState{isMap: true}
		mv := m.rvLoad(r)
		if mv.x != nil {
			it.ents = append([]*mapEnt(nil), mv.x.(*MapObj).ents...)
			if m.mapOrder && len(it.ents) > 1 {
				m.permute(it.ents)
			}
		}
		c := new(V)
		*c = V{x: &SV{[]V{{x: r}, {x: it}, {}}}}
		return V{x: c}
	})
	iter := func(a []V) (*RV, *iterState, *V) {
		sv := a[0].x.(*V).x.(*SV)
		return sv.f[0].x.(*RV), sv.f[1].x.(*iterState), &sv.f[2]
	}
	in["(*reflect.MapIter).Next"] = func(m *M, a []V) V {
		_, it, cur := iter(a)
		for int(it.pos.n) < len(it.ents) {
			e := it.ents[it.pos.n]
			m.setRaw(&it.pos, V{n: it.pos.n + 1}, m.p.tInt)
			if e.dead.n != 0 {
				continue
			}
			m.setRaw(cur, V{x: e}, nil)
			return bV(true)
		}
		return V{}
	}
	in["(*reflect.MapIter).Key"] = func(m *M, a []V) V {
		r, _, cur := iter(a)
		r.t.init()
		return m.mkRV(r.t.key, cur.x.(*mapEnt).k, nil, r.ro)
	}
	in["(*reflect.MapIter).Value"] = func(m *M, a []V) V {
		r, _, cur := iter(a)
		r.t.init()
		return m.mkRV(r.t.elem, copyV(cur.x.(*mapEnt).v), nil, r.ro)
	}
	va("Convert", func(m *M, r *RV, a []V) V {
		t := m.typeOf(a[0])
		if !m.convertible(r.t, t) {
			m.panicStr("reflect.Value.Convert: value of type " + r.t.String() + " cannot be converted to type " + t.String())
		}
		v := m.rvLoad(r)
		if t.k == kIface {
			return m.mkRV(t, m.assignTo(v, r.t, t, "reflect.Convert"), nil, r.ro)
		}
		return m.mkRV(t, m.convert(v, r.t, t), nil, r.ro)
	})
	va("CanConvert", func(m *M, r *RV, a []V) V { return bV(m.convertible(r.t, m.typeOf(a[0]))) })
	over := func(name string) {
		va(name, func(m *M, r *RV, a []V) V {
			w := r.t.w
			t := m.term(a[0], 64)
			if w >= 64 {
				return V{}
			}
			x := m.ts.Extract(t, w-1, 0)
			if r.t.signed {
				return tV(m.ts.Not(m.ts.Eq(m.ts.SExt(x, 64), t)))
			}
			return tV(m.ts.Not(m.ts.Eq(m.ts.ZExt(x, 64), t)))
		})
	}
	over("OverflowInt")
	over("OverflowUint")
	va("OverflowFloat", func(m *M, r *RV, a []V) V {
		if r.t.w == 64 {
			return V{}
		}
		if a[0].x != nil {
			m.unsupported("symbolic OverflowFloat")
		}
		return bV(reflect.ValueOf(float32(0)).OverflowFloat(fbits(a[0].n, 64)))
	})
	va("NumMethod", func(m *M, r *RV, a []V) V { return V{n: uint64(m.numMethod(r.t))} })
	va("Method", func(m *M, r *RV, a []V) V {
		i := int(a[0].n)
		if r.t.k == kIface {
			m.unsupported("Method on interface value")
		}
		ms := r.t.methods()
		if i >= len(ms) {
			m.panicStr("reflect: Method index out of range")
		}
		return m.methodVal(copyV(m.rvLoad(r)), r.t, ms[i])
	})
	va("MethodByName", func(m *M, r *RV, a []V) V { return m.findMethod(r, m.cstr(a[0])) })
	va("Call", func(m *M, r *RV, a []V) V {
		if r.t.k != kFunc {
			m.kindPanic("Call", r)
		}
		out := m.rvCall(r, sliceOf(a[0]))
		if out == nil {
			return mkSlice([]V{})
		}
		return mkSlice(out)
	})
	va("Comparable", func(m *M, r *RV, a []V) V { return bV(types.Comparable(r.t.t)) })
	in["(reflect.Kind).String"] = func(m *M, a []V) V { return mkStr(reflect.Kind(m.concInt(a[0])).String()) }
	in["(reflect.StructTag).Lookup"] = func(m *M, a []V) V {
		s, ok := reflect.StructTag(m.cstr(a[0])).Lookup(m.cstr(a[1]))
		return tuple(mkStr(s), bV(ok))
	}
	in["(reflect.StructTag).Get"] = func(m *M, a []V) V {
		return mkStr(reflect.StructTag(m.cstr(a[0])).Get(m.cstr(a[1])))
	}
	_ = strconv.Itoa
	_ = fmt.Sprint
	var _ *ssa.Function
}

func (m *M) deepEqual(a, b V, t *RType, d int) V {
	if d > 50 {
		m.unsupported("deep equality")
	}
	all := func(n int, f func(i int) V) V {
		r := m.ts.T
		for i := 0; i < n; i++ {
			r = m.ts.And(r, m.term(f(i), 0))
			if r == m.ts.F {
				break
			}
		}
		return tV(r)
	}
	t.init()
	switch t.k {
	case kIface:
		ai, _ := a.x.(*IF)
		bi, _ := b.x.(*IF)
		if ai == nil || bi == nil {
			return bV(ai == nil && bi == nil)
		}
		if ai.t != bi.t {
			return V{}
		}
		return m.deepEqual(ai.v, bi.v, ai.t, d+1)
	case kPtr:
		if a.x == nil || b.x == nil || a.x == b.x {
			return bV(a.x == b.x)
		}
		ca, ok1 := a.x.(*V)
		cb, ok2 := b.x.(*V)
		if !ok1 || !ok2 {
			m.unsupported("deep equality of %T", a.x)
		}
		return m.deepEqual(*ca, *cb, t.elem, d+1)
	case kSlice:
		if (a.x == nil) != (b.x == nil) {
			return V{}
		}
		x, y := sliceOf(a), sliceOf(b)
		if len(x) != len(y) {
			return V{}
		}
		return all(len(x), func(i int) V { return m.deepEqual(x[i], y[i], t.elem, d+1) })
	case kArray, kStruct:
		x, y := a.x.(*SV).f, b.x.(*SV).f
		return all(len(x), func(i int) V {
			et := t.elem
			if t.k == kStruct {
				et = t.fields[i]
			}
			return m.deepEqual(x[i], y[i], et, d+1)
		})
	case kMap:
		if (a.x == nil) != (b.x == nil) {
			return V{}
		}
		if a.x == nil {
			return bV(true)
		}
		x, y := a.x.(*MapObj), b.x.(*MapObj)
		if x.n != y.n {
			return V{}
		}
		return all(len(x.ents), func(i int) V {
			e := m.mapFind(y, x.ents[i].k)
			if e == nil {
				return V{}
			}
			return m.deepEqual(x.ents[i].v, e.v, t.elem, d+1)
		})
	case kFunc:
		return bV(a.x == nil && b.x == nil)
	}
	return m.equal(a, b, t)
}
