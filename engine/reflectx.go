package main

import (
	"go/types"
	"reflect"
)

// A very small model of package reflect: types are *RType host objects.

func (m *Machine) mkRType(t types.Type) Value {
	pk := m.P.pkgs["reflect"]
	if pk == nil {
		unsupported("reflect not loaded")
	}
	rt := pk.Pkg.Scope().Lookup("rtype").Type()
	p := m.rtypeObj(m.P.rtype(t))
	return Value{P: &Iface{T: m.P.rtype(types.NewPointer(rt)), V: Value{P: p}}}
}

// one stable host pointer per type, so that pointer equality works
func (m *Machine) rtypeObj(t *RType) *Value {
	m.P.mu.Lock()
	defer m.P.mu.Unlock()
	if p, ok := m.P.bufs.Load(t); ok {
		return p.(*Value)
	}
	v := &Value{P: t}
	m.P.bufs.Store(t, v)
	return v
}

func rtypeOf(v Value) *RType {
	if ifc, ok := v.P.(*Iface); ok {
		v = ifc.V
	}
	if ag, ok := v.P.(*Agg); ok && len(ag.E) == 1 { // reflectlite.rtype
		v = ag.E[0]
	}
	p, ok := v.P.(*Value)
	if !ok {
		unsupported("reflect.Type expected, got %T", v.P)
	}
	t, ok := p.P.(*RType)
	if !ok {
		unsupported("reflect.Type object expected")
	}
	return t
}

func reflectKind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		}
	case *types.Struct:
		return reflect.Struct
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

func regReflect(r map[string]Intrinsic) {
	r["reflect.TypeOf"] = func(g *Gor, f *Func, a []Value) Value {
		if a[0].P == nil {
			return Value{}
		}
		return g.m.mkRType(a[0].P.(*Iface).T.T)
	}
	r["internal/reflectlite.TypeOf"] = func(g *Gor, f *Func, a []Value) Value {
		if a[0].P == nil {
			return Value{}
		}
		pk := g.m.P.pkgs["internal/reflectlite"]
		rt := pk.Pkg.Scope().Lookup("rtype").Type()
		return Value{P: &Iface{T: g.m.P.rtype(rt), V: Value{P: &Agg{E: []Value{{P: g.m.rtypeObj(a[0].P.(*Iface).T)}}}}}}
	}
	regReflect2(r)
	r["reflect.TypeFor"] = func(g *Gor, f *Func, a []Value) Value {
		return g.m.mkRType(f.fn.TypeArgs()[0])
	}
	swapper := func(g *Gor, f *Func, a []Value) Value {
		s := sliceOf(a[0].P.(*Iface).V)
		return Value{P: &Closure{Nat: func(g *Gor, b []Value) Value {
			i, j := int(b[0].N), int(b[1].N)
			g.m.logTrail(&s[i])
			g.m.logTrail(&s[j])
			x, y := copyVal(s[i]), copyVal(s[j])
			s[i], s[j] = y, x
			return Value{}
		}}}
	}
	r["reflect.Swapper"] = swapper
	r["internal/reflectlite.Swapper"] = swapper
	r["reflect.ValueOf"] = func(g *Gor, f *Func, a []Value) Value {
		if a[0].P == nil {
			return Value{P: &Agg{E: make([]Value, 3)}}
		}
		ifc := a[0].P.(*Iface)
		return mkReflectVal(ifc.V, ifc.T.T)
	}
	r["internal/reflectlite.ValueOf"] = r["reflect.ValueOf"]
	for _, n := range []string{"Len"} {
		r["(internal/reflectlite.Value)."+n] = reflectValueIntrinsic(n)
	}
	r["reflect.DeepEqual"] = func(g *Gor, f *Func, a []Value) Value {
		if a[0].P == nil || a[1].P == nil {
			return vbool(a[0].P == nil && a[1].P == nil)
		}
		x, y := a[0].P.(*Iface), a[1].P.(*Iface)
		if x.T != y.T {
			return Value{}
		}
		return g.m.deepEq(g, x.V, y.V, x.T.T, 0)
	}
}

type hostRV struct {
	v    Value
	t    types.Type
	addr *Value
}

func mkReflectVal(v Value, t types.Type) Value {
	return Value{P: &Agg{E: []Value{{P: &hostRV{v: v, t: t}}, {}, {N: 1}}}}
}
func rv(v Value) *hostRV {
	h, ok := v.P.(*Agg).E[0].P.(*hostRV)
	if !ok {
		return nil
	}
	return h
}

func reflectTypeIntrinsic(name string) Intrinsic {
	return func(g *Gor, f *Func, a []Value) Value {
		t := rtypeOf(a[0])
		m := g.m
		switch name {
		case "Kind":
			return vint(int(reflectKind(t.T)))
		case "String":
			return vstr(types.TypeString(t.T, func(p *types.Package) string { return p.Name() }))
		case "Name":
			if n, ok := t.T.(*types.Named); ok {
				return vstr(n.Obj().Name())
			}
			if n, ok := t.T.(*types.Basic); ok {
				return vstr(n.Name())
			}
			return Value{}
		case "PkgPath":
			if n, ok := t.T.(*types.Named); ok && n.Obj().Pkg() != nil {
				return vstr(n.Obj().Pkg().Path())
			}
			return Value{}
		case "Comparable":
			return vbool(types.Comparable(t.T))
		case "Elem":
			switch u := t.T.Underlying().(type) {
			case *types.Pointer:
				return m.mkRType(u.Elem())
			case *types.Slice:
				return m.mkRType(u.Elem())
			case *types.Array:
				return m.mkRType(u.Elem())
			case *types.Map:
				return m.mkRType(u.Elem())
			case *types.Chan:
				return m.mkRType(u.Elem())
			}
			m.plainPanic(g, "reflect: Elem of invalid type "+t.T.String())
		case "Key":
			if u, ok := t.T.Underlying().(*types.Map); ok {
				return m.mkRType(u.Key())
			}
		case "NumField":
			return vint(t.T.Underlying().(*types.Struct).NumFields())
		case "Implements":
			o := rtypeOf(a[1])
			return vbool(types.Implements(t.T, o.T.Underlying().(*types.Interface)))
		case "AssignableTo":
			return vbool(types.AssignableTo(t.T, rtypeOf(a[1]).T))
		case "ConvertibleTo":
			return vbool(types.ConvertibleTo(t.T, rtypeOf(a[1]).T))
		}
		if r, ok := reflectType2(g, t.T, name, a); ok {
			return r
		}
		unsupported("reflect.Type.%s", name)
		return Value{}
	}
}

func reflectValueIntrinsic(name string) Intrinsic {
	return func(g *Gor, f *Func, a []Value) Value {
		h := rv(a[0])
		m := g.m
		if h == nil {
			switch name {
			case "IsValid":
				return Value{}
			case "Kind":
				return Value{}
			}
			m.plainPanic(g, "reflect: call of "+name+" on zero Value")
		}
		get := func() Value {
			if h.addr != nil {
				return copyVal(*h.addr)
			}
			return h.v
		}
		switch name {
		case "IsValid":
			return vbool(true)
		case "Kind":
			return vint(int(reflectKind(h.t)))
		case "Type":
			return m.mkRType(h.t)
		case "IsNil":
			return vbool(get().P == nil)
		case "Len":
			v := get()
			if isString(h.t) {
				return vint(strLen(v))
			}
			if wrongKind(name, h.t) {
				m.plainPanic(g, "reflect: call of reflect.Value.Len on "+reflect.Kind(reflectKind(h.t)).String()+" Value")
			}
			switch x := v.P.(type) {
			case nil:
				return Value{}
			case *Slice:
				return vint(len(x.S))
			case *Map:
				return vint(x.Len())
			case *Agg:
				return vint(len(x.E))
			}
		case "Index":
			i := int(m.Concretize(a[1], 64, 64))
			v := get()
			switch u := h.t.Underlying().(type) {
			case *types.Slice:
				s := sliceOf(v)
				if i >= len(s) {
					m.plainPanic(g, "reflect: slice index out of range")
				}
				return Value{P: &Agg{E: []Value{{P: &hostRV{t: u.Elem(), addr: &s[i]}}, {}, {N: 1}}}}
			case *types.Array:
				return mkReflectVal(v.P.(*Agg).E[i], u.Elem())
			}
		case "Elem":
			v := get()
			switch u := h.t.Underlying().(type) {
			case *types.Pointer:
				if v.P == nil {
					return Value{P: &Agg{E: make([]Value, 3)}}
				}
				return Value{P: &Agg{E: []Value{{P: &hostRV{t: u.Elem(), addr: v.P.(*Value)}}, {}, {N: 1}}}}
			case *types.Interface:
				if v.P == nil {
					return Value{P: &Agg{E: make([]Value, 3)}}
				}
				ifc := v.P.(*Iface)
				return mkReflectVal(ifc.V, ifc.T.T)
			}
		case "Interface":
			v := get()
			if _, ok := h.t.Underlying().(*types.Interface); ok {
				return v
			}
			return Value{P: &Iface{T: m.P.rtype(h.t), V: v}}
		case "Int", "Uint", "Float", "Bool":
			v := get()
			k := kindOf(h.t)
			if name == "Int" || name == "Uint" {
				return m.idx64(v, k)
			}
			if name == "Float" {
				return m.convScalar(v, k, kind{-64, true})
			}
			return v
		case "String":
			if isString(h.t) {
				return get()
			}
		case "NumField":
			return vint(h.t.Underlying().(*types.Struct).NumFields())
		case "Field":
			st := h.t.Underlying().(*types.Struct)
			i := int(a[1].N)
			if h.addr != nil {
				return Value{P: &Agg{E: []Value{{P: &hostRV{t: st.Field(i).Type(), addr: &h.addr.P.(*Agg).E[i]}}, {}, {N: 1}}}}
			}
			return mkReflectVal(h.v.P.(*Agg).E[i], st.Field(i).Type())
		case "CanSet", "CanAddr", "CanInterface":
			return vbool(name == "CanInterface" || h.addr != nil)
		case "IsZero":
			v := get()
			z := zeroOf(h.t)
			return m.deepEq(g, v, z, h.t, 0)
		case "Pointer", "UnsafePointer":
			return get()
		}
		if r, ok := reflectValue2(g, h, name, a, f); ok {
			return r
		}
		if wrongKind(name, h.t) {
			m.plainPanic(g, "reflect: call of reflect.Value."+name+" on "+reflect.Kind(reflectKind(h.t)).String()+" Value")
		}
		unsupported("reflect.Value.%s on %s", name, h.t)
		return Value{}
	}
}

func (m *Machine) deepEq(g *Gor, a, b Value, t types.Type, depth int) Value {
	if depth > 40 {
		unsupported("DeepEqual depth")
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if (a.P == nil) != (b.P == nil) {
			return Value{}
		}
		x, y := sliceOf(a), sliceOf(b)
		if len(x) != len(y) {
			return Value{}
		}
		r := vbool(true)
		for i := range x {
			r = m.andV(r, m.deepEq(g, x[i], y[i], u.Elem(), depth+1))
			if r.P == nil && r.N == 0 {
				return r
			}
		}
		return r
	case *types.Array:
		r := vbool(true)
		for i := range a.P.(*Agg).E {
			r = m.andV(r, m.deepEq(g, a.P.(*Agg).E[i], b.P.(*Agg).E[i], u.Elem(), depth+1))
		}
		return r
	case *types.Struct:
		r := vbool(true)
		for i := 0; i < u.NumFields(); i++ {
			r = m.andV(r, m.deepEq(g, a.P.(*Agg).E[i], b.P.(*Agg).E[i], u.Field(i).Type(), depth+1))
			if r.P == nil && r.N == 0 {
				return r
			}
		}
		return r
	case *types.Pointer:
		if a.P == b.P {
			return vbool(true)
		}
		if a.P == nil || b.P == nil {
			return Value{}
		}
		return m.deepEq(g, *m.ptr(g, a), *m.ptr(g, b), u.Elem(), depth+1)
	case *types.Interface:
		x, ok1 := a.P.(*Iface)
		y, ok2 := b.P.(*Iface)
		if !ok1 || !ok2 {
			return vbool(a.P == nil && b.P == nil)
		}
		if x.T != y.T {
			return Value{}
		}
		return m.deepEq(g, x.V, y.V, x.T.T, depth+1)
	case *types.Map:
		if (a.P == nil) != (b.P == nil) {
			return Value{}
		}
		if a.P == b.P {
			return vbool(true)
		}
		x, y := a.P.(*Map), b.P.(*Map)
		if x.n != y.n {
			return Value{}
		}
		r := vbool(true)
		for _, e := range x.ents {
			if !e.live {
				continue
			}
			v, ok := m.mapGet(g, y, e.k)
			if !ok {
				return Value{}
			}
			r = m.andV(r, m.deepEq(g, e.v, v, u.Elem(), depth+1))
		}
		return r
	case *types.Signature:
		return vbool(a.P == nil && b.P == nil)
	}
	return m.eqValue(g, a, b, t, t)
}

// wrongKind: the method panics for every value of this type.
func wrongKind(name string, t types.Type) bool {
	k := reflect.Kind(reflectKind(t))
	var ok []reflect.Kind
	switch name {
	case "Len":
		ok = []reflect.Kind{reflect.Array, reflect.Chan, reflect.Map, reflect.Slice, reflect.String, reflect.Pointer}
		if p, isP := t.Underlying().(*types.Pointer); isP {
			_, isA := p.Elem().Underlying().(*types.Array)
			return !isA
		}
	case "Index":
		ok = []reflect.Kind{reflect.Array, reflect.Slice, reflect.String}
	case "Elem":
		ok = []reflect.Kind{reflect.Pointer, reflect.Interface}
	case "MapKeys", "MapRange", "MapIndex":
		ok = []reflect.Kind{reflect.Map}
	default:
		return false
	}
	for _, o := range ok {
		if o == k {
			return false
		}
	}
	return true
}
