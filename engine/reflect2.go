package main

import (
	"go/types"
	"reflect"
)

func rvAddr(t types.Type, p *Value) Value {
	return Value{P: &Agg{E: []Value{{P: &hostRV{t: t, addr: p}}, {}, {N: 1}}}}
}
func rvZero() Value { return Value{P: &Agg{E: make([]Value, 3)}} }

func (h *hostRV) get() Value {
	if h.addr != nil {
		return copyVal(*h.addr)
	}
	return h.v
}

// value of v converted for storing into a location of type t
func (m *Machine) rvAssign(v *hostRV, t types.Type) Value {
	x := v.get()
	if _, ok := t.Underlying().(*types.Interface); ok {
		if _, ok := v.t.Underlying().(*types.Interface); ok {
			return x
		}
		return Value{P: &Iface{T: m.P.rtype(v.t), V: x}}
	}
	return x
}

func (m *Machine) checkAssign(g *Gor, v *hostRV, t types.Type, what string) {
	if v == nil {
		m.plainPanic(g, "reflect: call of "+what+" on zero Value")
	}
	if !types.AssignableTo(v.t, t) {
		m.plainPanic(g, "reflect."+what+": value of type "+v.t.String()+" is not assignable to type "+t.String())
	}
}

func regReflect2(r map[string]Intrinsic) {
	r["reflect.Zero"] = func(g *Gor, f *Func, a []Value) Value {
		if a[0].P == nil {
			g.m.plainPanic(g, "reflect: Zero(nil)")
		}
		t := rtypeOf(a[0]).T
		return mkReflectVal(zeroOf(t), t)
	}
	r["reflect.New"] = func(g *Gor, f *Func, a []Value) Value {
		if a[0].P == nil {
			g.m.plainPanic(g, "reflect: New(nil)")
		}
		t := rtypeOf(a[0]).T
		z := zeroOf(t)
		return mkReflectVal(Value{P: &z}, types.NewPointer(t))
	}
	r["reflect.Indirect"] = func(g *Gor, f *Func, a []Value) Value {
		h := rv(a[0])
		if h == nil {
			return a[0]
		}
		if _, ok := h.t.Underlying().(*types.Pointer); !ok {
			return a[0]
		}
		return reflectValueIntrinsic("Elem")(g, f, a)
	}
	r["reflect.MakeSlice"] = func(g *Gor, f *Func, a []Value) Value {
		t := rtypeOf(a[0]).T
		st, ok := t.Underlying().(*types.Slice)
		if !ok {
			g.m.plainPanic(g, "reflect.MakeSlice of non-slice type")
		}
		n, c := int(g.m.Concretize(a[1], 64, 64)), int(g.m.Concretize(a[2], 64, 64))
		if c < n {
			c = n
		}
		s := make([]Value, n, c)
		full := s[:c]
		for i := range full {
			full[i] = zeroOf(st.Elem())
		}
		return mkReflectVal(mkSlice(s), t)
	}
	r["reflect.MakeMap"] = func(g *Gor, f *Func, a []Value) Value {
		t := rtypeOf(a[0]).T
		return mkReflectVal(Value{P: newMap(t.Underlying().(*types.Map))}, t)
	}
	r["reflect.MakeMapWithSize"] = r["reflect.MakeMap"]
	r["reflect.Append"] = func(g *Gor, f *Func, a []Value) Value {
		h := rv(a[0])
		if h == nil {
			g.m.plainPanic(g, "reflect: call of reflect.Append on zero Value")
		}
		st, ok := h.t.Underlying().(*types.Slice)
		if !ok {
			g.m.plainPanic(g, "reflect.Append of non-slice")
		}
		var add []Value
		for _, x := range sliceOf(a[1]) {
			v := rv(x)
			g.m.checkAssign(g, v, st.Elem(), "Set")
			add = append(add, g.m.rvAssign(v, st.Elem()))
		}
		return mkReflectVal(g.m.appendVals(g, h.get(), add, st.Elem()), h.t)
	}
	r["reflect.AppendSlice"] = func(g *Gor, f *Func, a []Value) Value {
		h, h2 := rv(a[0]), rv(a[1])
		return mkReflectVal(g.m.appendVals(g, h.get(), sliceOf(h2.get()), h.t.Underlying().(*types.Slice).Elem()), h.t)
	}
	tf := func(mk func(t types.Type) types.Type) Intrinsic {
		return func(g *Gor, f *Func, a []Value) Value { return g.m.mkRType(mk(rtypeOf(a[0]).T)) }
	}
	r["reflect.PointerTo"] = tf(func(t types.Type) types.Type { return types.NewPointer(t) })
	r["reflect.PtrTo"] = r["reflect.PointerTo"]
	r["reflect.SliceOf"] = tf(func(t types.Type) types.Type { return types.NewSlice(t) })
	r["reflect.MapOf"] = func(g *Gor, f *Func, a []Value) Value {
		return g.m.mkRType(types.NewMap(rtypeOf(a[0]).T, rtypeOf(a[1]).T))
	}
}

func reflectType2(g *Gor, t types.Type, name string, a []Value) (Value, bool) {
	m := g.m
	switch name {
	case "Bits":
		k := kindOf(t)
		w := k.w
		if w < 0 {
			w = -w
		}
		return vint(w), true
	case "Size":
		return vint(int(types.SizesFor("gc", "amd64").Sizeof(t))), true
	case "Len":
		if u, ok := t.Underlying().(*types.Array); ok {
			return vint(int(u.Len())), true
		}
	case "NumMethod":
		if u, ok := t.Underlying().(*types.Interface); ok {
			return vint(u.NumMethods()), true
		}
		ms := types.NewMethodSet(t)
		n := 0
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return vint(n), true
	case "MethodByName", "Method":
		if _, ok := t.Underlying().(*types.Interface); ok {
			return Value{}, false
		}
		mt := m.P.pkgs["reflect"].Pkg.Scope().Lookup("Method").Type()
		z := zeroOf(mt)
		ms := types.NewMethodSet(t)
		nm, want := "", -1
		if name == "MethodByName" {
			nm = mustStr(a[1])
		} else {
			want = int(a[1].N)
		}
		idx := 0
		for i := 0; i < ms.Len(); i++ {
			o := ms.At(i).Obj()
			if !o.Exported() {
				continue
			}
			if o.Name() != nm && idx != want {
				idx++
				continue
			}
			fn := m.P.lookupMethod(m.P.rtype(t), nil, o.Name())
			if fn == nil {
				return Value{}, false
			}
			sig := fn.fn.Signature
			ps := []*types.Var{types.NewVar(0, nil, "", t)}
			for j := 0; j < sig.Params().Len(); j++ {
				ps = append(ps, sig.Params().At(j))
			}
			ft := types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), sig.Results(), sig.Variadic())
			ag := z.P.(*Agg)
			st := mt.Underlying().(*types.Struct)
			for j := 0; j < st.NumFields(); j++ {
				switch st.Field(j).Name() {
				case "Name":
					ag.E[j] = vstr(o.Name())
				case "Type":
					ag.E[j] = m.mkRType(ft)
				case "Func":
					ag.E[j] = mkReflectVal(Value{P: &Closure{Nat: func(g *Gor, b []Value) Value { return g.m.call(g, fn, b, nil) }}}, ft)
				case "Index":
					ag.E[j] = vint(idx)
				}
			}
			if name == "Method" {
				return z, true
			}
			return Value{P: &Agg{E: []Value{z, vbool(true)}}}, true
		}
		if name == "Method" {
			m.plainPanic(g, "reflect: Method index out of range")
		}
		return Value{P: &Agg{E: []Value{z, {}}}}, true
	case "Field", "FieldByName":
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			m.plainPanic(g, "reflect: "+name+" of non-struct type "+t.String())
		}
		i := -1
		if name == "Field" {
			i = int(a[1].N)
		} else {
			nm := mustStr(a[1])
			for j := 0; j < st.NumFields(); j++ {
				if st.Field(j).Name() == nm {
					i = j
				}
			}
		}
		sft := m.P.pkgs["reflect"].Pkg.Scope().Lookup("StructField").Type()
		z := zeroOf(sft)
		if i < 0 {
			return Value{P: &Agg{E: []Value{z, {}}}}, true
		}
		ag := z.P.(*Agg)
		fst := sft.Underlying().(*types.Struct)
		for j := 0; j < fst.NumFields(); j++ {
			switch fst.Field(j).Name() {
			case "Name":
				ag.E[j] = vstr(st.Field(i).Name())
			case "PkgPath":
				if !st.Field(i).Exported() {
					ag.E[j] = vstr(st.Field(i).Pkg().Path())
				}
			case "Type":
				ag.E[j] = m.mkRType(st.Field(i).Type())
			case "Tag":
				ag.E[j] = vstr(st.Tag(i))
			case "Index":
				ag.E[j] = mkSlice([]Value{vint(i)})
			case "Anonymous":
				ag.E[j] = vbool(st.Field(i).Embedded())
			}
		}
		if name == "Field" {
			return z, true
		}
		return Value{P: &Agg{E: []Value{z, vbool(true)}}}, true
	}
	return Value{}, false
}

func reflectValue2(g *Gor, h *hostRV, name string, a []Value, f *Func) (Value, bool) {
	m := g.m
	set := func(v Value) (Value, bool) {
		if h.addr == nil {
			m.plainPanic(g, "reflect: reflect.Value."+name+" using unaddressable value")
		}
		m.storeInto(h.addr, v)
		return Value{}, true
	}
	switch name {
	case "Set":
		v := rv(a[1])
		m.checkAssign(g, v, h.t, "Set")
		return set(m.rvAssign(v, h.t))
	case "SetInt", "SetUint":
		return set(m.convScalar(a[1], kind{64, name == "SetInt"}, kindOf(h.t)))
	case "SetFloat":
		return set(m.convScalar(a[1], kind{-64, true}, kindOf(h.t)))
	case "SetBool", "SetString", "SetBytes":
		return set(a[1])
	case "Addr":
		if h.addr == nil {
			m.plainPanic(g, "reflect.Value.Addr of unaddressable value")
		}
		return mkReflectVal(Value{P: h.addr}, types.NewPointer(h.t)), true
	case "SetLen", "Grow":
		s := sliceOf(h.get())
		n := int(m.Concretize(a[1], 64, 64))
		if name == "SetLen" {
			if n < 0 || n > cap(s) {
				m.plainPanic(g, "reflect: slice length out of range in SetLen")
			}
			return set(mkSlice(s[:n]))
		}
		if len(s)+n <= cap(s) {
			return Value{}, true
		}
		et := h.t.Underlying().(*types.Slice).Elem()
		size, ptr := elemLayout(et)
		return set(mkSlice(growTo(s, len(s)+n, growCap(cap(s), len(s)+n, size, ptr), et, needsAgg(et))[:len(s)]))
	case "SetZero":
		return set(zeroOf(h.t))
	case "Cap":
		return vint(cap(sliceOf(h.get()))), true
	case "Bytes":
		return h.get(), true
	case "FieldByName":
		st, ok := h.t.Underlying().(*types.Struct)
		if !ok {
			m.plainPanic(g, "reflect: call of reflect.Value.FieldByName on "+h.t.String()+" Value")
		}
		nm := mustStr(a[1])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == nm {
				return reflectValueIntrinsic("Field")(g, f, []Value{a[0], vint(i)}), true
			}
		}
		return rvZero(), true
	case "MapIndex":
		v := h.get()
		u := h.t.Underlying().(*types.Map)
		if v.P == nil {
			return rvZero(), true
		}
		x, ok := m.mapGet(g, v.P.(*Map), m.rvAssign(rv(a[1]), u.Key()))
		if !ok {
			return rvZero(), true
		}
		return mkReflectVal(copyVal(x), u.Elem()), true
	case "SetMapIndex":
		v := h.get()
		u := h.t.Underlying().(*types.Map)
		if v.P == nil {
			m.plainPanic(g, "assignment to entry in nil map")
		}
		k := m.rvAssign(rv(a[1]), u.Key())
		e := rv(a[2])
		if e == nil {
			m.mapDelete(g, v.P.(*Map), k)
		} else {
			m.mapSet(g, v.P.(*Map), k, m.rvAssign(e, u.Elem()))
		}
		return Value{}, true
	case "MapKeys":
		v := h.get()
		u := h.t.Underlying().(*types.Map)
		var ks []Value
		if v.P != nil {
			it := m.mapIter(v.P.(*Map))
			for {
				k, _, ok := m.mapNext(it)
				if !ok {
					break
				}
				ks = append(ks, mkReflectVal(k, u.Key()))
			}
		}
		return mkSlice(ks), true
	case "MapRange":
		v := h.get()
		z := Value{P: &hostMapIter{t: h.t.Underlying().(*types.Map)}}
		hi := z.P.(*hostMapIter)
		if v.P != nil {
			hi.it = m.mapIter(v.P.(*Map))
		}
		return Value{P: &z}, true
	case "Convert":
		t := rtypeOf(a[1]).T
		v := h.get()
		if !types.ConvertibleTo(h.t, t) {
			m.plainPanic(g, "reflect.Value.Convert: value of type "+h.t.String()+" cannot be converted to type "+t.String())
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			return mkReflectVal(m.rvAssign(h, t), t), true
		}
		fk, tk := kindOf(h.t), kindOf(t)
		if fk.w != -1 && tk.w != -1 && fk.w != 0 {
			return mkReflectVal(m.convScalar(v, fk, tk), t), true
		}
		if isString(h.t) && isString(t) || types.Identical(h.t.Underlying(), t.Underlying()) {
			return mkReflectVal(v, t), true
		}
		if isString(t) {
			if st, ok := h.t.Underlying().(*types.Slice); ok && kindOf(st.Elem()).w == 8 {
				return mkReflectVal(mkStr(sliceOf(v)), t), true
			}
		}
		if st, ok := t.Underlying().(*types.Slice); ok && isString(h.t) && kindOf(st.Elem()).w == 8 {
			return mkReflectVal(mkSlice(append([]Value(nil), strBytes(v)...)), t), true
		}
	case "Slice":
		lo, hi := int(m.Concretize(a[1], 64, 64)), int(m.Concretize(a[2], 64, 64))
		if isString(h.t) {
			return mkReflectVal(strSlice(h.get(), lo, hi), h.t), true
		}
		return mkReflectVal(mkSlice(sliceOf(h.get())[lo:hi]), h.t), true
	case "Complex":
		return Value{}, false
	case "OverflowInt", "OverflowUint":
		k := kindOf(h.t)
		if k.w == 64 {
			return Value{}, true
		}
		sg := name == "OverflowInt"
		back := m.convScalar(m.convScalar(a[1], kind{64, sg}, kind{k.w, sg}), kind{k.w, sg}, kind{64, sg})
		return m.notV(m.eqValue(g, back, a[1], types.Typ[types.Int64], types.Typ[types.Int64])), true
	case "OverflowFloat":
		if reflectKind(h.t) == reflect.Float64 {
			return Value{}, true
		}
	case "CanConvert":
		return vbool(types.ConvertibleTo(h.t, rtypeOf(a[1]).T)), true
	case "CanInt":
		k := kindOf(h.t)
		return vbool(k.w > 0 && k.signed), true
	case "CanUint":
		k := kindOf(h.t)
		return vbool(k.w > 0 && !k.signed), true
	case "CanFloat":
		k := kindOf(h.t)
		return vbool(k.w == -32 || k.w == -64), true
	case "Comparable":
		return vbool(types.Comparable(h.t)), true
	case "MethodByName":
		nm := mustStr(a[1])
		fn := m.P.lookupMethod(m.P.rtype(h.t), nil, nm)
		if ifc, ok := h.t.Underlying().(*types.Interface); ok {
			_ = ifc
			unsupported("MethodByName on interface")
		}
		if fn == nil {
			return rvZero(), true
		}
		recv := h.get()
		sig := fn.fn.Signature
		return mkReflectVal(Value{P: &Closure{Nat: func(g *Gor, b []Value) Value {
			return g.m.call(g, fn, append([]Value{recv}, b...), nil)
		}}}, types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())), true
	case "Call":
		sig, ok := h.t.Underlying().(*types.Signature)
		if !ok {
			m.plainPanic(g, "reflect: call of Call on "+h.t.String())
		}
		var args []Value
		for i, x := range sliceOf(a[1]) {
			if sig.Variadic() {
				unsupported("reflect Call of variadic")
			}
			m.checkAssign(g, rv(x), sig.Params().At(i).Type(), "Call")
			args = append(args, m.rvAssign(rv(x), sig.Params().At(i).Type()))
		}
		ret := m.callValue(g, h.get(), args)
		var out []Value
		switch sig.Results().Len() {
		case 0:
		case 1:
			out = append(out, mkReflectVal(ret, sig.Results().At(0).Type()))
		default:
			for i := 0; i < sig.Results().Len(); i++ {
				out = append(out, mkReflectVal(ret.P.(*Agg).E[i], sig.Results().At(i).Type()))
			}
		}
		return mkSlice(out), true
	case "NumMethod":
		return reflectType2(g, h.t, "NumMethod", nil)
	}
	return Value{}, false
}

type hostMapIter struct {
	t    *types.Map
	it   *mapIter
	k, v Value
}

func reflectMapIter(name string) Intrinsic {
	return func(g *Gor, f *Func, a []Value) Value {
		p := g.m.ptr(g, a[0])
		hi, ok := p.P.(*hostMapIter)
		if !ok {
			unsupported("reflect.MapIter")
		}
		switch name {
		case "Next":
			if hi.it == nil {
				return Value{}
			}
			k, v, ok := g.m.mapNext(hi.it)
			if ok {
				hi.k, hi.v = k, v
			}
			return vbool(ok)
		case "Key":
			return mkReflectVal(hi.k, hi.t.Key())
		case "Value":
			return mkReflectVal(hi.v, hi.t.Elem())
		}
		unsupported("reflect.MapIter.%s", name)
		return Value{}
	}
}

// appendVals is append, as the language has it: in place if there is room.
func (m *Machine) appendVals(g *Gor, sv Value, add []Value, et types.Type) Value {
	s := sliceOf(sv)
	if len(add) == 0 {
		return sv
	}
	var r []Value
	if n := len(s) + len(add); n <= cap(s) {
		r = s[:n]
	} else {
		size, ptr := elemLayout(et)
		r = growTo(s, n, growCap(cap(s), n, size, ptr), et, needsAgg(et))
	}
	for i := range add {
		p := &r[len(s)+i]
		if m.race != nil {
			m.raceWrite(g, p)
		}
		m.logTrail(p)
		*p = copyVal(add[i])
	}
	return mkSlice(r)
}
