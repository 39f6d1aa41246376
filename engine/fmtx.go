package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fmt is modelled natively: concrete operands format as the real package
// does (for the verbs used), symbolic strings keep their bytes, other symbolic
// operands become an opaque placeholder.

func (m *Machine) fmtOperand(g *Gor, verb byte, spec string, arg Value, depth int) Value {
	if arg.P == nil {
		if verb == 'v' || verb == 's' {
			if verb == 's' {
				return vstr("%!s(<nil>)")
			}
			return vstr("<nil>")
		}
		return vstr(fmt.Sprintf("%%!%c(<nil>)", verb))
	}
	ifc := arg.P.(*Iface)
	return m.fmtTyped(g, verb, spec, ifc.V, ifc.T.T, depth)
}

func (m *Machine) hasMethod(t types.Type, name string) bool {
	sel := m.P.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return false
	}
	sig := sel.Type().(*types.Signature)
	return sig.Params().Len() == 0 && sig.Results().Len() == 1 && isString(sig.Results().At(0).Type())
}

func quoteSym(v Value) Value {
	if s, ok := goStr(v); ok {
		return vstr(strconv.Quote(s))
	}
	return strConcat(strConcat(vstr(`"`), v), vstr(`"`))
}

func (m *Machine) fmtTyped(g *Gor, verb byte, spec string, v Value, t types.Type, depth int) Value {
	if depth > 6 {
		return vstr("...")
	}
	if verb == 'T' {
		return vstr(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	}
	if verb == 'p' {
		return vstr("0xc000000000")
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' && false {
		if !strings.Contains(spec, "#") {
			for _, mn := range []string{"Error", "String"} {
				if m.hasMethod(t, mn) {
					if _, ok := t.Underlying().(*types.Pointer); ok && v.P == nil {
						return vstr("<nil>")
					}
					f := m.P.lookupMethod(m.P.rtype(t), nil, mn)
					g.noSched++
					s := m.call(g, f, []Value{v}, nil)
					g.noSched--
					if verb == 'q' {
						return quoteSym(s)
					}
					return m.padStr(spec, s)
				}
			}
		}
	}
	k := kindOf(t)
	if isString(t) {
		switch verb {
		case 'q':
			return quoteSym(v)
		case 'x', 'X':
			if s, ok := goStr(v); ok {
				return vstr(fmt.Sprintf("%"+spec+string(verb), s))
			}
			return vstr("<symhex>")
		case 'v', 's':
			if strings.Contains(spec, "#") {
				return quoteSym(v)
			}
			return m.padStr(spec, v)
		case 'd':
			return strConcat(strConcat(vstr("%!d(string="), v), vstr(")"))
		}
	}
	if k.w != -1 {
		if isSym(v) {
			if k.w == 0 && (verb == 'v' || verb == 't') {
				if m.Bool(v) {
					return vstr("true")
				}
				return vstr("false")
			}
			if k.w > 0 && spec == "" && (verb == 'd' || verb == 'v') {
				// decimal rendering through the real strconv code
				if pk := m.P.pkgs["strconv"]; pk != nil {
					if k.signed {
						return m.call(g, m.P.fn(pk.Func("FormatInt")), []Value{m.idx64(v, k), vint(10)}, nil)
					}
					return m.call(g, m.P.fn(pk.Func("FormatUint")), []Value{m.idx64(v, k), vint(10)}, nil)
				}
			}
			return vstr(fmt.Sprintf("<sym:%d>", v.P.(*Term).ID))
		}
		switch v.P.(type) {
		case nil:
		default:
			return vstr("<ptr>")
		}
		switch {
		case k.w == 0:
			return vstr(fmt.Sprintf("%"+spec+string(verb), v.N != 0))
		case k.w == -64:
			return vstr(fmt.Sprintf("%"+spec+string(verb), math.Float64frombits(v.N)))
		case k.w == -32:
			return vstr(fmt.Sprintf("%"+spec+string(verb), math.Float32frombits(uint32(v.N))))
		case k.signed:
			x := sext64(v.N, k.w)
			if verb == 's' || verb == 'q' && k.w != 32 || verb == 'c' {
				if k.w == 32 {
					return vstr(fmt.Sprintf("%"+spec+string(verb), int32(x)))
				}
			}
			return vstr(fmt.Sprintf("%"+spec+string(verb), x))
		default:
			if k.w == 8 {
				return vstr(fmt.Sprintf("%"+spec+string(verb), uint8(v.N)))
			}
			return vstr(fmt.Sprintf("%"+spec+string(verb), v.N))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return m.fmtOperand(g, verb, spec, v, depth)
	case *types.Slice:
		s := sliceOf(v)
		if kindOf(u.Elem()).w == 8 && (verb == 's' || verb == 'q' || verb == 'x') {
			str := mkStr(s)
			if cs, ok := goStr(str); ok {
				return vstr(fmt.Sprintf("%"+spec+string(verb), []byte(cs)))
			}
			if verb == 's' {
				return str
			}
			return vstr("<symbytes>")
		}
		r := vstr("[")
		for i, e := range s {
			if i > 0 {
				r = strConcat(r, vstr(" "))
			}
			r = strConcat(r, m.fmtTyped(g, verb, spec, e, u.Elem(), depth+1))
		}
		return strConcat(r, vstr("]"))
	case *types.Array:
		r := vstr("[")
		for i, e := range v.P.(*Agg).E {
			if i > 0 {
				r = strConcat(r, vstr(" "))
			}
			r = strConcat(r, m.fmtTyped(g, verb, spec, e, u.Elem(), depth+1))
		}
		return strConcat(r, vstr("]"))
	case *types.Struct:
		r := vstr("{")
		for i, e := range v.P.(*Agg).E {
			if i > 0 {
				r = strConcat(r, vstr(" "))
			}
			if strings.Contains(spec, "+") {
				r = strConcat(r, vstr(u.Field(i).Name()+":"))
			}
			r = strConcat(r, m.fmtTyped(g, verb, spec, e, u.Field(i).Type(), depth+1))
		}
		return strConcat(r, vstr("}"))
	case *types.Pointer:
		if v.P == nil {
			return vstr("<nil>")
		}
		if p, ok := v.P.(*Value); ok && depth == 0 {
			if _, ok := u.Elem().Underlying().(*types.Struct); ok {
				return strConcat(vstr("&"), m.fmtTyped(g, verb, spec, *p, u.Elem(), depth+1))
			}
		}
		return vstr("0xc000000000")
	case *types.Map:
		r := vstr("map[")
		if mm, ok := v.P.(*Map); ok {
			first := true
			for _, e := range mm.ents {
				if !e.live {
					continue
				}
				if !first {
					r = strConcat(r, vstr(" "))
				}
				first = false
				r = strConcat(r, m.fmtTyped(g, verb, spec, e.k, u.Key(), depth+1))
				r = strConcat(r, vstr(":"))
				r = strConcat(r, m.fmtTyped(g, verb, spec, e.v, u.Elem(), depth+1))
			}
		}
		return strConcat(r, vstr("]"))
	case *types.Signature, *types.Chan:
		return vstr("0xc000000000")
	}
	return vstr(fmt.Sprintf("<%s>", t))
}

func (m *Machine) padStr(spec string, s Value) Value {
	if spec == "" || spec == "+" {
		return s
	}
	if cs, ok := goStr(s); ok {
		return vstr(fmt.Sprintf("%"+spec+"s", cs))
	}
	return s
}

func (m *Machine) sprintf(g *Gor, format Value, args []Value) Value {
	if _, ok := goStr(format); !ok && len(args) == 0 {
		// a symbolic format without operands: directives in it are not interpreted
		m.note("symbolic format string: directives not interpreted")
		return format
	}
	f, ok := goStr(format)
	if !ok {
		unsupported("symbolic format string")
	}
	var out Value
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = strConcat(out, vstr(f[i:]))
			break
		}
		if j > 0 {
			out = strConcat(out, vstr(f[i:i+j]))
		}
		i += j + 1
		if i >= len(f) {
			out = strConcat(out, vstr("%!(NOVERB)"))
			break
		}
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[i]) >= 0 {
			i++
		}
		spec := f[st:i]
		if i >= len(f) {
			break
		}
		verb := f[i]
		i++
		if verb == '%' {
			out = strConcat(out, vstr("%"))
			continue
		}
		for strings.Contains(spec, "*") {
			n := "0"
			if ai < len(args) {
				if ifc, ok := args[ai].P.(*Iface); ok {
					n = strconv.FormatInt(int64(ifc.V.N), 10)
				}
			}
			ai++
			spec = strings.Replace(spec, "*", n, 1)
		}
		if ai >= len(args) {
			out = strConcat(out, vstr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		vb := verb
		if vb == 'w' {
			vb = 'v'
		}
		out = strConcat(out, m.fmtOperand(g, vb, spec, args[ai], 0))
		ai++
	}
	if ai < len(args) {
		out = strConcat(out, vstr("%!(EXTRA )"))
	}
	return out
}

func (m *Machine) sprint(g *Gor, args []Value, ln bool) Value {
	var out Value
	prevStr := true
	for i, a := range args {
		isS := false
		if ifc, ok := a.P.(*Iface); ok {
			isS = isString(ifc.T.T)
		}
		if i > 0 && (ln || !isS && !prevStr) {
			out = strConcat(out, vstr(" "))
		}
		out = strConcat(out, m.fmtOperand(g, 'v', "", a, 0))
		prevStr = isS
	}
	if ln {
		out = strConcat(out, vstr("\n"))
	}
	return out
}

func regFmt(r map[string]Intrinsic) {
	r["fmt.Sprintf"] = func(g *Gor, f *Func, a []Value) Value { return g.m.sprintf(g, a[0], sliceOf(a[1])) }
	r["fmt.Sprint"] = func(g *Gor, f *Func, a []Value) Value { return g.m.sprint(g, sliceOf(a[0]), false) }
	r["fmt.Sprintln"] = func(g *Gor, f *Func, a []Value) Value { return g.m.sprint(g, sliceOf(a[0]), true) }
	two := func() Value { return Value{P: &Agg{E: []Value{{}, {}}}} }
	r["fmt.Println"] = func(g *Gor, f *Func, a []Value) Value { return two() }
	r["fmt.Printf"] = r["fmt.Println"]
	r["fmt.Print"] = r["fmt.Println"]
	fw := func(mk func(g *Gor, a []Value) Value) Intrinsic {
		return func(g *Gor, f *Func, a []Value) Value {
			s := mk(g, a)
			return g.m.callMethod(g, a[0], nil, "Write", mkSlice(append([]Value(nil), strBytes(s)...)))
		}
	}
	r["fmt.Fprintf"] = fw(func(g *Gor, a []Value) Value { return g.m.sprintf(g, a[1], sliceOf(a[2])) })
	r["fmt.Fprint"] = fw(func(g *Gor, a []Value) Value { return g.m.sprint(g, sliceOf(a[1]), false) })
	r["fmt.Fprintln"] = fw(func(g *Gor, a []Value) Value { return g.m.sprint(g, sliceOf(a[1]), true) })
	r["fmt.Errorf"] = func(g *Gor, f *Func, a []Value) Value {
		m := g.m
		args := sliceOf(a[1])
		format, ok := goStr(a[0])
		if !ok && len(args) > 0 {
			mustStr(a[0])
		}
		s := m.sprintf(g, a[0], args)
		// find %w operands
		var wrapped []Value
		ai := 0
		for i := 0; i < len(format); i++ {
			if format[i] != '%' {
				continue
			}
			i++
			for i < len(format) && strings.IndexByte("+-# 0123456789.[]", format[i]) >= 0 {
				i++
			}
			if i >= len(format) || format[i] == '%' {
				continue
			}
			if format[i] == 'w' && ai < len(args) {
				wrapped = append(wrapped, args[ai])
			}
			ai++
		}
		pk := f.fn.Package()
		mk := func(name string, fields ...Value) Value {
			var tn types.Type
			if o := pk.Pkg.Scope().Lookup(name); o != nil {
				tn = o.Type()
			}
			v := Value{P: &Agg{E: fields}}
			return Value{P: &Iface{T: m.P.rtype(types.NewPointer(tn)), V: Value{P: &v}}}
		}
		switch len(wrapped) {
		case 0:
			ep := m.P.pkgs["errors"]
			return m.call(g, m.P.fn(ep.Func("New")), []Value{s}, nil)
		case 1:
			return mk("wrapError", s, wrapped[0])
		}
		return mk("wrapErrors", s, mkSlice(wrapped))
	}
	r["golang.org/x/xerrors.Errorf"] = r["fmt.Errorf"]
}

var _ *ssa.Function
