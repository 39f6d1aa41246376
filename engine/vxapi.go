package main

import (
	"fmt"
)

func regVX(r map[string]Intrinsic) {
	p := vxPkg + "."
	iv := func(w int, signed bool, kind string) Intrinsic {
		return func(g *Gor, f *Func, a []Value) Value {
			return fromTerm(g.m.newVar(mustStr(a[0]), w, signed, kind))
		}
	}
	r[p+"Bool"] = iv(0, false, "bool")
	r[p+"Int"] = iv(64, true, "int")
	r[p+"Int8"] = iv(8, true, "int")
	r[p+"Int16"] = iv(16, true, "int")
	r[p+"Int32"] = iv(32, true, "int")
	r[p+"Int64"] = iv(64, true, "int")
	r[p+"Uint"] = iv(64, false, "int")
	r[p+"Uint8"] = iv(8, false, "int")
	r[p+"Uint16"] = iv(16, false, "int")
	r[p+"Uint32"] = iv(32, false, "int")
	r[p+"Uint64"] = iv(64, false, "int")
	r[p+"Float64"] = func(g *Gor, f *Func, a []Value) Value {
		b := g.m.newVar(mustStr(a[0]), 64, false, "f64bits")
		return fromTerm(g.m.ctx.Fun1(OpFFromBits, -64, 0, b))
	}
	r[p+"Float32"] = func(g *Gor, f *Func, a []Value) Value {
		b := g.m.newVar(mustStr(a[0]), 32, false, "f32bits")
		return fromTerm(g.m.ctx.Fun1(OpFFromBits, -32, 0, b))
	}
	mkBytes := func(g *Gor, name string, n int) []Value {
		m := g.m
		b := make([]Value, n)
		for i := range b {
			b[i] = Value{P: m.newVar(fmt.Sprintf("%s[%d]", name, i), 8, false, "strbyte")}
		}
		return b
	}
	uniq := func(m *Machine, name string) string {
		k := m.names["$"+name]
		m.names["$"+name] = k + 1
		if k > 0 {
			return fmt.Sprintf("%s#%d", name, k)
		}
		return name
	}
	r[p+"String"] = func(g *Gor, f *Func, a []Value) Value {
		name := uniq(g.m, mustStr(a[0]))
		n := g.m.Choose(name+".len", int(a[1].N)+1)
		s := mkStr(mkBytes(g, name, n))
		g.m.inputs = append(g.m.inputs, inputVar{Name: name, Kind: "str", Str: s})
		return s
	}
	r[p+"StringN"] = func(g *Gor, f *Func, a []Value) Value {
		name := uniq(g.m, mustStr(a[0]))
		s := mkStr(mkBytes(g, name, int(a[1].N)))
		g.m.inputs = append(g.m.inputs, inputVar{Name: name, Kind: "str", Str: s})
		return s
	}
	r[p+"Bytes"] = func(g *Gor, f *Func, a []Value) Value {
		name := uniq(g.m, mustStr(a[0]))
		n := g.m.Choose(name+".len", int(a[1].N)+1)
		b := mkBytes(g, name, n)
		g.m.inputs = append(g.m.inputs, inputVar{Name: name, Kind: "str", Str: mkStr(b)})
		return mkSlice(append(make([]Value, 0, n), b...))
	}
	r[p+"Choose"] = func(g *Gor, f *Func, a []Value) Value {
		return vint(g.m.Choose(mustStr(a[0]), int(a[1].N)))
	}
	r[p+"Concrete"] = func(g *Gor, f *Func, a []Value) Value {
		return Value{N: g.m.Concretize(a[0], 64, 4096)}
	}
	r[p+"Assume"] = func(g *Gor, f *Func, a []Value) Value {
		m := g.m
		t, ok := a[0].P.(*Term)
		if !ok {
			if a[0].N == 0 {
				panic(&pathEnd{kind: "assume"})
			}
			return Value{}
		}
		if len(m.dec) < len(m.prefix) { // replaying: already known feasible
			m.assume(t)
			return Value{}
		}
		m.assume(t)
		if m.ev == nil {
			rr, mod := m.sol.Check(m.pc)
			if rr == Unsat {
				panic(&pathEnd{kind: "assume"})
			}
			if rr == Sat {
				m.setModel(mod)
			}
		}
		return Value{}
	}
	r[p+"Assert"] = func(g *Gor, f *Func, a []Value) Value {
		g.m.ex.stats.asserts.Add(1)
		if !g.m.Bool(a[0]) {
			panic(&pathEnd{kind: "violation", msg: showStr(a[1])})
		}
		return Value{}
	}
	r[p+"Fail"] = func(g *Gor, f *Func, a []Value) Value {
		g.m.ex.stats.asserts.Add(1)
		panic(&pathEnd{kind: "violation", msg: showStr(a[0])})
	}
	r[p+"Reach"] = func(g *Gor, f *Func, a []Value) Value {
		g.m.reach[mustStr(a[0])] = true
		return Value{}
	}
	r[p+"MustReach"] = func(g *Gor, f *Func, a []Value) Value {
		ex := g.m.ex
		ex.mu.Lock()
		for _, v := range sliceOf(a[0]) {
			ex.mustReach[mustStr(v)] = true
		}
		ex.mu.Unlock()
		return Value{}
	}
	r[p+"KnownIf"] = func(g *Gor, f *Func, a []Value) Value {
		if g.m.Bool(a[1]) {
			g.m.hostState["known"] = mustStr(a[0])
		} else if g.m.hostState["known"] == mustStr(a[0]) {
			delete(g.m.hostState, "known")
		}
		return Value{}
	}
	r[p+"Note"] = func(g *Gor, f *Func, a []Value) Value {
		g.m.notes = append(g.m.notes, showStr(a[0]))
		return Value{}
	}
	r[p+"Symbolic"] = func(g *Gor, f *Func, a []Value) Value { return vbool(true) }
	r[p+"Thorough"] = func(g *Gor, f *Func, a []Value) Value { return vbool(tier == "thorough") }
	r[p+"Starve"] = func(g *Gor, f *Func, a []Value) Value {
		g.m.opts.Preempt, g.m.opts.Starve = int(a[0].N), true
		return Value{}
	}
	r[p+"Delays"] = func(g *Gor, f *Func, a []Value) Value {
		g.m.opts.Preempt, g.m.opts.Delays = int(a[0].N), true
		return Value{}
	}
	r[p+"Preempt"] = func(g *Gor, f *Func, a []Value) Value { g.m.opts.Preempt = int(a[0].N); return Value{} }
	r[p+"TimersAnytime"] = func(g *Gor, f *Func, a []Value) Value { g.m.opts.TimersAnytime = a[0].N != 0; return Value{} }
	r[p+"MapOrder"] = func(g *Gor, f *Func, a []Value) Value { g.m.opts.MapOrder = a[0].N != 0; return Value{} }
	r[p+"SymbolicNow"] = func(g *Gor, f *Func, a []Value) Value { g.m.hostState["symnow"] = true; return Value{} }
	r[p+"Race"] = func(g *Gor, f *Func, a []Value) Value {
		g.m.race = &raceState{shadow: map[*Value]*shadow{}, obj: map[any]map[int]int{}}
		for _, x := range g.m.gors {
			x.vc = map[int]int{x.id: 1}
		}
		return Value{}
	}
	r[p+"Atomic"] = func(g *Gor, f *Func, a []Value) Value {
		g.noSched++
		g.m.callValue(g, a[0], nil)
		g.noSched--
		return Value{}
	}
	r[p+"Quiesce"] = func(g *Gor, f *Func, a []Value) Value {
		m := g.m
		idle := func() bool {
			for _, x := range m.gors {
				if x != g && x.blockDesc != "quiesce" && x.enabled() {
					return false
				}
			}
			return len(m.timers) == 0 || m.hostState["notimers"] == true
		}
		saved := m.opts.Preempt
		m.opts.Preempt = 0
		g.block("quiesce", idle)
		m.opts.Preempt = saved
		return vint(len(m.gors) - 1)
	}
	r[p+"Yield"] = func(g *Gor, f *Func, a []Value) Value { g.sched("yield"); return Value{} }
	r[p+"Now"] = func(g *Gor, f *Func, a []Value) Value { return Value{N: uint64(g.m.now)} }
	r[p+"Blocked"] = func(g *Gor, f *Func, a []Value) Value {
		s := ""
		for _, x := range g.m.gors {
			if x != g {
				s += x.name + "(" + x.blockDesc + ") "
			}
		}
		return vstr(s)
	}
	r[p+"Try"] = func(g *Gor, f *Func, a []Value) Value {
		m := g.m
		fr := &Frame{m: m, g: g, fn: f, parent: g.top}
		save := g.top
		gp := fr.protect(func() { m.callValue(g, a[0], nil) })
		g.top = save
		if gp == nil {
			return Value{P: &Agg{E: []Value{{}, {}}}}
		}
		return Value{P: &Agg{E: []Value{vstr(gp.msg + " at " + gp.where), vbool(true)}}}
	}
}
