package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
)

const vxPkg = "github.com/mercari/grpc-federation/vx"

// cells lists the scalar leaf cells of the value stored at p.
func cells(p *Value, out []*Value) []*Value {
	if a, ok := p.P.(*Agg); ok {
		for i := range a.E {
			out = cells(&a.E[i], out)
		}
		return out
	}
	return append(out, p)
}
func (m *Machine) setCell(p *Value, v Value) { m.logTrail(p); *p = v }

func prefixIntrinsic(name string) Intrinsic {
	switch {
	case strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "internal/runtime/atomic."):
		return atomicIntrinsic(name[strings.LastIndexByte(name, '.')+1:])
	case strings.HasPrefix(name, "internal/race."), strings.HasPrefix(name, "internal/msan."), strings.HasPrefix(name, "internal/asan."):
		return func(g *Gor, f *Func, a []Value) Value { return Value{} }
	case strings.HasPrefix(name, "(reflect.Value)."):
		return reflectValueIntrinsic(name[len("(reflect.Value)."):])
	case strings.HasPrefix(name, "(internal/reflectlite.rtype)."):
		return reflectTypeIntrinsic(name[len("(internal/reflectlite.rtype)."):])
	case strings.HasPrefix(name, "(*reflect.MapIter)."):
		return reflectMapIter(name[len("(*reflect.MapIter)."):])
	case strings.HasPrefix(name, "(*reflect.rtype)."):
		return reflectTypeIntrinsic(name[len("(*reflect.rtype)."):])
	case strings.HasPrefix(name, "log/slog."), strings.HasPrefix(name, "(*log/slog."), strings.HasPrefix(name, "(log/slog."):
		return nil
	}
	return nil
}

func atomicIntrinsic(name string) Intrinsic {
	pre := func(g *Gor, a []Value) *Value {
		g.sched("atomic")
		p := g.m.ptr(g, a[0])
		if g.m.race != nil {
			g.m.acquire(g, p)
			g.m.release(g, p)
		}
		return p
	}
	w := 64
	if strings.HasSuffix(name, "32") {
		w = 32
	}
	switch {
	case strings.HasPrefix(name, "Load"):
		return func(g *Gor, f *Func, a []Value) Value { return *pre(g, a) }
	case strings.HasPrefix(name, "Store"):
		return func(g *Gor, f *Func, a []Value) Value { p := pre(g, a); g.m.setCell(p, a[1]); return Value{} }
	case strings.HasPrefix(name, "Add"):
		return func(g *Gor, f *Func, a []Value) Value {
			p := pre(g, a)
			v := g.m.symBin(OpAdd, *p, a[1], w)
			g.m.setCell(p, v)
			return v
		}
	case strings.HasPrefix(name, "Swap"):
		return func(g *Gor, f *Func, a []Value) Value {
			p := pre(g, a)
			old := *p
			g.m.setCell(p, a[1])
			return old
		}
	case strings.HasPrefix(name, "CompareAndSwap"):
		return func(g *Gor, f *Func, a []Value) Value {
			p := pre(g, a)
			eq := false
			if p.P == nil && a[1].P == nil {
				eq = p.N == a[1].N
			} else if isSym(*p) || isSym(a[1]) {
				eq = g.m.Bool(fromTerm(g.m.ctx.Eq(g.m.term(*p, w), g.m.term(a[1], w))))
			} else {
				eq = p.P == a[1].P
			}
			if eq {
				g.m.setCell(p, a[2])
			}
			return vbool(eq)
		}
	case strings.HasPrefix(name, "And"), strings.HasPrefix(name, "Or"):
		op := OpAnd
		if strings.HasPrefix(name, "Or") {
			op = OpOr
		}
		return func(g *Gor, f *Func, a []Value) Value {
			p := pre(g, a)
			old := *p
			g.m.setCell(p, g.m.symBin(op, *p, a[1], w))
			return old
		}
	}
	return nil
}

func (m *Machine) lockCells(g *Gor, v Value) []*Value { return cells(m.ptr(g, v), nil) }

func registerIntrinsics() map[string]Intrinsic {
	r := map[string]Intrinsic{}
	nop := func(g *Gor, f *Func, a []Value) Value { return Value{} }
	for _, n := range []string{"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "internal/godebug.setUpdate", "internal/godebug.registerMetric",
		"(*internal/godebug.Setting).IncNonDefault", "internal/godebug.setNewIncNonDefault", "sync.runtime_registerPoolCleanup", "internal/runtime/sys.EnableDWIT",
		"runtime.ReadMemStats", "runtime/debug.SetGCPercent", "(*sync.noCopy).Lock", "(*sync.noCopy).Unlock", "internal/bytealg.abigen_runtime_memequal", "time.runtimeIsBubbled", "runtime.LockOSThread", "runtime.UnlockOSThread"} {
		r[n] = nop
	}
	r["(*internal/godebug.Setting).Value"] = nop
	r["(*log/slog.defaultHandler).Handle"] = nop
	r["internal/godebug.New"] = func(g *Gor, f *Func, a []Value) Value {
		z := zeroOf(derefT(f.fn.Signature.Results().At(0).Type()))
		return Value{P: &z}
	}
	rnd := func(g *Gor, f *Func, a []Value) Value { return fromTerm(g.m.newVar("rand", 64, false, "int")) }
	for _, n := range []string{"math/rand.runtime_rand", "math/rand/v2.runtime_rand", "runtime.rand", "internal/rand.runtime_rand", "hash/maphash.runtime_rand"} {
		r[n] = rnd
	}
	r["runtime.Gosched"] = func(g *Gor, f *Func, a []Value) Value { g.sched("gosched"); return Value{} }
	r["runtime.GOMAXPROCS"] = func(g *Gor, f *Func, a []Value) Value { return vint(4) }
	r["runtime.NumCPU"] = r["runtime.GOMAXPROCS"]
	r["runtime.Callers"] = nop
	r["runtime.Caller"] = func(g *Gor, f *Func, a []Value) Value {
		return Value{P: &Agg{E: []Value{{}, {}, {}, {}}}}
	}
	r["runtime.Stack"] = nop
	r["runtime/debug.Stack"] = func(g *Gor, f *Func, a []Value) Value { return Value{} }
	r["os.runtime_args"] = nop
	r["syscall.runtime_envs"] = nop
	r["runtime.Goexit"] = func(g *Gor, f *Func, a []Value) Value { unsupported("Goexit"); return Value{} }

	// ---- sync
	lock := func(g *Gor, f *Func, a []Value) Value {
		g.sched("lock")
		c := g.m.lockCells(g, a[0])[0]
		g.block("mutex "+g.where1(), func() bool { return c.N == 0 })
		g.m.setCell(c, Value{N: 1})
		g.m.acquire(g, c)
		return Value{}
	}
	unlock := func(g *Gor, f *Func, a []Value) Value {
		c := g.m.lockCells(g, a[0])[0]
		if c.N == 0 {
			g.m.fatal(g, "sync: unlock of unlocked mutex")
		}
		g.m.release(g, c)
		g.m.setCell(c, Value{N: 0})
		g.sched("unlock")
		return Value{}
	}
	try := func(g *Gor, f *Func, a []Value) Value {
		g.sched("trylock")
		c := g.m.lockCells(g, a[0])[0]
		if c.N != 0 {
			return Value{}
		}
		g.m.setCell(c, Value{N: 1})
		g.m.acquire(g, c)
		return vbool(true)
	}
	for _, t := range []string{"(*sync.Mutex)", "(*internal/sync.Mutex)"} {
		r[t+".Lock"], r[t+".Unlock"], r[t+".TryLock"] = lock, unlock, try
	}
	// RWMutex: cells[0] writer flag, cells[3] reader count (readerSem word)
	r["(*sync.RWMutex).Lock"] = func(g *Gor, f *Func, a []Value) Value {
		g.sched("lock")
		c := g.m.lockCells(g, a[0])
		g.block("rwmutex lock "+g.where1(), func() bool { return c[0].N == 0 && c[3].N == 0 })
		g.m.setCell(c[0], Value{N: 1})
		g.m.acquire(g, c[0])
		g.m.acquire(g, c[3])
		return Value{}
	}
	r["(*sync.RWMutex).Unlock"] = func(g *Gor, f *Func, a []Value) Value {
		c := g.m.lockCells(g, a[0])
		if c[0].N == 0 {
			g.m.fatal(g, "sync: Unlock of unlocked RWMutex")
		}
		g.m.release(g, c[0])
		g.m.setCell(c[0], Value{N: 0})
		g.sched("unlock")
		return Value{}
	}
	r["(*sync.RWMutex).RLock"] = func(g *Gor, f *Func, a []Value) Value {
		g.sched("rlock")
		c := g.m.lockCells(g, a[0])
		g.block("rwmutex rlock "+g.where1(), func() bool { return c[0].N == 0 })
		g.m.setCell(c[3], Value{N: c[3].N + 1})
		g.m.acquire(g, c[0])
		return Value{}
	}
	r["(*sync.RWMutex).RUnlock"] = func(g *Gor, f *Func, a []Value) Value {
		c := g.m.lockCells(g, a[0])
		if c[3].N == 0 {
			g.m.fatal(g, "sync: RUnlock of unlocked RWMutex")
		}
		g.m.release(g, c[3])
		g.m.setCell(c[3], Value{N: c[3].N - 1})
		g.sched("runlock")
		return Value{}
	}
	// WaitGroup: first non-struct cell is the counter
	wgAdd := func(g *Gor, p Value, d int64) {
		c := g.m.lockCells(g, p)[0]
		g.m.release(g, c)
		n := int64(c.N) + d
		if n < 0 {
			g.m.plainPanic(g, "sync: negative WaitGroup counter")
		}
		g.m.setCell(c, Value{N: uint64(n)})
		g.sched("wg")
	}
	r["(*sync.WaitGroup).Add"] = func(g *Gor, f *Func, a []Value) Value {
		wgAdd(g, a[0], int64(g.m.Concretize(a[1], 64, 64)))
		return Value{}
	}
	r["(*sync.WaitGroup).Done"] = func(g *Gor, f *Func, a []Value) Value { wgAdd(g, a[0], -1); return Value{} }
	r["(*sync.WaitGroup).Go"] = func(g *Gor, f *Func, a []Value) Value {
		wgAdd(g, a[0], 1)
		p, fn := a[0], a[1]
		g.m.spawn(g, "wg.Go", func(g2 *Gor) { g2.m.callValue(g2, fn, nil); wgAdd(g2, p, -1) })
		return Value{}
	}
	r["(*sync.WaitGroup).Wait"] = func(g *Gor, f *Func, a []Value) Value {
		g.sched("wait")
		c := g.m.lockCells(g, a[0])[0]
		g.block("waitgroup "+g.where1(), func() bool { return c.N == 0 })
		g.m.acquire(g, c)
		return Value{}
	}
	r["(*sync.Pool).Get"] = func(g *Gor, f *Func, a []Value) Value {
		p := g.m.ptr(g, a[0])
		st := derefT(f.fn.Signature.Recv().Type()).Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				fv := p.P.(*Agg).E[i]
				if fv.P == nil {
					return Value{}
				}
				return g.m.callValue(g, fv, nil)
			}
		}
		return Value{}
	}
	r["(*sync.Pool).Put"] = nop
	// ---- atomic.Value
	r["(*sync/atomic.Value).Load"] = func(g *Gor, f *Func, a []Value) Value {
		g.sched("atomic")
		c := g.m.lockCells(g, a[0])[0]
		g.m.acquire(g, c)
		return *c
	}
	r["(*sync/atomic.Value).Store"] = func(g *Gor, f *Func, a []Value) Value {
		g.sched("atomic")
		c := g.m.lockCells(g, a[0])[0]
		g.m.release(g, c)
		g.m.setCell(c, a[1])
		return Value{}
	}
	// ---- runtime-ish
	r["internal/bytealg.MakeNoZero"] = func(g *Gor, f *Func, a []Value) Value {
		return mkSlice(make([]Value, g.m.Concretize(a[0], 64, 256)))
	}
	r["strings.Clone"] = func(g *Gor, f *Func, a []Value) Value { return a[0] }
	r["internal/stringslite.Clone"] = r["strings.Clone"]
	r["(*strings.Builder).copyCheck"] = nop
	r["internal/abi.NoEscape"] = func(g *Gor, f *Func, a []Value) Value { return a[0] }
	r["internal/abi.Escape"] = r["internal/abi.NoEscape"]
	r["internal/abi.FuncPCABI0"] = nop
	r["unique.runtime_registerUniqueMapCleanup"] = nop
	// ---- math
	r["math.Float64bits"] = func(g *Gor, f *Func, a []Value) Value {
		if t, ok := a[0].P.(*Term); ok {
			return fromTerm(g.m.ctx.Fun1(OpFToBits, 64, 0, t))
		}
		return a[0]
	}
	r["math.Float64frombits"] = func(g *Gor, f *Func, a []Value) Value {
		if t, ok := a[0].P.(*Term); ok {
			return fromTerm(g.m.ctx.Fun1(OpFFromBits, -64, 0, t))
		}
		return a[0]
	}
	r["math.Float32bits"] = func(g *Gor, f *Func, a []Value) Value {
		if t, ok := a[0].P.(*Term); ok {
			return fromTerm(g.m.ctx.Fun1(OpFToBits, 32, 0, t))
		}
		return a[0]
	}
	r["math.Float32frombits"] = func(g *Gor, f *Func, a []Value) Value {
		if t, ok := a[0].P.(*Term); ok {
			return fromTerm(g.m.ctx.Fun1(OpFFromBits, -32, 0, t))
		}
		return a[0]
	}
	round := func(mode uint64) Intrinsic {
		return func(g *Gor, f *Func, a []Value) Value {
			if t, ok := a[0].P.(*Term); ok {
				return fromTerm(g.m.ctx.Fun1(OpFRound, -64, mode, t))
			}
			return Value{N: evalF1(OpFRound, -64, mode, -64, a[0].N)}
		}
	}
	r["math.Floor"], r["math.Ceil"], r["math.Trunc"], r["math.RoundToEven"] = round(3), round(2), round(1), round(0)
	r["math.Abs"] = func(g *Gor, f *Func, a []Value) Value {
		if t, ok := a[0].P.(*Term); ok {
			return fromTerm(g.m.ctx.Fun1(OpFAbs, -64, 0, t))
		}
		return vfloat(math.Abs(math.Float64frombits(a[0].N)))
	}
	r["math.Sqrt"] = func(g *Gor, f *Func, a []Value) Value {
		if t, ok := a[0].P.(*Term); ok {
			return fromTerm(g.m.ctx.Fun1(OpFSqrt, -64, 0, t))
		}
		return vfloat(math.Sqrt(math.Float64frombits(a[0].N)))
	}
	r["math.sqrt"] = r["math.Sqrt"]
	for n, h := range map[string]func(float64) float64{"math.Exp": math.Exp, "math.Log": math.Log, "math.Exp2": math.Exp2, "math.Log2": math.Log2, "math.Log10": math.Log10,
		"math.Sin": math.Sin, "math.Cos": math.Cos, "math.Cbrt": math.Cbrt} {
		h := h
		r[n] = func(g *Gor, f *Func, a []Value) Value {
			if isSym(a[0]) {
				unsupported("%s of a symbolic value", f.name)
			}
			return vfloat(h(math.Float64frombits(a[0].N)))
		}
	}
	r["math.Pow"] = func(g *Gor, f *Func, a []Value) Value {
		if isSym(a[0]) || isSym(a[1]) {
			x := g.m.newVar("pow", -64, true, "havoc")
			g.m.note("math.Pow of a symbolic value is havocked")
			return Value{P: x}
		}
		return vfloat(math.Pow(math.Float64frombits(a[0].N), math.Float64frombits(a[1].N)))
	}
	r["math.FMA"] = func(g *Gor, f *Func, a []Value) Value {
		return vfloat(math.FMA(math.Float64frombits(a[0].N), math.Float64frombits(a[1].N), math.Float64frombits(a[2].N)))
	}
	regTime(r)
	regErrors(r)
	regFmt(r)
	regReflect(r)
	regVX(r)
	return r
}

func (m *Machine) fatal(g *Gor, msg string) {
	panic(&pathEnd{kind: "violation", msg: "fatal error: " + msg + " at " + g.where()})
}

func (m *Machine) note(s string) { m.ex.note(s) }

func registerRedirects() map[string]string {
	md := vxPkg + "/models."
	r := map[string]string{}
	for _, n := range []string{"IndexByte", "IndexByteString", "Count", "CountString", "Equal", "Compare", "CompareString", "Index", "IndexString", "LastIndexByte", "LastIndexByteString"} {
		r["internal/bytealg."+n] = md + n
	}
	for _, n := range []string{"Load", "Store", "LoadOrStore", "LoadAndDelete", "Delete", "Swap", "CompareAndSwap", "CompareAndDelete", "Range", "Clear"} {
		r["(*sync.Map)."+n] = md + "SyncMap" + n
	}
	r["(*sync.Cond).Wait"] = md + "CondWait"
	r["(*sync.Cond).Signal"] = md + "CondSignal"
	r["(*sync.Cond).Broadcast"] = md + "CondBroadcast"
	r["bytes.Equal"] = md + "Equal"
	r["internal/stringslite.Index"] = md + "IndexString"
	r["strings.Index"] = md + "IndexString"
	r["bytes.Index"] = md + "Index"
	r["strings.Count"] = md + "StringsCount"
	r["time.loadLocation"] = md + "LoadLocation"
	r["os.Getenv"], r["os.LookupEnv"], r["os.Setenv"], r["os.Unsetenv"] = md+"Getenv", md+"LookupEnv", md+"Setenv", md+"Unsetenv"
	r["syscall.Getenv"], r["syscall.Setenv"], r["syscall.Unsetenv"] = md+"LookupEnv", md+"Setenv", md+"Unsetenv"
	r["math/rand.Float64"] = md + "RandFloat64"
	r["math/rand/v2.Float64"] = md + "RandFloat64"
	r["(*strconv.NumError).Error"] = md + "NumErrorError"
	return r
}

// ---- time

func regTime(r map[string]Intrinsic) {
	r["time.runtimeNano"] = func(g *Gor, f *Func, a []Value) Value { return Value{N: uint64(g.m.now)} }
	r["time.now"] = func(g *Gor, f *Func, a []Value) Value { // sec, nsec, mono
		return Value{P: &Agg{E: []Value{{N: uint64(1700000000 + g.m.now/1e9)}, {N: uint64(g.m.now % 1e9)}, {N: uint64(g.m.now)}}}}
	}
	r["time.runtimeNow"] = r["time.now"]
	r["time.Sleep"] = func(g *Gor, f *Func, a []Value) Value {
		d := int64(g.m.concTime(a[0]))
		g.sched("sleep")
		if d <= 0 {
			return Value{}
		}
		fired := false
		g.m.addTimer(d, "sleep", func(*Gor) { fired = true })
		g.block("sleep", func() bool { return fired })
		return Value{}
	}
	timeType := func(f *Func) types.Type { return f.fn.Package().Pkg.Scope().Lookup("Time").Type() }
	mkTime := func(m *Machine, f *Func) Value {
		z := zeroOf(timeType(f))
		z.P.(*Agg).E[1] = Value{N: uint64(62135596800 + 1700000000 + m.now/1e9)}
		z.P.(*Agg).E[0] = Value{N: uint64(m.now % 1e9)}
		return z
	}
	r["time.Now"] = func(g *Gor, f *Func, a []Value) Value {
		g.sched("now")
		if v, ok := g.m.hostState["symnow"]; ok {
			_ = v
			s := g.m.newVar("now", 64, true, "i64")
			c := g.m.ctx
			g.m.assume(c.SLe(c.Const(64, 0), s))
			g.m.assume(c.SLt(s, c.Const(64, 1<<40)))
			if g.m.nowSym != nil {
				g.m.assume(c.SLe(g.m.nowSym, s))
			}
			g.m.nowSym = s
			z := zeroOf(timeType(f))
			z.P.(*Agg).E[1] = fromTerm(s)
			return z
		}
		return mkTime(g.m, f)
	}
	newTimer := func(g *Gor, f *Func, d Value) (Value, *Chan, *Value) {
		pk := f.fn.Package().Pkg
		tt := pk.Scope().Lookup("Timer").Type()
		z := zeroOf(tt)
		ch := &Chan{cap: 1, zero: zeroFn(pk.Scope().Lookup("Time").Type())}
		a := z.P.(*Agg)
		a.E[0] = Value{P: ch}
		a.E[1] = vbool(true)
		p := &z
		return Value{P: p}, ch, p
	}
	start := func(g *Gor, f *Func, p *Value, ch *Chan, d int64) {
		m := g.m
		t := m.addTimer(d, fmt.Sprintf("timer(%d)", d), func(g2 *Gor) {
			v := mkTime(m, f)
			if hasWaiter(ch.recvq, nil) || len(ch.buf) < ch.cap {
				saved := m.race
				m.race = nil
				m.trySend(g2, ch, v)
				m.race = saved
			}
		})
		m.hostState[p] = t
	}
	r["time.NewTimer"] = func(g *Gor, f *Func, a []Value) Value {
		d := g.m.concTime(a[0])
		v, ch, p := newTimer(g, f, a[0])
		start(g, f, p, ch, d)
		return v
	}
	r["time.After"] = func(g *Gor, f *Func, a []Value) Value {
		d := g.m.concTime(a[0])
		_, ch, p := newTimer(g, f, a[0])
		start(g, f, p, ch, d)
		return Value{P: ch}
	}
	startFunc := func(g *Gor, p *Value, fv Value, d int64) {
		m := g.m
		vc := copyVC(g.vc)
		t := m.addTimer(d, fmt.Sprintf("afterfunc(%d)", d), func(g2 *Gor) {
			ng := m.spawn(nil, "timerfunc", func(g3 *Gor) { m.callValue(g3, fv, nil) })
			if m.race != nil {
				m.vcJoin(&ng.vc, vc)
			}
		})
		m.hostState[p] = t
		m.hostState[[2]any{p, "f"}] = fv
	}
	r["time.AfterFunc"] = func(g *Gor, f *Func, a []Value) Value {
		d := g.m.concTime(a[0])
		v, _, p := newTimer(g, f, a[0])
		p.P.(*Agg).E[0] = Value{}
		startFunc(g, p, a[1], d)
		return v
	}
	r["(*time.Timer).Stop"] = func(g *Gor, f *Func, a []Value) Value {
		g.sched("timer.Stop")
		p := g.m.ptr(g, a[0])
		if t, ok := g.m.hostState[p].(*Timer); ok {
			was := g.m.delTimer(t)
			return vbool(was)
		}
		return Value{}
	}
	r["(*time.Timer).Reset"] = func(g *Gor, f *Func, a []Value) Value {
		g.sched("timer.Reset")
		d := g.m.concTime(a[1])
		p := g.m.ptr(g, a[0])
		was := false
		if t, ok := g.m.hostState[p].(*Timer); ok {
			was = g.m.delTimer(t)
		}
		if fv, ok := g.m.hostState[[2]any{p, "f"}].(Value); ok {
			startFunc(g, p, fv, d)
		} else if ch, ok := p.P.(*Agg).E[0].P.(*Chan); ok {
			g.m.trailChan(ch)
			ch.buf = nil
			start(g, f, p, ch, d)
		}
		return vbool(was)
	}
	r["time.initLocal"] = func(g *Gor, f *Func, a []Value) Value { return Value{} }
}

// concTime concretises a duration used for a timer. A symbolic duration is
// recorded as is and ordered by its model value (which forks).
func (m *Machine) concTime(v Value) int64 {
	if !isSym(v) {
		return int64(v.N)
	}
	t := v.P.(*Term)
	// clamp: only the order among timers matters; fork on sign, then keep
	// the model value
	return int64(m.Concretize(Value{P: t}, 64, 16))
}

// ---- errors

func regErrors(r map[string]Intrinsic) {
	unwrap := func(m *Machine, g *Gor, e Value) []Value {
		ifc := e.P.(*Iface)
		ms := m.P.prog.MethodSets.MethodSet(ifc.T.T)
		sel := ms.Lookup(nil, "Unwrap")
		if sel == nil {
			return nil
		}
		sig := sel.Type().(*types.Signature)
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
			return nil
		}
		rt := sig.Results().At(0).Type()
		res := m.callMethod(g, e, nil, "Unwrap")
		if _, ok := rt.Underlying().(*types.Slice); ok {
			return sliceOf(res)
		}
		if _, ok := rt.Underlying().(*types.Interface); ok && res.P != nil {
			return []Value{res}
		}
		return nil
	}
	var is func(m *Machine, g *Gor, e, target Value) bool
	is = func(m *Machine, g *Gor, e, target Value) bool {
		if e.P == nil || target.P == nil {
			return e.P == target.P
		}
		x, y := e.P.(*Iface), target.P.(*Iface)
		if x.T == y.T && types.Comparable(x.T.T) && m.Bool(m.eqIface(g, e, target)) {
			return true
		}
		if sel := m.P.prog.MethodSets.MethodSet(x.T.T).Lookup(nil, "Is"); sel != nil {
			sig := sel.Type().(*types.Signature)
			if sig.Params().Len() == 1 && sig.Results().Len() == 1 && kindOf(sig.Results().At(0).Type()).w == 0 && types.IsInterface(sig.Params().At(0).Type()) {
				if m.Bool(m.callMethod(g, e, nil, "Is", target)) {
					return true
				}
			}
		}
		for _, u := range unwrap(m, g, e) {
			if u.P != nil && is(m, g, u, target) {
				return true
			}
		}
		return false
	}
	r["errors.Is"] = func(g *Gor, f *Func, a []Value) Value { return vbool(is(g.m, g, a[0], a[1])) }
	r["golang.org/x/xerrors.Is"] = r["errors.Is"]
	var as func(m *Machine, g *Gor, e Value, tt types.Type, rt *RType, dst *Value) bool
	as = func(m *Machine, g *Gor, e Value, tt types.Type, rt *RType, dst *Value) bool {
		x := e.P.(*Iface)
		if it, ok := tt.Underlying().(*types.Interface); ok {
			if m.P.implements(x.T, it) {
				m.storeInto(dst, e)
				return true
			}
		} else if x.T == rt {
			m.storeInto(dst, x.V)
			return true
		}
		if sel := m.P.prog.MethodSets.MethodSet(x.T.T).Lookup(nil, "As"); sel != nil {
			sig := sel.Type().(*types.Signature)
			if sig.Params().Len() == 1 && sig.Results().Len() == 1 && kindOf(sig.Results().At(0).Type()).w == 0 && types.IsInterface(sig.Params().At(0).Type()) {
				if m.Bool(m.callMethod(g, e, nil, "As", Value{P: &Iface{T: m.P.rtype(types.NewPointer(tt)), V: Value{P: dst}}})) {
					return true
				}
			}
		}
		for _, u := range unwrap(m, g, e) {
			if u.P != nil && as(m, g, u, tt, rt, dst) {
				return true
			}
		}
		return false
	}
	r["errors.As"] = func(g *Gor, f *Func, a []Value) Value {
		m := g.m
		if a[0].P == nil {
			return Value{}
		}
		ti, ok := a[1].P.(*Iface)
		if !ok {
			m.plainPanic(g, "errors: target cannot be nil")
		}
		tt := derefT(ti.T.T)
		dst := m.ptr(g, ti.V)
		return vbool(as(m, g, a[0], tt, m.P.rtype(tt), dst))
	}
}
