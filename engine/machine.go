package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Program is the shared, immutable-after-compile view of the analysed code.
type Program struct {
	prog               *ssa.Program
	pkgs               map[string]*ssa.Package
	embeds             map[string]string // go:embed variables: file name
	mu                 sync.Mutex
	funcs              map[*ssa.Function]*Func
	types              typeutil.Map
	ntypes             int
	methods            sync.Map // mkey -> *Func
	impls              sync.Map
	globalIdx          map[*ssa.Global]int
	globals            []*ssa.Global
	intrinsics         map[string]Intrinsic
	redirect           map[string]string
	repoPrefix         []string
	rtErrT, strT, errT *RType
	bufs               sync.Map
}

type Intrinsic func(g *Gor, fn *Func, args []Value) Value

type Func struct {
	P         *Program
	fn        *ssa.Function
	name      string
	ready     bool
	once      sync.Once
	nslots    int
	blocks    []*Block
	nparams   int
	paramSlot []int
	freeSlot  []int
	hasDefer  bool
	recoverB  *Block
	intr      Intrinsic
	redir     *Func
	inRepo    bool
	quiet     bool // no preemption below calls of this function (serialisation libraries)
	isInit    bool
	zeroRes   func() Value
	resTuple  bool
}

type Block struct {
	ins    []func(fr *Frame)
	term   func(fr *Frame) *Block
	idx    int
	pos    token.Pos
	insPos []token.Pos
}

type Frame struct {
	m           *Machine
	g           *Gor
	fn          *Func
	s           []Value
	defers      []deferred
	panicking   *goPanic
	recovered   bool
	result      Value
	deferParent *Frame
	parent      *Frame
	ipos        token.Pos
	nret        bool
}

type deferred struct {
	call func()
}

type goPanic struct {
	v     Value // interface value
	msg   string
	where string
}

// pathEnd terminates the current path (not a Go panic).
type pathEnd struct {
	kind string // "done","assume","violation","unsupported","steps","killed","infeasible"
	msg  string
}

type trailEntry struct {
	p *Value
	v Value
	f func()
}

type Machine struct {
	P   *Program
	ctx *TermCtx
	sol *Solver
	ex  *Explorer
	id  int

	globals   []*Value
	pkgInit   map[*ssa.Package]int
	noProto   bool
	inInit    int
	initFails []string

	trail   []trailEntry
	trailOn bool

	// path state
	pc         []*Term
	pcset      map[*Term]bool
	prefix     []Dec
	dec        []Dec
	model      Model
	stepCheck  int64
	ev         *evaluator
	steps      int64
	maxSteps   int64
	reinit     *ssa.Package // to be initialised before the path starts again
	inputs     []inputVar
	names      map[string]int
	notes      []string
	incomplete string
	depthLimit int

	// scheduler
	gors       []*Gor
	cur        *Gor
	killed     bool
	nextG      int
	preempt    int
	timers     []*Timer
	timerSeq   int
	now        int64
	nowSym     *Term
	wg         sync.WaitGroup
	pathRes    chan *pathEnd
	ended      *pathEnd
	opts       HOpts
	schedTrace []string
	race       *raceState
	funcsSeen  map[*Func]bool
	reach      map[string]bool
	vxcount    map[string]int
	hostState  map[any]any
	lastModelQ int
}

type HOpts struct {
	Preempt       int
	Starve        bool // a preempted goroutine runs again when no other one can
	Delays        bool // choosing another goroutine than the next one costs a preemption even at blocking points
	TimersAnytime bool
	MapOrder      bool
	Race          bool
	SleepAll      bool
}

type Dec struct {
	V int32
}

type inputVar struct {
	Name   string
	Kind   string // "u64","bool","str","choice","f64"...
	W      int
	Signed bool
	T      *Term
	Str    Value
}

type Gor struct {
	m          *Machine
	id         int
	name       string
	wake       chan struct{}
	blocked    func() bool
	blockDesc  string
	done       bool
	low        bool // put back by Starve
	stack      []Value
	sp         int
	depth      int
	noSched    int
	top        *Frame
	vc         map[int]int
	sleepUntil int64
	started    bool
}

func (m *Machine) logTrail(p *Value) {
	if m.trailOn {
		m.trail = append(m.trail, trailEntry{p: p, v: *p})
	}
}
func (m *Machine) trailFn(f func()) {
	if m.trailOn {
		m.trail = append(m.trail, trailEntry{f: f})
	}
}
func (m *Machine) undo() {
	for i := len(m.trail) - 1; i >= 0; i-- {
		e := &m.trail[i]
		if e.f != nil {
			e.f()
		} else {
			*e.p = e.v
		}
		m.trail[i] = trailEntry{}
	}
	m.trail = m.trail[:0]
}

// ---- terms <-> values
func (m *Machine) term(v Value, w int) *Term {
	if t, ok := v.P.(*Term); ok {
		if t.W != w {
			panic(engineError{fmt.Sprintf("term width %d, wanted %d", t.W, w)})
		}
		return t
	}
	if v.P != nil {
		panic(engineError{fmt.Sprintf("scalar expected, got %T", v.P)})
	}
	return m.ctx.Const(w, v.N)
}
func fromTerm(t *Term) Value {
	if t.Op == OpConst {
		return Value{N: t.Val}
	}
	return Value{P: t}
}

// ---- path conditions
func (m *Machine) assume(t *Term) {
	if t == m.ctx.True {
		return
	}
	if m.pcset[t] {
		return
	}
	m.pc = append(m.pc, t)
	m.pcset[t] = true
	// split conjunctions for the syntactic check
	if t.Op == OpBAnd {
		m.pcset[t.A[0]] = true
		m.pcset[t.A[1]] = true
	}
	if m.ev != nil && m.ev.eval(t) != 1 {
		m.ev = nil
	}
}

func (m *Machine) ensureModel() bool {
	if m.ev != nil {
		return true
	}
	r, mod := m.sol.Check(m.pc)
	switch r {
	case Sat:
		m.setModel(mod)
		return true
	case Unsat:
		panic(&pathEnd{kind: "infeasible"})
	}
	m.incomplete = "solver unknown"
	m.ex.noteUnknown()
	return false
}
func (m *Machine) setModel(mod Model) {
	m.model = mod
	m.ev = &evaluator{m: mod, memo: map[int]uint64{}}
}

// Branch decides a symbolic condition, forking when both sides are feasible.
func (m *Machine) Branch(c *Term) bool {
	if c.Op == OpConst {
		return c.Val == 1
	}
	if m.pcset[c] {
		return true
	}
	nc := m.ctx.Not(c)
	if m.pcset[nc] {
		return false
	}
	if m.inInit > 0 {
		unsupported("symbolic branch in package init")
	}
	if i := len(m.dec); i < len(m.prefix) {
		d := m.prefix[i]
		m.dec = append(m.dec, d)
		if d.V == 1 {
			m.assume(c)
			return true
		}
		m.assume(nc)
		return false
	}
	m.ex.stats.branches.Add(1)
	if dbgPaths && m.cur != nil {
		fmt.Fprintf(os.Stderr, "BR %s\n", m.cur.where())
	}
	if !m.ensureModel() {
		// cannot decide: follow both sides without a model
		m.pushAlt(Dec{0}, nil)
		m.dec = append(m.dec, Dec{1})
		m.assume(c)
		return true
	}
	side := m.ev.eval(c) == 1
	var other *Term
	if side {
		other = nc
	} else {
		other = c
	}
	r, mod := m.sol.Check(m.pc, other)
	if r == Sat {
		m.pushAlt(Dec{int32(b2u(!side))}, mod)
	} else if r == Unknown {
		m.ex.noteUnknown()
		m.incomplete = "solver unknown"
	}
	m.dec = append(m.dec, Dec{int32(b2u(side))})
	if side {
		m.assume(c)
	} else {
		m.assume(nc)
	}
	return side
}

// MustBool evaluates a bool Value, forking if symbolic.
func (m *Machine) Bool(v Value) bool {
	if t, ok := v.P.(*Term); ok {
		return m.Branch(t)
	}
	return v.N != 0
}

// Choose picks one of n alternatives nondeterministically, through a solver
// variable name with 0 <= name < n.
func (m *Machine) Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	if i := len(m.dec); i < len(m.prefix) {
		d := m.prefix[i]
		m.dec = append(m.dec, d)
		v := m.newVar(name, 8, false, "choice")
		m.assume(m.ctx.Eq(v, m.ctx.Const(8, uint64(d.V))))
		return int(d.V)
	}
	if dbgPaths && m.cur != nil {
		fmt.Fprintf(os.Stderr, "CH %s %d %s\n", name, n, m.cur.where())
	}
	v := m.newVar(name, 8, false, "choice")
	// every alternative is feasible: the variable is fresh
	mod := m.model
	for k := n - 1; k >= 1; k-- {
		var mm Model
		if m.ev != nil {
			mm = make(Model, len(mod)+1)
			for a, b := range mod {
				mm[a] = b
			}
			mm[v.Name] = uint64(k)
		}
		m.pushAlt(Dec{int32(k)}, mm)
	}
	m.dec = append(m.dec, Dec{0})
	m.assume(m.ctx.Eq(v, m.ctx.Const(8, 0)))
	return 0
}

func (m *Machine) pushAlt(d Dec, mod Model) {
	p := make([]Dec, len(m.dec)+1)
	copy(p, m.dec)
	p[len(m.dec)] = d
	m.ex.push(&workItem{prefix: p, model: mod})
}

// Concretize picks a concrete value for a symbolic scalar, forking over all
// feasible values.
func (m *Machine) Concretize(v Value, w int, limit int) uint64 {
	t, ok := v.P.(*Term)
	if !ok {
		return v.N
	}
	for n := 0; ; n++ {
		if n > limit {
			m.ex.note("concretisation limit")
			panic(&pathEnd{kind: "unsupported", msg: "concretisation limit exceeded"})
		}
		var cand uint64
		if len(m.dec) < len(m.prefix) {
			// replay: the candidate value is recorded in the prefix
			d := m.prefix[len(m.dec)]
			m.dec = append(m.dec, d)
			cand = uint64(uint32(d.V))
			if cand == 0xffffffff { // long form: value in next two entries
				lo, hi := m.prefix[len(m.dec)], m.prefix[len(m.dec)+1]
				m.dec = append(m.dec, lo, hi)
				cand = uint64(uint32(lo.V)) | uint64(uint32(hi.V))<<32
			}
		} else {
			if !m.ensureModel() {
				panic(&pathEnd{kind: "unsupported", msg: "no model for concretisation"})
			}
			cand = m.ev.eval(t)
			if cand < 0xffffffff {
				m.dec = append(m.dec, Dec{int32(uint32(cand))})
			} else {
				m.dec = append(m.dec, Dec{-1}, Dec{int32(uint32(cand))}, Dec{int32(uint32(cand >> 32))})
			}
		}
		if m.Branch(m.ctx.Eq(t, m.ctx.Const(w, cand))) {
			return cand
		}
	}
}

func (m *Machine) newVar(name string, w int, signed bool, kind string) *Term {
	k := m.names[name]
	m.names[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	t := m.ctx.Var(name, w)
	m.inputs = append(m.inputs, inputVar{Name: name, Kind: kind, W: w, Signed: signed, T: t})
	return t
}

// ---- types
func (p *Program) rtype(t types.Type) *RType {
	t = types.Unalias(t)
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.rtypeLocked(t)
}
func (p *Program) rtypeLocked(t types.Type) *RType {
	if r := p.types.At(t); r != nil {
		return r.(*RType)
	}
	r := &RType{T: t, ID: p.ntypes}
	p.ntypes++
	p.types.Set(t, r)
	return r
}

type mkey struct {
	t    *RType
	name string
	pkg  *types.Package
}

func (p *Program) lookupMethod(t *RType, pkg *types.Package, name string) *Func {
	if token.IsExported(name) {
		pkg = nil
	}
	k := mkey{t, name, pkg}
	if f, ok := p.methods.Load(k); ok {
		return f.(*Func)
	}
	sel := p.prog.MethodSets.MethodSet(t.T).Lookup(pkg, name)
	if sel == nil {
		panic(engineError{fmt.Sprintf("method %s not found on %s", name, t.T)})
	}
	fn := p.prog.MethodValue(sel)
	if fn == nil {
		panic(engineError{fmt.Sprintf("no body for method %s on %s", name, t.T)})
	}
	f := p.fn(fn)
	p.methods.Store(k, f)
	return f
}

type ikey struct {
	t *RType
	i *types.Interface
}

func (p *Program) implements(t *RType, i *types.Interface) bool {
	k := ikey{t, i}
	if r, ok := p.impls.Load(k); ok {
		return r.(bool)
	}
	r := types.Implements(t.T, i)
	p.impls.Store(k, r)
	return r
}

func (p *Program) fn(f *ssa.Function) *Func {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.fnLocked(f)
}
func (p *Program) fnLocked(f *ssa.Function) *Func {
	if x, ok := p.funcs[f]; ok {
		return x
	}
	o := f
	if f.Origin() != nil {
		o = f.Origin()
	}
	x := &Func{P: p, fn: f, name: o.String()}
	p.funcs[f] = x
	if in, ok := p.intrinsics[x.name]; ok {
		x.intr = in
	} else if f.Pkg == nil || true {
		if in := prefixIntrinsic(x.name); in != nil {
			x.intr = in
		}
	}
	if r, ok := p.redirect[x.name]; ok {
		i := strings.LastIndexByte(r, '.')
		pk := p.pkgs[r[:i]]
		if pk == nil || pk.Func(r[i+1:]) == nil {
			fmt.Fprintf(os.Stderr, "redirect target %s missing\n", r)
		} else {
			x.redir = p.fnLocked(pk.Func(r[i+1:]))
		}
	}
	pk := f.Package()
	if pk == nil && f.Origin() != nil {
		pk = f.Origin().Package()
	}
	if pk == nil && f.Object() != nil && f.Object().Pkg() != nil {
		for _, pre := range p.repoPrefix {
			if strings.HasPrefix(f.Object().Pkg().Path(), pre) {
				x.inRepo = true
			}
		}
	}
	if pk != nil {
		for _, pre := range quietPkgs {
			if strings.HasPrefix(pk.Pkg.Path(), pre) {
				x.quiet = true
			}
		}
		for _, pre := range p.repoPrefix {
			if strings.HasPrefix(pk.Pkg.Path(), pre) && !strings.HasPrefix(pk.Pkg.Path(), "github.com/mercari/grpc-federation/vx") {
				x.inRepo = true
			}
		}
	}
	return x
}

// Their locks and once-values only guard caches of their own.
var quietPkgs = []string{"google.golang.org/protobuf", "encoding/json", "text/template", "regexp", "reflect"}

func (p *Program) globalIndex(g *ssa.Global) int {
	if i, ok := p.globalIdx[g]; ok {
		return i
	}
	i := len(p.globals)
	p.globals = append(p.globals, g)
	p.globalIdx[g] = i
	return i
}

func (m *Machine) global(i int, g *ssa.Global) *Value {
	if i < len(m.globals) {
		if v := m.globals[i]; v != nil {
			if m.pkgInit[g.Pkg] != 0 || m.inInit > 0 && m.pkgInit[g.Pkg] != 0 {
				return v
			}
		}
	} else {
		ng := make([]*Value, i+256)
		copy(ng, m.globals)
		m.globals = ng
	}
	if m.globals[i] == nil {
		z := zeroOf(g.Type().(*types.Pointer).Elem())
		if f, ok := m.P.embeds[g.Pkg.Pkg.Path()+"."+g.Name()]; ok {
			if b, err := os.ReadFile(f); err == nil {
				if isString(g.Type().(*types.Pointer).Elem()) {
					z = vstr(string(b))
				} else {
					z = mkSlice(append([]Value(nil), strBytes(vstr(string(b)))...))
				}
			}
		}
		m.globals[i] = &z
	}
	m.initPkg(g.Pkg)
	return m.globals[i]
}

// initPkg runs the package initialiser of pkg (only its own, not that of its
// imports, which are initialised when they are first touched).
func (m *Machine) initPkg(pkg *ssa.Package) {
	if m.pkgInit[pkg] != 0 {
		return
	}
	if m.trailOn && m.inInit == 0 && !skipInit(pkg.Pkg.Path()) && pkg.Func("init") != nil {
		// The effects of an initialiser outlive the path, so it must not see those of the path:
		// start the path again with the package initialised.
		m.reinit = pkg
		panic(&pathEnd{kind: "reinit"})
	}
	m.pkgInit[pkg] = 1
	if skipInit(pkg.Pkg.Path()) {
		return
	}
	m.initRegistering(pkg, map[*types.Package]bool{})
	init := pkg.Func("init")
	if init == nil {
		return
	}
	saveOn, saveSteps := m.trailOn, m.steps
	m.trailOn = false
	m.inInit++
	g := m.cur
	if g == nil {
		g = m.newGor("init")
		m.gors = m.gors[:len(m.gors)-1]
		m.cur = g
		defer func() { m.cur = nil }()
	}
	savesp, saveDepth, saveTop := g.sp, g.depth, g.top
	func() {
		defer func() {
			if r := recover(); r != nil {
				m.initFails = append(m.initFails, fmt.Sprintf("%s: %v", pkg.Pkg.Path(), descPanic(r)))
			}
		}()
		m.call(g, m.P.fn(init), nil, nil)
	}()
	g.sp, g.depth, g.top = savesp, saveDepth, saveTop
	m.inInit--
	m.trailOn, m.steps = saveOn, saveSteps
}

// initRegistering initialises the imports of pkg that register protobuf types,
// which must be there even if nothing else touches them.
func (m *Machine) initRegistering(pkg *ssa.Package, seen map[*types.Package]bool) {
	if m.noProto {
		return
	}
	for _, imp := range pkg.Pkg.Imports() {
		if seen[imp] {
			continue
		}
		seen[imp] = true
		ip := m.P.prog.Package(imp)
		if ip == nil || m.pkgInit[ip] != 0 || skipInit(imp.Path()) || !strings.Contains(imp.Path(), ".") {
			continue
		}
		m.initRegistering(ip, seen)
		for _, i2 := range imp.Imports() {
			if i2.Path() == "google.golang.org/protobuf/runtime/protoimpl" {
				m.initPkg(ip)
				break
			}
		}
	}
}

func descPanic(r any) string {
	switch x := r.(type) {
	case *goPanic:
		return "panic: " + x.msg + " at " + x.where
	case engineError:
		return x.msg
	case *pathEnd:
		return x.kind + " " + x.msg
	case error:
		return x.Error()
	}
	return fmt.Sprint(r)
}

var _ types.Type

func skipInit(path string) bool {
	switch path {
	case "runtime", "net/http", "crypto/tls", "golang.org/x/net/http2", "syscall", "net", "crypto/x509", "golang.org/x/net/trace", "os/signal", "internal/godebug", "internal/cpu", "internal/poll":
		return true
	}
	return strings.HasPrefix(path, "crypto/") || strings.HasPrefix(path, "vendor/golang.org/x/crypto")
}

// ---- calls
func (m *Machine) runtimePanic(g *Gor, msg string) {
	t := m.P.rtErrT
	var v Value
	if t != nil {
		v = Value{P: &Iface{T: t, V: vstr(msg)}}
	} else {
		v = Value{P: &Iface{T: m.P.strT, V: vstr("runtime error: " + msg)}}
	}
	panic(&goPanic{v: v, msg: "runtime error: " + msg, where: g.where()})
}

func (g *Gor) where() string {
	var parts []string
	for f := g.top; f != nil && len(parts) < 6; f = f.parent {
		pos := f.g.m.P.prog.Fset.Position(f.ipos)
		parts = append(parts, fmt.Sprintf("%s(%s:%d)", f.fn.fn.RelString(nil), shortFile(pos.Filename), pos.Line))
	}
	return strings.Join(parts, " < ")
}
func shortFile(f string) string {
	if i := strings.LastIndex(f, "/"); i >= 0 {
		return f[i+1:]
	}
	return f
}

const stackChunk = 1 << 16

func (m *Machine) call(g *Gor, f *Func, args []Value, env []Value) Value {
	if f.intr != nil {
		return f.intr(g, f, args)
	}
	if f.redir != nil {
		f = f.redir
	}
	f.prepare()
	if f.blocks == nil {
		unsupported("function without body: %s", f.name)
	}
	if f.inRepo && !m.funcsSeen[f] {
		m.funcsSeen[f] = true
	}
	g.depth++
	if g.depth > m.depthLimit {
		panic(&pathEnd{kind: "steps", msg: "call depth limit in " + f.name})
	}
	base := g.sp
	if base+f.nslots > len(g.stack) {
		// new chunk; old frames keep their slices
		n := stackChunk
		if f.nslots > n {
			n = f.nslots
		}
		oldStack, oldSP := g.stack, g.sp
		g.stack = make([]Value, n)
		g.sp = 0
		defer func() { g.stack, g.sp = oldStack, oldSP }()
		base = 0
	}
	fr := &Frame{m: m, g: g, fn: f, s: g.stack[base : base+f.nslots : base+f.nslots], parent: g.top}
	g.sp = base + f.nslots
	g.top = fr
	if f.isInit {
		for i := range fr.s {
			fr.s[i] = Value{}
		}
	}
	for i, a := range args {
		fr.s[i] = a
	}
	for i, e := range env {
		fr.s[f.nparams+i] = e
	}
	var res Value
	if f.hasDefer {
		res = fr.runWithDefers()
	} else {
		res = fr.run(f.blocks[0])
	}
	g.sp = base
	g.depth--
	g.top = fr.parent
	return res
}

func (fr *Frame) run(b *Block) Value {
	m := fr.m
	for b != nil {
		m.steps += int64(len(b.ins)) + 1
		if m.steps > m.stepCheck {
			m.stepCheck = m.steps + 200_000
			if debugSteps {
				fmt.Fprintf(os.Stderr, "STEP %d max %d init %d: %s\n", m.steps, m.maxSteps, m.inInit, fr.g.where())
			}
			if m.inInit == 0 && !sched.deadline.IsZero() && time.Now().After(sched.deadline.Add(2*time.Second)) {
				panic(&pathEnd{kind: "time budget", msg: "path cut by the time budget"})
			}
		}
		if m.steps > m.maxSteps {
			panic(&pathEnd{kind: "steps", msg: "step limit in " + fr.fn.name})
		}
		if fr.fn.isInit {
			fr.runInitBlock(b)
		} else {
			for _, in := range b.ins {
				in(fr)
			}
		}
		b = b.term(fr)
	}
	return fr.result
}

// best-effort execution of package initialisers: a failing instruction is
// skipped (its result stays zero).
func (fr *Frame) runInitBlock(b *Block) {
	g := fr.g
	for _, in := range b.ins {
		sp, d, top, st := g.sp, g.depth, g.top, g.stack
		lim := fr.m.maxSteps
		fr.m.maxSteps = fr.m.steps + 300_000_000
		func() {
			defer func() {
				if r := recover(); r != nil {
					if pe, ok := r.(*pathEnd); ok && pe.kind == "killed" {
						panic(r)
					}
					fr.m.initFails = append(fr.m.initFails, fmt.Sprintf("%s: %s", fr.fn.name, descPanic(r)))
					g.sp, g.depth, g.top, g.stack = sp, d, top, st
				}
			}()
			in(fr)
		}()
		fr.m.maxSteps = lim
	}
}

func (fr *Frame) protect(f func()) (p *goPanic) {
	g := fr.g
	sp, d := g.sp, g.depth
	st := g.stack
	defer func() {
		if r := recover(); r != nil {
			gp, ok := r.(*goPanic)
			if !ok {
				panic(r)
			}
			p = gp
			g.sp, g.depth, g.top = sp, d, fr
			g.stack = st
		}
	}()
	f()
	return nil
}

func (fr *Frame) runWithDefers() Value {
	p := fr.protect(func() { fr.run(fr.fn.blocks[0]) })
	if p == nil {
		return fr.result
	}
	for p != nil {
		fr.panicking = p
		fr.recovered = false
		p = fr.protect(func() { fr.runDefers() })
	}
	if fr.panicking != nil {
		panic(fr.panicking)
	}
	if fr.fn.recoverB != nil {
		return fr.run(fr.fn.recoverB)
	}
	return fr.fn.zeroRes()
}

func (fr *Frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		d.call()
	}
}

// callFrom calls f as a deferred call of fr (so that recover works).
func (m *Machine) callDeferred(fr *Frame, c Value, args []Value) {
	cl := m.closure(fr.g, c)
	if cl.Nat != nil {
		cl.Nat(fr.g, args)
		return
	}
	f := cl.Fn
	if f.intr != nil {
		f.intr(fr.g, f, args)
		return
	}
	fr.g.nextDeferParent(fr, func() { m.call(fr.g, f, args, cl.Env) })
}

func (g *Gor) nextDeferParent(fr *Frame, f func()) {
	// mark: the next frame pushed on top of fr has fr as its defer parent.
	fr.nret = true
	f()
	fr.nret = false
}

func (m *Machine) closure(g *Gor, v Value) *Closure {
	c, ok := v.P.(*Closure)
	if !ok {
		if v.P == nil {
			m.runtimePanic(g, "invalid memory address or nil pointer dereference")
		}
		unsupported("call of %T", v.P)
	}
	return c
}

func (m *Machine) callValue(g *Gor, fv Value, args []Value) Value {
	c := m.closure(g, fv)
	if c.Nat != nil {
		return c.Nat(g, args)
	}
	return m.call(g, c.Fn, args, c.Env)
}

// callMethod invokes method name on an interface value.
func (m *Machine) callMethod(g *Gor, recv Value, pkg *types.Package, name string, args ...Value) Value {
	ifc, ok := recv.P.(*Iface)
	if !ok {
		m.runtimePanic(g, "invalid memory address or nil pointer dereference")
	}
	f := m.P.lookupMethod(ifc.T, pkg, name)
	return m.call(g, f, append([]Value{copyVal(ifc.V)}, args...), nil)
}

// ---- memory
func (m *Machine) ptr(g *Gor, v Value) *Value {
	switch p := v.P.(type) {
	case *Value:
		return p
	case nil:
		m.runtimePanic(g, "invalid memory address or nil pointer dereference")
	case *SymPtr:
		i := m.Concretize(Value{P: p.Idx}, p.Idx.W, 4096)
		return &p.S[i]
	}
	panic(engineError{fmt.Sprintf("pointer expected, got %T", v.P)})
}

func (m *Machine) load(g *Gor, v Value, agg bool) Value {
	if p, ok := v.P.(*Value); ok {
		if m.race != nil {
			m.raceRead(g, p)
		}
		if agg {
			return copyVal(*p)
		}
		return *p
	}
	if sp, ok := v.P.(*SymPtr); ok {
		if r, ok := m.iteSelect(sp.S, sp.Idx); ok {
			return r
		}
	}
	p := m.ptr(g, v)
	return copyVal(*p)
}

// iteSelect builds s[idx] as an ite over scalar elements.
func (m *Machine) iteSelect(s []Value, idx *Term) (Value, bool) {
	if len(s) > 1024 || len(s) == 0 {
		return Value{}, false
	}
	w := -2
	for _, e := range s {
		switch t := e.P.(type) {
		case nil:
		case *Term:
			w = t.W
		default:
			return Value{}, false
		}
	}
	if w == -2 {
		// all concrete: choose a width that covers the values; the caller
		// knows the real width, so use the static one recorded by the caller
		return Value{}, false
	}
	return m.iteSelectW(s, idx, w)
}

func (m *Machine) iteSelectW(s []Value, idx *Term, w int) (Value, bool) {
	if len(s) > 4096 || len(s) == 0 {
		return Value{}, false
	}
	for _, e := range s {
		if e.P != nil {
			if t, ok := e.P.(*Term); !ok || t.W != w {
				return Value{}, false
			}
		}
	}
	// ranges of equal values from the top
	res := m.term(s[len(s)-1], w)
	for i := len(s) - 2; i >= 0; i-- {
		e := m.term(s[i], w)
		nxt := m.term(s[i+1], w)
		if e == nxt {
			continue
		}
		res = m.ctx.Ite(m.ctx.ULt(idx, m.ctx.Const(idx.W, uint64(i+1))), e, res)
	}
	// the chain above is built outermost-last: rebuild in proper order
	return fromTerm(res), true
}

func (m *Machine) store(g *Gor, pv Value, v Value) {
	p, ok := pv.P.(*Value)
	if !ok {
		if sp, ok2 := pv.P.(*SymPtr); ok2 {
			if t, ok3 := v.P.(*Term); ok3 || v.P == nil {
				w := 0
				good := true
				if ok3 {
					w = t.W
				} else {
					good = false
					for _, e := range sp.S {
						if t, ok := e.P.(*Term); ok {
							w, good = t.W, true
						}
					}
				}
				if good {
					nv := m.term(v, w)
					for i := range sp.S {
						m.logTrail(&sp.S[i])
						sp.S[i] = fromTerm(m.ctx.Ite(m.ctx.Eq(sp.Idx, m.ctx.Const(sp.Idx.W, uint64(i))), nv, m.term(sp.S[i], w)))
					}
					return
				}
			}
		}
		p = m.ptr(g, pv)
	}
	if m.race != nil {
		m.raceWrite(g, p)
	}
	m.storeInto(p, v)
}

func (m *Machine) storeInto(p *Value, v Value) {
	if src, ok := v.P.(*Agg); ok {
		dst, ok := p.P.(*Agg)
		if ok && len(dst.E) == len(src.E) {
			for i := range src.E {
				m.storeInto(&dst.E[i], src.E[i])
			}
			return
		}
		v = copyVal(v)
	}
	if m.trailOn {
		m.trail = append(m.trail, trailEntry{p: p, v: *p})
	}
	*p = v
}

// ---- misc
func (m *Machine) sortedFuncs() []string {
	var r []string
	for f := range m.funcsSeen {
		r = append(r, f.name)
	}
	sort.Strings(r)
	return r
}

var _ = time.Now

var debugSteps = os.Getenv("VXSTEPS") != ""
