package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type workItem struct {
	prefix []Dec
	model  Model
}

type Violation struct {
	Harness string
	Msg     string
	Kind    string
	Inputs  map[string]string
	Sched   []string
	Known   string
	Notes   []string
}

type Explorer struct {
	P          *Program
	name       string
	fn         *Func
	mu         sync.Mutex
	queue      []*workItem // guarded by sched.mu
	active     int         // guarded by sched.mu
	cpu        time.Duration
	started    time.Time
	ended      time.Time
	stop       bool
	stopWhy    string
	maxPaths   int64
	maxSteps   int64
	queryMS    int
	defPreempt int

	stats struct {
		branches  atomic.Int64
		paths     atomic.Int64
		done      atomic.Int64
		assumed   atomic.Int64
		unsup     atomic.Int64
		steps     atomic.Int64
		unknown   atomic.Int64
		asserts   atomic.Int64
		certified atomic.Int64
	}
	reasons               map[string]int
	notes                 map[string]int
	reach                 map[string]int
	mustReach             map[string]bool
	viol                  []*Violation
	known                 []*Violation
	funcs                 map[string]bool
	queries, nsat, nunsat int
	solverTime            time.Duration
	maxQ                  time.Duration
	sample                map[string]string
	vars                  int
	msg2seen              map[string]bool
	violSeen              map[string]bool
	violSince             time.Time
	initFails             map[string]bool
}

func (ex *Explorer) note(s string) {
	ex.mu.Lock()
	ex.notes[s]++
	ex.mu.Unlock()
}
func (ex *Explorer) noteUnknown() { ex.stats.unknown.Add(1) }

func (ex *Explorer) push(w *workItem) {
	sched.mu.Lock()
	ex.queue = append(ex.queue, w)
	sched.mu.Unlock()
	sched.cond.Signal()
}

// halt stops the exploration of this harness.
func (ex *Explorer) halt(why string) {
	sched.mu.Lock()
	if !ex.stop {
		ex.stop, ex.stopWhy = true, why
	}
	sched.mu.Unlock()
	sched.cond.Broadcast()
}

// scheduler distributes the paths of all harnesses over a fixed set of
// workers, each with one machine (package state) and one solver process.
type scheduler struct {
	mu       sync.Mutex
	cond     *sync.Cond
	exs      []*Explorer
	deadline time.Time
}

var sched = func() *scheduler { s := &scheduler{}; s.cond = sync.NewCond(&s.mu); return s }()

func (s *scheduler) pop(prefer *Explorer) (*Explorer, *workItem) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for {
		now := time.Now()
		var best *Explorer
		busy := false
		for _, ex := range s.exs {
			if ex.stop {
				continue
			}
			if ex.active > 0 {
				busy = true
			}
			if len(ex.queue) == 0 {
				continue
			}
			if now.After(s.deadline) {
				ex.stop, ex.stopWhy = true, "time budget"
				continue
			}
			if best == nil || ex == prefer || (best != prefer && ex.cpu+time.Duration(ex.active)*time.Millisecond < best.cpu+time.Duration(best.active)*time.Millisecond) {
				best = ex
			}
		}
		if best != nil {
			n := len(best.queue)
			w := best.queue[n-1]
			best.queue = best.queue[:n-1]
			best.active++
			if best.started.IsZero() {
				best.started = now
			}
			return best, w
		}
		if !busy {
			s.cond.Broadcast()
			return nil, nil
		}
		s.cond.Wait()
	}
}

func (s *scheduler) release(ex *Explorer, d time.Duration) {
	s.mu.Lock()
	ex.active--
	ex.cpu += d
	ex.ended = time.Now()
	s.mu.Unlock()
	s.cond.Broadcast()
}

func newMachine(p *Program, id int) *Machine {
	m := &Machine{P: p, id: id, pkgInit: map[*ssa.Package]int{}, hostState: map[any]any{}, funcsSeen: map[*Func]bool{}, reach: map[string]bool{}}
	m.ctx = NewTermCtx()
	return m
}

func (s *scheduler) run(p *Program, exs []*Explorer, workers int, deadline time.Time) {
	s.exs, s.deadline = exs, deadline
	for _, ex := range exs {
		ex.reasons, ex.notes, ex.reach, ex.funcs = map[string]int{}, map[string]int{}, map[string]int{}, map[string]bool{}
		ex.mustReach, ex.msg2seen, ex.initFails = map[string]bool{}, map[string]bool{}, map[string]bool{}
		ex.violSeen = map[string]bool{}
		ex.queue = []*workItem{{}}
	}
	done := make(chan struct{})
	go func() { // wakes sleepers at the deadline
		tick := time.NewTicker(500 * time.Millisecond)
		defer tick.Stop()
		for {
			select {
			case <-tick.C:
				s.cond.Broadcast()
			case <-done:
				return
			}
		}
	}()
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var m *Machine
			var prefer *Explorer
			var since time.Time
			for {
				if time.Since(since) > 200*time.Millisecond {
					prefer = nil
				}
				ex, w := s.pop(prefer)
				if ex == nil {
					break
				}
				if ex != prefer {
					prefer, since = ex, time.Now()
				}
				if m == nil {
					m = newMachine(p, i)
					m.sol = NewSolver(m.ctx, ex.queryMS)
					m.sol.Deadline = deadline.Add(2 * time.Second)
				}
				t0 := time.Now()
				if m.ex != ex {
					m.ex = ex
					m.sol.NewHarness(ex.queryMS)
				}
				q0, s0, u0, st0 := m.sol.Queries, m.sol.NSat, m.sol.NUnsat, m.sol.Time
				m.sol.maxQ = 0
				ex.runPath(m, w)
				ex.mu.Lock()
				ex.queries += m.sol.Queries - q0
				ex.nsat += m.sol.NSat - s0
				ex.nunsat += m.sol.NUnsat - u0
				ex.solverTime += m.sol.Time - st0
				if m.sol.maxQ > ex.maxQ {
					ex.maxQ = m.sol.maxQ
				}
				for f := range m.funcsSeen {
					ex.funcs[f.name] = true
				}
				for _, x := range m.initFails {
					ex.initFails[x] = true
				}
				ex.mu.Unlock()
				s.release(ex, time.Since(t0))
			}
			if m != nil {
				m.sol.Close()
			}
		}(i)
	}
	wg.Wait()
	close(done)
}

func (ex *Explorer) runPath(m *Machine, w *workItem) {
	for {
		pe := ex.runOnce(m, w, func(g *Gor) {
			m.trailOn = true
			m.call(g, ex.fn, nil, nil)
		})
		if pe.kind != "reinit" {
			ex.account(m, pe)
			return
		}
		// the alternatives to the decisions so far are queued already
		w = &workItem{prefix: append([]Dec(nil), m.dec...)}
		ex.runOnce(m, &workItem{}, func(g *Gor) { m.initPkg(m.reinit) })
	}
}

func (ex *Explorer) runOnce(m *Machine, w *workItem, body func(g *Gor)) *pathEnd {
	if m.ctx.next > 400_000 {
		m.ctx = NewTermCtx()
		m.sol.Reset(m.ctx)
	}
	m.pc, m.pcset = m.pc[:0:0], map[*Term]bool{}
	m.prefix, m.dec = w.prefix, nil
	m.ev, m.model = nil, nil
	if len(w.prefix) == 0 {
		m.setModel(Model{})
	} else if w.model != nil {
		m.setModel(w.model)
	}
	m.steps, m.maxSteps, m.stepCheck = 0, ex.maxSteps, 0
	m.inputs, m.names = nil, map[string]int{}
	m.notes = nil
	m.incomplete = ""
	m.depthLimit = 3000
	m.gors, m.cur, m.killed = nil, nil, false
	m.nextG, m.preempt = 0, 0
	m.timers, m.timerSeq, m.now, m.nowSym = nil, 0, 0, nil
	m.pathRes = make(chan *pathEnd, 1)
	m.ended = nil
	m.opts = HOpts{Preempt: ex.defPreempt}
	m.schedTrace = nil
	m.race = nil
	m.reach = map[string]bool{}
	m.hostState = map[any]any{}
	m.trailOn = false
	m.trail = m.trail[:0]

	main := m.spawn(nil, "main", func(g *Gor) {
		m.cur = g
		body(g)
		panic(&pathEnd{kind: "done"})
	})
	m.cur = main
	main.wake <- struct{}{}
	pe := <-m.pathRes
	// end all other goroutines of the path
	m.killed = true
	for _, g := range m.gors {
		select {
		case g.wake <- struct{}{}:
		default:
		}
	}
	m.wg.Wait()
	m.undo()
	m.trailOn = false
	m.cur = nil
	return pe
}

func (ex *Explorer) account(m *Machine, pe *pathEnd) {
	ex.stats.paths.Add(1)
	ex.stats.steps.Add(m.steps)
	kind := pe.kind
	var v *Violation
	switch kind {
	case "violation", "deadlock", "race":
		// confirm feasibility and get a model
		m.sol.Deadline = time.Now().Add(20 * time.Second)
		m.ev = nil
		r, mod := m.sol.Check(m.pc)
		if r == Unsat {
			kind = "infeasible"
			break
		}
		if r == Unknown {
			ex.noteUnknown()
			kind = "unsupported"
			pe.msg = "violation candidate undecided by the solver: " + pe.msg
			break
		}
		m.setModel(mod)
		v = &Violation{Harness: ex.name, Msg: pe.msg, Kind: pe.kind, Inputs: m.inputValues(), Sched: m.schedTrace, Notes: m.notes}
		if k, ok := m.hostState["known"].(string); ok {
			v.Known = k
		}
	}
	if dbgPaths {
		fmt.Fprintf(os.Stderr, "path %d: %s %s steps=%d dec=%d\n", ex.stats.paths.Load(), kind, pe.msg, m.steps, len(m.dec))
	}
	m.sol.Deadline = sched.deadline.Add(2 * time.Second)
	if kind == "done" && ex.stats.certified.Load() < 200 && time.Now().Before(sched.deadline) {
		// feasibility certificate: the recorded path condition must be satisfiable
		switch r, _ := m.sol.Check(m.pc); r {
		case Sat:
			ex.stats.certified.Add(1)
		case Unsat:
			kind = "infeasible"
			ex.note("a completed path had an unsatisfiable path condition")
		}
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	switch kind {
	case "done":
		ex.stats.done.Add(1)
		for l := range m.reach {
			ex.reach[l]++
		}
		if len(m.inputs) > ex.vars {
			ex.vars = len(m.inputs)
		}
		if ex.sample == nil && m.ev != nil {
			ex.sample = m.inputValues()
		}
	case "assume", "infeasible":
		ex.stats.assumed.Add(1)
	case "violation", "deadlock", "race":
		for l := range m.reach {
			ex.reach[l]++
		}
		if v.Known != "" && knownFindings[v.Known] {
			if !ex.msg2seen[v.Known] {
				ex.msg2seen[v.Known] = true
				ex.known = append(ex.known, v)
			}
			break
		}
		// Several counterexamples are kept, because a native run may need the
		// inputs of one of them rather than those of another.
		if len(ex.viol) == 0 {
			ex.violSince = time.Now()
		}
		if key := v.Kind + v.Msg + fmt.Sprint(shownInputs(v.Inputs)); !ex.violSeen[key] && len(ex.viol) < maxViol {
			ex.violSeen[key] = true
			ex.viol = append(ex.viol, v)
		}
		if len(ex.viol) >= maxViol {
			ex.halt("violation")
		}
	default:
		ex.stats.unsup.Add(1)
		key := pe.kind + ": " + pe.msg
		if len(key) > 300 {
			key = key[:300]
		}
		ex.reasons[key]++
	}
	if len(ex.viol) > 0 && time.Since(ex.violSince) > 6*time.Second {
		ex.halt("violation")
	}
	if ex.stats.paths.Load() >= ex.maxPaths {
		ex.halt("path budget")
	}
}

// maxViol bounds the counterexamples kept of a harness.
const maxViol = 64

var dbgPaths = os.Getenv("VX_DEBUG") != ""
var knownFindings = map[string]bool{}

// inputValues renders the inputs of the path under the current model.
func (m *Machine) inputValues() map[string]string {
	r := map[string]string{}
	if m.ev == nil {
		return r
	}
	for _, in := range m.inputs {
		switch in.Kind {
		case "str":
			b := strBytes(in.Str)
			s := make([]byte, len(b))
			for i, x := range b {
				if t, ok := x.P.(*Term); ok {
					s[i] = byte(m.ev.eval(t))
				} else {
					s[i] = byte(x.N)
				}
			}
			r[in.Name] = fmt.Sprintf("hex:%x", s)
		case "strbyte":
		default:
			v := m.ev.eval(in.T)
			if in.Signed && in.W > 0 {
				r[in.Name] = fmt.Sprint(sext64(v, in.W))
			} else {
				r[in.Name] = fmt.Sprint(v)
			}
		}
	}
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
