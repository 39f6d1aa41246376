package main

import (
	"fmt"
	"go/token"
	"slices"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type Chan struct {
	cap     int
	buf     []Value
	closed  bool
	zero    func() Value
	recvq   []*waiter
	sendq   []*waiter
	cell    Value
	vcs     []map[int]int // vector clocks of buffered messages
	relVC   map[int]int
	closeVC map[int]int
}

// waiter is one goroutine parked on a channel (possibly through select).
type waiter struct {
	g     *Gor
	done  *bool // shared by all cases of one select
	val   Value
	ok    bool
	idx   int
	fired *int
	vc    map[int]int
	out   *Value
	outOk *bool
	gvc   *map[int]int
}

type Timer struct {
	at   int64
	seq  int
	f    func(g *Gor)
	live bool
	obj  any
	desc string
}

func (m *Machine) newGor(name string) *Gor {
	g := &Gor{m: m, id: m.nextG, name: name, wake: make(chan struct{}, 1), stack: make([]Value, 4096)}
	m.nextG++
	m.gors = append(m.gors, g)
	if m.race != nil {
		g.vc = map[int]int{g.id: 1}
	}
	return g
}

func (m *Machine) spawn(parent *Gor, name string, run func(g *Gor)) *Gor {
	g := m.newGor(name)
	if m.race != nil && parent != nil {
		g.vc = copyVC(parent.vc)
		g.vc[g.id] = 1
		parent.vc[parent.id]++
	}
	if parent != nil && len(m.gors) > 4096 {
		panic(&pathEnd{kind: "steps", msg: "goroutine limit"})
	}
	m.wg.Add(1)
	go func() {
		defer m.wg.Done()
		<-g.wake
		if m.killed {
			return
		}
		m.runGor(g, run)
	}()
	if parent != nil {
		parent.sched("go")
	}
	return g
}

// runGor runs a goroutine body to its end and hands the baton on.
func (m *Machine) runGor(g *Gor, run func(g *Gor)) {
	defer func() {
		r := recover()
		if m.killed {
			return
		}
		if r != nil {
			m.finish(toPathEnd(m, g, r))
			return
		}
		g.done = true
		if m.race != nil {
			m.hostState["vc-exit"] = nil
		}
		// remove from list
		for i, x := range m.gors {
			if x == g {
				m.gors = append(m.gors[:i:i], m.gors[i+1:]...)
				break
			}
		}
		func() {
			defer func() {
				if r := recover(); r != nil && !m.killed {
					m.finish(toPathEnd(m, g, r))
				}
			}()
			m.pickNext(g, false)
		}()
	}()
	run(g)
}

func toPathEnd(m *Machine, g *Gor, r any) *pathEnd {
	switch x := r.(type) {
	case *pathEnd:
		return x
	case *goPanic:
		return &pathEnd{kind: "violation", msg: fmt.Sprintf("panic: %s (goroutine %s) at %s", x.msg, g.name, x.where)}
	case engineError:
		return &pathEnd{kind: "unsupported", msg: x.msg + " at " + g.where()}
	}
	if debugHost {
		panic(r)
	}
	return &pathEnd{kind: "unsupported", msg: fmt.Sprintf("engine failure: %v at %s", r, g.where())}
}

var debugHost = false

// finish reports the end of the path to the explorer (called with the baton).
func (m *Machine) finish(p *pathEnd) {
	if m.ended == nil {
		m.ended = p
		m.pathRes <- p
	}
}

func (g *Gor) enabled() bool { return !g.done && (g.blocked == nil || g.blocked()) }

// sched is a scheduling point at which g stays runnable.
func (g *Gor) sched(what string) {
	m := g.m
	if g.noSched > 0 || m.inInit > 0 {
		return
	}
	if len(m.gors) <= 1 && (len(m.timers) == 0 || !m.opts.TimersAnytime) {
		return
	}
	for f := g.top; f != nil; f = f.parent {
		if f.fn.quiet {
			return
		}
	}
	m.pickNext(g, true)
}

// block parks g until cond holds.
func (g *Gor) block(desc string, cond func() bool) {
	m := g.m
	for !cond() {
		if g.noSched > 0 {
			unsupported("blocking operation (%s) in a non-schedulable section", desc)
		}
		g.blocked = cond
		g.blockDesc = desc
		m.pickNext(g, true)
		g.blocked = nil
	}
}

// pickNext chooses who runs next; self is the goroutine giving up the baton.
func (m *Machine) pickNext(self *Gor, alive bool) {
	for {
		var en []*Gor
		selfEn := false
		for _, g := range m.gors {
			if g.enabled() {
				if g == self {
					selfEn = true
				} else {
					en = append(en, g)
				}
			}
		}
		timers := m.firable()
		canTimer := len(timers) > 0 && (m.opts.TimersAnytime || (!selfEn && len(en) == 0))
		if !selfEn && len(en) == 0 && !canTimer {
			// deadlock
			var s []string
			for _, g := range m.gors {
				s = append(s, g.name+": "+g.blockDesc)
			}
			pe := &pathEnd{kind: "deadlock", msg: fmt.Sprint("all goroutines blocked: ", s)}
			panic(pe)
		}
		type choice struct {
			g *Gor
			t *Timer
		}
		var cs []choice
		if selfEn && alive {
			cs = append(cs, choice{g: self})
		}
		if m.opts.Starve {
			// goroutines put back run when no other one can
			en = roundRobin(en, self)
			if up := slices.DeleteFunc(slices.Clone(en), func(g *Gor) bool { return g.low }); len(up) > 0 {
				en = up[:1]
				if self.low {
					cs = nil
				}
			} else if len(en) > 1 {
				en = en[:1]
			}
			if len(en) == 1 && (len(cs) == 0 || !self.low && m.preempt < m.opts.Preempt) {
				cs = append(cs, choice{g: en[0]})
			}
		} else if !(selfEn && alive) || m.preempt < m.opts.Preempt {
			if m.opts.Delays && len(en) > 1 {
				en = roundRobin(en, self)
				if m.preempt >= m.opts.Preempt {
					en = en[:1]
				}
			}
			for _, g := range en {
				cs = append(cs, choice{g: g})
			}
		}
		if canTimer {
			for _, t := range timers {
				cs = append(cs, choice{t: t})
			}
		}
		i := 0
		if len(cs) > 1 && m.inInit == 0 {
			i = m.Choose("sched", len(cs))
		}
		c := cs[i]
		if c.t != nil {
			m.fireTimer(self, c.t)
			continue
		}
		if m.opts.Starve {
			if c.g != self && cs[0].g == self {
				m.preempt++
				self.low = true
			}
		} else if c.g != self && (selfEn && alive || m.opts.Delays && c.g != cs[0].g) {
			m.preempt++
		}
		if len(cs) > 1 || c.g != self {
			if len(m.schedTrace) < 400 {
				m.schedTrace = append(m.schedTrace, fmt.Sprintf("run %s", c.g.name))
			}
		}
		if c.g == self {
			return
		}
		m.cur = c.g
		c.g.wake <- struct{}{}
		if !alive {
			return
		}
		<-self.wake
		if m.killed {
			panic(&pathEnd{kind: "killed"})
		}
		m.cur = self
		return
	}
}

// roundRobin orders the goroutines by age, beginning after self.
func roundRobin(en []*Gor, self *Gor) []*Gor {
	r := make([]*Gor, 0, len(en))
	for _, g := range en {
		if g.id > self.id {
			r = append(r, g)
		}
	}
	for _, g := range en {
		if g.id < self.id {
			r = append(r, g)
		}
	}
	return r
}

func (m *Machine) firable() []*Timer {
	var r []*Timer
	for _, t := range m.timers {
		if !t.live {
			continue
		}
		if len(r) == 0 || t.at < r[0].at {
			r = []*Timer{t}
		} else if t.at == r[0].at {
			r = append(r, t)
		}
	}
	return r
}

func (m *Machine) addTimer(d int64, desc string, f func(g *Gor)) *Timer {
	at := m.now + d
	if d < 0 {
		at = m.now
	}
	if d > 0 && at < m.now {
		at = 1<<63 - 1
	}
	t := &Timer{at: at, seq: m.timerSeq, f: f, live: true, desc: desc}
	m.timerSeq++
	m.timers = append(m.timers, t)
	return t
}
func (m *Machine) delTimer(t *Timer) bool {
	was := t.live
	t.live = false
	for i, x := range m.timers {
		if x == t {
			m.timers = append(m.timers[:i:i], m.timers[i+1:]...)
			break
		}
	}
	return was
}
func (m *Machine) fireTimer(g *Gor, t *Timer) {
	m.delTimer(t)
	if t.at > m.now {
		m.now = t.at
	}
	if len(m.schedTrace) < 400 {
		m.schedTrace = append(m.schedTrace, "timer "+t.desc)
	}
	t.f(g)
}

// ---- channels

func (m *Machine) chanOf(g *Gor, v Value) *Chan {
	if v.P == nil {
		return nil
	}
	c, ok := v.P.(*Chan)
	if !ok {
		unsupported("channel expected, got %T", v.P)
	}
	return c
}

func (m *Machine) trailChan(c *Chan) {
	if !m.trailOn {
		return
	}
	buf, cl, vcs := c.buf, c.closed, c.vcs
	rv, cv := c.relVC, c.closeVC
	m.trailFn(func() { c.buf, c.closed, c.recvq, c.sendq, c.vcs, c.relVC, c.closeVC = buf, cl, nil, nil, vcs, rv, cv })
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !*w.done {
			return w
		}
	}
	return nil
}
func hasWaiter(q []*waiter, not *Gor) bool {
	for _, w := range q {
		if !*w.done && w.g != not {
			return true
		}
	}
	return false
}

// trySend attempts a send without blocking.
func (m *Machine) trySend(g *Gor, c *Chan, v Value) bool {
	if c.closed {
		panic(&goPanic{v: Value{P: &Iface{T: m.P.rtErrOr(), V: vstr("send on closed channel")}}, msg: "send on closed channel", where: g.where()})
	}
	m.trailChan(c)
	if w := popWaiter(&c.recvq); w != nil {
		*w.done = true
		w.val, w.ok = v, true
		*w.fired = w.idx
		*w.out, *w.outOk = v, true
		if m.race != nil {
			m.vcJoin(&w.g.vc, g.vc)
			m.vcJoin(&g.vc, w.vc)
			g.vc[g.id]++
			w.g.vc[w.g.id]++
		}
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf[:len(c.buf):len(c.buf)], v)
		if m.race != nil {
			m.vcJoin(&g.vc, c.relVC)
			c.vcs = append(c.vcs[:len(c.vcs):len(c.vcs)], copyVC(g.vc))
			g.vc[g.id]++
		}
		return true
	}
	return false
}

// tryRecv attempts a receive without blocking.
func (m *Machine) tryRecv(g *Gor, c *Chan) (Value, bool, bool) {
	m.trailChan(c)
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if m.race != nil && len(c.vcs) > 0 {
			m.vcJoin(&g.vc, c.vcs[0])
			c.vcs = c.vcs[1:]
			c.relVC = joinVC(c.relVC, g.vc)
			g.vc[g.id]++
		}
		if w := popWaiter(&c.sendq); w != nil {
			*w.done = true
			*w.fired = w.idx
			c.buf = append(c.buf[:len(c.buf):len(c.buf)], w.val)
			if m.race != nil {
				c.vcs = append(c.vcs, copyVC(w.vc))
			}
		}
		return v, true, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		*w.done = true
		*w.fired = w.idx
		if m.race != nil {
			m.vcJoin(&g.vc, w.vc)
			m.vcJoin(&w.g.vc, g.vc)
			g.vc[g.id]++
			w.g.vc[w.g.id]++
		}
		return w.val, true, true
	}
	if c.closed {
		if m.race != nil {
			m.vcJoin(&g.vc, c.closeVC)
		}
		return c.zero(), false, true
	}
	return Value{}, false, false
}

func (m *Machine) chanSend(g *Gor, cv Value, v Value) {
	c := m.chanOf(g, cv)
	g.sched("send")
	if c == nil {
		g.block("send on nil channel", func() bool { return false })
	}
	if m.trySend(g, c, v) {
		return
	}
	done, fired := false, -1
	w := &waiter{g: g, done: &done, val: v, idx: 0, fired: &fired, vc: copyVC(g.vc)}
	c.sendq = append(c.sendq, w)
	g.block("chan send", func() bool { return done || c.closed })
	if !done {
		done = true
		panic(&goPanic{v: Value{P: &Iface{T: m.P.rtErrOr(), V: vstr("send on closed channel")}}, msg: "send on closed channel", where: g.where()})
	}
}

func (m *Machine) chanRecv(g *Gor, cv Value) (Value, bool) {
	c := m.chanOf(g, cv)
	g.sched("recv")
	if c == nil {
		g.block("receive from nil channel", func() bool { return false })
	}
	if v, ok, done := m.tryRecv(g, c); done {
		return v, ok
	}
	var out Value
	outOk := false
	done, fired := false, -1
	w := &waiter{g: g, done: &done, idx: 0, fired: &fired, out: &out, outOk: &outOk, vc: copyVC(g.vc)}
	c.recvq = append(c.recvq, w)
	g.block("chan receive", func() bool { return done || c.closed })
	if !done {
		done = true
		if m.race != nil {
			m.vcJoin(&g.vc, c.closeVC)
		}
		return c.zero(), false
	}
	return out, outOk
}

func (m *Machine) chanClose(g *Gor, cv Value) {
	c := m.chanOf(g, cv)
	if c == nil {
		m.plainPanic(g, "close of nil channel")
	}
	g.sched("close")
	if c.closed {
		m.plainPanic(g, "close of closed channel")
	}
	m.trailChan(c)
	c.closed = true
	if m.race != nil {
		c.closeVC = copyVC(g.vc)
		g.vc[g.id]++
	}
}

func (p *Program) rtErrOr() *RType {
	if p.rtErrT != nil {
		return p.rtErrT
	}
	return p.strT
}

func (m *Machine) plainPanic(g *Gor, msg string) {
	panic(&goPanic{v: Value{P: &Iface{T: m.P.rtErrOr(), V: vstr(msg)}}, msg: msg, where: g.where()})
}

func (c *compiler) selectI(x *ssa.Select, d int, pos token.Pos) func(fr *Frame) {
	type cs struct {
		ch      opnd
		send    bool
		v       opnd
		recvIdx int
		zero    func() Value
	}
	var cases []cs
	nrecv := 0
	for _, s := range x.States {
		k := cs{ch: c.op(s.Chan), send: s.Send != nil, recvIdx: -1}
		if s.Send != nil {
			k.v = c.op(s.Send)
		} else {
			k.recvIdx = nrecv
			nrecv++
		}
		cases = append(cases, k)
	}
	blocking := x.Blocking
	return func(fr *Frame) {
		m, g := fr.m, fr.g
		fr.ipos = pos
		g.sched("select")
		type rc struct {
			c       *Chan
			send    bool
			v       Value
			recvIdx int
		}
		rcs := make([]rc, len(cases))
		for i, k := range cases {
			rcs[i] = rc{c: m.chanOf(g, k.ch.get(fr)), send: k.send, recvIdx: k.recvIdx}
			if k.send {
				rcs[i].v = k.v.get(fr)
			}
		}
		result := func(idx int, ok bool, recvIdx int, v Value) {
			a := &Agg{E: make([]Value, 2+nrecv)}
			a.E[0] = Value{N: uint64(int64(idx))}
			a.E[1] = vbool(ok)
			if recvIdx >= 0 {
				a.E[2+recvIdx] = v
			}
			fr.s[d] = Value{P: a}
		}
		var ready []int
		for i, k := range rcs {
			if k.c == nil {
				continue
			}
			if k.send {
				if k.c.closed || hasWaiter(k.c.recvq, g) || len(k.c.buf) < k.c.cap {
					ready = append(ready, i)
				}
			} else if len(k.c.buf) > 0 || k.c.closed || hasWaiter(k.c.sendq, g) {
				ready = append(ready, i)
			}
		}
		if len(ready) > 0 {
			i := ready[m.Choose("select", len(ready))]
			k := rcs[i]
			if k.send {
				if !m.trySend(g, k.c, k.v) {
					unsupported("select send")
				}
				result(i, false, -1, Value{})
			} else {
				v, ok, done := m.tryRecv(g, k.c)
				if !done {
					unsupported("select recv")
				}
				result(i, ok, k.recvIdx, v)
			}
			return
		}
		if !blocking {
			result(-1, false, -1, Value{})
			return
		}
		done, fired := false, -1
		var out Value
		outOk := false
		for i, k := range rcs {
			if k.c == nil {
				continue
			}
			w := &waiter{g: g, done: &done, val: k.v, idx: i, fired: &fired, out: &out, outOk: &outOk, vc: copyVC(g.vc)}
			if k.send {
				k.c.sendq = append(k.c.sendq, w)
			} else {
				k.c.recvq = append(k.c.recvq, w)
			}
		}
		anyClosed := func() bool {
			for _, k := range rcs {
				if k.c != nil && k.c.closed {
					return true
				}
			}
			return false
		}
		g.block("select", func() bool { return done || anyClosed() })
		if !done {
			done = true
			var cl []int
			for i, k := range rcs {
				if k.c != nil && k.c.closed {
					cl = append(cl, i)
				}
			}
			i := cl[m.Choose("select", len(cl))]
			k := rcs[i]
			if k.send {
				m.plainPanic(g, "send on closed channel")
			}
			if m.race != nil {
				m.vcJoin(&g.vc, k.c.closeVC)
			}
			result(i, false, k.recvIdx, k.c.zero())
			return
		}
		k := rcs[fired]
		if k.send {
			result(fired, false, -1, Value{})
		} else {
			result(fired, outOk, k.recvIdx, out)
		}
	}
}

// ---- happens-before race detection

type raceState struct {
	shadow map[*Value]*shadow
	obj    map[any]map[int]int // sync object clocks
}
type shadow struct {
	wg, wc int
	wWhere string
	reads  map[int]int
	rWhere map[int]string
}

func copyVC(v map[int]int) map[int]int {
	if v == nil {
		return nil
	}
	r := make(map[int]int, len(v))
	for k, x := range v {
		r[k] = x
	}
	return r
}
func joinVC(a, b map[int]int) map[int]int {
	r := copyVC(a)
	if r == nil {
		r = map[int]int{}
	}
	for k, x := range b {
		if r[k] < x {
			r[k] = x
		}
	}
	return r
}
func (m *Machine) vcJoin(dst *map[int]int, src map[int]int) {
	if *dst == nil {
		*dst = map[int]int{}
	}
	for k, x := range src {
		if (*dst)[k] < x {
			(*dst)[k] = x
		}
	}
}

func (m *Machine) acquire(g *Gor, obj any) {
	if m.race != nil {
		m.vcJoin(&g.vc, m.race.obj[obj])
	}
}
func (m *Machine) release(g *Gor, obj any) {
	if m.race != nil {
		m.race.obj[obj] = joinVC(m.race.obj[obj], g.vc)
		g.vc[g.id]++
	}
}

func (m *Machine) raceRead(g *Gor, p *Value) {
	if len(m.race.shadow) == 0 && len(m.gors) <= 1 || m.inInit > 0 {
		return
	}
	s := m.race.shadow[p]
	if s == nil {
		s = &shadow{wg: -1}
		m.race.shadow[p] = s
	}
	if s.wg >= 0 && s.wg != g.id && s.wc > g.vc[s.wg] {
		panic(&pathEnd{kind: "race", msg: fmt.Sprintf("data race: read at %s, concurrent write at %s", g.where(), s.wWhere)})
	}
	if s.reads == nil {
		s.reads = map[int]int{}
		s.rWhere = map[int]string{}
	}
	if s.reads[g.id] != g.vc[g.id] {
		s.reads[g.id] = g.vc[g.id]
		s.rWhere[g.id] = g.where1()
	}
}
func (m *Machine) raceWrite(g *Gor, p *Value) {
	if m.inInit > 0 {
		return
	}
	s := m.race.shadow[p]
	if s == nil {
		s = &shadow{wg: -1}
		m.race.shadow[p] = s
	}
	if s.wg >= 0 && s.wg != g.id && s.wc > g.vc[s.wg] {
		panic(&pathEnd{kind: "race", msg: fmt.Sprintf("data race: write at %s, concurrent write at %s", g.where(), s.wWhere)})
	}
	ids := make([]int, 0, len(s.reads))
	for id := range s.reads {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if id != g.id && s.reads[id] > g.vc[id] {
			panic(&pathEnd{kind: "race", msg: fmt.Sprintf("data race: write at %s, concurrent read at %s", g.where(), s.rWhere[id])})
		}
	}
	s.wg, s.wc = g.id, g.vc[g.id]
	s.wWhere = g.where1()
	s.reads = nil
}
func (g *Gor) where1() string {
	if g.top == nil {
		return "?"
	}
	return g.m.posStr(g.top.ipos)
}
