package main

// Goroutines of the program under analysis: run one at a time, handing over a
// baton at synchronisation operations; which one continues is a symbolic choice.
// Data races are found with vector clocks.

import (
	"fmt"
)

type vclock []int

func (v vclock) get(i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v vclock) join(o vclock) vclock {
	for len(v) < len(o) {
		v = append(v, 0)
	}
	for i, x := range o {
		if x > v[i] {
			v[i] = x
		}
	}
	return v
}

func (v vclock) clone() vclock { return append(vclock(nil), v...) }

type G struct {
	id      int
	fr      *frame
	wake    chan struct{}
	done    bool
	blocked func() bool // nil if runnable; returns true when it can proceed
	why     string
	vc      vclock
	exited  chan struct{}
}

type Chan struct{ cap int }

type mutexState struct {
	locked  bool
	owner   *G
	readers int
	vc      vclock
	rvc     vclock
}

type wgState struct {
	n  int64
	vc vclock
}

type raceCell struct {
	wG, wE int
	wPos   string
	reads  map[int]int
	wrote  bool
}

func (m *Machine) startMain() {
	g := &G{id: 0, wake: make(chan struct{}), vc: vclock{1}}
	m.gs = []*G{g}
	m.cur = g
}

func (m *Machine) spawn(cl *Closure, args []Value) {
	if cl == nil {
		m.rtPanic("go of nil func value")
	}
	m.multi = true
	parent := m.cur
	g := &G{id: len(m.gs), wake: make(chan struct{}), exited: make(chan struct{})}
	g.vc = parent.vc.clone()
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id] = 1
	parent.tick()
	m.gs = append(m.gs, g)
	go func() {
		defer close(g.exited)
		<-g.wake
		if m.killed {
			return
		}
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				if _, ok := r.(killG); ok {
					return
				}
				if tp, ok := r.(targetPanic); ok {
					r = violation{msg: "panic in goroutine: " + m.panicText(tp.v), kind: "panic", stack: m.stack()}
				}
				if v, ok := r.(violation); ok && v.stack == "" {
					v.stack = m.stack()
					r = v
				}
				m.abortVal = r
			}()
			m.call(cl.fn, args, cl.env)
		}()
		if m.killed {
			return
		}
		g.done = true
		if m.abortVal != nil {
			m.cur = m.gs[0]
			m.gs[0].wake <- struct{}{}
			return
		}
		// hand over to another goroutine
		m.finish()
	}()
}

func (g *G) tick() { g.vc[g.id]++ }

func (m *Machine) runnable() []*G {
	var out []*G
	for _, g := range m.gs {
		if g.done {
			continue
		}
		if g.blocked == nil || g.blocked() {
			out = append(out, g)
		}
	}
	return out
}

// pick chooses the next goroutine; cur first if it can continue.
func (m *Machine) pick(curOK bool) *G {
	rs := m.runnable()
	if len(rs) == 0 {
		return nil
	}
	if len(rs) == 1 {
		return rs[0]
	}
	var order []*G
	if curOK {
		order = append(order, m.cur)
		if m.preempts >= m.maxPre {
			return m.cur
		}
	}
	for _, g := range rs {
		if !(curOK && g == m.cur) {
			order = append(order, g)
		}
	}
	m.orderDep = true
	k := m.choose("sched", len(order))
	if curOK && k > 0 {
		m.preempts++
	}
	return order[k]
}

// yieldPoint lets another goroutine run before a synchronisation operation.
func (m *Machine) yieldPoint() {
	if !m.multi {
		return
	}
	g := m.pick(true)
	m.switchTo(g)
}

func (m *Machine) switchTo(g *G) {
	me := m.cur
	if g == me {
		return
	}
	m.cur = g
	g.wake <- struct{}{}
	<-me.wake
	if m.killed {
		panic(killG{})
	}
	if m.abortVal != nil && me.id == 0 {
		v := m.abortVal
		panic(v)
	}
}

// block waits until cond holds.
func (m *Machine) block(cond func() bool, why string) {
	if cond() {
		return
	}
	me := m.cur
	if !m.multi {
		panic(violation{msg: "deadlock: blocked forever on " + why, kind: "deadlock"})
	}
	me.blocked, me.why = cond, why
	g := m.pick(false)
	if g == nil {
		panic(violation{msg: "deadlock: all goroutines are blocked, this one on " + why, kind: "deadlock"})
	}
	if g != me {
		m.switchTo(g)
	}
	me.blocked = nil
}

// finish is called on a goroutine that has ended.
func (m *Machine) finish() {
	var g *G
	func() {
		defer func() {
			if r := recover(); r != nil {
				m.abortVal = r
				g = m.gs[0]
			}
		}()
		g = m.pick(false)
	}()
	if g == nil {
		m.abortVal = violation{msg: "deadlock: all remaining goroutines are blocked", kind: "deadlock"}
		g = m.gs[0]
	}
	m.cur = g
	g.wake <- struct{}{}
}

// endGoroutines kills whatever is left at the end of a path.
func (m *Machine) endGoroutines() {
	m.killed = true
	for _, g := range m.gs[1:] {
		select {
		case <-g.exited:
			continue
		default:
		}
		select {
		case g.wake <- struct{}{}:
		case <-g.exited:
		}
		<-g.exited
	}
	m.gs = m.gs[:1]
	m.killed = false
}

// ---- mutexes ----

func (m *Machine) mutexOf(p *Value) *mutexState {
	s := m.mutexes[p]
	if s == nil {
		s = &mutexState{}
		m.mutexes[p] = s
	}
	return s
}

func (m *Machine) lock(p *Value) {
	m.yieldPoint()
	s := m.mutexOf(p)
	m.block(func() bool { return !s.locked && s.readers == 0 }, "mutex")
	s.locked, s.owner = true, m.cur
	if m.multi {
		m.cur.vc = m.cur.vc.join(s.vc).join(s.rvc)
	}
}

func (m *Machine) tryLock(p *Value) bool {
	m.yieldPoint()
	s := m.mutexOf(p)
	if s.locked || s.readers > 0 {
		return false
	}
	s.locked, s.owner = true, m.cur
	if m.multi {
		m.cur.vc = m.cur.vc.join(s.vc).join(s.rvc)
	}
	return true
}

func (m *Machine) unlock(p *Value) {
	s := m.mutexOf(p)
	if !s.locked {
		panic(violation{msg: "unlock of unlocked mutex", kind: "panic"})
	}
	s.locked, s.owner = false, nil
	s.vc = m.cur.vc.clone()
	m.cur.tick()
}

func (m *Machine) rlock(p *Value) {
	m.yieldPoint()
	s := m.mutexOf(p)
	m.block(func() bool { return !s.locked }, "rwmutex")
	s.readers++
	if m.multi {
		m.cur.vc = m.cur.vc.join(s.vc)
	}
}

func (m *Machine) runlock(p *Value) {
	s := m.mutexOf(p)
	if s.readers == 0 {
		panic(violation{msg: "runlock of unlocked rwmutex", kind: "panic"})
	}
	s.readers--
	s.rvc = s.rvc.join(m.cur.vc)
	m.cur.tick()
}

// atomicOp orders an atomic access: acquire and release on the location.
func (m *Machine) atomicOp(p *Value) {
	if !m.multi {
		return
	}
	m.yieldPoint()
	m.cur.vc = m.cur.vc.join(m.syncVC[p])
	m.syncVC[p] = m.cur.vc.clone()
	m.cur.tick()
}

// ---- race detection ----

func (m *Machine) raceVal(p *Value, write bool) {
	switch v := (*p).(type) {
	case Struct:
		for i := range v {
			m.raceVal(&v[i], write)
		}
		return
	case Array:
		for i := range v {
			m.raceVal(&v[i], write)
		}
		return
	}
	c := m.shadow[p]
	if c == nil {
		c = &raceCell{}
		m.shadow[p] = c
	}
	m.raceAccess(c, write, "memory")
}

func (m *Machine) raceAccess(c *raceCell, write bool, what string) {
	g := m.cur
	if c.wrote && c.wG != g.id && g.vc.get(c.wG) < c.wE {
		m.raceReport(what, write, "write", c.wPos)
	}
	if write {
		for rg, e := range c.reads {
			if rg != g.id && g.vc.get(rg) < e {
				m.raceReport(what, write, "read", "")
			}
		}
		c.wrote, c.wG, c.wE = true, g.id, g.vc[g.id]
		c.wPos = m.where()
		c.reads = nil
		return
	}
	if c.reads == nil {
		c.reads = map[int]int{}
	}
	c.reads[g.id] = g.vc[g.id]
}

func (m *Machine) raceReport(what string, write bool, other, pos string) {
	op := "read"
	if write {
		op = "write"
	}
	panic(violation{msg: fmt.Sprintf("data race on %s: %s at %s conflicts with %s %s", what, op, m.where(), other, pos), kind: "race"})
}

func (m *Machine) where() string {
	fr := m.cur.fr
	for f := fr; f != nil; f = f.caller {
		if f.fn.inRepo {
			p := m.eng.prog.Fset.Position(f.curPos())
			return fmt.Sprintf("%s:%d", p.Filename, p.Line)
		}
	}
	if fr != nil {
		return fr.fn.name
	}
	return "?"
}
