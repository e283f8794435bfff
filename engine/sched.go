package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// gor is one goroutine of the program under test. Exactly one of them runs at a time.
type gor struct {
	id    int
	wake  chan struct{}
	ready func() bool // nil: runnable
	done  bool
	top   *frame
	depth int
	what  string
	vc    vclock
}

type ChanV struct {
	cap    int
	buf    []any
	closed bool
	et     types.Type
	sendq  []*waiter
	recvq  []*waiter
}

type selState struct {
	done bool
	idx  int
	val  any
	ok   bool
	pan  bool
}

type waiter struct {
	s   *selState
	idx int
	val any
}

func (m *Machine) spawn(fn any, args []any) {
	g := &gor{id: len(m.gs), wake: make(chan struct{})}
	m.gs = append(m.gs, g)
	m.raceFork(g)
	go func() {
		<-g.wake
		defer func() {
			g.done = true
			if e := recover(); e != nil {
				if pe, ok := e.(pathEnd); ok && pe.kind == "killed" {
					m.killAck <- struct{}{}
					return
				}
				if m.fatal == nil {
					m.fatal = e
				}
				if m.killing {
					m.killAck <- struct{}{}
					return
				}
				// hand the baton to the main goroutine, which re-raises
				m.cur = m.gs[0]
				m.gs[0].wake <- struct{}{}
				return
			}
			if m.killing {
				m.killAck <- struct{}{}
				return
			}
			func() {
				defer func() {
					if e := recover(); e != nil {
						if m.fatal == nil {
							m.fatal = e
						}
						m.cur = m.gs[0]
						m.gs[0].wake <- struct{}{}
					}
				}()
				m.switchAway(g)
			}()
		}()
		if m.killing {
			panic(pathEnd{kind: "killed"})
		}
		m.call(nil, fn, args)
	}()
	m.yieldPoint("go")
}

// runnable lists goroutines that can make progress.
func (m *Machine) runnable() []*gor {
	var r []*gor
	for _, g := range m.gs {
		if g.done {
			continue
		}
		if g.ready == nil || g.ready() {
			r = append(r, g)
		}
	}
	return r
}

// pick chooses the next goroutine; nil means deadlock.
func (m *Machine) pick() *gor {
	r := m.runnable()
	if len(r) == 0 {
		return nil
	}
	if len(r) == 1 {
		return r[0]
	}
	if m.sched {
		return r[m.choose(len(r))]
	}
	for _, g := range r {
		if g == m.cur {
			return g
		}
	}
	return r[0]
}

// switchAway passes the baton when g has finished.
func (m *Machine) switchAway(g *gor) {
	n := m.pick()
	if n == nil {
		panic(pathEnd{kind: "deadlock", msg: m.blockedInfo()})
	}
	m.cur = n
	n.ready = nil
	n.wake <- struct{}{}
}

func (m *Machine) blockedInfo() string {
	s := ""
	for _, g := range m.gs {
		if !g.done {
			s += fmt.Sprintf("goroutine %d blocked on %s; ", g.id, g.what)
		}
	}
	return s
}

// wait blocks the current goroutine until ready() holds, letting others run.
func (m *Machine) wait(what string, ready func() bool) {
	g := m.cur
	g.ready, g.what = ready, what
	n := m.pick()
	if n == nil {
		panic(pathEnd{kind: "deadlock", msg: m.blockedInfo()})
	}
	yielding := m.yielding
	m.yielding = false
	if n == g {
		g.ready = nil
		return
	}
	if yielding && m.preempt > 0 {
		m.preempt--
	}
	m.cur = n
	n.ready = nil
	n.wake <- struct{}{}
	<-g.wake
	if m.killing {
		panic(pathEnd{kind: "killed"})
	}
	if m.fatal != nil && g.id == 0 {
		e := m.fatal
		m.fatal = nil
		panic(e)
	}
}

// yieldPoint lets another goroutine run first when schedules are explored.
func (m *Machine) yieldPoint(what string) {
	if !m.sched || len(m.gs) < 2 || m.preempt == 0 {
		return
	}
	m.yielding = true
	m.wait(what, func() bool { return true })
}

// killAll ends the parked goroutines of an aborted path.
func (m *Machine) killAll() {
	m.killing = true
	for _, g := range m.gs[1:] {
		if !g.done {
			g.wake <- struct{}{}
			<-m.killAck
		}
	}
	m.killing = false
}

type selCase struct {
	ch   *ChanV
	send bool
	val  any
}

func live(q []*waiter) []*waiter {
	var r []*waiter
	for _, w := range q {
		if !w.s.done {
			r = append(r, w)
		}
	}
	return r
}

func (m *Machine) caseReady(c selCase, self *selState) bool {
	ch := c.ch
	if ch == nil {
		return false
	}
	ch.sendq, ch.recvq = live(ch.sendq), live(ch.recvq)
	if c.send {
		if ch.closed || len(ch.buf) < ch.cap {
			return true
		}
		for _, w := range ch.recvq {
			if w.s != self {
				return true
			}
		}
		return false
	}
	if len(ch.buf) > 0 || ch.closed {
		return true
	}
	for _, w := range ch.sendq {
		if w.s != self {
			return true
		}
	}
	return false
}

func (m *Machine) doCase(c selCase) (any, bool) {
	ch := c.ch
	if c.send {
		if ch.closed {
			m.rtPanic("send on closed channel")
		}
		if len(ch.recvq) > 0 {
			w := ch.recvq[0]
			ch.recvq = ch.recvq[1:]
			w.s.done, w.s.idx, w.s.val, w.s.ok = true, w.idx, c.val, true
			return nil, false
		}
		ch.buf = append(ch.buf, c.val)
		return nil, false
	}
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		if len(ch.sendq) > 0 {
			w := ch.sendq[0]
			ch.sendq = ch.sendq[1:]
			ch.buf = append(ch.buf, w.val)
			w.s.done, w.s.idx = true, w.idx
		}
		return v, true
	}
	if len(ch.sendq) > 0 {
		w := ch.sendq[0]
		ch.sendq = ch.sendq[1:]
		w.s.done, w.s.idx = true, w.idx
		return w.val, true
	}
	return zero(ch.et), false
}

func (m *Machine) doSelect(cases []selCase, block bool) (int, any, bool) {
	m.yieldPoint("channel operation")
	for _, c := range cases {
		if c.ch != nil {
			m.release(c.ch)
			defer m.acquire(c.ch)
		}
	}
	var rdy []int
	for i, c := range cases {
		if m.caseReady(c, nil) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		k := rdy[0]
		if len(rdy) > 1 && m.sched {
			k = rdy[m.choose(len(rdy))]
		}
		v, ok := m.doCase(cases[k])
		return k, v, ok
	}
	if !block {
		return -1, nil, false
	}
	st := &selState{}
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		w := &waiter{s: st, idx: i, val: c.val}
		if c.send {
			c.ch.sendq = append(c.ch.sendq, w)
		} else {
			c.ch.recvq = append(c.ch.recvq, w)
		}
	}
	m.wait("channel operation", func() bool { return st.done })
	if st.pan {
		m.rtPanic("send on closed channel")
	}
	return st.idx, st.val, st.ok
}

func (m *Machine) chanSend(ch *ChanV, v any) { m.doSelect([]selCase{{ch, true, v}}, true) }

func (m *Machine) chanRecv(ch *ChanV, et types.Type) (any, bool) {
	_, v, ok := m.doSelect([]selCase{{ch, false, nil}}, true)
	if v == nil && !ok {
		v = zero(et)
	}
	return v, ok
}

func (m *Machine) chanClose(ch *ChanV) {
	if ch == nil {
		m.rtPanic("close of nil channel")
	}
	m.yieldPoint("close")
	m.release(ch)
	if ch.closed {
		m.rtPanic("close of closed channel")
	}
	ch.closed = true
	for _, w := range live(ch.recvq) {
		w.s.done, w.s.idx, w.s.val, w.s.ok = true, w.idx, zero(ch.et), false
	}
	for _, w := range live(ch.sendq) {
		w.s.done, w.s.idx, w.s.pan = true, w.idx, true
	}
	ch.recvq, ch.sendq = nil, nil
}

func (m *Machine) selectStmt(fr *frame, x *ssa.Select, ci *cins) any {
	var cases []selCase
	k := 0
	for _, st := range x.States {
		c := selCase{send: st.Dir == types.SendOnly}
		c.ch, _ = m.get(fr, &ci.ops[k]).(*ChanV)
		k++
		if c.send {
			c.val = m.get(fr, &ci.ops[k])
		}
		k++
		cases = append(cases, c)
	}
	i, v, ok := m.doSelect(cases, x.Blocking)
	r := Tuple{iconst(64, uint64(int64(i))), bconst(ok)}
	for j, st := range x.States {
		if st.Dir == types.RecvOnly {
			if j == i {
				if v == nil {
					v = zero(st.Chan.Type().Underlying().(*types.Chan).Elem())
				}
				r = append(r, v)
			} else {
				r = append(r, zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return r
}
