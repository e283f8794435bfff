package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Data races are detected with vector clocks while schedules are explored: two accesses to the same variable (or map), one of
// them a write, that no synchronisation orders. Channel operations are taken to synchronise in both directions, which can
// only hide races.
type vclock []int

func (c vclock) join(d vclock) vclock {
	for len(c) < len(d) {
		c = append(c, 0)
	}
	for i, n := range d {
		c[i] = max(c[i], n)
	}
	return c
}

func (c vclock) at(i int) int {
	if i < len(c) {
		return c[i]
	}
	return 0
}

type raceCell struct {
	wg, wclk int
	wsite    string
	reads    vclock
	rsite    string
}

type races struct {
	cells map[any]*raceCell
	sync  map[any]vclock
}

func (m *Machine) clockOf(g *gor) vclock {
	if g.vc == nil {
		g.vc = make(vclock, g.id+1)
		g.vc[g.id] = 1
	}
	return g.vc
}

func (m *Machine) raceFork(g *gor) {
	if m.race != nil {
		p := m.clockOf(m.cur)
		g.vc = append(vclock{}, p...).join(make(vclock, g.id+1))
		g.vc[g.id]++
		p[m.cur.id]++
	}
}

// acquire makes what was released at k happen before what follows.
func (m *Machine) acquire(k any) {
	if m.race != nil {
		m.cur.vc = m.clockOf(m.cur).join(m.race.sync[k])
	}
}

func (m *Machine) release(k any) {
	if m.race != nil {
		c := m.clockOf(m.cur)
		m.race.sync[k] = m.race.sync[k].join(c)
		c[m.cur.id]++
	}
}

func (m *Machine) access(k any, write bool) {
	if len(m.gs) < 2 {
		return
	}
	g := m.cur
	c := m.race.cells[k]
	vc := m.clockOf(g)
	if c == nil {
		c = &raceCell{wg: -1}
		m.race.cells[k] = c
	}
	if c.wg >= 0 && c.wg != g.id && c.wclk > vc.at(c.wg) {
		m.raceFound(c.wsite)
	}
	if write {
		for i, n := range c.reads {
			if i != g.id && n > vc.at(i) {
				m.raceFound(c.rsite)
			}
		}
		c.wg, c.wclk, c.wsite = g.id, vc[g.id], m.site()
		return
	}
	for len(c.reads) <= g.id {
		c.reads = append(c.reads, 0)
	}
	c.reads[g.id], c.rsite = vc[g.id], m.site()
}

func (m *Machine) site() string {
	if g := m.cur; g != nil && g.top != nil {
		return g.top.c.name
	}
	return "?"
}

func (m *Machine) raceFound(other string) {
	m.report("race", "data race", m.site()+" and "+other+"\n"+m.stack())
	panic(pathEnd{kind: "race"})
}

// accessVar records an access to a variable and, for structs, to its fields.
func (m *Machine) accessVar(p *any, write bool) {
	if p == nil {
		return
	}
	if s, ok := (*p).(Struct); ok {
		for i := range s {
			m.accessVar(&s[i], write)
		}
		return
	}
	m.access(p, write)
}

func init() {
	for n, f := range intrinsics {
		if strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "(*sync/atomic.") || strings.HasPrefix(n, "(*sync.Map)") || strings.HasPrefix(n, "(*sync.Once)") {
			intrinsics[n] = func(m *Machine, fr *frame, fn *ssa.Function, a []any) (any, bool) {
				m.acquire(a[0])
				r, ok := f(m, fr, fn, a)
				m.release(a[0])
				return r, ok
			}
		}
	}
}
