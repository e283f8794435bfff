package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type workItem struct {
	prefix []Dec
	model  []uint64
}

// Explorer enumerates the feasible paths of one harness.
type Explorer struct {
	w        *World
	fn       *ssa.Function
	name     string
	tier     int
	maxPaths int
	maxSteps int64
	deadline time.Time
	workers  int
	smtMs    int
	lifo     bool

	mu       sync.Mutex
	cond     *sync.Cond
	work     []workItem
	active   int
	stop     bool
	started  int
	viol     map[string]*Violation
	violN    map[string]int
	ends     map[string]int
	endMsgs  map[string]map[string]int
	labels   map[string]*labelStat
	samples  []Sample
	maxSamp  int
	pathsOK  int
	steps    atomic.Int64
	queries  atomic.Int64
	smtNs    atomic.Int64
	forks    atomic.Int64
	maxDepth int
	funcs    map[*ssa.Function]bool
	notes    map[string]int
	deepest  int
	natMu    sync.Mutex
	tmplC    map[string]*tmplEntry
	exhaust  bool
	expect   map[string]bool
}

type labelStat struct {
	Proved  int // discharged by the solver or by a constant, over all values of the path
	Const   int
	Failed  int
	Unknown int
}

// Sample is a model of a completed path, for native cross-validation.
type Sample struct {
	Vector []VecItem
	Obs    []string
	Path   string
}

func NewExplorer(w *World, fn *ssa.Function, name string) *Explorer {
	x := &Explorer{w: w, fn: fn, name: name, workers: 8, smtMs: 20000, maxPaths: 1 << 30, maxSteps: 30_000_000, lifo: true,
		viol: map[string]*Violation{}, violN: map[string]int{}, ends: map[string]int{}, endMsgs: map[string]map[string]int{}, labels: map[string]*labelStat{},
		funcs: map[*ssa.Function]bool{}, notes: map[string]int{}, tmplC: map[string]*tmplEntry{}, maxSamp: 40, maxDepth: 2500}
	x.cond = sync.NewCond(&x.mu)
	return x
}

func (x *Explorer) Run() {
	x.work = []workItem{{}}
	var wg sync.WaitGroup
	for i := 0; i < x.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.worker()
		}()
	}
	wg.Wait()
	x.exhaust = len(x.work) == 0 && x.ends["unsupported"] == 0 && x.ends["steps"] == 0 && x.ends["time"] == 0
}

func (x *Explorer) next() (workItem, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		if x.stop || x.started >= x.maxPaths || time.Now().After(x.deadline) {
			x.stop = true
			x.cond.Broadcast()
			return workItem{}, false
		}
		if n := len(x.work); n > 0 {
			var it workItem
			if x.lifo {
				it = x.work[n-1]
				x.work = x.work[:n-1]
			} else {
				it = x.work[0]
				x.work = x.work[1:]
			}
			x.active++
			x.started++
			return it, true
		}
		if x.active == 0 {
			x.cond.Broadcast()
			return workItem{}, false
		}
		x.cond.Wait()
	}
}

func (x *Explorer) push(it workItem) {
	x.forks.Add(1)
	x.mu.Lock()
	x.work = append(x.work, it)
	x.cond.Signal()
	x.mu.Unlock()
}

func (x *Explorer) worker() {
	sol, err := NewSolver(x.smtMs)
	if err != nil {
		panic(err)
	}
	defer sol.Close()
	m := &Machine{w: x.w, x: x, sol: sol, funcs: map[*ssa.Function]bool{}}
	for {
		it, ok := x.next()
		if !ok {
			break
		}
		m.runPath(it)
		x.mu.Lock()
		x.active--
		x.cond.Broadcast()
		x.mu.Unlock()
	}
	x.queries.Add(int64(sol.queries))
	x.smtNs.Add(int64(sol.spent))
	x.mu.Lock()
	for f := range m.funcs {
		x.funcs[f] = true
	}
	x.mu.Unlock()
}

func (m *Machine) reset(it workItem) {
	m.tp = NewPool()
	m.sol.Reset()
	m.globals = map[*ssa.Global]*any{}
	m.inited = map[*ssa.Package]int{}
	m.prefix, m.pos, m.taken = it.prefix, 0, append([]Dec(nil), it.prefix...)
	m.model, m.pmodel = Model{}, it.model
	m.pending, m.npc = nil, 0
	m.steps, m.depth = 0, 0
	m.inputs, m.obs = nil, nil
	m.numMemo, m.numRev = map[*Term][]*Term{}, map[string]*Term{}
	m.natMemo, m.natBack = map[natKey]*any{}, map[*any]natRef{}
	m.fs = map[string]*vfile{}
	m.state = map[string]any{}
	m.sched, m.mapOrders, m.race = false, false, nil
	m.holes = nil
	m.unsound = nil
	m.inInit = 0
	m.maxDepth = m.x.maxDepth
	m.deadline = m.x.deadline
	m.fatal = nil
	m.killAck = make(chan struct{})
	g := &gor{id: 0, wake: make(chan struct{})}
	m.gs = []*gor{g}
	m.cur = g
}

func (m *Machine) runPath(it workItem) {
	x := m.x
	m.reset(it)
	end := pathEnd{kind: "done"}
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch e := e.(type) {
				case pathEnd:
					end = e
				case *targetPanic:
					end = pathEnd{kind: "panic", msg: m.panicText(e)}
				default:
					if os.Getenv("VERIF_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "engine panic: %v\n%s\n%s\n", e, m.stack(), debug.Stack())
					}
					end = pathEnd{kind: "unsupported", msg: fmt.Sprintf("engine: %v\n%s", e, m.stack())}
				}
			}
		}()
		m.call(nil, x.fn, nil)
	}()
	m.killAll()
	m.cur = m.gs[0]
	func() {
		defer func() {
			if e := recover(); e != nil {
				end = pathEnd{kind: "unsupported", msg: fmt.Sprintf("engine at path end: %v", e)}
			}
		}()
		switch end.kind {
		case "panic":
			m.report("panic", firstLine(end.msg), end.msg)
		case "deadlock":
			m.report("deadlock", "all goroutines blocked", end.msg)
		case "recursion":
			m.report("recursion", "unbounded recursion", end.msg)
		case "steps":
			if m.state["termination"] != nil {
				m.report("nontermination", "step limit", end.msg)
			}
		case "done":
			if m.pos >= len(m.prefix) {
				m.sample()
			}
		}
	}()
	x.steps.Add(m.steps)
	x.mu.Lock()
	defer x.mu.Unlock()
	x.ends[end.kind]++
	if len(m.taken) > x.deepest {
		x.deepest = len(m.taken)
	}
	for _, u := range m.unsound {
		x.notes[u]++
	}
	if end.kind != "done" && end.kind != "infeasible" {
		mm := x.endMsgs[end.kind]
		if mm == nil {
			mm = map[string]int{}
			x.endMsgs[end.kind] = mm
		}
		k := end.msg
		if os.Getenv("VERIF_DEBUG") != "" {
			k += " at"
			for v, n := range m.model {
				k += fmt.Sprintf(" %v=%d", v, n)
			}
			k += fmt.Sprintf(" decisions %v", m.taken)
		}
		if len(k) > 1500 {
			k = k[:1500]
		}
		if len(mm) < 20 || mm[k] > 0 {
			mm[k]++
		}
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (m *Machine) panicText(e *targetPanic) string {
	s := "panic"
	func() {
		defer func() { recover() }()
		s = m.concreteText(e.v)
	}()
	return s + "\n" + e.stack
}

// ---- decisions ----

func (m *Machine) setPrefixModel() {
	for i, v := range m.tp.vars {
		if i < len(m.pmodel) {
			m.model[v] = m.pmodel[i]
		}
	}
}

func (m *Machine) nextDec() (Dec, bool) {
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		if m.pos == len(m.prefix) {
			m.setPrefixModel()
		}
		return d, true
	}
	return Dec{}, false
}

func (m *Machine) replaying() bool { return m.pos < len(m.prefix) }

func (m *Machine) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	m.pending = append(m.pending, t)
	m.npc++
}

func (m *Machine) flush() {
	for _, t := range m.pending {
		m.sol.Assert(t)
	}
	m.pending = m.pending[:0]
}

// newVar creates a variable; when the prefix model is active it takes its value.
func (m *Machine) newVar(name string, w uint8) *Term {
	v := m.tp.Var(name, w)
	i := len(m.tp.vars) - 1
	if i < len(m.pmodel) {
		m.model[v] = m.pmodel[i]
	}
	return v
}

func (m *Machine) auxVar(name string, w uint8, val uint64) *Term {
	v := m.tp.Var(name, w)
	i := len(m.tp.vars) - 1
	if m.replaying() && i < len(m.pmodel) {
		m.model[v] = m.pmodel[i]
	} else {
		m.model[v] = val
	}
	return v
}

func (m *Machine) modelVec(md Model) []uint64 {
	r := make([]uint64, len(m.tp.vars))
	for i, v := range m.tp.vars {
		r[i] = md[v]
	}
	return r
}

// feasible asks the solver whether PC and t is satisfiable.
func (m *Machine) feasible(t *Term) (string, Model) {
	m.flush()
	m.sol.Push()
	m.sol.Assert(t)
	r, md := m.sol.Check(m.tp.vars)
	m.sol.Pop()
	if r == "sat" {
		full := Model{}
		for _, v := range m.tp.vars {
			if x, ok := md[v]; ok {
				full[v] = x
			} else {
				full[v] = m.model[v]
			}
		}
		md = full
	}
	return r, md
}

func (m *Machine) eval(t *Term) uint64 { return Eval(t, m.model, map[*Term]uint64{}) }

var (
	forkProf = os.Getenv("VERIF_FORKS") != ""
	forkMu   sync.Mutex
	forkAt   = map[string]int{}
)

func (m *Machine) fork(alt Dec, md Model) {
	if forkProf {
		s := m.stack()
		if l := strings.SplitN(s, "\n", 4); len(l) > 3 {
			s = strings.Join(l[:3], "\n")
		}
		forkMu.Lock()
		forkAt[s]++
		forkMu.Unlock()
	}
	p := make([]Dec, len(m.taken)+1)
	copy(p, m.taken)
	p[len(m.taken)] = alt
	m.x.push(workItem{prefix: p, model: m.modelVec(md)})
}

func (m *Machine) branch(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	if d, ok := m.nextDec(); ok {
		b := d.K == 1
		if b {
			m.addPC(c)
		} else {
			m.addPC(m.tp.Not(c))
		}
		return b
	}
	b := m.eval(c) == 1
	other := c
	if b {
		other = m.tp.Not(c)
	}
	r, md := m.feasible(other)
	switch r {
	case "sat":
		k := uint8(1)
		if b {
			k = 0
		}
		m.fork(Dec{K: k}, md)
	case "unknown":
		m.unsound = append(m.unsound, "solver unknown at a branch: other side not explored")
	}
	k := uint8(0)
	if b {
		k = 1
	}
	m.taken = append(m.taken, Dec{K: k})
	m.pos = len(m.taken)
	m.prefix = m.taken
	if b {
		m.addPC(c)
	} else {
		m.addPC(m.tp.Not(c))
	}
	return b
}

func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if d, ok := m.nextDec(); ok {
		return int(d.V)
	}
	for i := n - 1; i >= 1; i-- {
		m.fork(Dec{K: 2, V: uint64(i)}, m.model)
	}
	m.taken = append(m.taken, Dec{K: 2})
	m.pos = len(m.taken)
	m.prefix = m.taken
	return 0
}

// concretize enumerates the feasible values of t, one path each.
func (m *Machine) concretize(t *Term) uint64 {
	for {
		if t.isConst() {
			return t.val
		}
		if d, ok := m.nextDec(); ok {
			k := m.tp.Eq(t, iconst(t.w, d.V))
			if d.K == 3 {
				m.addPC(k)
				return d.V
			}
			m.addPC(m.tp.Not(k))
			continue
		}
		v := m.eval(t)
		k := m.tp.Eq(t, iconst(t.w, v))
		if k.isTrue() {
			return v
		}
		r, md := m.feasible(m.tp.Not(k))
		if r == "sat" {
			m.fork(Dec{K: 4, V: v}, md)
		} else if r == "unknown" {
			m.unsound = append(m.unsound, "solver unknown at a concretisation")
		}
		m.taken = append(m.taken, Dec{K: 3, V: v})
		m.pos = len(m.taken)
		m.prefix = m.taken
		m.addPC(k)
		return v
	}
}

func (m *Machine) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{kind: "infeasible"})
	}
	if m.replaying() {
		m.addPC(c)
		return
	}
	if m.eval(c) == 1 {
		m.addPC(c)
		return
	}
	r, md := m.feasible(c)
	if r != "sat" {
		if r == "unknown" {
			m.unsound = append(m.unsound, "solver unknown at an assumption: path dropped")
		}
		panic(pathEnd{kind: "infeasible"})
	}
	m.model = md
	m.addPC(c)
}

func (m *Machine) label(l string) *labelStat {
	s := m.x.labels[l]
	if s == nil {
		s = &labelStat{}
		m.x.labels[l] = s
	}
	return s
}

func (m *Machine) assert(c *Term, label string) {
	if m.replaying() {
		m.addPC(c)
		return
	}
	x := m.x
	count := func(f func(*labelStat)) {
		x.mu.Lock()
		f(m.label(label))
		x.mu.Unlock()
	}
	if c.isTrue() {
		count(func(s *labelStat) { s.Proved++; s.Const++ })
		return
	}
	if m.eval(c) == 0 {
		count(func(s *labelStat) { s.Failed++ })
		m.report("assert", label, m.stack())
	} else {
		r, md := m.feasible(m.tp.Not(c))
		switch r {
		case "unsat":
			count(func(s *labelStat) { s.Proved++ })
			m.addPC(c)
			return
		case "unknown":
			count(func(s *labelStat) { s.Unknown++ })
			m.unsound = append(m.unsound, "solver unknown at assertion "+label)
			m.addPC(c)
			return
		}
		count(func(s *labelStat) { s.Failed++ })
		save := m.model
		m.model = md
		m.report("assert", label, m.stack())
		m.model = save
		m.addPC(c)
		return
	}
	// continue on the passing side when there is one
	m.assume(c)
}

func (m *Machine) vector() []VecItem {
	var r []VecItem
	memo := map[*Term]uint64{}
	for _, in := range m.inputs {
		switch in.Kind {
		case "choose":
			r = append(r, VecItem{Name: in.Name, Kind: in.Kind, I: int64(in.N)})
		case "string":
			var sb strings.Builder
			for _, t := range in.S {
				sb.WriteByte(byte(Eval(t, m.model, memo)))
			}
			r = append(r, VecItem{Name: in.Name, Kind: in.Kind, S: []byte(sb.String())})
		default:
			r = append(r, VecItem{Name: in.Name, Kind: in.Kind, I: sext64(Eval(in.T, m.model, memo), in.T.w)})
			if in.T.w == 0 {
				r[len(r)-1].I = int64(Eval(in.T, m.model, memo))
			}
		}
	}
	return r
}

func (m *Machine) obsText() []string {
	var r []string
	for _, o := range m.obs {
		r = append(r, o.name+"="+m.concreteText(o.v))
	}
	return r
}

func (m *Machine) report(kind, label, note string) {
	v := &Violation{Harness: m.x.name, Label: label, Vector: m.vector(), Note: kind, Stack: note, Obs: m.obsText()}
	v.Key = kind + ":" + label
	if kind == "panic" || kind == "recursion" {
		v.Key = kind + ":" + label + panicSite(note)
	}
	x := m.x
	x.mu.Lock()
	defer x.mu.Unlock()
	x.violN[v.Key]++
	if n := x.violN[v.Key]; n <= 6 {
		x.viol[fmt.Sprintf("%s#%d", v.Key, n)] = v
	}
}

func panicSite(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, modPath) {
			return "@" + strings.Fields(l)[0]
		}
	}
	return ""
}

func (m *Machine) sample() {
	x := m.x
	x.mu.Lock()
	x.pathsOK++
	n := x.pathsOK
	full := len(x.samples) >= x.maxSamp
	x.mu.Unlock()
	// reservoir-like thinning: keep the first ones and then every power-of-two-ish path
	if full && n%97 != 0 {
		return
	}
	s := Sample{Vector: m.vector(), Obs: m.obsText()}
	x.mu.Lock()
	if len(x.samples) < x.maxSamp {
		x.samples = append(x.samples, s)
	} else {
		x.samples[(n*7919)%x.maxSamp] = s
	}
	x.mu.Unlock()
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
