package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"slices"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// pathEnd aborts the current path.
type pathEnd struct {
	kind string // infeasible, unsupported, steps, exit, deadlock, killed, time
	msg  string
	code int
}

func unsupported(msg string) pathEnd { return pathEnd{kind: "unsupported", msg: msg} }

// targetPanic is a panic of the program under test.
type targetPanic struct {
	v     any
	stack string
}

// Dec is one recorded decision of a path.
type Dec struct {
	K uint8 // 0 false, 1 true, 2 choose, 3 eq, 4 ne
	V uint64
}

// Input is one symbolic input created by the harness.
type Input struct {
	Name string
	Kind string // int, bool, byte, choose, string
	T    *Term
	S    []*Term
	N    int
}

type Violation struct {
	Concurrent bool
	Harness string
	Label   string
	Vector  []VecItem
	Note    string
	Stack   string
	Obs     []string
	Key     string
}

type VecItem struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	I    int64  `json:"i"`
	S    []byte `json:"s,omitempty"`
}

// Machine executes one path at a time.
type Machine struct {
	w        *World
	x        *Explorer
	tp       *Pool
	sol      *Solver
	globals  map[*ssa.Global]*any
	inited   map[*ssa.Package]int
	prefix   []Dec
	pos      int
	taken    []Dec
	model    Model
	pmodel   []uint64
	pending  []*Term
	npc      int
	steps    int64
	depth    int
	inputs   []Input
	obs      []obsItem
	numMemo  map[*Term][]*Term
	numRev   map[string]*Term
	natMemo  map[natKey]*any
	natBack  map[*any]natRef
	fs       map[string]*vfile
	preempt  int // remaining preemptions; negative: unbounded
	yielding bool
	state    map[string]any // scratch for models

	gs        []*gor
	cur       *gor
	sched     bool // fork on scheduling decisions
	race      *races
	mapOrders bool
	mapPkgs   []string
	yieldStub bool
	killing   bool
	killAck   chan struct{}
	fatal     any
	holes     []*hole
	unsound   []string
	maxDepth  int
	hname     string
	deadline  time.Time
	funcs     map[*ssa.Function]bool
	inInit    int
}

type obsItem struct {
	name string
	v    any
}

// compiled function
type cfn struct {
	fn     *ssa.Function
	nregs  int
	idx    map[ssa.Value]int
	blocks [][]cins
	intr   intrinsic
	name   string
	pkg    string
}

type opnd struct {
	k uint8 // 0 reg, 1 const, 2 fresh zero const, 3 global, 4 func/builtin
	i int
	v any
	t types.Type
	g *ssa.Global
}

type cins struct {
	ins ssa.Instruction
	dst int
	ops []opnd
}

type frame struct {
	c       *cfn
	regs    []any
	prev    int
	defers  []func()
	result  any
	panic_  *targetPanic
	recover bool
	caller  *frame
	ins     ssa.Instruction
	rec     *frame // frame whose panic a deferred call may recover
}

var (
	cfnMu  sync.RWMutex
	cfns   = map[*ssa.Function]*cfn{}
	typeMu sync.Mutex
	typeID typeutil.Map
	typeN  int
)

func (m *Machine) typeKey(t types.Type) string {
	if nt, ok := t.(*nativeType); ok {
		return "native:" + nt.name
	}
	typeMu.Lock()
	defer typeMu.Unlock()
	if k := typeID.At(t); k != nil {
		return k.(string)
	}
	typeN++
	k := fmt.Sprintf("T%d", typeN)
	typeID.Set(t, k)
	return k
}

func (m *Machine) compile(fn *ssa.Function) *cfn {
	cfnMu.RLock()
	c := cfns[fn]
	cfnMu.RUnlock()
	if c != nil {
		return c
	}
	org := fn
	if o := fn.Origin(); o != nil {
		org = o
	}
	name := org.String()
	c = &cfn{fn: fn, name: name}
	if p := org.Pkg; p != nil {
		c.pkg = p.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		c.pkg = fn.Object().Pkg().Path()
	} else if fn.Parent() != nil && fn.Parent().Pkg != nil {
		c.pkg = fn.Parent().Pkg.Pkg.Path()
	}
	c.intr = lookupIntrinsic(name)
	m.w.buildMu.Lock()
	defer m.w.buildMu.Unlock()
	if org.Pkg != nil {
		m.w.ensureBuiltL(org.Pkg)
	} else if c.pkg != "" {
		m.w.ensureBuiltL(m.w.Pkgs[c.pkg])
	}
	c.idx = map[ssa.Value]int{}
	add := func(v ssa.Value) {
		c.idx[v] = c.nregs
		c.nregs++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	var buf [16]*ssa.Value
	for _, b := range fn.Blocks {
		var cb []cins
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cins{ins: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = c.idx[v]
			}
			rands := in.Operands(buf[:0])
			if d, ok := in.(*ssa.Defer); ok {
				rands = d.Call.Operands(buf[:0]) // without the defer stack
			}
			for _, op := range rands {
				ci.ops = append(ci.ops, c.operand(*op))
			}
			cb = append(cb, ci)
		}
		c.blocks = append(c.blocks, cb)
	}
	cfnMu.Lock()
	if o := cfns[fn]; o != nil {
		c = o
	} else {
		cfns[fn] = c
	}
	cfnMu.Unlock()
	return c
}

func (c *cfn) operand(v ssa.Value) opnd {
	switch v := v.(type) {
	case nil:
		return opnd{k: 1}
	case *ssa.Const:
		if v.Value == nil {
			switch v.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return opnd{k: 2, t: v.Type()}
			}
		}
		return opnd{k: 1, v: constValue(v)}
	case *ssa.Global:
		return opnd{k: 3, g: v}
	case *ssa.Function, *ssa.Builtin:
		return opnd{k: 4, v: v}
	}
	i, ok := c.idx[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v.Name(), c.fn))
	}
	return opnd{k: 0, i: i}
}

func (m *Machine) get(fr *frame, o *opnd) any {
	switch o.k {
	case 0:
		return fr.regs[o.i]
	case 1, 4:
		return o.v
	case 2:
		return zero(o.t)
	}
	return m.global(o.g)
}

func (m *Machine) global(g *ssa.Global) *any {
	if _, ok := m.globals[g]; ok {
		if m.inited[g.Pkg] == 0 {
			m.initPkg(g.Pkg)
		}
		return m.globals[g]
	}
	v := zero(deref(g.Type()))
	p := &v
	m.globals[g] = p
	m.initPkg(g.Pkg)
	return m.globals[g]
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// initPkg runs the initialisers of one package (not of its imports, which follow on demand).
func (m *Machine) initPkg(p *ssa.Package) {
	if p == nil || m.inited[p] != 0 {
		return
	}
	m.inited[p] = 1
	m.w.ensureBuilt(p)
	for _, mem := range p.Members {
		if g, ok := mem.(*ssa.Global); ok {
			if _, ok := m.globals[g]; !ok {
				v := zero(deref(g.Type()))
				m.globals[g] = &v
			}
		}
	}
	if skip := skipInit(p.Pkg.Path()); !skip {
		if f := p.Func("init"); f != nil && f.Blocks != nil {
			save := m.cur.top
			ord := m.mapOrders
			m.mapOrders = false
			m.inInit++
			m.call(nil, f, nil)
			m.inInit--
			m.mapOrders = ord
			m.cur.top = save
		}
	}
	m.nativeGlobals(p)
	m.embedded(p)
	m.inited[p] = 2
}

func (m *Machine) rtPanic(msg string) {
	panic(&targetPanic{v: Iface{t: types.Typ[types.String], v: "runtime error: " + msg}, stack: m.stack()})
}

func (m *Machine) stack() string {
	var sb strings.Builder
	n := 0
	for fr := m.cur.top; fr != nil && n < 14; fr = fr.caller {
		pos := ""
		if fr.ins != nil {
			if p := fr.ins.Pos(); p.IsValid() {
				ps := m.w.Fset.Position(p)
				pos = fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
			}
		}
		fmt.Fprintf(&sb, "  %s %s\n", fr.c.name, pos)
		n++
	}
	return sb.String()
}

// call invokes any callable value.
func (m *Machine) call(caller *frame, fn any, args []any) any {
	switch f := fn.(type) {
	case *ssa.Function:
		return m.callSSA(caller, f, args, nil)
	case *Closure:
		if f == nil {
			m.rtPanic("invalid memory address or nil pointer dereference (nil func)")
		}
		return m.callSSA(caller, f.fn, args, f.env)
	case *ssa.Builtin:
		return m.builtin(caller, f, args)
	case *NativeFn:
		return f.f(m, args)
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference (nil func)")
	}
	panic(unsupported(fmt.Sprintf("call of %T", fn)))
}

func (m *Machine) callSSA(caller *frame, fn *ssa.Function, args []any, env []any) any {
	if m.inInit > 0 && fn.Name() == "init" && fn.Synthetic == "package initializer" && caller != nil {
		return nil // imports are initialised on demand
	}
	c := m.compile(fn)
	if c.intr != nil {
		r, ok := c.intr(m, caller, fn, args)
		if ok {
			return r
		}
	}
	if fn.Blocks == nil {
		if r, ok := m.nativeCall(c.name, fn, args); ok {
			return r
		}
		panic(unsupported("no body: " + c.name + " called from\n" + m.stack()))
	}
	if strings.HasPrefix(c.pkg, modPath) && !m.funcs[fn] {
		m.funcs[fn] = true
	}
	fr := &frame{c: c, regs: make([]any, c.nregs), caller: caller}
	i := 0
	for _, a := range args {
		fr.regs[i] = a
		i++
	}
	for _, e := range env {
		fr.regs[i] = e
		i++
	}
	g := m.cur
	prevTop := g.top
	g.top = fr
	m.depth++
	g.depth++
	if g.depth > m.maxDepth {
		panic(pathEnd{kind: "recursion", msg: m.stack()})
	}
	defer func() { g.depth-- }()
	r := m.run(fr)
	g.top = prevTop
	return r
}

// run executes a frame, with panics and deferred calls.
func (m *Machine) run(fr *frame) (res any) {
	if !hasDefer(fr.c.fn) {
		m.exec(fr, 0)
		return fr.result
	}
	m.runGuard(fr, func() { m.exec(fr, 0) })
	if fr.panic_ != nil {
		// run deferred calls while panicking
		m.runDefers(fr)
		if fr.panic_ != nil {
			panic(fr.panic_)
		}
		// recovered
		if rb := fr.c.fn.Recover; rb != nil {
			m.exec(fr, rb.Index)
			return fr.result
		}
		return zero(fr.c.fn.Signature.Results())
	}
	return fr.result
}

func hasDefer(fn *ssa.Function) bool { return fn.Recover != nil || fnHasDefer(fn) }

var deferCache sync.Map

func fnHasDefer(fn *ssa.Function) bool {
	if v, ok := deferCache.Load(fn); ok {
		return v.(bool)
	}
	r := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				r = true
			}
		}
	}
	deferCache.Store(fn, r)
	return r
}

func (m *Machine) runGuard(fr *frame, f func()) {
	g := m.cur
	d := g.depth
	defer func() {
		if e := recover(); e != nil {
			if tp, ok := e.(*targetPanic); ok && !m.killing {
				fr.panic_ = tp
				g.top = fr
				g.depth = d
				return
			}
			panic(e)
		}
	}()
	f()
}

func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		m.runGuard(fr, d)
	}
}

func (m *Machine) exec(fr *frame, block int) {
	prev := -1
	for {
		ins := fr.c.blocks[block]
		next := -1
		// phis first, in parallel
		i := 0
		if len(ins) > 0 {
			if _, ok := ins[0].ins.(*ssa.Phi); ok {
				b := fr.c.fn.Blocks[block]
				edge := -1
				for k, p := range b.Preds {
					if p.Index == prev {
						edge = k
						break
					}
				}
				var vals []any
				for i < len(ins) {
					if _, ok := ins[i].ins.(*ssa.Phi); !ok {
						break
					}
					vals = append(vals, m.get(fr, &ins[i].ops[edge]))
					i++
				}
				for k, v := range vals {
					fr.regs[ins[k].dst] = v
				}
			}
		}
		for ; i < len(ins); i++ {
			ci := &ins[i]
			fr.ins = ci.ins
			m.steps++
			if m.steps&0xfff == 0 {
				m.checkBudget()
			}
			switch x := ci.ins.(type) {
			case *ssa.If:
				if m.branch(m.get(fr, &ci.ops[0]).(*Term)) {
					next = x.Block().Succs[0].Index
				} else {
					next = x.Block().Succs[1].Index
				}
			case *ssa.Jump:
				next = x.Block().Succs[0].Index
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = m.get(fr, &ci.ops[0])
				default:
					t := make(Tuple, len(ci.ops))
					for k := range ci.ops {
						t[k] = m.get(fr, &ci.ops[k])
					}
					fr.result = t
				}
				return
			default:
				m.instr(fr, ci)
			}
		}
		if next < 0 {
			panic(unsupported("fell off block in " + fr.c.name))
		}
		prev = block
		block = next
	}
}

func (m *Machine) checkBudget() {
	if m.steps > m.x.maxSteps {
		panic(pathEnd{kind: "steps", msg: m.stack()})
	}
	if m.steps&0xffff == 0 && time.Now().After(m.deadline) {
		panic(pathEnd{kind: "time"})
	}
}

func (m *Machine) instr(fr *frame, ci *cins) {
	switch x := ci.ins.(type) {
	case *ssa.Alloc:
		v := zero(deref(x.Type()))
		fr.regs[ci.dst] = &v
	case *ssa.UnOp:
		fr.regs[ci.dst] = m.unop(fr, x, m.get(fr, &ci.ops[0]))
	case *ssa.BinOp:
		fr.regs[ci.dst] = m.binop(x.Op, x.X.Type(), m.get(fr, &ci.ops[0]), m.get(fr, &ci.ops[1]), x.Y.Type())
	case *ssa.Store:
		p := m.ptr(m.get(fr, &ci.ops[0]))
		if m.race != nil {
			m.accessVar(p, true)
		}
		m.store(p, m.get(fr, &ci.ops[1]))
	case *ssa.FieldAddr:
		p := m.ptr(m.get(fr, &ci.ops[0]))
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		v := m.force(p)
		s, ok := v.(Struct)
		if !ok {
			panic(unsupported(fmt.Sprintf("field %s of %T (%s) in %s", x.String(), v, x.X.Type(), fr.c.name)))
		}
		fr.regs[ci.dst] = &s[x.Field]
	case *ssa.Field:
		s, ok := m.get(fr, &ci.ops[0]).(Struct)
		if !ok {
			panic(unsupported("field of opaque value in " + fr.c.name))
		}
		fr.regs[ci.dst] = copyVal(s[x.Field])
	case *ssa.IndexAddr:
		base := m.get(fr, &ci.ops[0])
		idx := m.get(fr, &ci.ops[1]).(*Term)
		var arr []any
		switch b := base.(type) {
		case SliceV:
			arr = b
		case *any:
			if b == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			arr = m.force(b).(Array)
		default:
			panic(unsupported(fmt.Sprintf("IndexAddr of %T", base)))
		}
		fr.regs[ci.dst] = &arr[m.index(idx, x.Index.Type(), len(arr))]
	case *ssa.Index:
		base := m.get(fr, &ci.ops[0])
		idx := m.get(fr, &ci.ops[1]).(*Term)
		switch b := base.(type) {
		case Array:
			fr.regs[ci.dst] = copyVal(b[m.index(idx, x.Index.Type(), len(b))])
		default:
			fr.regs[ci.dst] = m.strIndex(b, idx, x.Index.Type())
		}
	case *ssa.Lookup:
		mv := m.get(fr, &ci.ops[0])
		k := m.get(fr, &ci.ops[1])
		if mp, ok := mv.(*MapV); ok {
			if m.race != nil && mp != nil {
				m.access(mp, false)
			}
			e := m.mapFind(mp, k)
			var v any
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(x.X.Type().Underlying().(*types.Map).Elem())
			}
			if x.CommaOk {
				fr.regs[ci.dst] = Tuple{v, bconst(e != nil)}
			} else {
				fr.regs[ci.dst] = v
			}
			return
		}
		fr.regs[ci.dst] = m.strIndex(mv, k.(*Term), x.Index.Type())
	case *ssa.MapUpdate:
		mv := m.get(fr, &ci.ops[0]).(*MapV)
		if m.race != nil && mv != nil {
			m.access(mv, true)
		}
		m.mapSet(mv, m.get(fr, &ci.ops[1]), m.get(fr, &ci.ops[2]))
	case *ssa.MakeMap:
		fr.regs[ci.dst] = m.newMap()
	case *ssa.MakeSlice:
		n := m.concInt(m.get(fr, &ci.ops[0]).(*Term), x.Len.Type())
		c := m.concInt(m.get(fr, &ci.ops[1]).(*Term), x.Cap.Type())
		if n < 0 || n > 1<<24 {
			m.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<24 {
			m.rtPanic("makeslice: cap out of range")
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		s := make(SliceV, n, c)
		full := s[:c]
		for i := range full {
			full[i] = zero(et)
		}
		fr.regs[ci.dst] = s
	case *ssa.Slice:
		fr.regs[ci.dst] = m.slice(fr, x, ci)
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Iface{t: x.X.Type(), v: copyVal(m.get(fr, &ci.ops[0]))}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.regs[ci.dst] = m.get(fr, &ci.ops[0])
	case *ssa.Convert:
		fr.regs[ci.dst] = m.conv(x.X.Type(), x.Type(), m.get(fr, &ci.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = m.conv(x.X.Type(), x.Type(), m.get(fr, &ci.ops[0]))
	case *ssa.SliceToArrayPointer:
		s := m.get(fr, &ci.ops[0]).(SliceV)
		n := int(deref(x.Type()).Underlying().(*types.Array).Len())
		if len(s) < n {
			m.rtPanic("cannot convert slice to array pointer")
		}
		var a any = Array(s[:n:n])
		fr.regs[ci.dst] = &a
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = m.typeAssert(x, m.get(fr, &ci.ops[0]).(Iface))
	case *ssa.Extract:
		t, ok := m.get(fr, &ci.ops[0]).(Tuple)
		if !ok {
			panic(unsupported(fmt.Sprintf("extract from %T in %s (%s)", m.get(fr, &ci.ops[0]), fr.c.name, x.Tuple)))
		}
		fr.regs[ci.dst] = t[x.Index]
	case *ssa.MakeClosure:
		env := make([]any, len(ci.ops)-1)
		for i := range env {
			env[i] = m.get(fr, &ci.ops[i+1])
		}
		fr.regs[ci.dst] = &Closure{fn: x.Fn.(*ssa.Function), env: env}
	case *ssa.Call:
		fn, args := m.prepCall(fr, &x.Call, ci)
		fr.regs[ci.dst] = m.call(fr, fn, args)
	case *ssa.Defer:
		fn, args := m.prepCall(fr, &x.Call, ci)
		fr.defers = append(fr.defers, func() {
			m.callDeferred(fr, fn, args)
		})
	case *ssa.Go:
		fn, args := m.prepCall(fr, &x.Call, ci)
		m.spawn(fn, args)
	case *ssa.RunDefers:
		m.runDefers(fr)
		if fr.panic_ != nil {
			p := fr.panic_
			panic(p)
		}
	case *ssa.Panic:
		panic(&targetPanic{v: m.get(fr, &ci.ops[0]), stack: m.stack()})
	case *ssa.Range:
		v := m.get(fr, &ci.ops[0])
		if mv, ok := v.(*MapV); ok && m.race != nil && mv != nil {
			m.access(mv, false)
		}
		fr.regs[ci.dst] = m.rangeIter(v)
	case *ssa.Next:
		fr.regs[ci.dst] = m.nextIter(fr, x, m.get(fr, &ci.ops[0]))
	case *ssa.MakeChan:
		n := m.concInt(m.get(fr, &ci.ops[0]).(*Term), x.Size.Type())
		if n < 0 {
			m.rtPanic("makechan: size out of range")
		}
		fr.regs[ci.dst] = &ChanV{cap: int(n), et: x.Type().Underlying().(*types.Chan).Elem()}
	case *ssa.Send:
		m.chanSend(m.get(fr, &ci.ops[0]).(*ChanV), m.get(fr, &ci.ops[1]))
	case *ssa.Select:
		fr.regs[ci.dst] = m.selectStmt(fr, x, ci)
	case *ssa.Phi:
		panic(unsupported("late phi"))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", x)))
	}
}

// callDeferred runs a deferred call with access to the panicking frame for recover().
func (m *Machine) callDeferred(fr *frame, fn any, args []any) {
	if b, ok := fn.(*ssa.Builtin); ok && b.Name() == "recover" {
		return
	}
	old := fr.rec
	fr.rec = fr
	m.call(fr, fn, args)
	fr.rec = old
}

func (m *Machine) ptr(v any) *any {
	p, ok := v.(*any)
	if !ok {
		panic(unsupported(fmt.Sprintf("pointer expected, got %T\n%s", v, m.stack())))
	}
	return p
}

func (m *Machine) prepCall(fr *frame, cc *ssa.CallCommon, ci *cins) (any, []any) {
	if cc.IsInvoke() {
		recv := m.get(fr, &ci.ops[0]).(Iface)
		if recv.t == nil {
			m.rtPanic("invalid memory address or nil pointer dereference (method " + cc.Method.Name() + " on nil interface)")
		}
		fn := m.lookupMethod(recv.t, cc.Method)
		args := make([]any, 0, len(ci.ops))
		args = append(args, recv.v)
		for i := 1; i < len(ci.ops); i++ {
			args = append(args, copyVal(m.get(fr, &ci.ops[i])))
		}
		return fn, args
	}
	fn := m.get(fr, &ci.ops[0])
	args := make([]any, 0, len(ci.ops))
	for i := 1; i < len(ci.ops); i++ {
		args = append(args, copyVal(m.get(fr, &ci.ops[i])))
	}
	return fn, args
}

var methMu sync.Mutex
var methCache = map[types.Type]map[string]*ssa.Function{}

func (m *Machine) lookupMethod(t types.Type, meth *types.Func) any {
	if nt, ok := t.(*nativeType); ok {
		return &NativeFn{name: meth.Name(), f: func(mm *Machine, args []any) any { return nt.call(mm, meth.Name(), args) }}
	}
	methMu.Lock()
	defer methMu.Unlock()
	mc := methCache[t]
	if mc == nil {
		mc = map[string]*ssa.Function{}
		methCache[t] = mc
	}
	key := meth.Id()
	if f, ok := mc[key]; ok {
		return f
	}
	sel := types.NewMethodSet(t).Lookup(meth.Pkg(), meth.Name())
	if sel == nil {
		panic(unsupported("method " + meth.String() + " not found on " + t.String()))
	}
	m.w.buildMu.Lock()
	f := m.w.Prog.MethodValue(sel)
	m.w.buildMu.Unlock()
	mc[key] = f
	return f
}

func (m *Machine) index(idx *Term, t types.Type, n int) int {
	_, signed, _ := intInfo(t)
	if idx.isConst() {
		var v int64
		if signed {
			v = idx.sval()
		} else {
			v = int64(idx.val)
		}
		if v < 0 || v >= int64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", v, n))
		}
		return int(v)
	}
	w := idx.w
	var in *Term
	if w < 64 && uint64(n) > mask(w) {
		in = tTrue
		if signed {
			in = m.tp.Sle(iconst(w, 0), idx)
		}
	} else {
		in = m.tp.Ult(idx, iconst(w, uint64(n)))
	}
	if !m.branch(in) {
		m.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return int(m.concretize(idx))
}

func (m *Machine) strIndex(s any, idx *Term, t types.Type) any {
	n := m.strLen(s)
	if cs, ok := s.(string); ok && !idx.isConst() && n > 0 && n <= 256 {
		// table lookup with a symbolic index: one ite chain
		in := m.tp.Ult(m.tp.ZExtTo(idx, 64), iconst(64, uint64(n)))
		if !m.branch(in) {
			m.rtPanic("index out of range (string)")
		}
		r := iconst(8, uint64(cs[n-1]))
		for i := n - 2; i >= 0; i-- {
			r = m.tp.Ite(m.tp.Eq(idx, iconst(idx.w, uint64(i))), iconst(8, uint64(cs[i])), r)
		}
		return r
	}
	i := m.index(idx, t, n)
	if cs, ok := s.(string); ok {
		return iconst(8, uint64(cs[i]))
	}
	return m.strBytes(s)[i]
}

func (p *Pool) ZExtTo(a *Term, w uint8) *Term { return p.ZExt(a, w) }

func (m *Machine) concInt(t *Term, ty types.Type) int64 {
	v := m.concretize(t)
	_, signed, _ := intInfo(ty)
	if signed {
		return sext64(v, t.w)
	}
	return int64(v)
}

func (m *Machine) slice(fr *frame, x *ssa.Slice, ci *cins) any {
	base := m.get(fr, &ci.ops[0])
	k := 1
	opt := func(v ssa.Value, def int64) int64 {
		if v == nil {
			return def
		}
		t := m.get(fr, &ci.ops[k]).(*Term)
		k++
		return m.concInt(t, v.Type())
	}
	// Operands() lists X, Low, High, Max including nil ones.
	k = 1
	vals := [3]int64{-1, -1, -1}
	for i, v := range []ssa.Value{x.Low, x.High, x.Max} {
		if v != nil {
			vals[i] = m.concInt(m.get(fr, &ci.ops[1+i]).(*Term), v.Type())
			if vals[i] < 0 {
				m.rtPanic("slice bounds out of range")
			}
		}
	}
	_ = opt
	switch b := base.(type) {
	case string, *SymStr:
		n := int64(m.strLen(b))
		lo, hi := int64(0), n
		if x.Low != nil {
			lo = vals[0]
		}
		if x.High != nil {
			hi = vals[1]
		}
		if hi > n || lo > hi {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		return m.substr(b, int(lo), int(hi))
	case SliceV, *any:
		var s SliceV
		if p, ok := b.(*any); ok {
			if p == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			s = SliceV(m.force(p).(Array))
		} else {
			s = b.(SliceV)
		}
		lo, hi, mx := int64(0), int64(len(s)), int64(cap(s))
		if x.Low != nil {
			lo = vals[0]
		}
		if x.High != nil {
			hi = vals[1]
		}
		if x.Max != nil {
			mx = vals[2]
		}
		if mx > int64(cap(s)) || hi > mx || lo > hi {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(s)))
		}
		if s == nil {
			return SliceV(nil)
		}
		return s[lo:hi:mx]
	}
	panic(unsupported(fmt.Sprintf("slice of %T", base)))
}

func (m *Machine) unop(fr *frame, x *ssa.UnOp, v any) any {
	switch x.Op {
	case token.MUL:
		p := m.ptr(v)
		if m.race != nil {
			m.accessVar(p, false)
		}
		return m.load(p)
	case token.NOT:
		return m.tp.Not(v.(*Term))
	case token.SUB:
		switch v := v.(type) {
		case *Term:
			return m.tp.Neg(v)
		case float64:
			return -v
		}
	case token.XOR:
		return m.tp.BNot(v.(*Term))
	case token.ARROW:
		r, ok := m.chanRecv(v.(*ChanV), x.X.Type().Underlying().(*types.Chan).Elem())
		if x.CommaOk {
			return Tuple{r, bconst(ok)}
		}
		return r
	}
	panic(unsupported("unop " + x.String()))
}

func (m *Machine) binop(op token.Token, t types.Type, x, y any, yt types.Type) any {
	tp := m.tp
	switch op {
	case token.EQL:
		return m.eqMixed(x, y)
	case token.NEQ:
		return tp.Not(m.eqMixed(x, y))
	}
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		w, signed, _ := intInfo(t)
		switch op {
		case token.ADD:
			return tp.Bin(OAdd, a, b)
		case token.SUB:
			return tp.Bin(OSub, a, b)
		case token.MUL:
			return tp.Bin(OMul, a, b)
		case token.QUO, token.REM:
			if m.branch(tp.Eq(b, iconst(w, 0))) {
				m.rtPanic("integer divide by zero")
			}
			switch {
			case op == token.QUO && signed:
				return tp.Bin(OSDiv, a, b)
			case op == token.QUO:
				return tp.Bin(OUDiv, a, b)
			case signed:
				return tp.Bin(OSRem, a, b)
			}
			return tp.Bin(OURem, a, b)
		case token.AND:
			if w == 0 {
				return tp.And(a, b)
			}
			return tp.Bin(OBAnd, a, b)
		case token.OR:
			if w == 0 {
				return tp.Or(a, b)
			}
			return tp.Bin(OBOr, a, b)
		case token.XOR:
			return tp.Bin(OBXor, a, b)
		case token.AND_NOT:
			return tp.Bin(OBAnd, a, tp.BNot(b))
		case token.SHL, token.SHR:
			_, ysigned, _ := intInfo(yt)
			if ysigned && m.branch(tp.Slt(b, iconst(b.w, 0))) {
				m.rtPanic("negative shift amount")
			}
			// bring the count to the width of a, saturating
			var big *Term = tFalse
			cnt := b
			if b.w > w {
				big = tp.Ule(iconst(b.w, uint64(w)), b)
				cnt = tp.Trunc(b, w)
			} else {
				cnt = tp.ZExt(b, w)
			}
			if op == token.SHL {
				return tp.Ite(big, iconst(w, 0), tp.Bin(OShl, a, cnt))
			}
			if signed {
				return tp.Ite(big, tp.Bin(OAShr, a, iconst(w, uint64(w-1))), tp.Bin(OAShr, a, cnt))
			}
			return tp.Ite(big, iconst(w, 0), tp.Bin(OLShr, a, cnt))
		case token.LSS:
			if signed {
				return tp.Slt(a, b)
			}
			return tp.Ult(a, b)
		case token.LEQ:
			if signed {
				return tp.Sle(a, b)
			}
			return tp.Ule(a, b)
		case token.GTR:
			if signed {
				return tp.Slt(b, a)
			}
			return tp.Ult(b, a)
		case token.GEQ:
			if signed {
				return tp.Sle(b, a)
			}
			return tp.Ule(b, a)
		}
	case *SymF:
		return m.symfOp(op, x, y)
	case float64:
		b, ok := y.(float64)
		if !ok {
			return m.symfOp(op, x, y)
		}
		f32 := false
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
			f32 = true
		}
		r := func(f float64) any {
			if f32 {
				return float64(float32(f))
			}
			return f
		}
		switch op {
		case token.ADD:
			return r(a + b)
		case token.SUB:
			return r(a - b)
		case token.MUL:
			return r(a * b)
		case token.QUO:
			return r(a / b)
		case token.LSS:
			return bconst(a < b)
		case token.LEQ:
			return bconst(a <= b)
		case token.GTR:
			return bconst(a > b)
		case token.GEQ:
			return bconst(a >= b)
		}
	case string, *SymStr:
		switch op {
		case token.ADD:
			return m.concat(x, y)
		case token.LSS:
			return m.strLess(x, y)
		case token.GTR:
			return m.strLess(y, x)
		case token.LEQ:
			return tp.Not(m.strLess(y, x))
		case token.GEQ:
			return tp.Not(m.strLess(x, y))
		}
	}
	panic(unsupported(fmt.Sprintf("binop %s on %T", op, x)))
}

// eqMixed also covers comparisons with nil constants.
func (m *Machine) eqMixed(x, y any) *Term {
	if _, ok := x.(Iface); !ok {
		if yi, ok := y.(Iface); ok {
			return m.eqMixed(yi, x)
		}
	} else if _, ok := y.(Iface); !ok {
		if y == nil {
			return bconst(x.(Iface).t == nil)
		}
		panic(unsupported("mixed interface comparison"))
	}
	switch x.(type) {
	case *Closure, *ssa.Function, *NativeFn, *ssa.Builtin:
		return bconst(isNilFunc(x) && isNilFunc(y))
	}
	return m.eq(x, y)
}

func (m *Machine) conv(from, to types.Type, v any) any {
	tp := m.tp
	fu, tu := from.Underlying(), to.Underlying()
	if tpm, ok := tu.(*types.Interface); ok && !tpm.IsMethodSet() {
		panic(unsupported("conversion to type parameter"))
	}
	if sl, ok := tu.(*types.Slice); ok {
		if isString(fu) {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				bs := m.strBytes(v)
				r := make(SliceV, len(bs))
				for i, t := range bs {
					r[i] = t
				}
				return r
			}
			rs := m.runes(v)
			r := make(SliceV, len(rs))
			for i, t := range rs {
				r[i] = t
			}
			return r
		}
		return v
	}
	if isString(tu) {
		switch v := v.(type) {
		case string, *SymStr:
			return v
		case SliceV:
			bs := make([]*Term, len(v))
			for i, e := range v {
				t := e.(*Term)
				if t.w != 8 {
					// []rune
					if t.isConst() {
						var sb strings.Builder
						_ = sb
					}
					return m.runesToStr(v)
				}
				bs[i] = t
			}
			s := mkStr(bs)
			return s
		case *Term:
			return m.runesToStr(SliceV{tp.Trunc(tp.SExt(v, 64), 32)})
		}
	}
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if u, ok := v.(UnsafePtr); ok {
			return u
		}
		return UnsafePtr{v: v}
	}
	if _, ok := tu.(*types.Pointer); ok {
		if u, ok := v.(UnsafePtr); ok {
			if u.v == nil {
				return (*any)(nil)
			}
			if p, ok := u.v.(*any); ok {
				return p
			}
			panic(unsupported("unsafe pointer conversion in " + m.stack()))
		}
		return v
	}
	if isFloat(tu) {
		switch v := v.(type) {
		case *SymF:
			if tu.(*types.Basic).Kind() == types.Float64 {
				return v
			}
			panic(unsupported("symbolic float32"))
		case float64:
			if b := tu.(*types.Basic); b.Kind() == types.Float32 {
				return float64(float32(v))
			}
			return v
		case *Term:
			_, signed, _ := intInfo(fu)
			k := m.concretize(v)
			var f float64
			if signed {
				f = float64(sext64(k, v.w))
			} else {
				f = float64(k)
			}
			if b := tu.(*types.Basic); b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		}
	}
	if w, signed, ok := intInfo(tu); ok {
		switch v := v.(type) {
		case float64:
			if signed {
				return iconst(w, uint64(int64(v)))
			}
			return iconst(w, uint64(v))
		case *Term:
			_, fs, _ := intInfo(fu)
			if w <= v.w {
				return tp.Trunc(v, w)
			}
			if fs {
				return tp.SExt(v, w)
			}
			return tp.ZExt(v, w)
		case UnsafePtr:
			return iconst(64, 0x1000)
		}
	}
	return v
}

func (m *Machine) typeAssert(x *ssa.TypeAssert, v Iface) any {
	var ok bool
	it, isIface := x.AssertedType.Underlying().(*types.Interface)
	if v.t != nil {
		if isIface {
			ok = m.implements(v.t, it)
		} else {
			ok = sameType(v.t, x.AssertedType)
		}
	}
	if ok {
		var r any = v
		if !isIface {
			r = copyVal(v.v)
		}
		if x.CommaOk {
			return Tuple{r, tTrue}
		}
		return r
	}
	if x.CommaOk {
		return Tuple{zero(x.AssertedType), tFalse}
	}
	d := "nil"
	if v.t != nil {
		d = v.t.String()
	}
	m.rtPanic("interface conversion: interface is " + d + ", not " + x.AssertedType.String())
	return nil
}

var implMu sync.Mutex
var implCache = map[[2]types.Type]bool{}

func (m *Machine) implements(t types.Type, it *types.Interface) bool {
	if nt, ok := t.(*nativeType); ok {
		for i := 0; i < it.NumMethods(); i++ {
			if !nt.has(it.Method(i).Name()) {
				return false
			}
		}
		return true
	}
	implMu.Lock()
	defer implMu.Unlock()
	k := [2]types.Type{t, it}
	if r, ok := implCache[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	implCache[k] = r
	return r
}

type strIter struct {
	s any
	b []*Term
	i int
}

type mapIter struct {
	mv   *MapV
	ents []*mapEnt
	i    int
}

func (m *Machine) rangeIter(v any) any {
	switch v := v.(type) {
	case string, *SymStr:
		return &strIter{s: v, b: m.strBytes(v)}
	case *MapV:
		if v == nil {
			return &mapIter{}
		}
		v.fill()
		return &mapIter{mv: v, ents: append([]*mapEnt(nil), v.ents...)}
	}
	panic(unsupported(fmt.Sprintf("range over %T", v)))
}

func (m *Machine) nextIter(fr *frame, x *ssa.Next, it any) any {
	switch it := it.(type) {
	case *strIter:
		if it.i >= len(it.b) {
			return Tuple{tFalse, iconst(64, 0), iconst(32, 0)}
		}
		i := it.i
		r, n := m.decodeRune(it.b[i:])
		it.i += n
		return Tuple{tTrue, iconst(64, uint64(i)), r}
	case *mapIter:
		var live []int
		for j := it.i; j < len(it.ents); j++ {
			if !it.ents[j].deleted {
				live = append(live, j)
			}
		}
		if len(live) == 0 {
			tt := x.Type().(*types.Tuple)
			z := func(t types.Type) any {
				if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
					return nil
				}
				return zero(t)
			}
			return Tuple{tFalse, z(tt.At(1).Type()), z(tt.At(2).Type())}
		}
		j := live[0]
		if m.mapOrders && len(live) > 1 && strings.HasPrefix(fr.c.pkg, modPath) && (len(m.mapPkgs) == 0 || slices.Contains(m.mapPkgs, fr.c.pkg)) {
			j = live[m.choose(len(live))]
		}
		e := it.ents[j]
		it.ents[j] = it.ents[it.i]
		it.ents[it.i] = e
		it.i++
		for it.i < len(it.ents) && it.ents[it.i].deleted {
			it.i++
		}
		return Tuple{tTrue, copyVal(e.k), copyVal(e.v)}
	}
	panic(unsupported("next"))
}

// decodeRune decodes one rune, branching on the byte classes.
func (m *Machine) decodeRune(b []*Term) (*Term, int) {
	tp := m.tp
	c := b[0]
	if m.branch(tp.Ult(c, iconst(8, 0x80))) {
		return tp.ZExt(c, 32), 1
	}
	// fall back to concrete decoding of at most 4 bytes
	n := min(4, len(b))
	var buf []byte
	for i := 0; i < n; i++ {
		buf = append(buf, byte(m.concretize(b[i])))
		if i == 0 && buf[0] < 0xC0 {
			break
		}
	}
	for _, r := range string(buf) {
		sz := len(string(r))
		if r == 0xFFFD && !(len(buf) >= 3 && buf[0] == 0xEF && buf[1] == 0xBF && buf[2] == 0xBD) {
			sz = 1
		}
		return iconst(32, uint64(r)), sz
	}
	return iconst(32, 0xFFFD), 1
}

func (m *Machine) runes(v any) []*Term {
	if s, ok := v.(string); ok {
		var r []*Term
		for _, c := range s {
			r = append(r, iconst(32, uint64(c)))
		}
		return r
	}
	b := m.strBytes(v)
	var r []*Term
	for i := 0; i < len(b); {
		c, n := m.decodeRune(b[i:])
		r = append(r, c)
		i += n
	}
	return r
}

func (m *Machine) runesToStr(v SliceV) any {
	var out []*Term
	for _, e := range v {
		t := e.(*Term)
		if !t.isConst() {
			if m.branch(m.tp.Ult(t, iconst(32, 0x80))) {
				out = append(out, m.tp.Trunc(t, 8))
				continue
			}
			t = iconst(32, m.concretize(t))
		}
		for _, c := range []byte(string(rune(int32(t.val)))) {
			out = append(out, iconst(8, uint64(c)))
		}
	}
	return mkStr(out)
}

func (m *Machine) builtin(fr *frame, b *ssa.Builtin, args []any) any {
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case string, *SymStr:
			return iconst(64, uint64(m.strLen(v)))
		case SliceV:
			return iconst(64, uint64(len(v)))
		case *MapV:
			if m.race != nil && v != nil {
				m.access(v, false)
			}
			return iconst(64, uint64(m.mapLen(v)))
		case Array:
			return iconst(64, uint64(len(v)))
		case *any:
			return iconst(64, uint64(len(m.force(v).(Array))))
		case *ChanV:
			return iconst(64, uint64(len(v.buf)))
		}
	case "cap":
		switch v := args[0].(type) {
		case SliceV:
			return iconst(64, uint64(cap(v)))
		case Array:
			return iconst(64, uint64(len(v)))
		case *any:
			return iconst(64, uint64(len(m.force(v).(Array))))
		case *ChanV:
			return iconst(64, uint64(v.cap))
		}
	case "append":
		s := args[0].(SliceV)
		var et types.Type
		if st, ok := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice); ok {
			et = st.Elem()
		}
		switch y := args[1].(type) {
		case SliceV:
			return m.appendVals(s, y, et)
		case string, *SymStr:
			bs := m.strBytes(y)
			t := make(SliceV, len(bs))
			for i := range bs {
				t[i] = bs[i]
			}
			return m.appendVals(s, t, et)
		}
	case "copy":
		dst := args[0].(SliceV)
		var src SliceV
		switch y := args[1].(type) {
		case SliceV:
			src = y
		default:
			for _, t := range m.strBytes(y) {
				src = append(src, t)
			}
		}
		n := min(len(dst), len(src))
		tmp := make([]any, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			dst[i] = tmp[i]
		}
		return iconst(64, uint64(n))
	case "delete":
		if mv := args[0].(*MapV); mv != nil {
			if m.race != nil {
				m.access(mv, true)
			}
			m.mapDelete(mv, args[1])
		}
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *MapV:
			if v != nil {
				v.fill()
				for _, e := range v.ents {
					e.deleted = true
				}
				*v = MapV{idx: map[any]*mapEnt{}}
			}
		case SliceV:
			et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range v {
				v[i] = zero(et)
			}
		}
		return nil
	case "close":
		m.chanClose(args[0].(*ChanV))
		return nil
	case "panic":
		panic(&targetPanic{v: args[0], stack: m.stack()})
	case "recover":
		// fr is the frame of the deferred function; its caller's rec is the panicking frame
		if fr != nil && fr.caller != nil && fr.caller.rec != nil {
			pf := fr.caller.rec
			if pf.panic_ != nil {
				v := pf.panic_.v
				pf.panic_ = nil
				if i, ok := v.(Iface); ok {
					return i
				}
				return Iface{t: types.Typ[types.String], v: fmt.Sprint(v)}
			}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		t := b.Type().(*types.Signature).Params().At(0).Type()
		for _, a := range args[1:] {
			lt := m.binop(token.LSS, t, a, r, t).(*Term)
			if b.Name() == "max" {
				lt = m.binop(token.LSS, t, r, a, t).(*Term)
			}
			if rt, ok := r.(*Term); ok {
				r = m.tp.Ite(lt, a.(*Term), rt)
			} else if m.branch(lt) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*any); ok && p == nil {
			m.rtPanic(fmt.Sprintf("value method %v.%v called using nil pointer", args[1], args[2]))
		}
		return args[0]
	case "String": // unsafe.String
		return m.unsafeString(args)
	case "StringData", "SliceData":
		return Native{&unsafeData{args[0]}}
	case "Slice":
		if d, ok := args[0].(Native); ok {
			if ud, ok := d.v.(*unsafeData); ok {
				switch s := ud.v.(type) {
				case SliceV:
					return s[:m.concretize(args[1].(*Term))]
				case string, *SymStr:
					bs := m.strBytes(s)
					r := make(SliceV, len(bs))
					for i := range bs {
						r[i] = bs[i]
					}
					return r
				}
			}
		}
	case "real", "imag", "complex":
	}
	panic(unsupported("builtin " + b.Name() + " in\n" + m.stack()))
}

type unsafeData struct{ v any }

func (m *Machine) unsafeString(args []any) any {
	n := int(m.concretize(args[1].(*Term)))
	if n == 0 {
		return ""
	}
	switch p := args[0].(type) {
	case Native:
		if ud, ok := p.v.(*unsafeData); ok {
			switch s := ud.v.(type) {
			case SliceV:
				bs := make([]*Term, n)
				for i := range bs {
					bs[i] = s[i].(*Term)
				}
				return mkStr(bs)
			case string, *SymStr:
				return m.substr(s, 0, n)
			}
		}
	}
	panic(unsupported("unsafe.String in\n" + m.stack()))
}

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

var gcSizes = types.SizesFor("gc", "amd64")

// appendVals follows the growth behaviour of the gc runtime (aliasing depends on it).
func (m *Machine) appendVals(s, y SliceV, et types.Type) SliceV {
	if len(y) == 0 {
		return s
	}
	if len(s)+len(y) <= cap(s) {
		r := s[:len(s)+len(y)]
		tmp := make([]any, len(y))
		for i := range y {
			tmp[i] = copyVal(y[i])
		}
		if m.race != nil {
			for i := len(s); i < len(r); i++ {
				m.accessVar(&r[i], true)
			}
		}
		copy(r[len(s):], tmp)
		return r
	}
	need := len(s) + len(y)
	nc := cap(s)
	if need > 2*nc {
		nc = need
	} else if nc < 256 {
		nc = 2 * nc
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if et != nil {
		if es := gcSizes.Sizeof(et); es > 0 {
			total := es * int64(nc)
			for _, c := range sizeClasses {
				if c >= total {
					nc = int(c / es)
					break
				}
			}
		}
	}
	nc = max(nc, need)
	r := make(SliceV, need, nc)
	copy(r, s)
	for i := range y {
		r[len(s)+i] = copyVal(y[i])
	}
	if et != nil {
		full := r[:nc]
		for i := need; i < nc; i++ {
			full[i] = zero(et)
		}
	}
	return r
}

var _ = constant.Int64Val
