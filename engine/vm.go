package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// maxDepth is the call depth beyond which a path counts as unbounded recursion.
const maxDepth = 4000

type op func(m *VM, fr *Frame)

type Func struct {
	fn       *ssa.Function
	name     string
	code     []op
	instrs   []ssa.Instruction // parallel to code (nil for jumps)
	nregs    int
	nparams  int
	nfree    int
	recover  int // pc of recover block or -1
	results  []opd
	compiled bool
	intr     Intrinsic
	executed bool
}

type Intrinsic func(m *VM, fr *Frame, args []Value, dst int32)

type deferRec struct {
	fn   *Closure
	args []Value
	next *deferRec
}

type panicRec struct {
	val       Value // Iface
	recovered bool
	where     string
	exit      bool
}

type Frame struct {
	fn      *Func
	regs    []Value
	pc      int
	caller  *Frame
	dst     int32
	defers  *deferRec
	panic   *panicRec
	deferOf *Frame
	stamp   int64
	depth   int
	unwind  bool // running deferred calls because of a panic
}

type frameSave struct {
	f       *Frame
	pc      int
	defers  *deferRec
	panic   *panicRec
	unwind  bool
	recov   bool
	deferOf *Frame
}

type trailEnt struct {
	p   *Value
	old Value
	f   func()
}

type Decision struct {
	taken bool
	val   int64
}

type ChoicePoint struct {
	seq      int64
	frames   []frameSave
	trailLen int
	pcLen    int
	varLen   int
	inLen    int
	obsLen   int
	decLen   int
	evLen    int
	altCond  *Term
	altTaken bool
	altVal   int64
	altModel Model
	free     bool // a free (non solver) choice
	par      *parState
	yield    int
	done     bool
	redo     []Decision
	steps    int
}

type Input struct {
	name string
	kind string // int, bool, byte, str
	t    Value
	sign bool
}

type vmPanic struct {
	val Value
}
type pathEnd struct{ kind, msg string }

type VM struct {
	ld      *Loaded
	prog    *ssa.Program
	tf      *TF
	sol     *Solver
	globals map[*ssa.Global]*Value
	funcs   map[*ssa.Function]*Func
	rtypes  typeutil.Map
	nrt     int
	rtErr   *RType
	initOK  map[*ssa.Package]bool

	fr       *Frame
	lastFr   *Frame
	trail    []trailEnt
	trailing bool
	cps      []*ChoicePoint
	topSeq   int64
	seq      int64
	pc       []*Term
	vars     []*Term
	inputs   []Input
	obs      []obsEnt
	events   []event
	model    Model
	decs     []Decision
	job      []Decision
	jobPos   int
	steps    int
	maxSteps int

	// current op
	opFr      *Frame
	opPC      int
	opTrail   int
	opDec     int
	opRedo    []Decision
	opRedoPos int

	uuidCtr  int64
	mapOrder bool
	ptrIDs   map[*Value]int64

	par          *parState // threads
	pendingYield int       // 1: the scheduler runs next, 2: it branches

	ex      *Explorer
	covered map[*ssa.Function]bool

	stats Stats
	stop  bool
}

type Stats struct {
	Paths, Pruned, Unsupported, StepLimit int64
	Decisions, Forks, ChecksSym, ChecksConc int64
	ChecksUnknown int64
	Steps                                 int64
	Jobs                                  int64
}

type obsEnt struct{ vals []Value }
type event struct{ kind, id string }

func newVM(ld *Loaded) *VM {
	m := &VM{ld: ld, prog: ld.prog, tf: newTF(), globals: map[*ssa.Global]*Value{}, funcs: map[*ssa.Function]*Func{},
		covered: map[*ssa.Function]bool{}, maxSteps: 1 << 40, ptrIDs: map[*Value]int64{}, topSeq: -1}
	return m
}

func (m *VM) rtype(t types.Type) *RType {
	if r := m.rtypes.At(t); r != nil {
		return r.(*RType)
	}
	m.nrt++
	r := &RType{T: t, id: m.nrt, methods: map[string]*Func{}, impl: map[types.Type]bool{}, name: types.TypeString(t, func(p *types.Package) string { return p.Name() })}
	m.rtypes.Set(t, r)
	return r
}

func (m *VM) set(p *Value, v Value) {
	if m.trailing {
		m.trail = append(m.trail, trailEnt{p: p, old: *p})
	}
	*p = v
}

func (m *VM) undo(f func()) {
	if m.trailing {
		m.trail = append(m.trail, trailEnt{f: f})
	}
}

func (m *VM) setReg(fr *Frame, dst int32, v Value) {
	if dst < 0 {
		return
	}
	if m.trailing && fr.stamp <= m.topSeq {
		p := &fr.regs[dst]
		m.trail = append(m.trail, trailEnt{p: p, old: *p})
	}
	fr.regs[dst] = v
}

func (m *VM) unwindTrail(n int) {
	for i := len(m.trail) - 1; i >= n; i-- {
		e := &m.trail[i]
		if e.f != nil {
			e.f()
			e.f = nil
		} else {
			*e.p = e.old
		}
		e.p = nil
		e.old = nil
	}
	m.trail = m.trail[:n]
}

func (m *VM) storeVal(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		d := (*p).(Struct)
		for i := range x {
			m.storeVal(&d[i], x[i])
		}
	case Array:
		d := (*p).(Array)
		for i := range x {
			m.storeVal(&d[i], x[i])
		}
	default:
		m.set(p, v)
	}
}

// ---- panics

func (m *VM) rtError(msg string) {
	panic(vmPanic{m.mkRuntimeError(msg)})
}

func (m *VM) mkRuntimeError(msg string) Value {
	t := m.ld.runtimeErrT
	return Iface{T: m.rtype(t), V: msg}
}

func (m *VM) where() string {
	var sb strings.Builder
	n := 0
	for f := m.fr; f != nil && n < 12; f = f.caller {
		pc := f.pc - 1
		pos := ""
		if pc >= 0 && pc < len(f.fn.instrs) && f.fn.instrs[pc] != nil {
			p := f.fn.instrs[pc].Pos()
			if p.IsValid() {
				ps := m.prog.Fset.Position(p)
				fn := ps.Filename
				if i := strings.LastIndex(fn, "/"); i >= 0 {
					fn = fn[i+1:]
				}
				pos = fmt.Sprintf("%s:%d", fn, ps.Line)
			}
		}
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(f.fn.name + "@" + pos)
		n++
	}
	return sb.String()
}

// raise starts or continues unwinding with the given panic value at m.fr.
func (m *VM) raise(val Value, where string) {
	p := &panicRec{val: val, where: where}
	fr := m.fr
	fr.panic = p
	fr.unwind = true
	m.continueUnwind()
}

func (m *VM) continueUnwind() {
	for {
		fr := m.fr
		if fr == nil {
			return
		}
		p := fr.panic
		if p.recovered {
			// resume at recover block
			fr.panic = nil
			fr.unwind = false
			if fr.fn.recover >= 0 {
				// remaining defers run by the recover block's rundefers? SSA recover block only returns;
				// remaining deferred calls must run first.
				if fr.defers != nil {
					d := fr.defers
					fr.defers = d.next
					fr.unwind = true
					fr.panic = p
					m.callDeferred(fr, d)
					return
				}
				fr.pc = fr.fn.recover
				return
			}
			// no recover block: return zero values
			if fr.defers != nil {
				d := fr.defers
				fr.defers = d.next
				fr.unwind = true
				fr.panic = p
				m.callDeferred(fr, d)
				return
			}
			res := fr.fn.fn.Signature.Results()
			var v Value
			if res.Len() == 1 {
				v = zero(res.At(0).Type())
			} else if res.Len() > 1 {
				v = zero(res)
			}
			m.doReturn(fr, v)
			return
		}
		if fr.defers != nil {
			d := fr.defers
			fr.defers = d.next
			m.callDeferred(fr, d)
			return
		}
		// pop
		caller := fr.caller
		if caller == nil {
			m.lastFr = fr
			m.fr = nil
			panic(pathEnd{"panic", m.panicString(p.val) + " at " + p.where})
		}
		m.fr = caller
		if caller.unwind && fr.deferOf == caller {
			// panic raised in deferred call replaces
		}
		caller.panic = p
		caller.unwind = true
	}
}

func (m *VM) callDeferred(fr *Frame, d *deferRec) {
	if d.fn == nil {
		m.raise(m.mkRuntimeError("invalid memory address or nil pointer dereference"), m.where())
		return
	}
	f := d.fn.Fn
	m.ensure(f)
	if f.intr != nil {
		f.intr(m, fr, d.args, -1)
		if fr.unwind {
			m.continueUnwind()
		}
		return
	}
	m.pushFrame(f, d.fn.Env, d.args, -1)
	m.fr.deferOf = fr
}

func (m *VM) panicString(v Value) string {
	i, ok := v.(Iface)
	if !ok {
		return fmt.Sprint(v)
	}
	if i.T == nil {
		return "nil"
	}
	switch x := i.V.(type) {
	case string:
		return i.T.name + ": " + x
	case *Value:
		if x != nil {
			if s, ok := (*x).(Struct); ok && len(s) > 0 {
				if str, ok := s[0].(string); ok {
					return i.T.name + ": " + str
				}
			}
		}
	}
	return i.T.name
}

// ---- calls

func (m *VM) getFunc(fn *ssa.Function) *Func {
	if f := m.funcs[fn]; f != nil {
		return f
	}
	f := &Func{fn: fn, name: fn.String()}
	m.funcs[fn] = f
	return f
}

func (m *VM) ensure(f *Func) {
	if f.compiled {
		return
	}
	m.compile(f)
}

func (m *VM) pushFrame(f *Func, env []Value, args []Value, dst int32) {
	regs := make([]Value, f.nregs)
	copy(regs, args)
	copy(regs[f.nparams:], env)
	fr := &Frame{fn: f, regs: regs, caller: m.fr, dst: dst, stamp: m.seq}
	if m.fr != nil {
		fr.depth = m.fr.depth + 1
		if fr.depth > maxDepth {
			panic(pathEnd{"stack", m.where()})
		}
	}
	m.fr = fr
}

// invoke calls closure cl with args, result to register dst of fr (== m.fr).
func (m *VM) invoke(fr *Frame, cl *Closure, args []Value, dst int32) {
	f := cl.Fn
	if !f.compiled {
		m.ensure(f)
	}
	if f.intr != nil {
		f.intr(m, fr, args, dst)
		return
	}
	m.pushFrame(f, cl.Env, args, dst)
}

func (m *VM) doReturn(fr *Frame, v Value) {
	caller := fr.caller
	m.fr = caller
	if fr.deferOf != nil {
		if caller.unwind {
			m.continueUnwind()
		}
		return
	}
	if caller == nil {
		if m.par != nil {
			m.threadEnd()
			return
		}
		m.lastFr = fr
		return
	}
	if fr.dst >= 0 {
		m.setReg(caller, fr.dst, v)
	}
}

func (m *VM) findMethod(rt *RType, meth *types.Func) *Func {
	key := meth.Name()
	if !meth.Exported() {
		key = meth.Pkg().Path() + "." + key
	}
	if f, ok := rt.methods[key]; ok {
		return f
	}
	fn := m.prog.LookupMethod(rt.T, meth.Pkg(), meth.Name())
	if fn == nil {
		panic(unsupported{"no method " + meth.Name() + " on " + rt.name})
	}
	f := m.getFunc(fn)
	rt.methods[key] = f
	return f
}

func (m *VM) implements(rt *RType, it types.Type) bool {
	if b, ok := rt.impl[it]; ok {
		return b
	}
	b := types.Implements(rt.T, it.Underlying().(*types.Interface))
	rt.impl[it] = b
	return b
}

// ---- decisions

func (m *VM) addPC(t *Term) {
	m.pc = append(m.pc, t)
	m.sol.Assert(t)
}

func (m *VM) ensureModel() {
	if m.model != nil {
		return
	}
	switch m.sol.Check() {
	case rSat:
		m.model = m.sol.GetModel(m.vars)
	case rUnsat:
		panic(pathEnd{"infeasible", "path condition unsat"})
	default:
		panic(pathEnd{"unknown", "solver unknown on path condition"})
	}
}

// branch decides a symbolic or concrete boolean, forking when both sides are feasible.
func (m *VM) branch(c Value) bool {
	switch x := c.(type) {
	case bool:
		return x
	case *Term:
		if x.op == OConst {
			return x.val == 1
		}
		return m.decide(x, 0)
	}
	panic(fmt.Sprintf("branch on %T", c))
}

func (m *VM) decide(c *Term, val int64) bool {
	if m.opRedoPos < len(m.opRedo) {
		d := m.opRedo[m.opRedoPos]
		m.opRedoPos++
		return d.taken
	}
	if m.jobPos < len(m.job) {
		d := m.job[m.jobPos]
		m.jobPos++
		m.decs = append(m.decs, d)
		if !d.taken {
			c = m.tf.Not(c)
		}
		m.addPC(c)
		m.model = nil
		return d.taken
	}
	if m.ex.deadline() {
		panic(pathEnd{"timeout", "time budget"})
	}
	m.ensureModel()
	m.stats.Decisions++
	v := m.tf.Eval(c, m.model) == 1
	pos, neg := c, m.tf.Not(c)
	if !v {
		pos, neg = neg, pos
	}
	// is the other side feasible?
	m.sol.Push()
	m.sol.Assert(neg)
	r := m.sol.Check()
	var alt Model
	if r == rSat {
		alt = m.sol.GetModel(m.vars)
	}
	m.sol.Pop()
	if r == rUnsat {
		m.decs = append(m.decs, Decision{v, val})
		return v
	}
	m.stats.Forks++
	m.pushCP(neg, !v, val, alt, false)
	m.decs = append(m.decs, Decision{v, val})
	m.sol.Push()
	m.addPC(pos)
	return v
}

func (m *VM) pushCP(alt *Term, altTaken bool, altVal int64, altModel Model, free bool) {
	m.seq++
	cp := &ChoicePoint{seq: m.seq - 1, trailLen: m.opTrail, pcLen: len(m.pc), varLen: len(m.vars), inLen: len(m.inputs), obsLen: len(m.obs), evLen: len(m.events),
		decLen: len(m.decs), altCond: alt, altTaken: altTaken, altVal: altVal, altModel: altModel, free: free, steps: m.steps}
	cp.redo = append([]Decision(nil), m.decs[m.opDec:]...)
	cp.redo = append(cp.redo, Decision{altTaken, altVal})
	for f := m.fr; f != nil; f = f.caller {
		s := frameSave{f: f, pc: f.pc, defers: f.defers, panic: f.panic, unwind: f.unwind, deferOf: f.deferOf}
		if f.panic != nil {
			s.recov = f.panic.recovered
		}
		cp.frames = append(cp.frames, s)
	}
	if m.fr != m.opFr {
		panic("choice after frame change in " + m.where())
	}
	cp.frames[0].pc = m.opPC
	m.saveThreads(cp)
	m.cps = append(m.cps, cp)
	m.topSeq = cp.seq
}

// backtrack moves to the next unexplored alternative; false when exhausted.
func (m *VM) backtrack() bool {
	for len(m.cps) > 0 {
		cp := m.cps[len(m.cps)-1]
		m.cps = m.cps[:len(m.cps)-1]
		if len(m.cps) > 0 {
			m.topSeq = m.cps[len(m.cps)-1].seq
		} else {
			m.topSeq = -1
		}
		m.sol.Pop()
		m.unwindTrail(cp.trailLen)
		m.pc = m.pc[:cp.pcLen]
		m.vars = m.vars[:cp.varLen]
		m.inputs = m.inputs[:cp.inLen]
		m.obs = m.obs[:cp.obsLen]
		m.events = m.events[:cp.evLen]
		m.decs = m.decs[:cp.decLen]
		if cp.done {
			continue
		}
		for i := range cp.frames {
			s := &cp.frames[i]
			f := s.f
			f.pc, f.defers, f.panic, f.unwind, f.deferOf = s.pc, s.defers, s.panic, s.unwind, s.deferOf
			if f.panic != nil {
				f.panic.recovered = s.recov
			}
		}
		m.fr = cp.frames[0].f
		m.par, m.pendingYield = cp.par, cp.yield
		m.steps = cp.steps
		m.opRedo = cp.redo
		m.opRedoPos = 0
		m.decs = append(m.decs, Decision{cp.altTaken, cp.altVal})
		if cp.altCond != nil {
			m.addPC(cp.altCond)
		}
		m.model = cp.altModel
		// the op will be re-executed from its start
		m.opDec = cp.decLen - (len(cp.redo) - 1)
		return true
	}
	return false
}

// chooseFree is a non-deterministic choice not driven by a solver variable.
func (m *VM) chooseFree(n int) int {
	for i := 0; i < n-1; i++ {
		if m.freeBit() {
			return i
		}
	}
	return n - 1
}

func (m *VM) freeBit() bool {
	if m.opRedoPos < len(m.opRedo) {
		d := m.opRedo[m.opRedoPos]
		m.opRedoPos++
		return d.taken
	}
	if m.jobPos < len(m.job) {
		d := m.job[m.jobPos]
		m.jobPos++
		m.decs = append(m.decs, d)
		return d.taken
	}
	m.stats.Forks++
	m.ensureModel()
	m.pushCP(nil, false, 0, m.model, true)
	m.decs = append(m.decs, Decision{true, 0})
	m.sol.Push()
	return true
}

// concretize picks concrete values for a symbolic integer, forking over all feasible ones.
func (m *VM) concretize(v Value, w uint8, signed bool) int64 {
	t, ok := v.(*Term)
	if !ok {
		return v.(int64)
	}
	conv := func(u uint64) int64 {
		if signed {
			return sx(u, t.w)
		}
		return int64(u)
	}
	for {
		var val int64
		if m.opRedoPos < len(m.opRedo) {
			val = m.opRedo[m.opRedoPos].val
		} else if m.jobPos < len(m.job) {
			val = m.job[m.jobPos].val
		} else {
			m.ensureModel()
			val = conv(m.tf.Eval(t, m.model))
		}
		eq := m.tf.Eq(t, m.tf.Const(uint64(val), t.w))
		if eq.isConst() {
			if eq.val == 1 {
				return val
			}
			panic("concretize")
		}
		if m.decide(eq, val) {
			return val
		}
	}
}

func (m *VM) concInt(v Value) int { return int(m.concretize(v, 64, true)) }

func (m *VM) concStr(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		bs := make([]byte, len(s.b))
		for i, b := range s.b {
			bs[i] = byte(m.concretize(b, 8, false))
		}
		return string(bs)
	}
	panic(fmt.Sprintf("concStr %T", v))
}

func (m *VM) assume(c Value) {
	switch x := c.(type) {
	case bool:
		if !x {
			panic(pathEnd{"assume", ""})
		}
	case *Term:
		if x.isConst() {
			if x.val == 0 {
				panic(pathEnd{"assume", ""})
			}
			return
		}
		m.addPC(x)
		if m.jobPos < len(m.job) {
			m.model = nil
			return
		}
		if m.model != nil && m.tf.Eval(x, m.model) == 1 {
			return
		}
		m.model = nil
		switch m.sol.Check() {
		case rSat:
			m.model = m.sol.GetModel(m.vars)
		case rUnsat:
			panic(pathEnd{"assume", ""})
		default:
			panic(pathEnd{"unknown", "assume"})
		}
	}
}

// check is the assertion: decided by the solver for every input on the path.
func (m *VM) check(c Value, msg string) {
	switch x := c.(type) {
	case bool:
		m.stats.ChecksConc++
		if !x {
			if m.jobPos < len(m.job) {
				panic(pathEnd{"violation-dup", msg})
			}
			m.ensureModel()
			m.ex.violation(m, msg, m.model, m.where())
			panic(pathEnd{"violation", msg})
		}
	case *Term:
		if x.isConst() {
			m.check(x.val == 1, msg)
			return
		}
		if m.jobPos < len(m.job) {
			m.addPC(x)
			m.model = nil
			return
		}
		m.stats.ChecksSym++
		m.sol.Push()
		m.sol.Assert(m.tf.Not(x))
		r := m.sol.Check()
		if r == rSat {
			md := m.sol.GetModel(m.vars)
			m.sol.Pop()
			m.ex.violation(m, msg, md, m.where())
			m.assume(x)
			return
		}
		m.sol.Pop()
		if r == rUnknown {
			m.stats.ChecksUnknown++
			m.assume(x)
			return
		}
		m.addPC(x) // implied; keeps replay of decision prefixes aligned
	}
}

func (m *VM) freshVar(name string, w uint8) *Term {
	v := m.tf.newVar(name, w)
	m.vars = append(m.vars, v)
	return v
}

// ---- main loop

var yieldOp op = func(m *VM, fr *Frame) { m.yieldStep() }

func (m *VM) run() (end pathEnd) {
	for {
		e, again := m.runLoop()
		if !again {
			return e
		}
	}
}

func (m *VM) runLoop() (end pathEnd, again bool) {
	defer func() {
		if r := recover(); r != nil {
			m.opRedo = nil
			m.opRedoPos = 0
			switch x := r.(type) {
			case vmPanic:
				again = true
				func() {
					defer func() {
						if r2 := recover(); r2 != nil {
							if pe, ok := r2.(pathEnd); ok {
								end, again = pe, false
								return
							}
							panic(r2)
						}
					}()
					m.raise(x.val, m.where())
				}()
			case pathEnd:
				end, again = x, false
			case unsupported:
				end, again = pathEnd{"unsupported", x.msg + " at " + m.where()}, false
			default:
				fmt.Println("ENGINE CRASH at", m.where())
				panic(r)
			}
		}
	}()
	for {
		fr := m.fr
		if fr == nil {
			return pathEnd{"ok", ""}, false
		}
		m.opFr = fr
		m.opPC = fr.pc
		m.opTrail = len(m.trail)
		o := yieldOp
		if m.pendingYield == 0 {
			o = fr.fn.code[fr.pc]
			fr.pc++
		}
		m.steps++
		m.stats.Steps++
		if m.opRedo == nil {
			m.opDec = len(m.decs)
			o(m, fr)
		} else {
			o(m, fr)
			m.opRedo = nil
			m.opRedoPos = 0
		}
		if m.steps > m.maxSteps {
			return pathEnd{"steps", m.where()}, false
		}
	}
}

var _ = time.Now
