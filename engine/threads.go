package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

// Two threads of the code under test, run by nd.Par. A thread is switched before it
// acquires a lock, and when it waits or ends: the choice is a symbolic boolean, and
// the number of switches of a thread that could go on is bounded. Accesses that are
// not ordered by locks (vector clocks) are data races, so the interleavings of other
// instructions need not be explored.

const nThreads = 2

type vclock [nThreads]int32

func (v *vclock) join(o vclock) {
	for i := range v {
		if o[i] > v[i] {
			v[i] = o[i]
		}
	}
}

type lockSt struct {
	owner   int // thread + 1
	n       int
	readers [nThreads]int
	vc, rvc vclock
}

type access struct {
	t, c  int32 // thread, clock; c == 0: none
	fn    *Func
	pc    int
	write bool
}

type shadowSt struct {
	w access
	r [nThreads]access
}

type threadSt struct {
	fr      *Frame
	done    bool
	armed   bool
	blocked *lockSt
	read    bool // blocked as a reader
	vc      vclock
}

type parState struct {
	main     *Frame
	th       [nThreads]threadSt
	cur      int
	switches int
	max      int
	started  bool
	v        *Term // choice of the schedule
	locks    map[*Value]*lockSt
	shadow   map[any]*shadowSt
}

func stackOf(f *Frame, r []frameSave) []frameSave {
	for ; f != nil; f = f.caller {
		s := frameSave{f: f, pc: f.pc, defers: f.defers, panic: f.panic, unwind: f.unwind, deferOf: f.deferOf}
		if f.panic != nil {
			s.recov = f.panic.recovered
		}
		r = append(r, s)
	}
	return r
}

// saveThreads adds the threads to a choice point.
func (m *VM) saveThreads(cp *ChoicePoint) {
	cp.yield = m.pendingYield
	if m.par == nil {
		return
	}
	p := *m.par
	cp.par = &p
	for i := range p.th {
		if i != p.cur && !p.th[i].done {
			cp.frames = stackOf(p.th[i].fr, cp.frames)
		}
	}
	cp.frames = stackOf(p.main, cp.frames)
}

// startPar starts two threads in the frame of the call.
func (m *VM) startPar(fr *Frame, a []Value) {
	if m.par != nil {
		panic(unsupported{"threads inside threads"})
	}
	p := &parState{main: fr, max: int(a[0].(int64)), locks: map[*Value]*lockSt{}, shadow: map[any]*shadowSt{}}
	for i := range p.th {
		cl := a[1+i].(*Closure)
		m.ensure(cl.Fn)
		m.fr = nil
		m.pushFrame(cl.Fn, cl.Env, nil, -1)
		p.th[i].fr = m.fr
		p.th[i].vc[i] = 1
	}
	m.par = p
	m.fr = p.th[0].fr
	m.pendingYield = 1
}

func (p *parState) runnable(i int) bool {
	t := &p.th[i]
	if t.done {
		return false
	}
	return t.blocked == nil || t.blocked.free(i, t.read)
}

// free says whether thread i may take the lock.
func (l *lockSt) free(i int, read bool) bool {
	if l.owner != 0 {
		return false
	}
	if read {
		return true
	}
	for _, r := range l.readers {
		if r > 0 {
			return false
		}
	}
	return true
}

// yieldStep is an instruction of the scheduler.
func (m *VM) yieldStep() {
	p := m.par
	if m.pendingYield == 2 {
		c := m.branch(p.v)
		m.pendingYield = 0
		if c {
			if p.started {
				p.switches++
			}
			p.started = true
			m.switchTo(1 - p.cur)
		} else {
			p.started = true
			p.th[p.cur].armed = true
		}
		return
	}
	m.pendingYield = 0
	cur, other := p.runnable(p.cur), p.runnable(1-p.cur)
	switch {
	case !cur && !other:
		panic(pathEnd{"deadlock", "threads wait for each other at " + m.where()})
	case !cur:
		m.switchTo(1 - p.cur)
	case !other || p.switches >= p.max:
		p.th[p.cur].armed = true
		p.th[p.cur].blocked = nil
	default:
		p.v = m.newInput("sched", "bool", 0, false)
		m.pendingYield = 2
	}
}

func (m *VM) switchTo(i int) {
	p := m.par
	p.th[p.cur].fr = m.fr
	p.cur = i
	m.fr = p.th[i].fr
	p.th[i].armed = true
	p.th[i].blocked = nil
}

// threadEnd is called when the first frame of a thread returns.
func (m *VM) threadEnd() {
	p := m.par
	p.th[p.cur].done = true
	if p.runnable(1 - p.cur) {
		m.switchTo(1 - p.cur)
		return
	}
	if !p.th[1-p.cur].done {
		panic(pathEnd{"deadlock", "a thread waits for a lock that is never released"})
	}
	m.fr = p.main
	m.par = nil
}

func (m *VM) lockAt(p Value) *lockSt {
	q := m.mutexAt(p)
	l := m.par.locks[q]
	if l == nil {
		l = &lockSt{}
		locks := m.par.locks
		locks[q] = l
		m.undo(func() { delete(locks, q) })
	}
	return l
}

func (m *VM) saveLock(l *lockSt) {
	old := *l
	m.undo(func() { *l = old })
}

// acquire takes a lock; false when the thread has to be resumed later.
func (m *VM) acquire(fr *Frame, ptr Value, read, recursive bool) {
	if q, _ := ptr.(*Value); q == nil {
		m.nilDeref()
	}
	p := m.par
	t := &p.th[p.cur]
	l := m.lockAt(ptr)
	if recursive && l.owner == p.cur+1 {
		m.saveLock(l)
		l.n++
		return
	}
	if m.opFr != fr || fr.unwind {
		panic(unsupported{"lock in a deferred call"})
	}
	if !t.armed {
		fr.pc = m.opPC
		m.pendingYield = 1
		return
	}
	t.armed = false
	if !l.free(p.cur, read) {
		if l.owner == p.cur+1 || l.readers[p.cur] > 0 {
			panic(pathEnd{"deadlock", "lock of a held mutex at " + m.where()})
		}
		t.blocked, t.read = l, read
		fr.pc = m.opPC
		m.pendingYield = 1
		return
	}
	m.saveLock(l)
	t.vc.join(l.vc)
	if read {
		l.readers[p.cur]++
	} else {
		t.vc.join(l.rvc)
		l.owner, l.n = p.cur+1, 1
	}
}

func (m *VM) release(ptr Value, read bool) {
	p := m.par
	t := &p.th[p.cur]
	l := m.lockAt(ptr)
	m.saveLock(l)
	if read {
		if l.readers[p.cur] == 0 {
			panic(pathEnd{"panic", "fatal error: sync: RUnlock of unlocked RWMutex at " + m.where()})
		}
		l.readers[p.cur]--
		l.rvc.join(t.vc)
	} else {
		if l.owner != p.cur+1 {
			panic(pathEnd{"panic", "fatal error: sync: unlock of unlocked mutex at " + m.where()})
		}
		if l.n--; l.n > 0 {
			return
		}
		l.owner = 0
		l.vc = t.vc
	}
	t.vc[p.cur]++
}

// mutexIntr is a lock operation, with and without threads.
func mutexIntr(par func(m *VM, fr *Frame, ptr Value), alone func(m *VM, ptr Value)) Intrinsic {
	return func(m *VM, fr *Frame, a []Value, dst int32) {
		if m.par != nil {
			par(m, fr, a[0])
			return
		}
		alone(m, a[0])
		m.setReg(fr, dst, nil)
	}
}

func init() {
	lock := func(recursive bool) func(*VM, *Frame, Value) {
		return func(m *VM, fr *Frame, p Value) { m.acquire(fr, p, false, recursive) }
	}
	unlock := func(m *VM, fr *Frame, p Value) { m.release(p, false) }
	nop := func(*VM, Value) {}
	table["(*sync.Mutex).Lock"] = mutexIntr(lock(false), (*VM).lock)
	table["(*sync.Mutex).Unlock"] = mutexIntr(unlock, (*VM).unlock)
	table["(*sync.RWMutex).Lock"] = mutexIntr(lock(false), (*VM).lock)
	table["(*sync.RWMutex).Unlock"] = mutexIntr(unlock, (*VM).unlock)
	table["(*sync.RWMutex).RLock"] = mutexIntr(func(m *VM, fr *Frame, p Value) { m.acquire(fr, p, true, false) }, func(m *VM, p Value) {
		if v, ok := (*m.mutexAt(p)).(int64); ok && v == 1 {
			panic(pathEnd{"deadlock", "RLock while write-locked at " + m.where()})
		}
	})
	table["(*sync.RWMutex).RUnlock"] = mutexIntr(func(m *VM, fr *Frame, p Value) { m.release(p, true) }, nop)
	table["(*github.com/SokaDance/rmx.RecursiveMutex).Lock"] = mutexIntr(lock(true), nop)
	table["(*github.com/SokaDance/rmx.RecursiveMutex).Unlock"] = mutexIntr(unlock, nop)
	table[ndPath+".Par"] = func(m *VM, fr *Frame, a []Value, dst int32) { m.startPar(fr, a) }
	table["github.com/petermattis/goid.Get"] = s(func(m *VM, a []Value) Value {
		if m.par != nil {
			return int64(2 + m.par.cur)
		}
		return int64(1)
	})
}

// ---- data races

func (m *VM) shadowOf(k any) *shadowSt {
	sh := m.par.shadow
	s := sh[k]
	if s == nil {
		s = &shadowSt{}
		sh[k] = s
		m.undo(func() { delete(sh, k) })
	}
	return s
}

func (m *VM) race(prev access, write bool) {
	kind := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	at := func(fn *Func, pc int) string {
		if pc >= 0 && pc < len(fn.instrs) && fn.instrs[pc] != nil {
			if p := fn.instrs[pc].Pos(); p.IsValid() {
				ps := m.prog.Fset.Position(p)
				return fmt.Sprintf("%s (%s:%d)", fn.name, ps.Filename[strings.LastIndex(ps.Filename, "/")+1:], ps.Line)
			}
		}
		return fn.name
	}
	if m.jobPos < len(m.job) {
		panic(pathEnd{"violation-dup", "data race"})
	}
	m.ensureModel()
	m.ex.violation(m, "data race: "+kind(write)+" in "+at(m.opFr.fn, m.opPC)+" and "+kind(prev.write)+" in "+at(prev.fn, prev.pc), m.model, m.where())
	panic(pathEnd{"violation", "data race"})
}

func (m *VM) touch(k any, write bool) {
	p := m.par
	t := int32(p.cur)
	vc := &p.th[t].vc
	s := m.shadowOf(k)
	c := vc[t]
	if s.w.c != 0 && s.w.t != t && s.w.c > vc[s.w.t] {
		m.race(s.w, write)
	}
	if write {
		for i := range s.r {
			if int32(i) != t && s.r[i].c != 0 && s.r[i].c > vc[i] {
				m.race(s.r[i], true)
			}
		}
		if s.w.t == t && s.w.c == c {
			return
		}
		old := s.w
		m.undo(func() { s.w = old })
		s.w = access{t, c, m.opFr.fn, m.opPC, true}
		return
	}
	if s.r[t].c == c {
		return
	}
	old := s.r[t]
	m.undo(func() { s.r[t] = old })
	s.r[t] = access{t, c, m.opFr.fn, m.opPC, false}
}

// touchAll: an access to a value and its parts.
func (m *VM) touchAll(p *Value, write bool) {
	switch x := (*p).(type) {
	case Struct:
		for i := range x {
			m.touchAll(&x[i], write)
		}
	case Array:
		for i := range x {
			m.touchAll(&x[i], write)
		}
	default:
		m.touch(p, write)
	}
}

func (m *VM) touchMap(mp *Map, write bool) {
	if mp != nil {
		m.touch(mp, write)
	}
}

func (m *VM) touchSlice(s Slice, write bool) {
	for i := range s {
		m.touchAll(&s[i], write)
	}
}

// ---- native runs

var syncTypes = map[string]bool{"Mutex": true, "RWMutex": true, "Once": true, "WaitGroup": true, "Pool": true, "Map": true, "Locker": true, "Cond": true, "RecursiveMutex": true}

// threadFiles are the files of the code under test whose locks are those of the
// scheduler: their imports of sync and rmx are replaced.
func threadFiles(dir string) (map[string]string, error) {
	r := map[string]string{}
	files, _ := filepath.Glob(filepath.Join(repoDir, "ecore", "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		names := map[string]bool{}
		var specs []*ast.ImportSpec
		for _, i := range af.Imports {
			n := ""
			switch i.Path.Value {
			case `"sync"`:
				n = "sync"
			case `"github.com/SokaDance/rmx"`:
				n = "rmx"
			default:
				continue
			}
			if i.Name != nil {
				n = i.Name.Name
			}
			names[n] = true
			specs = append(specs, i)
		}
		ok := len(specs) > 0
		ast.Inspect(af, func(n ast.Node) bool {
			if s, _ := n.(*ast.SelectorExpr); s != nil {
				if x, _ := s.X.(*ast.Ident); x != nil && names[x.Name] && !syncTypes[s.Sel.Name] {
					ok = false
				}
			}
			return true
		})
		if !ok {
			continue
		}
		for i := len(specs) - 1; i >= 0; i-- {
			sp := specs[i]
			n := "sync"
			if sp.Name != nil {
				n = sp.Name.Name
			} else if strings.Contains(sp.Path.Value, "rmx") {
				n = "rmx"
			}
			a, b := fset.Position(sp.Pos()).Offset, fset.Position(sp.End()).Offset
			src = []byte(string(src[:a]) + n + ` "` + modPath + `/zz_verif/zsync"` + string(src[b:]))
		}
		g := filepath.Join(dir, "threads_"+filepath.Base(f))
		if err := os.WriteFile(g, src, 0o644); err != nil {
			return nil, err
		}
		r[f] = g
	}
	return r, nil
}
