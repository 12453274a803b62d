package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type HarnessCfg struct {
	Fn       string         `json:"fn"`
	Quick    map[string]int `json:"quick"`
	Thorough map[string]int `json:"thorough"`
	MapOrder bool           `json:"map_order"`
	MaxSteps int            `json:"max_steps"`
	QBudget  int            `json:"quick_s"`
	TBudget  int            `json:"thorough_s"`
	Hang     bool           `json:"hang_is_violation"`
	Bound    string         `json:"bound"`
}

type CheckCfg struct {
	Property    string       `json:"property"`
	Threads     bool         `json:"threads"`
	Harnesses   []HarnessCfg `json:"harnesses"`
	Assumptions []string     `json:"assumptions"`
}

type InVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

type Case struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Inputs  []InVal        `json:"inputs"`
	Message string         `json:"message,omitempty"`
	Where   string         `json:"where,omitempty"`
	Obs     []string       `json:"expected_observations,omitempty"`
	Known   string         `json:"known,omitempty"`
	Open    []string       `json:"open,omitempty"`
	Threads bool `json:"threads,omitempty"`
}

type Viol struct {
	c         Case
	kind      string
	confirmed bool
	out       string
}

type Explorer struct {
	ld     *Loaded
	cfg    HarnessCfg
	params map[string]int
	seed   int64
	known  map[string]string // open known findings

	mu      sync.Mutex
	cond    *sync.Cond
	queue   [][]Decision
	idle    int
	workers int

	end     time.Time
	timedOut bool

	viols    []*Viol
	violMsgs map[string]int
	reach    map[string]int64
	samples  []Case
	nSample  int64
	rng      *rand.Rand
	ends     map[string]int64
	endEx    map[string]string
	covered  map[string]bool
	stats    Stats
	solver   struct {
		q, sat, unsat, unk int64
		t                  time.Duration
	}
	decided  int64 // complete paths
	maxDepth int
	confirm  func(v *Viol)
	doneFlag bool
	wg       sync.WaitGroup
	initT    time.Duration
}

func (e *Explorer) deadline() bool {
	return e.timedOut || e.doneFlag || time.Now().After(e.end)
}

func (m *VM) inputVals(md Model) []InVal {
	var r []InVal
	for _, in := range m.inputs {
		iv := InVal{Name: in.name, Kind: in.kind}
		switch t := in.t.(type) {
		case *Term:
			u := m.tf.Eval(t, md)
			if t.w == 0 {
				iv.Val = fmt.Sprint(u == 1)
			} else if in.sign {
				iv.Val = fmt.Sprint(sx(u, t.w))
			} else {
				iv.Val = fmt.Sprint(u)
			}
		default:
			iv.Val = fmt.Sprint(t)
		}
		r = append(r, iv)
	}
	return r
}

func (e *Explorer) violation(m *VM, msg string, md Model, where string) {
	e.addViolation(m, "check", msg, "", md, where)
}

func (e *Explorer) addViolation(m *VM, kind, msg, known string, md Model, where string) {
	e.mu.Lock()
	key := kind + msg
	if e.violMsgs[key] >= 4 {
		e.violMsgs[key]++
		e.mu.Unlock()
		return
	}
	e.violMsgs[key]++
	v := &Viol{kind: kind, c: Case{Harness: e.cfg.Fn, Params: e.params, Inputs: m.inputVals(md), Message: msg, Where: where, Known: known}}
	e.viols = append(e.viols, v)
	e.mu.Unlock()
	if e.confirm != nil {
		e.wg.Add(1)
		go func() {
			defer e.wg.Done()
			e.confirm(v)
			if v.confirmed && v.c.Known == "" && !keepGoing {
				e.mu.Lock()
				e.doneFlag = true
				e.queue = nil
				e.cond.Broadcast()
				e.mu.Unlock()
			}
		}()
	}
}

func (m *VM) obsStrings(md Model) []string {
	var r []string
	for _, o := range m.obs {
		var parts []string
		for _, v := range o.vals {
			parts = append(parts, m.show(v, md))
		}
		r = append(r, strings.Join(parts, " "))
	}
	return r
}

func (e *Explorer) pathDone(m *VM, end pathEnd) {
	m.stats.Paths++
	kind := end.kind
	switch kind {
	case "panic":
		if m.jobPos >= len(m.job) {
			m.ensureModel()
			e.addViolation(m, "panic", "uncaught panic: "+strings.SplitN(end.msg, " at ", 2)[0], "", m.model, end.msg)
		}
	case "stack":
		m.ensureModel()
		e.addViolation(m, "panic", "unbounded recursion", "", m.model, end.msg)
	case "deadlock":
		m.ensureModel()
		e.addViolation(m, "hang", "deadlock: "+strings.SplitN(end.msg, " < ", 2)[0], "", m.model, end.msg)
	case "steps":
		if e.cfg.Hang {
			m.ensureModel()
			e.addViolation(m, "hang", "step bound exceeded (possible non-termination)", "", m.model, end.msg)
		}
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	e.ends[kind]++
	if kind != "ok" && kind != "assume" {
		if _, ok := e.endEx[kind+": "+end.msg]; !ok && len(e.endEx) < 40 {
			e.endEx[kind+": "+end.msg] = ""
		}
	}
	if len(m.decs) > e.maxDepth {
		e.maxDepth = len(m.decs)
	}
	if kind == "ok" {
		e.decided++
		for _, ev := range m.events {
			e.reach[ev.id]++
		}
		// reservoir sample
		const K = 16
		e.nSample++
		slot := -1
		if len(e.samples) < K {
			e.samples = append(e.samples, Case{})
			slot = len(e.samples) - 1
		} else if j := e.rng.Int63n(e.nSample); j < K {
			slot = int(j)
		}
		if slot >= 0 {
			md := m.model
			if md == nil {
				if m.sol.Check() == rSat {
					md = m.sol.GetModel(m.vars)
				}
			}
			if md != nil {
				e.samples[slot] = Case{Harness: e.cfg.Fn, Params: e.params, Inputs: m.inputVals(md), Obs: m.obsStrings(md)}
			}
		}
	}
}

func (e *Explorer) take() ([]Decision, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.doneFlag || e.timedOut {
			return nil, false
		}
		if len(e.queue) > 0 {
			j := e.queue[0]
			e.queue = e.queue[1:]
			return j, true
		}
		e.idle++
		if e.idle == e.workers {
			e.doneFlag = true
			e.cond.Broadcast()
			return nil, false
		}
		e.cond.Wait()
		e.idle--
	}
}

// share gives away the oldest unexplored alternative when others are idle.
func (e *Explorer) share(m *VM) {
	if e.idle == 0 || len(e.queue) >= e.idle {
		return
	}
	for _, cp := range m.cps {
		if !cp.done {
			j := append([]Decision(nil), m.decs[:cp.decLen]...)
			j = append(j, Decision{cp.altTaken, cp.altVal})
			cp.done = true
			e.mu.Lock()
			e.queue = append(e.queue, j)
			e.cond.Signal()
			e.mu.Unlock()
			return
		}
	}
}

func (e *Explorer) worker(id int) {
	m := newVM(e.ld)
	m.ex = e
	t0 := time.Now()
	m.sol = newSolver()
	defer m.sol.close()
	if err := m.bootstrap(); err != nil {
		if id == 0 && !strings.Contains(err.Error(), "unsupported") && !strings.Contains(err.Error(), "has no body") {
			// the code under test fails before the first symbolic input
			v := &Viol{kind: "panic", c: Case{Harness: e.cfg.Fn, Params: e.params, Message: "the code under test fails while the harness is set up: " + err.Error()}}
			e.mu.Lock()
			e.viols = append(e.viols, v)
			e.mu.Unlock()
			if e.confirm != nil {
				e.confirm(v)
			}
		}
		e.mu.Lock()
		e.ends["bootstrap-failed"]++
		e.endEx["bootstrap: "+err.Error()] = ""
		e.doneFlag = true
		e.cond.Broadcast()
		e.mu.Unlock()
		return
	}
	e.mu.Lock()
	if d := time.Since(t0); d > e.initT {
		e.initT = d
	}
	e.mu.Unlock()
	m.maxSteps = e.cfg.MaxSteps
	if m.maxSteps == 0 {
		m.maxSteps = 5_000_000
	}
	m.mapOrder = e.cfg.MapOrder
	hf := m.getFunc(e.ld.h.Func(e.cfg.Fn))
	m.ensure(hf)
	m.trailing = true
	for {
		job, ok := e.take()
		if !ok {
			break
		}
		m.stats.Jobs++
		m.job, m.jobPos = job, 0
		m.pc, m.vars, m.inputs, m.obs, m.events, m.decs = nil, nil, nil, nil, nil, nil
		m.cps = nil
		m.topSeq = -1
		m.steps = 0
		m.model = nil
		m.opRedo = nil
		m.opRedoPos = 0
		base := len(m.trail)
		m.sol.Push()
		m.fr = nil
		m.par, m.pendingYield = nil, 0
		m.pushFrame(hf, nil, nil, -1)
		for {
			end := m.run()
			if end.kind == "timeout" {
				e.mu.Lock()
				if !e.doneFlag {
					e.timedOut = true
				}
				e.cond.Broadcast()
				e.mu.Unlock()
				break
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if pe, ok := r.(pathEnd); ok {
							e.mu.Lock()
							e.ends["end-"+pe.kind]++
							e.mu.Unlock()
							return
						}
						panic(r)
					}
				}()
				e.pathDone(m, end)
			}()
			if e.doneFlag || e.timedOut {
				break
			}
			e.share(m)
			if !m.backtrack() {
				break
			}
		}
		for len(m.cps) > 0 {
			m.cps = m.cps[:len(m.cps)-1]
			m.sol.Pop()
		}
		m.sol.Pop()
		m.unwindTrail(base)
		if len(m.tf.tab) > 2_000_000 {
			m.resetTerms()
		}
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	s := &e.stats
	s.Paths += m.stats.Paths
	s.Decisions += m.stats.Decisions
	s.Forks += m.stats.Forks
	s.ChecksSym += m.stats.ChecksSym
	s.ChecksConc += m.stats.ChecksConc
	s.ChecksUnknown += m.stats.ChecksUnknown
	s.Steps += m.stats.Steps
	s.Jobs += m.stats.Jobs
	e.solver.q += m.sol.Queries
	e.solver.sat += m.sol.Sat
	e.solver.unsat += m.sol.Unsat
	e.solver.unk += m.sol.Unknown
	e.solver.t += m.sol.Time
	for fn := range m.covered {
		if fn.Pkg != nil || fn.Origin() != nil {
			e.covered[fn.String()] = true
		} else {
			e.covered[fn.String()] = true
		}
	}
}

func (m *VM) resetTerms() {
	// terms are only referenced from path state, which is empty between jobs
	tr, fa := m.tf.True, m.tf.False
	n := m.tf.n
	m.tf.tab = map[tkey]*Term{}
	m.tf.tab[tkey{OConst, 0, nil, nil, nil, 1}] = tr
	m.tf.tab[tkey{OConst, 0, nil, nil, nil, 0}] = fa
	m.tf.n = n
}

func (m *VM) callTop(f *Func) error {
	m.ensure(f)
	m.fr = nil
	if f.intr != nil {
		return fmt.Errorf("%s has no body", f.name)
	}
	m.pushFrame(f, nil, nil, -1)
	end := m.run()
	if end.kind != "ok" {
		return fmt.Errorf("%s: %s %s", f.name, end.kind, end.msg)
	}
	return nil
}

func (m *VM) bootstrap() error {
	m.maxSteps = 1 << 40
	if err := m.callTop(m.getFunc(m.ld.h.Func("init"))); err != nil {
		return err
	}
	if err := m.callTop(m.getFunc(m.ld.models.Func("init"))); err != nil {
		return err
	}
	setup := "Setup_" + strings.TrimPrefix(m.ex.cfg.Fn, "H_")
	if f := m.ld.h.Func(setup); f != nil {
		if err := m.callTop(m.getFunc(f)); err != nil {
			return err
		}
	}
	m.steps = 0
	return nil
}

func (e *Explorer) run(workers int, budget time.Duration) {
	e.cond = sync.NewCond(&e.mu)
	e.workers = workers
	e.violMsgs = map[string]int{}
	e.reach = map[string]int64{}
	e.ends = map[string]int64{}
	e.endEx = map[string]string{}
	e.covered = map[string]bool{}
	e.rng = rand.New(rand.NewSource(e.seed))
	e.queue = [][]Decision{nil}
	e.end = time.Now().Add(budget)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			e.worker(i)
		}(i)
	}
	wg.Wait()
	e.wg.Wait()
}

// ---- native replay

type Native struct {
	bin  string
	err  error
	once sync.Once
	dir  string
	open []string

	threads bool // the locks of the code under test are those of the scheduler
	raceBin string
	raceErr error
	race    sync.Once
}

func (n *Native) compile(out string, flags ...string) error {
	ovf := filepath.Join(n.dir, "overlay.json")
	if err := writeOverlay(ovf, n.threads); err != nil {
		return err
	}
	args := append([]string{"build"}, flags...)
	cmd := exec.Command("/opt/veriftools/go1.23.12/bin/go", append(args, "-overlay", ovf, "-o", out, "./zz_verif/cmd")...)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	if len(flags) > 0 {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("native build: %v\n%s", err, out)
	}
	return nil
}

// races says whether the race detector reports a race in the native run of a case.
func (n *Native) races(c Case) (bool, string) {
	n.race.Do(func() {
		n.raceBin = filepath.Join(n.dir, "native_race")
		n.raceErr = n.compile(n.raceBin, "-race")
	})
	if n.raceErr != nil {
		return false, n.raceErr.Error()
	}
	f := filepath.Join(n.dir, "race.json")
	c.Open, c.Threads = n.open, n.threads
	b, _ := json.Marshal(c)
	os.WriteFile(f, b, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, n.raceBin, f)
	cmd.Dir = n.dir
	out, _ := cmd.CombinedOutput()
	return strings.Contains(string(out), "WARNING: DATA RACE"), string(out)
}

func (n *Native) build() error {
	n.once.Do(func() {
		n.bin = filepath.Join(n.dir, "native")
		n.err = n.compile(n.bin)
	})
	return n.err
}

type natResult struct {
	obs     []string
	known   []string
	verdict string // ok, violation, panic, assume, hang, error
	msg     string
	raw     string
}

func (n *Native) exec(c Case) natResult {
	if err := n.build(); err != nil {
		return natResult{verdict: "error", msg: err.Error()}
	}
	f, err := os.CreateTemp(n.dir, "case*.json")
	if err != nil {
		return natResult{verdict: "error", msg: err.Error()}
	}
	c.Open, c.Threads = n.open, n.threads
	b, _ := json.Marshal(c)
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	cmd := exec.Command(n.bin, f.Name())
	cmd.Dir = n.dir
	var sb strings.Builder
	cmd.Stdout = &sb
	cmd.Stderr = &sb
	if err := cmd.Start(); err != nil {
		return natResult{verdict: "error", msg: err.Error()}
	}
	doneC := make(chan error, 1)
	go func() { doneC <- cmd.Wait() }()
	var r natResult
	select {
	case <-doneC:
	case <-time.After(20 * time.Second):
		cmd.Process.Kill()
		<-doneC
		r.verdict = "hang"
	}
	r.raw = sb.String()
	for _, l := range strings.Split(r.raw, "\n") {
		switch {
		case strings.HasPrefix(l, "OBS "):
			r.obs = append(r.obs, l[4:])
		case strings.HasPrefix(l, "KNOWN "):
			r.known = append(r.known, l[6:])
		case strings.HasPrefix(l, "VERDICT "):
			p := strings.SplitN(l[8:], " ", 2)
			if r.verdict == "" {
				r.verdict = p[0]
				if len(p) > 1 {
					r.msg = p[1]
				}
			}
		case strings.Contains(l, "all goroutines are asleep"):
			r.verdict = "hang"
		case strings.Contains(l, "fatal error: stack overflow"), strings.Contains(l, "goroutine stack exceeds"):
			r.verdict = "panic"
			r.msg = "stack overflow"
		}
	}
	if r.verdict == "" {
		r.verdict = "error"
		r.msg = "no verdict"
	}
	return r
}

// confirmed: the native run violates too.
func (n *Native) confirms(v *Viol, attempts int) bool {
	v.c.Threads = n.threads
	if strings.HasPrefix(v.c.Message, "data race") {
		ok, out := n.races(v.c)
		if len(out) > 4000 {
			out = out[:4000]
		}
		v.out = out
		return ok
	}
	for i := 0; i < attempts; i++ {
		r := n.exec(v.c)
		v.out = r.raw
		if v.c.Known != "" {
			for _, k := range r.known {
				if k == v.c.Known {
					return true
				}
			}
		}
		if len(v.out) > 4000 {
			v.out = v.out[:4000]
		}
		switch r.verdict {
		case "violation", "panic", "hang":
			if v.c.Known == "" {
				return true
			}
		case "error":
			return false
		}
	}
	return false
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
