package nd

// Threads of the code under test. Symbolically Par is intercepted; natively the
// schedule is replayed: a thread goes on until it acquires a lock of package zsync.

// LockSt is the state of a lock while threads run.
type LockSt struct {
	owner   int
	n       int
	readers [2]int
}

type parThread struct {
	done    bool
	armed   bool
	blocked *LockSt
	read    bool
	wake    chan struct{}
	end     chan struct{}
}

type parRun struct {
	th       [2]parThread
	cur      int
	max      int
	switches int
	started  bool
}

var par *parRun

// Par runs two threads; a thread that could go on is interrupted at most max times.
func Par(max int, f, g func()) {
	p := &parRun{max: max}
	for i := range p.th {
		p.th[i].wake = make(chan struct{}, 1)
		p.th[i].end = make(chan struct{})
	}
	par = p
	for i, fn := range []func(){f, g} {
		go thread(p, i, fn)
	}
	parStart(p)
	<-p.th[0].end
	<-p.th[1].end
	par = nil
}

//go:norace
func thread(p *parRun, i int, fn func()) {
	raceDisable()
	<-p.th[i].wake
	raceEnable()
	runThread(fn)
	threadEnd(p, i)
	close(p.th[i].end)
}

func runThread(fn func()) {
	defer func() {
		if r := recover(); r != nil {
			Panicked(r)
		}
	}()
	fn()
}

//go:norace
func parStart(p *parRun) {
	i := 0
	if schedBool() {
		i = 1
	}
	p.started = true
	p.cur = i
	p.th[i].armed = true
	raceDisable()
	p.th[i].wake <- struct{}{}
	raceEnable()
}

//go:norace
func threadEnd(p *parRun, i int) {
	p.th[i].done = true
	if p.th[1-i].done {
		return
	}
	if !parRunnable(p, 1-i) {
		verdict("hang a thread waits for a lock that is never released")
	}
	parSwitch(p, 1-i)
}

//go:norace
func parSwitch(p *parRun, i int) {
	p.cur = i
	p.th[i].armed = true
	p.th[i].blocked = nil
	raceDisable()
	p.th[i].wake <- struct{}{}
	raceEnable()
}

//go:norace
func parFree(l *LockSt, read bool) bool {
	return l.owner == 0 && (read || l.readers[0] == 0 && l.readers[1] == 0)
}

//go:norace
func parRunnable(p *parRun, i int) bool {
	t := &p.th[i]
	return !t.done && (t.blocked == nil || parFree(t.blocked, t.read))
}

//go:norace
func parYield(p *parRun, i int) {
	me, other := parRunnable(p, i), parRunnable(p, 1-i)
	change := !me
	switch {
	case !me && !other:
		verdict("hang threads wait for each other")
	case me && other && p.switches < p.max:
		if schedBool() {
			change = true
			p.switches++
		}
	}
	if !change {
		p.th[i].armed = true
		p.th[i].blocked = nil
		return
	}
	parSwitch(p, 1-i)
	raceDisable()
	<-p.th[i].wake
	raceEnable()
}

//go:norace
func schedBool() bool {
	if pos >= len(cur.Inputs) {
		pos++
		return false
	}
	v := &cur.Inputs[pos]
	pos++
	if v.Name != "sched" {
		verdict("error input sched expected, case has " + v.Name)
	}
	return v.Val == "true"
}

// Acquire waits for a lock; false when it is held already by its thread.
//
//go:norace
func Acquire(l *LockSt, read, recursive bool) bool {
	p := par
	if p == nil {
		return !recursive
	}
	i := p.cur
	if recursive && l.owner == i+1 {
		l.n++
		return false
	}
	if !p.th[i].armed {
		parYield(p, i)
	}
	for {
		p.th[i].armed = false
		if parFree(l, read) {
			break
		}
		if l.owner == i+1 || l.readers[i] > 0 {
			verdict("hang lock of a held mutex")
		}
		p.th[i].blocked, p.th[i].read = l, read
		parYield(p, i)
	}
	if read {
		l.readers[i]++
	} else {
		l.owner, l.n = i+1, 1
	}
	return true
}

// Release gives a lock back; false when its thread still holds it.
//
//go:norace
func Release(l *LockSt, read, recursive bool) bool {
	p := par
	if p == nil {
		return !recursive
	}
	i := p.cur
	if read {
		if l.readers[i] == 0 {
			verdict("panic fatal error: sync: RUnlock of unlocked RWMutex")
		}
		l.readers[i]--
		return true
	}
	if l.owner != i+1 {
		verdict("panic fatal error: sync: unlock of unlocked mutex")
	}
	if l.n--; l.n > 0 {
		return false
	}
	l.owner = 0
	return true
}
