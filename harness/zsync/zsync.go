// Package zsync takes the place of sync and rmx in native runs with threads.
package zsync

import (
	"sync"

	"github.com/masagroup/soft.go/zz_verif/nd"
)

type (
	Once      = sync.Once
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Map       = sync.Map
	Locker    = sync.Locker
	Cond      = sync.Cond
)

type Mutex struct {
	mu sync.Mutex
	st nd.LockSt
}

func (m *Mutex) Lock() {
	nd.Acquire(&m.st, false, false)
	m.mu.Lock()
}

func (m *Mutex) Unlock() {
	nd.Release(&m.st, false, false)
	m.mu.Unlock()
}

type RWMutex struct {
	mu sync.RWMutex
	st nd.LockSt
}

func (m *RWMutex) Lock() {
	nd.Acquire(&m.st, false, false)
	m.mu.Lock()
}

func (m *RWMutex) Unlock() {
	nd.Release(&m.st, false, false)
	m.mu.Unlock()
}

func (m *RWMutex) RLock() {
	nd.Acquire(&m.st, true, false)
	m.mu.RLock()
}

func (m *RWMutex) RUnlock() {
	nd.Release(&m.st, true, false)
	m.mu.RUnlock()
}

// RecursiveMutex takes the place of that of rmx.
type RecursiveMutex struct {
	mu sync.Mutex
	st nd.LockSt
}

func (m *RecursiveMutex) Lock() {
	if nd.Acquire(&m.st, false, true) {
		m.mu.Lock()
	}
}

func (m *RecursiveMutex) Unlock() {
	if nd.Release(&m.st, false, true) {
		m.mu.Unlock()
	}
}
