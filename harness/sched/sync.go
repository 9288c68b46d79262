//go:build go1.22

package sched

import (
	"runtime"
	"unsafe"
)

// Mutex is a controlled sync.Mutex.
type Mutex struct {
	locked bool
	tag    byte
}

// Lock locks.
//
//go:norace
func (m *Mutex) Lock() {
	e := active
	if e != nil && !e.dead {
		e.reschedule()

		for m.locked {
			e.block(func() bool { return m.locked })
		}
	}

	m.locked = true
	runtime.RaceAcquire(unsafe.Pointer(&m.tag))
}

// TryLock locks if it is not locked.
//
//go:norace
func (m *Mutex) TryLock() bool {
	Point()

	if m.locked {
		return false
	}

	m.locked = true
	runtime.RaceAcquire(unsafe.Pointer(&m.tag))

	return true
}

// Unlock unlocks.
//
//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("unlock of unlocked mutex")
	}

	runtime.RaceRelease(unsafe.Pointer(&m.tag))
	m.locked = false
	Point()
}

// RWMutex is a controlled sync.RWMutex.
type RWMutex struct {
	writer  bool
	readers int
	wtag    byte
	rtag    byte
}

// Lock locks for writing.
//
//go:norace
func (m *RWMutex) Lock() {
	e := active
	if e != nil && !e.dead {
		e.reschedule()

		for m.writer || m.readers > 0 {
			e.block(func() bool { return m.writer || m.readers > 0 })
		}
	}

	m.writer = true
	runtime.RaceAcquire(unsafe.Pointer(&m.wtag))
	runtime.RaceAcquire(unsafe.Pointer(&m.rtag))
}

// Unlock unlocks.
//
//go:norace
func (m *RWMutex) Unlock() {
	if !m.writer {
		panic("unlock of unlocked mutex")
	}

	runtime.RaceRelease(unsafe.Pointer(&m.wtag))
	m.writer = false
	Point()
}

// RLock locks for reading.
//
//go:norace
func (m *RWMutex) RLock() {
	e := active
	if e != nil && !e.dead {
		e.reschedule()

		for m.writer {
			e.block(func() bool { return m.writer })
		}
	}

	m.readers++
	runtime.RaceAcquire(unsafe.Pointer(&m.wtag))
}

// RUnlock unlocks.
//
//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers < 1 {
		panic("runlock of unlocked mutex")
	}

	runtime.RaceReleaseMerge(unsafe.Pointer(&m.rtag))
	m.readers--
	Point()
}

// RLocker is a locker of the reading side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is a controlled sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f once.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()

	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
