// Package vs schedules goroutines cooperatively: one runs at a time, and a
// task gives way only at a scheduling point it was told to stop at.
package vs

import (
	"context"
	"fmt"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

// A task's goroutine is known by its profiler labels, which are its own.
//
//go:linkname labels runtime/pprof.runtime_getProfLabel
func labels() unsafe.Pointer

var (
	active atomic.Int64
	ids    atomic.Int64
	tasks  sync.Map // labels -> *Task
)

// Task is a scheduled goroutine.
type Task struct {
	n, until int // scheduling points passed; where to stop
	resume   chan struct{}
	event    chan bool // true: finished
	done     bool
	running  bool
	marks    bool // stop at marks
	Panic    string
}

// Go makes a task that waits to be run.
func Go(f func()) *Task {
	t := &Task{resume: make(chan struct{}), event: make(chan bool, 1)}
	active.Add(1)
	go func() {
		pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("task", strconv.FormatInt(ids.Add(1), 10))))
		g := labels()
		tasks.Store(g, t)
		defer func() {
			if r := recover(); r != nil {
				t.Panic = fmt.Sprint(r, "\n", string(debug.Stack()))
			}
			tasks.Delete(g)
			active.Add(-1)
			t.event <- true
		}()
		<-t.resume
		f()
	}()
	return t
}

// Run lets the task run to the given point (0: to its end, -1: to the next
// mark).  It returns false if the task did not get there in time, because it
// waits for something.
func (t *Task) Run(until int) bool {
	if t.done {
		return true
	}
	if !t.running {
		t.until, t.marks = until, until < 0
		t.running = true
		t.resume <- struct{}{}
	}
	// A task that does not get there waits for a lock, say.  It takes long to be
	// sure of it; once tasks are known to wait for each other, less will do.
	d := 3 * time.Second
	if late.Load() > 4 {
		d = 30 * time.Millisecond
	}
	ok := t.Wait(d)
	if !ok {
		late.Add(1)
	}
	return ok
}

var late atomic.Int64 // how often a task did not get to its point

// Late says whether tasks had to wait for each other.
func Late() bool { return late.Load() > 0 }

// Wait waits for the task to stop.
func (t *Task) Wait(d time.Duration) bool {
	if t.done || !t.running {
		return true
	}
	select {
	case t.done = <-t.event:
		t.running = false
		return true
	default:
	}
	tm := time.NewTimer(d)
	defer tm.Stop()
	select {
	case t.done = <-t.event:
		t.running = false
		return true
	case <-tm.C:
		return false
	}
}

// Finish lets all tasks run to their ends; false if some cannot.
func Finish(ts ...*Task) bool {
	for begin := time.Now(); time.Since(begin) < 30*time.Second; {
		all := true
		for _, t := range ts {
			t.Run(0)
			all = all && t.done
		}
		if all {
			return true
		}
	}
	return false
}

// Done says whether the task has finished.
func (t *Task) Done() bool { return t.done }

// N is the number of scheduling points passed.
func (t *Task) N() int { return t.n }

func self() *Task {
	if active.Load() == 0 {
		return nil
	}
	v, ok := tasks.Load(labels())
	if !ok {
		return nil
	}
	return v.(*Task)
}

func (t *Task) stop() {
	t.event <- false
	<-t.resume
}

// meter counts the steps of a goroutine.  Its labels are a meter, which begins
// as an empty set of labels does.
type meter struct {
	none     []struct{ k, v string }
	n, limit int
}

var metering atomic.Bool

//go:linkname setLabels runtime/pprof.runtime_setProfLabel
func setLabels(unsafe.Pointer)

// TooLong is what a metered function panics with.
const TooLong = "takes too many steps"

// Meter runs the function and counts the scheduling points it passes; beyond
// the limit, it panics.  Not to be used together with tasks.
func Meter(limit int, f func()) int {
	m := &meter{limit: limit}
	metering.Store(true)
	setLabels(unsafe.Pointer(m))
	defer setLabels(nil)
	f()
	return m.n
}

// P is a scheduling point.
func P() {
	if metering.Load() {
		if m := (*meter)(labels()); m != nil {
			if m.n++; m.n > m.limit {
				panic(TooLong)
			}
		}
		return
	}
	if t := self(); t != nil {
		t.n++
		if t.n == t.until {
			t.stop()
		}
	}
}

// Mark is a scheduling point at the boundary of the library.
func Mark() {
	if t := self(); t != nil && t.marks {
		t.stop()
	}
}
