package simrt

import (
	"reflect"
	"runtime"
	"sort"
	"sync"
	"unsafe"
)

// Finalizers of the code under test run as background tasks, but only after
// collections that the scenario asks for (Collect): when the real collector
// happens to run has no effect. What is unreachable at a Collect does not
// depend on it.

type finItem struct {
	id, life int
	obj      any
	f        reflect.Value
}

var (
	finMu   sync.Mutex
	finQ    []finItem
	finN    int
	finLife int
	finUsed bool
	finSync uint64
)

// SetFinalizer replaces runtime.SetFinalizer.
func SetFinalizer(obj, f any) {
	runtime.SetFinalizer(obj, nil)
	if f == nil {
		return
	}
	v := reflect.ValueOf(f)
	if v.Kind() != reflect.Func || v.Type().NumIn() != 1 || !reflect.TypeOf(obj).AssignableTo(v.Type().In(0)) {
		panic("runtime.SetFinalizer: cannot pass " + reflect.TypeOf(obj).String() + " to finalizer")
	}
	RaceRelease(unsafe.Pointer(&finSync))
	finUsed = true
	finN++
	id, life := finN, finLife
	runtime.SetFinalizer(obj, func(o any) {
		finMu.Lock()
		if life == finLife {
			finQ = append(finQ, finItem{id, life, o, v})
		}
		finMu.Unlock()
	})
}

// GC replaces runtime.GC.
func GC() { Collect() }

type sentinel struct{ p *int }

// Collect collects garbage and starts the finalizers of what was found.
func Collect() {
	if !finUsed || tearing {
		return
	}
	for i := 0; i < 2; i++ {
		done := make(chan struct{})
		runtime.SetFinalizer(&sentinel{new(int)}, func(*sentinel) { close(done) })
		runtime.GC()
		<-done
	}
	finMu.Lock()
	q := finQ
	finQ = nil
	finMu.Unlock()
	if len(q) == 0 {
		return
	}
	sort.Slice(q, func(i, j int) bool { return q[i].id < q[j].id })
	GoFunc(func() {
		RaceAcquire(unsafe.Pointer(&finSync))
		for _, x := range q {
			x.f.Call([]reflect.Value{reflect.ValueOf(x.obj)})
		}
	})
}

func endFinalizers() {
	finMu.Lock()
	finQ = nil
	finLife++
	finMu.Unlock()
	finUsed = false
}
