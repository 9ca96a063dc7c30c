package simrt

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sort"
)

// ---- goroutine starts ----

// GoR starts f(args...) as a simulated task.
func GoR(f any, args ...any) {
	if g, ok := f.(func()); ok && len(args) == 0 {
		GoFunc(g)
		return
	}
	goReflect(f, args, false)
}

// GoRV is GoR for a call with a final "..." argument.
func GoRV(f any, args ...any) { goReflect(f, args, true) }

func goReflect(f any, args []any, spread bool) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var want reflect.Type
		switch {
		case ft.IsVariadic() && !spread && i >= ft.NumIn()-1:
			want = ft.In(ft.NumIn() - 1).Elem()
		default:
			want = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(want)
			continue
		}
		v := reflect.ValueOf(a)
		if !v.Type().AssignableTo(want) && v.Type().ConvertibleTo(want) {
			v = v.Convert(want)
		}
		in[i] = v
	}
	GoFunc(func() {
		if spread {
			fv.CallSlice(in)
		} else {
			fv.Call(in)
		}
	})
}

// ---- process exit ----

// Exit ends the simulated process.
func Exit(code int) {
	if !active {
		panic(fmt.Sprintf("simrt: os.Exit(%d) outside a simulated run", code))
	}
	s := S
	s.exited = true
	s.ExitCode = code
	s.abort("exit")
	runtime.Goexit()
}

// LastFatal is the text of the last log.Fatal in the run.
var LastFatal string

func Fatal(a ...any) {
	LastFatal = fmt.Sprint(a...)
	Exit(1)
}
func Fatalf(f string, a ...any) {
	LastFatal = fmt.Sprintf(f, a...)
	Exit(1)
}
func Fatalln(a ...any) {
	LastFatal = fmt.Sprintln(a...)
	Exit(1)
}

// ---- process restart ----

type reset struct {
	pkg string
	f   func()
}

var resets []reset

// RegisterReset is called by every instrumented package's initialisation, in
// dependency order.
func RegisterReset(pkg string, f func()) { resets = append(resets, reset{pkg, f}) }

// Restart re-initialises all package state of the code under test, as a new
// process would, iterating maps in an order decided by seed. A failure to
// start is returned as the panic value.
func Restart(seed uint64) (err error) {
	if active {
		panic("simrt: restart during a run")
	}
	endProcess()
	mapRng.Seed(Mix2(seed, 0x3a90))
	mapOn = true
	defer func() {
		if v := recover(); v != nil {
			err = fmt.Errorf("start-up panic: %v", v)
		}
	}()
	seqN = 0
	simProcs = simCPU
	for _, r := range resets {
		r.f()
	}
	return nil
}

// ResetPackages lists the packages that Restart re-initialises.
func ResetPackages() []string {
	var s []string
	for _, r := range resets {
		s = append(s, r.pkg)
	}
	return s
}

// Zero clears a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// ---- map iteration ----

var (
	mapRng  Rand
	mapOn   bool
	MapIter int // map iterations whose order the simulator decided
)

func perm(n int) []int {
	MapIter++
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if !mapOn {
		return p
	}
	for i := n - 1; i > 0; i-- {
		j := mapRng.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// RangeMap iterates over a map in an order decided by the simulator.
func RangeMap[M ~map[K]V, K comparable, V any](m M) func(yield func(K, V) bool) {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sortAny(keys)
		for _, i := range perm(len(keys)) {
			v, ok := m[keys[i]]
			if !ok {
				continue
			}
			if !yield(keys[i], v) {
				return
			}
		}
	}
}

func sortAny[K any](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	case []uint32:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		return
	}
	s := make([]string, len(keys))
	ix := make([]int, len(keys))
	for i := range keys {
		s[i] = fmt.Sprintf("%#v", keys[i])
		ix[i] = i
	}
	sort.Slice(ix, func(i, j int) bool { return s[ix[i]] < s[ix[j]] })
	o := append([]K(nil), keys...)
	for i := range ix {
		keys[i] = o[ix[i]]
	}
}

// Debugf writes to standard error when VERIF_DEBUG is set.
func Debugf(f string, a ...any) {
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
