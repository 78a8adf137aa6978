// Package simrt is what the instrumented code under test calls.  With no
// simulation running every function behaves like the original construct.
package simrt

import (
	"os"
	"reflect"
	"sync"
	"time"
	"unsafe"
)

// Hooks is set by the simulator.  All nil outside a simulation.
type Hooks struct {
	// Yield is called before every statement of the code under test.
	Yield func(site int)
	// Spawn is called in the parent when the code under test starts a goroutine;
	// the returned function is run in the new goroutine and calls body.
	Spawn func(body func())
	// Offset is the difference between the simulated wall clock of the process
	// under test and the bubble's clock.
	Offset func() time.Duration
	Exit   func(code int)
	// Mid is called between the reading and the writing of a shared variable.
	Mid func(site int)
	// Map is called before an access to a map.
	Map func(site int, m uintptr, write bool)
}

// H is the active hook table.
var H Hooks

// Sites maps site numbers to file:line, for reports only.
var Sites []string

//go:noescape
func rtSeed(on bool, seed uint64)
func goid() uint64

//go:noescape
func rtBury(ids []uint64)

// Bury marks goroutines of a process that is gone: a mutex that is released
// later does not wake them.
func Bury(ids []uint64) {
	if len(ids) > 0 {
		rtBury(ids)
	}
}

// Seed makes select order, map order and random numbers inside the bubble a
// function of seed.
func Seed(on bool, seed uint64) { rtSeed(on, seed) }

// Goid identifies the calling goroutine.
func Goid() uint64 { return goid() }

// Yield is a scheduling point.
func Yield(site int) {
	if f := H.Yield; f != nil {
		f(site)
	}
}

// Mid is a scheduling point between the reading and the writing of a variable.
func Mid(site int) {
	if f := H.Mid; f != nil {
		f(site)
	}
}

// Go starts fn(args...) in a new goroutine.
func Go(ellipsis bool, fn interface{}, args ...interface{}) {
	v := reflect.ValueOf(fn)
	t := v.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		switch {
		case t.IsVariadic() && i >= t.NumIn()-1 && !ellipsis:
			pt = t.In(t.NumIn() - 1).Elem()
		default:
			pt = t.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
			continue
		}
		av := reflect.ValueOf(a)
		if !av.Type().AssignableTo(pt) {
			av = av.Convert(pt)
		}
		in[i] = av
	}
	body := func() {
		if ellipsis {
			v.CallSlice(in)
		} else {
			v.Call(in)
		}
	}
	if f := H.Spawn; f != nil {
		f(body)
		return
	}
	go body()
}

type rawTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const hasMono = 1 << 63

// HasMonotonic reports whether t carries a monotonic reading.
func HasMonotonic(t time.Time) bool { return (*rawTime)(unsafe.Pointer(&t)).wall&hasMono != 0 }

// Now is the wall clock of the process under test.  A clock step moves the wall
// reading and leaves the monotonic reading alone, as in a real process.
func Now() time.Time {
	t := time.Now()
	f := H.Offset
	if f == nil {
		return t
	}
	off := f()
	if !HasMonotonic(t) {
		return t.Add(off)
	}
	mono := (*rawTime)(unsafe.Pointer(&t)).ext
	t = t.Add(off)
	if HasMonotonic(t) {
		(*rawTime)(unsafe.Pointer(&t)).ext = mono
	}
	return t
}

//go:linkname startNano time.startNano
var startNano int64

func init() {
	// the bubble's epoch, so that monotonic readings are the same in every process
	startNano = 946684800*1e9 - 1
}

// Since is time.Since on the wall clock of the process under test.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until on the wall clock of the process under test.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Exit is os.Exit of the process under test.
func Exit(code int) {
	if f := H.Exit; f != nil {
		f(code)
	}
	os.Exit(code)
}

// RegisterReset is called by instrumented packages with a function that puts
// package-level variables back to their initial values.
func RegisterReset(pkg string, f func()) {
	p := image(pkg)
	p.vars = append(p.vars, f)
}

// RegisterInit is called with what were the packages' init functions; they run
// when a simulated process starts.
func RegisterInit(pkg string, f func()) {
	p := image(pkg)
	p.inits = append(p.inits, f)
}

type pkgImage struct {
	path        string
	vars, inits []func()
}

func image(path string) *pkgImage {
	for _, p := range images {
		if p.path == path {
			return p
		}
	}
	p := &pkgImage{path: path}
	images = append(images, p)
	return p
}

var images []*pkgImage

// ResetGlobals makes the code under test look freshly started.
func ResetGlobals() {
	sync.SimEpoch++
	for _, p := range images {
		for _, f := range p.vars {
			f()
		}
		for _, f := range p.inits {
			f()
		}
	}
}

// MapR and MapW announce that a map is about to be read or written.
func MapR[M ~map[K]V, K comparable, V any](site int, m M) M {
	if f := H.Map; f != nil && m != nil {
		f(site, *(*uintptr)(unsafe.Pointer(&m)), false)
	}
	return m
}

func MapW[M ~map[K]V, K comparable, V any](site int, m M) M {
	if f := H.Map; f != nil && m != nil {
		f(site, *(*uintptr)(unsafe.Pointer(&m)), true)
	}
	return m
}
