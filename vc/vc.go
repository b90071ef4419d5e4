//go:build go1.21

// Package vc is the specification vocabulary used by the contracts under
// /verif/contracts.  The verifier (gocv) gives every function here a logical
// meaning; the bodies below are the executable meaning used when a contract is
// replayed against the real code.
package vc

import (
	"fmt"
	"reflect"
	"sync"
	"time"
	"unsafe"
)

type skipT struct{ why string }
type failT struct{ name string }

// Requires states a precondition of the contract's target.
func Requires(f func() bool) {
	if !f() {
		panic(skipT{})
	}
	snapshot()
}

// Assume restricts a lemma to the states of interest.
func Assume(f func() bool) {
	if !f() {
		panic(skipT{})
	}
	snapshot()
}

// Ensures states a named postcondition.
func Ensures(name string, f func() bool) {
	checkFrame()
	if !f() {
		panic(failT{name})
	}
}

// Assert states a named obligation of a lemma.
func Assert(name string, f func() bool) {
	if !f() {
		panic(failT{name})
	}
}

// Invariant offers a loop invariant template: f's parameters are holes the verifier
// instantiates, by type, with the loop variables and values in scope.
func Invariant(name string, f any) {}

// Modifies lists the locations (pointers) the target may change; everything else must stay as it was.
func Modifies(p ...any) {
	if cur == nil {
		return
	}
	for _, x := range p {
		v := reflect.ValueOf(x)
		if v.Kind() == reflect.Ptr && !v.IsNil() {
			cur.allow(v.Pointer(), v.Elem().Type().Size())
			if v.Elem().Kind() == reflect.Map && !v.Elem().IsNil() {
				// assignments through the map variable are listed separately
			}
		}
	}
	snapshot()
}

// ModifiesElems allows changes to the elements of the backing arrays of slices and to maps.
func ModifiesElems(s ...any) {
	if cur == nil {
		return
	}
	for _, x := range s {
		v := reflect.ValueOf(x)
		switch v.Kind() {
		case reflect.Slice:
			if v.Cap() > 0 {
				cur.allow(v.Pointer(), v.Type().Elem().Size()*uintptr(v.Cap()))
			}
		case reflect.Map:
			if !v.IsNil() {
				cur.maps[v.Pointer()] = true
			}
		case reflect.Ptr:
			if !v.IsNil() {
				cur.allow(v.Pointer(), v.Elem().Type().Size())
			}
		}
	}
	snapshot()
}

// ModifiesAnything switches the frame condition off for this contract.
func ModifiesAnything() {
	if cur != nil {
		cur.noframe = true
	}
}

// Fresh reports that the value's storage was allocated after the precondition (symbolic only).
func Fresh(x any) bool { return true }

// Guarded declares that the storage reachable through owned may be read only while mu is held and
// written only while mu is held exclusively (symbolic only).
func Guarded(mu any, owned ...any) {}

// Unlocked reports that the mutex is free.
func Unlocked(mu any) bool {
	switch m := mu.(type) {
	case *sync.Mutex:
		if m.TryLock() {
			m.Unlock()
			return true
		}
		return false
	case *sync.RWMutex:
		if m.TryLock() {
			m.Unlock()
			return true
		}
		return false
	}
	return true
}

// Imp is implication over already evaluated operands.
func Imp(a, b bool) bool { return !a || b }

// Val evaluates f, which has no effect, as one expression: the cases in it are not separate paths of the proof.
func Val[T any](f func() T) T { return f() }

// AtEntry is, in an invariant, what f was when the loop was entered.
func AtEntry[T any](f func() T) T { return f() }

// Forall and Exists quantify over lo <= i < hi.
func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}
func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// ForallKey quantifies over all keys of type K; at run time over the keys of the given maps and extra keys.
func ForallKey[K comparable](f func(k K) bool, dom ...any) bool {
	for _, d := range dom {
		switch x := d.(type) {
		case K:
			if !f(x) {
				return false
			}
		case []K:
			for _, k := range x {
				if !f(k) {
					return false
				}
			}
		case interface{ rangeKeys(func(any) bool) }:
			ok := true
			x.rangeKeys(func(k any) bool {
				if kk, is := k.(K); is && !f(kk) {
					ok = false
					return false
				}
				return true
			})
			if !ok {
				return false
			}
		default:
			v := reflect.ValueOf(d)
			if v.Kind() == reflect.Map {
				for _, k := range v.MapKeys() {
					if !f(k.Convert(reflect.TypeOf((*K)(nil)).Elem()).Interface().(K)) {
						return false
					}
				}
			}
		}
	}
	return true
}

// Seq is an immutable snapshot of a slice's elements.
type Seq[T any] struct{ data []T }

func Snap[T any](s []T) Seq[T] { return Seq[T]{append([]T{}, s...)} }
func (s Seq[T]) Len() int      { return len(s.data) }
func (s Seq[T]) At(i int) T    { return s.data[i] }
func (s Seq[T]) Nil() bool     { return s.data == nil }

// MapS is an immutable snapshot of a map.
type MapS[K comparable, V any] struct{ m map[K]V }

func SnapMap[K comparable, V any](m map[K]V) MapS[K, V] {
	c := map[K]V{}
	for k, v := range m {
		c[k] = v
	}
	return MapS[K, V]{c}
}
func (m MapS[K, V]) Has(k K) bool { _, ok := m.m[k]; return ok }
func (m MapS[K, V]) Get(k K) V    { return m.m[k] }
func (m MapS[K, V]) Len() int     { return len(m.m) }
func (m MapS[K, V]) rangeKeys(f func(any) bool) {
	for k := range m.m {
		if !f(k) {
			return
		}
	}
}

// Set is the set of keys already visited by a map iteration (holes of Invariant only).
type Set[K comparable] struct{ m map[K]bool }

func (s Set[K]) Has(k K) bool { return s.m[k] }

// Same reports that two slices, maps, channels, pointers or functions are the same object.
func Same(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if !va.IsValid() || !vb.IsValid() {
		return va.IsValid() == vb.IsValid()
	}
	switch va.Kind() {
	case reflect.Slice:
		return va.Pointer() == vb.Pointer() && va.Len() == vb.Len()
	case reflect.Map, reflect.Chan, reflect.Ptr:
		return va.Pointer() == vb.Pointer()
	case reflect.Func:
		return funcPtr(a) == funcPtr(b)
	}
	return a == b
}

// NoAlias reports that two slices do not share a backing array.
func NoAlias(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Cap() == 0 || vb.Cap() == 0 {
		return true
	}
	sa, sb := va.Pointer(), vb.Pointer()
	ea, eb := sa+uintptr(va.Cap())*va.Type().Elem().Size(), sb+uintptr(vb.Cap())*vb.Type().Elem().Size()
	return ea <= sb || eb <= sa
}

type hchan struct {
	qcount, dataqsiz uint
	buf              unsafe.Pointer
	elemsize         uint16
	closed           uint32
}

// Closed reports whether a channel has been closed.
func Closed(ch any) bool {
	v := reflect.ValueOf(ch)
	if v.IsNil() {
		return false
	}
	return (*hchan)(v.UnsafePointer()).closed != 0
}

// ChanLen is the number of values waiting in a channel.
func ChanLen(ch any) int { return reflect.ValueOf(ch).Len() }

// RunPending lets the goroutines started so far run to completion (or until they block).
func RunPending() { time.Sleep(settle) }

var settle = 3 * time.Millisecond

// Alone makes 'go' statements run the goroutine at once, up to the point where it blocks for ever, and says that
// nobody else acts on any channel meanwhile.
func Alone() {}

// Rely says what others may do meanwhile: f is run whenever a goroutine starts and before each lock is taken.
func Rely(f func()) {}

// ModifiesChannels lets the target send to, receive from and close any channel.
func ModifiesChannels() {}

// Drains says that somebody else receives from ch whenever a sender waits for room.
func Drains(ch any) {}

// Sent is the number of values ever sent to ch, from some number on (symbolic only).
func Sent(ch any) int { return 0 }

// WaitCount is the counter of a wait group.
func WaitCount(wg *sync.WaitGroup) int { return 0 }

// HoldPending makes 'go' statements in the target queue up until RunPending.
func HoldPending() {}

// FreezeClock assumes that time does not advance during the target call.
func FreezeClock() {}

// Nondet is an arbitrary value.
func Nondet[T any](tag string) T {
	if cur == nil {
		var z T
		return z
	}
	return Make[T](cur.g)
}

// FnID identifies a function value created by NewFn.
func FnID(f any) int {
	if f == nil || reflect.ValueOf(f).IsNil() {
		return 0
	}
	return fnIDs[funcPtr(f)]
}

var fnIDs = map[uintptr]int{}
var fnKeep []any

func funcPtr(f any) uintptr {
	return uintptr((*[2]unsafe.Pointer)(unsafe.Pointer(&f))[1])
}

// RegFn registers a generated function value under an id.
func RegFn(f any, id int) {
	fnKeep = append(fnKeep, f)
	fnIDs[funcPtr(f)] = id
}

// UF is an uninterpreted total function of its arguments.
func UFInt(name string, args ...any) int {
	h := 1469598103934665603
	for _, c := range fmt.Sprint(append([]any{name}, args...)...) {
		h = (h ^ int(c)) * 1099511628211
	}
	return h
}
func UFBool(name string, args ...any) bool { return UFInt(name, args...)&64 != 0 }
func UFStr(name string, args ...any) string {
	return fmt.Sprintf("uf%x", uint(UFInt(name, args...))&0xffff)
}
func UFFloat(name string, args ...any) float64 {
	return float64(UFInt(name, args...)&0xff)/8 - 4
}

// EqFloat compares reals up to rounding.
func EqFloat(a, b float64) bool {
	if a == b || (a != a && b != b) {
		return true
	}
	d := a - b
	if d < 0 {
		d = -d
	}
	m := 1.0
	for _, x := range []float64{a, b} {
		if x < 0 {
			x = -x
		}
		if x > m {
			m = x
		}
	}
	return d <= 1e-6*m
}

// DeepEq compares values structurally.
func DeepEq(a, b any) bool { return reflect.DeepEqual(a, b) }

// LineReader is an io.Reader that produces the given lines.
type LineReader struct {
	Lines []string
	pos   int
	buf   []byte
	init  bool
}

func (r *LineReader) Read(p []byte) (int, error) {
	if !r.init {
		r.init = true
		for _, l := range r.Lines {
			r.buf = append(append(r.buf, l...), '\n')
		}
	}
	if len(r.buf) == 0 {
		return 0, eof
	}
	n := copy(p, r.buf)
	r.buf = r.buf[n:]
	return n, nil
}

// ChanAt is the i-th value waiting in a channel (run time: the channel is drained and refilled).
func ChanAt[T any](ch <-chan T, i int) T {
	n := len(ch)
	var r T
	bi := chanBi[T](ch)
	for k := 0; k < n; k++ {
		v := <-ch
		if k == i {
			r = v
		}
		bi <- v
	}
	return r
}

func chanBi[T any](ch <-chan T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }

// Pending is the number of goroutines that have not run yet (symbolic only).
func Pending() int { return 0 }

// Local marks a channel as used by nobody but the code under contract.
func Local(ch any) {}

// ErrText is err.Error().
func ErrText(err error) string { return err.Error() }

// SameTime reports that two times are equal (at run time, where the clock cannot be frozen: nearly).
func SameTime(a, b time.Time) bool {
	d := a.Sub(b)
	return -200*time.Millisecond < d && d < 200*time.Millisecond
}

// OnceDone reports whether a sync.Once has been used.
func OnceDone(o *sync.Once) bool { return *(*uint32)(unsafe.Pointer(o)) != 0 }

// Random reports that the slice was filled by crypto/rand (symbolic only).
func Random(p []byte) bool { return true }

// IsType reports whether v's dynamic type is T.
func IsType[T any](v any) bool { _, ok := v.(T); return ok }

// Next is the number of lines taken so far (proof only).
func (r *LineReader) Next() int { return r.pos }
