package simrt

import (
	"fmt"
	"iter"
	"math/rand"
	randv2 "math/rand/v2"
	"reflect"
	"sort"
	"strings"
	"time"
)

// ---- maps ----

type named interface{ GetName() string }

// Keyed lets a type order itself in map iterations.
func canon(v reflect.Value, sb *strings.Builder, depth int) {
	if depth > 6 {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprintf(sb, "%v|", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(sb, "%020d|", uint64(v.Int())+1<<63)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(sb, "%020d|", v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(sb, "%v|", v.Float())
	case reflect.String:
		sb.WriteString(v.String())
		sb.WriteByte('|')
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			canon(v.Field(i), sb, depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			canon(v.Index(i), sb, depth+1)
		}
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil|")
			return
		}
		e := v.Elem()
		sb.WriteString(e.Type().String())
		if v.CanInterface() {
			if n, ok := v.Interface().(named); ok && !(e.Kind() == reflect.Ptr && e.IsNil()) {
				Quiet(func() { sb.WriteString(n.GetName()) })
				sb.WriteByte('|')
				return
			}
		}
		canon(e, sb, depth+1)
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil|")
			return
		}
		if v.CanInterface() {
			if n, ok := v.Interface().(named); ok {
				Quiet(func() { sb.WriteString(n.GetName()) })
				sb.WriteByte('|')
				return
			}
		}
		if v.Elem().Kind() != reflect.Struct {
			canon(v.Elem(), sb, depth+1)
		}
	}
}

func orderedKeys[M ~map[K]V, K comparable, V any](m M) []K {
	type kk struct {
		k K
		s string
	}
	ks := make([]kk, 0, len(m))
	for k := range m {
		var sb strings.Builder
		canon(reflect.ValueOf(&k).Elem(), &sb, 0)
		ks = append(ks, kk{k, sb.String()})
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].s < ks[j].s })
	out := make([]K, len(ks))
	for i := range ks {
		out[i] = ks[i].k
	}
	perm := mapPerm(len(out))
	if perm != nil {
		o2 := make([]K, len(out))
		for i, j := range perm {
			o2[i] = out[j]
		}
		return o2
	}
	return out
}

//go:norace
func mapPerm(n int) []int {
	s := sim
	if s == nil || n < 2 || s.cfg.MapOrder == MapSorted {
		return nil
	}
	s.mapDraws++
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if s.cfg.MapOrder == MapReverse {
		for i := range p {
			p[i] = n - 1 - i
		}
		return p
	}
	for i := n - 1; i > 0; i-- {
		j := s.mapRng.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Map iterates over m in an order the simulator chooses.
func Map[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range orderedKeys(m) {
			v, ok := m[k]
			if !ok {
				continue // deleted while iterating
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func MapsAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return Map(m) }

func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range Map(m) {
			if !yield(k) {
				return
			}
		}
	}
}

func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range Map(m) {
			if !yield(v) {
				return
			}
		}
	}
}

// ---- clock ----

var epoch = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

//go:norace
func now() (int64, int64) {
	if sim == nil {
		return 0, 0
	}
	sim.clockReads++
	return sim.clock, sim.cfg.ClockOff
}

func TimeNow() time.Time {
	c, off := now()
	return epoch.Add(time.Duration(c + off))
}
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }
func TimeSleep(d time.Duration)           { Stall(int(d / time.Microsecond)) }

// ---- randomness ----

type taskRand struct {
	v1 *rand.Rand
	v2 *randv2.Rand
}

func newTaskRand(seed uint64) *taskRand {
	return &taskRand{rand.New(rand.NewSource(int64(seed >> 1))), randv2.New(randv2.NewPCG(seed, 1))}
}

var outside = newTaskRand(1)

//go:norace
func curRand() *taskRand {
	if cur == nil {
		return outside
	}
	sim.randDraws++
	return cur.rng
}

func Rand() *rand.Rand     { return curRand().v1 }
func RandV2() *randv2.Rand { return curRand().v2 }

// ---- goroutines and channels ----

// GoCall starts f(args...) as a new task.
func GoCall(f any, args ...any) {
	fv := reflect.ValueOf(f)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			in[i] = reflect.Zero(fv.Type().In(i))
		} else {
			in[i] = reflect.ValueOf(a)
		}
	}
	Go(func() { fv.Call(in) })
}

func Send[C ~chan T | ~chan<- T, T any](c C, v T) {
	for {
		select {
		case (chan<- T)(c) <- v:
			return
		default:
			Poll()
		}
	}
}

func Recv[C ~chan T | ~<-chan T, T any](c C) T {
	v, _ := Recv2[C, T](c)
	return v
}

func Recv2[C ~chan T | ~<-chan T, T any](c C) (T, bool) {
	for {
		select {
		case v, ok := <-(<-chan T)(c):
			return v, ok
		default:
			Poll()
		}
	}
}

func ChanSeq[C ~chan T | ~<-chan T, T any](c C) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2[C, T](c)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// ---- package-level state ----

var (
	resets      []func()
	resetBroken bool
)

// OnReset registers a function that puts the package-level variables of one
// package back to where they are when the process starts.
func OnReset(f func()) { resets = append(resets, f) }

// Reset puts the package-level variables of the library back to their initial
// state, as in a process that has only just started. It reports whether that
// was possible. No task may be running.
func Reset() (ok bool) {
	if cur != nil || resetBroken || len(resets) == 0 {
		return false
	}
	defer func() {
		if r := recover(); r != nil {
			// an initialisation that cannot be repeated
			resetBroken, ok = true, false
		}
	}()
	for _, f := range resets {
		f()
	}
	return true
}

// Zero sets a variable to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}
