// Package vx is the interface between a harness and whoever runs it.  The
// bodies here are the native ones, used when a counterexample or a sampled path
// is replayed on the compiled code; the symbolic engine replaces them.
package vx

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strconv"
)

var (
	in   []uint64
	pos  int
	obs  []string
	end  string
	msg  string
	lim  uint64
	base uint64
)

// Run executes f natively on the given inputs.
func Run(f func(), inputs []uint64) (e, m string, o []string) {
	in, pos, obs, end, msg, lim = inputs, 0, nil, "", "", 0
	done := make(chan struct{})
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	base = ms.TotalAlloc
	go func() {
		defer close(done)
		normal := false
		defer func() {
			if end == "" && !normal {
				if r := recover(); r != nil {
					end, msg = "panic", fmt.Sprint(r)
				}
			}
		}()
		f()
		normal = true
	}()
	<-done
	if end == "" {
		end = "done"
	}
	if lim > 0 {
		runtime.ReadMemStats(&ms)
		if ms.TotalAlloc-base > lim {
			end, msg = "alloc", fmt.Sprintf("%d bytes allocated, limit %d", ms.TotalAlloc-base, lim)
		}
	}
	return end, msg, obs
}

func stop(e, m string) {
	if end == "" {
		end, msg = e, m
	}
	runtime.Goexit()
}

func next() uint64 {
	if pos >= len(in) {
		stop("exhausted", "")
	}
	v := in[pos]
	pos++
	return v
}

// U8 and friends introduce a symbolic value.
func U8(name string) uint8   { return uint8(next()) }
func U16(name string) uint16 { return uint16(next()) }
func U32(name string) uint32 { return uint32(next()) }
func U64(name string) uint64 { return next() }
func Bool(name string) bool  { return next() != 0 }

// Choice is a number below n on which the exploration always splits.
func Choice(name string, n int) int { return int(next()) }

// Pick is a number below n that stays symbolic.
func Pick(name string, n int) int { return int(next()) }

// Concrete splits the exploration over the values of v.
func Concrete(v uint64) uint64 { return v }

// Bytes is a slice of n symbolic bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next())
	}
	return b
}

// Str is a string of n symbolic bytes.
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Assume discards executions in which c is false.
func Assume(c bool) {
	if !c {
		stop("assume", "")
	}
}

// Assert requires c.
func Assert(c bool, m string) {
	if !c {
		stop("violation", m)
	}
}

// Fail is Assert(false, m).
func Fail(m string) { stop("violation", m) }

// Stop ends the execution without a verdict.
func Stop() { stop("done", "") }

// Cover names a point that some execution must reach.
func Cover(name string) {}

// Observe records a value that is compared between prediction and replay.
func Observe(name string, v uint64) {
	obs = append(obs, name+"="+strconv.FormatUint(v, 10))
}

// ObserveStr is Observe for strings.
func ObserveStr(name string, s string) {
	obs = append(obs, name+"="+strconv.Quote(s))
}

// AllocLimit bounds a single allocation from here on.
func AllocLimit(n uint64) { lim = n }

// MapOrder makes every map iteration order an input.
func MapOrder() {}

// Thorough says whether the larger bounds apply.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Symbolic says whether the symbolic engine is running the harness.
func Symbolic() bool { return false }

// PanicText renders a recovered value.
func PanicText(v any) string { return fmt.Sprint(v) }

// And and Or combine conditions without a branch.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

// Implies is !a || b without a branch.
func Implies(a, b bool) bool { return Or(!a, b) }

// DeepEqual is reflect.DeepEqual.
func DeepEqual(a, b any) bool { return reflect.DeepEqual(a, b) }

// Ite64 selects without a branch.
func Ite64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// IteStr selects without a branch.
func IteStr(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

// NoPanic runs f and turns a panic into a violation named what.
func NoPanic(what string, f func()) {
	ok := false
	defer func() {
		if !ok {
			if r := recover(); r != nil {
				Fail(what + ": panic: " + PanicText(r))
			}
		}
	}()
	f()
	ok = true
}

// Panics runs f and says whether it panicked.
func Panics(f func()) (p bool) {
	ok := false
	defer func() {
		if !ok {
			if r := recover(); r != nil {
				p = true
			}
		}
	}()
	f()
	ok = true
	return false
}
