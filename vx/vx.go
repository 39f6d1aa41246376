// Package vx is the interface between verification harnesses and the symbolic
// engine. Under the engine these functions are intercepted; natively they read
// a solver assignment from $VX_INPUT so that a counterexample can be replayed.
package vx

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	mu     sync.Mutex
	inputs map[string]string
	seen   = map[string]int{}
)

type assumeFailed struct{}
type assertFailed struct{ msg string }

// TB is the part of testing.TB that RunNative needs.
type TB interface {
	Fatalf(format string, args ...any)
	Skipf(format string, args ...any)
}

// RunNative runs a harness with the assignment in $VX_INPUT; with $VX_REPEAT
// it repeats for that many seconds, to meet a schedule.
func RunNative(t TB, f func()) {
	end := time.Now()
	if n, err := strconv.Atoi(os.Getenv("VX_REPEAT")); err == nil {
		end = end.Add(time.Duration(n) * time.Second)
	}
	for i := 0; ; i++ {
		runNative(t, f)
		if time.Now().After(end) {
			return
		}
		runtime.GOMAXPROCS(1 + i%8)
	}
}

func runNative(t TB, f func()) {
	mu.Lock()
	inputs = map[string]string{}
	seen = map[string]int{}
	if p := os.Getenv("VX_INPUT"); p != "" {
		b, err := os.ReadFile(p)
		if err != nil {
			t.Fatalf("%v", err)
		}
		if err := json.Unmarshal(b, &inputs); err != nil {
			t.Fatalf("%v", err)
		}
	}
	mu.Unlock()
	var fail any
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() { fail = recover() }()
		f()
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatalf("HANG: harness did not finish")
	}
	switch x := fail.(type) {
	case nil:
	case assumeFailed:
		t.Skipf("assumption not met")
	case assertFailed:
		t.Fatalf("ASSERT: %s", x.msg)
	default:
		t.Fatalf("PANIC: %v", x)
	}
}

func get(name string) (string, string) {
	mu.Lock()
	defer mu.Unlock()
	k := seen[name]
	seen[name]++
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	return inputs[name], name
}

func num(name string) int64 {
	s, _ := get(name)
	if s == "" {
		return 0
	}
	i, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		u, _ := strconv.ParseUint(s, 10, 64)
		return int64(u)
	}
	return i
}

func Bool(name string) bool       { return num(name) != 0 }
func Int(name string) int         { return int(num(name)) }
func Int8(name string) int8       { return int8(num(name)) }
func Int16(name string) int16     { return int16(num(name)) }
func Int32(name string) int32     { return int32(num(name)) }
func Int64(name string) int64     { return num(name) }
func Uint(name string) uint       { return uint(num(name)) }
func Uint8(name string) uint8     { return uint8(num(name)) }
func Uint16(name string) uint16   { return uint16(num(name)) }
func Uint32(name string) uint32   { return uint32(num(name)) }
func Uint64(name string) uint64   { return uint64(num(name)) }
func Float64(name string) float64 { return math.Float64frombits(uint64(num(name))) }
func Float32(name string) float32 { return math.Float32frombits(uint32(num(name))) }

func str(name string) string {
	s, _ := get("$" + name)
	_ = s
	mu.Lock()
	k := seen["$"+name] - 1
	mu.Unlock()
	n := name
	if k > 0 {
		n = fmt.Sprintf("%s#%d", name, k)
	}
	v := inputs[n]
	if strings.HasPrefix(v, "hex:") {
		b, _ := hex.DecodeString(v[4:])
		return string(b)
	}
	return v
}

// String is an arbitrary string of at most max bytes.
func String(name string, max int) string { return str(name) }

// StringN is an arbitrary string of exactly n bytes.
func StringN(name string, n int) string {
	s := str(name)
	for len(s) < n {
		s += "\x00"
	}
	return s
}

// Bytes is an arbitrary byte slice of at most max bytes.
func Bytes(name string, max int) []byte { return []byte(str(name)) }

// Choose is an arbitrary value in [0,n).
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(num(name))
}

// Concrete enumerates the feasible values of v.
func Concrete(v int) int { return v }

func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}
func Assert(c bool, msg string) {
	if !c {
		panic(assertFailed{msg})
	}
}
func Fail(msg string)              { panic(assertFailed{msg}) }
func Reach(label string)           {}
func MustReach(labels ...string)   {}
func KnownIf(id string, cond bool) {}
func Note(s string)                {}
func Symbolic() bool               { return false }
func Thorough() bool               { return os.Getenv("VERIF_TIER") == "thorough" }
func Preempt(n int)                {}

// Delays bounds the number of times that another goroutine than the next one
// in turn runs, also at blocking operations.
func Delays(n int) {}

// Starve bounds the number of goroutines that are put back, at any point, until
// no other goroutine can run.
func Starve(n int)          {}
func TimersAnytime(on bool) {}
func MapOrder(on bool)      {}
func SymbolicNow()          {}
func Race()                 {}
func Atomic(f func())       { f() }
func Yield()                { runtime.Gosched() }
func Now() int64            { return time.Now().UnixNano() }
func Blocked() string       { return "" }

// Quiesce lets all other goroutines run until they finish or block for good
// and returns how many are left.
func Quiesce() int { time.Sleep(300 * time.Millisecond); return 0 }

// Try runs f and reports whether it panicked.
func Try(f func()) (msg string, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case assumeFailed, assertFailed:
				panic(r)
			}
			msg, panicked = fmt.Sprint(r), true
		}
	}()
	f()
	return "", false
}
