// Package models holds Go models of assembly or runtime-internal functions,
// interpreted in their place.
package models

import (
	"errors"
	"strconv"
	"sync"
	"time"

	"github.com/mercari/grpc-federation/vx"
)

func IndexByte(b []byte, c byte) int {
	for i, x := range b {
		if x == c {
			return i
		}
	}
	return -1
}
func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}
func LastIndexByte(b []byte, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}
func LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}
func Count(b []byte, c byte) int {
	n := 0
	for _, x := range b {
		if x == c {
			n++
		}
	}
	return n
}
func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}
func Equal(a, b []byte) bool { return string(a) == string(b) }
func Compare(a, b []byte) int {
	x, y := string(a), string(b)
	if x == y {
		return 0
	}
	if x < y {
		return -1
	}
	return 1
}
func CompareString(x, y string) int {
	if x == y {
		return 0
	}
	if x < y {
		return -1
	}
	return 1
}
func IndexString(s, sub string) int {
	n := len(sub)
	for i := 0; i+n <= len(s); i++ {
		if s[i:i+n] == sub {
			return i
		}
	}
	return -1
}
func Index(s, sub []byte) int { return IndexString(string(s), string(sub)) }

func StringsCount(s, sub string) int {
	if len(sub) == 0 {
		n := 0
		for range s {
			n++
		}
		return n + 1
	}
	n := 0
	for {
		i := IndexString(s, sub)
		if i == -1 {
			return n
		}
		n++
		s = s[i+len(sub):]
	}
}

type smap struct {
	mu sync.Mutex
	m  map[any]any
}

var maps = map[*sync.Map]*smap{}

func get(m *sync.Map) *smap {
	s := maps[m]
	if s == nil {
		s = &smap{m: map[any]any{}}
		maps[m] = s
	}
	s.mu.Lock()
	return s
}

func SyncMapLoad(m *sync.Map, k any) (any, bool) {
	s := get(m)
	defer s.mu.Unlock()
	v, ok := s.m[k]
	return v, ok
}
func SyncMapStore(m *sync.Map, k, v any) {
	s := get(m)
	defer s.mu.Unlock()
	s.m[k] = v
}
func SyncMapLoadOrStore(m *sync.Map, k, v any) (any, bool) {
	s := get(m)
	defer s.mu.Unlock()
	if x, ok := s.m[k]; ok {
		return x, true
	}
	s.m[k] = v
	return v, false
}
func SyncMapLoadAndDelete(m *sync.Map, k any) (any, bool) {
	s := get(m)
	defer s.mu.Unlock()
	v, ok := s.m[k]
	delete(s.m, k)
	return v, ok
}
func SyncMapDelete(m *sync.Map, k any) {
	s := get(m)
	defer s.mu.Unlock()
	delete(s.m, k)
}
func SyncMapSwap(m *sync.Map, k, v any) (any, bool) {
	s := get(m)
	defer s.mu.Unlock()
	old, ok := s.m[k]
	s.m[k] = v
	return old, ok
}
func SyncMapCompareAndSwap(m *sync.Map, k, old, v any) bool {
	s := get(m)
	defer s.mu.Unlock()
	if x, ok := s.m[k]; ok && x == old {
		s.m[k] = v
		return true
	}
	return false
}
func SyncMapCompareAndDelete(m *sync.Map, k, old any) bool {
	s := get(m)
	defer s.mu.Unlock()
	if x, ok := s.m[k]; ok && x == old {
		delete(s.m, k)
		return true
	}
	return false
}
func SyncMapRange(m *sync.Map, f func(k, v any) bool) {
	s := get(m)
	type kv struct{ k, v any }
	var l []kv
	for k, v := range s.m {
		l = append(l, kv{k, v})
	}
	s.mu.Unlock()
	for _, e := range l {
		if !f(e.k, e.v) {
			break
		}
	}
}
func SyncMapClear(m *sync.Map) {
	s := get(m)
	defer s.mu.Unlock()
	s.m = map[any]any{}
}

type cond struct{ ws []chan struct{} }

var conds = map[*sync.Cond]*cond{}

func CondWait(c *sync.Cond) {
	x := conds[c]
	if x == nil {
		x = &cond{}
		conds[c] = x
	}
	ch := make(chan struct{})
	x.ws = append(x.ws, ch)
	c.L.Unlock()
	<-ch
	c.L.Lock()
}
func CondSignal(c *sync.Cond) {
	x := conds[c]
	if x == nil || len(x.ws) == 0 {
		return
	}
	ch := x.ws[0]
	x.ws = x.ws[1:]
	close(ch)
}
func CondBroadcast(c *sync.Cond) {
	x := conds[c]
	if x == nil {
		return
	}
	for _, ch := range x.ws {
		close(ch)
	}
	x.ws = nil
}

// NumErrorError does not quote the input: the text of the message is not
// part of any checked property, and quoting symbolic bytes is expensive.
func NumErrorError(e *strconv.NumError) string {
	return "strconv." + e.Func + ": parsing " + e.Num + ": " + e.Err.Error()
}

// RandFloat64 is any number in [0,1).
func RandFloat64() float64 {
	f := vx.Float64("rand")
	vx.Assume(f >= 0 && f < 1)
	return f
}

// LoadLocation finds no zone file: harnesses only use names of which the
// system has none either.
func LoadLocation(name string, sources []string) (*time.Location, error) {
	return nil, errors.New("unknown time zone " + name)
}

// The environment of the modelled process, empty at the start.
var environ = map[string]string{}

func Setenv(key, value string) error {
	if key == "" {
		return errors.New("setenv: invalid argument")
	}
	environ[key] = value
	return nil
}
func Unsetenv(key string) error { delete(environ, key); return nil }
func LookupEnv(key string) (string, bool) {
	v, ok := environ[key]
	return v, ok
}
func Getenv(key string) string { return environ[key] }
