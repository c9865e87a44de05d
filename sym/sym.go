// Package verif_sym is the harness API. The engine intercepts every function here: inputs become symbolic
// variables and Assert becomes a solver query. Compiled natively, the same harness replays one concrete case.
package verif_sym

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
}

type Case struct {
	Harness string  `json:"harness"`
	Tier    string  `json:"tier"`
	Inputs  []Input `json:"inputs"`
}

// AssumeFailed and AssertFailed are thrown natively.
type AssumeFailed struct{}
type AssertFailed struct{ Label string }

var (
	mu   sync.Mutex
	cur  Case
	pos  int
	Out  strings.Builder
	Fail []string
)

// Start loads the inputs of the next native case.
func Start(c Case) {
	mu.Lock()
	defer mu.Unlock()
	cur, pos = c, 0
	Out.Reset()
	Fail = nil
}

func next(name, kind string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	if pos >= len(cur.Inputs) {
		panic(fmt.Sprintf("verif: replay ran out of inputs at %s", name))
	}
	in := cur.Inputs[pos]
	pos++
	if in.Kind != kind || in.Name != name {
		panic(fmt.Sprintf("verif: replay diverged: want %s/%s, have %s/%s", name, kind, in.Name, in.Kind))
	}
	return in.Val
}

func Bool(name string) bool       { return next(name, "bool") == 1 }
func Int(name string) int         { return int(next(name, "int")) }
func Int64(name string) int64     { return int64(next(name, "int")) }
func Int32(name string) int32     { return int32(next(name, "int32")) }
func Int16(name string) int16     { return int16(next(name, "int16")) }
func Int8(name string) int8       { return int8(next(name, "int8")) }
func Uint(name string) uint       { return uint(next(name, "uint")) }
func Uint64(name string) uint64   { return next(name, "uint") }
func Uint32(name string) uint32   { return uint32(next(name, "uint32")) }
func Uint16(name string) uint16   { return uint16(next(name, "uint16")) }
func Uint8(name string) uint8     { return uint8(next(name, "uint8")) }
func Float32(name string) float32 { return math.Float32frombits(uint32(next(name, "float32"))) }
func Float64(name string) float64 { return math.Float64frombits(next(name, "float64")) }

// IntRange is a symbolic integer in [lo, hi].
func IntRange(name string, lo, hi int) int { return int(next(name, "int")) }

// Choose splits the exploration on a value in [0, n).
func Choose(name string, n int) int { return int(next(name, "int")) }

// String is a symbolic ASCII text of at most max bytes.
func String(name string, max int) string {
	n := int(next(name+".len", "int"))
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name+"["+string(rune('0'+i))+"]", "uint8"))
	}
	return string(b)
}

func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

// Assert states the property.
func Assert(c bool, label string) {
	if !c {
		panic(AssertFailed{label})
	}
}

// Reach marks a point that the exploration must reach.
func Reach(label string) {}

// Observe records values compared between the engine and the compiled code.
func Observe(label string, vals ...any) {
	s := label
	for _, v := range vals {
		s += " " + show(reflect.ValueOf(v))
	}
	mu.Lock()
	Out.WriteString(s + "\n")
	mu.Unlock()
}

func show(v reflect.Value) string {
	if !v.IsValid() {
		return "<nil>"
	}
	switch v.Kind() {
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(v.Uint())
	case reflect.Float32:
		return fmt.Sprintf("f%x", math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		return fmt.Sprintf("f%x", math.Float64bits(v.Float()))
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Slice:
		var p []string
		for i := 0; i < v.Len(); i++ {
			p = append(p, show(v.Index(i)))
		}
		return "[" + strings.Join(p, ",") + "]"
	case reflect.Pointer, reflect.Map, reflect.Chan, reflect.Func, reflect.Interface:
		if v.IsNil() {
			return "<nil>"
		}
	}
	return "<non-nil>"
}

// Bound is a stated bound that depends on the tier.
func Bound(name string, quick, thorough int) int {
	if cur.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Symbolic tells the engine from a native run.
func Symbolic() bool { return false }

// Concrete splits the exploration on the value of x.
func Concrete(x int) int { return x }

func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Iff(a, b bool) bool { return a == b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Quiesce waits until no other goroutine can make progress.
func Quiesce() { time.Sleep(30 * time.Millisecond) }

// Advance lets time pass and then quiesces.
func Advance(d time.Duration) { time.Sleep(d + 30*time.Millisecond) }

// Now is the virtual time.
func Now() int64 { return time.Now().UnixNano() }

// Goroutines counts the live goroutines of the harness (engine only).
func Goroutines() int { return 0 }

// Preemptions sets the remaining scheduling deviations (engine only).
func Preemptions(n int) {}

// RunCase runs one harness natively and reports how it ended.
func RunCase(c Case, f func(), timeout time.Duration) string {
	Start(c)
	res := make(chan string, 1)
	go func() {
		defer func() {
			r := recover()
			switch r := r.(type) {
			case nil:
				res <- "done"
			case AssumeFailed:
				res <- "assume"
			case AssertFailed:
				res <- "assert:" + r.Label
			default:
				res <- fmt.Sprintf("panic:%v", r)
			}
		}()
		f()
	}()
	select {
	case r := <-res:
		return r
	case <-time.After(timeout):
		return "hang"
	}
}

func Env(k string) string { return os.Getenv(k) }
