// Package sym gives harnesses their inputs and records their verdicts. The
// symbolic engine intercepts these functions; compiled natively they take the
// values of one assignment and check it against the real code.
package sym

import (
	"fmt"
	"os"
	"strconv"
	"sync"
)

type In struct {
	Name string
	Val  uint64
}

type Input struct {
	Harness  string
	Thorough bool
	Inputs   []In
	Kind     string
	Property string
}

var (
	vals     map[string]uint64
	names    map[string]int
	thorough bool
	knowns   []string
	quiet    bool
)

// Load installs an assignment.
func Load(in *Input) {
	vals = map[string]uint64{}
	names = map[string]int{}
	for _, e := range in.Inputs {
		vals[e.Name] = e.Val
	}
	thorough = in.Thorough
}

// Again restarts the assignment from its first value.
func Again() { names = map[string]int{}; knowns = nil; quiet = true }

type failure struct{ Msg string }
type infeasible struct{}

func Verdict(r any) (code int, msg string) {
	switch x := r.(type) {
	case nil:
		if len(knowns) > 0 {
			return 11, ""
		}
		return 0, ""
	case failure:
		return 10, x.Msg
	case infeasible:
		return 12, ""
	}
	return 10, fmt.Sprintf("panic: %v", r)
}

func next(base string) uint64 {
	names[base]++
	n := base
	if k := names[base]; k > 1 {
		n = fmt.Sprintf("%s#%d", base, k)
	}
	return vals[n]
}

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(next(name)) }

// ByteIn is an arbitrary byte in lo..hi.
func ByteIn(name string, lo, hi byte) byte {
	v := byte(next(name))
	if v < lo || v > hi {
		return lo
	}
	return v
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { return next(name) != 0 }

// Int64 is an arbitrary integer.
func Int64(name string) int64 { return int64(next(name)) }

// Uint64 is an arbitrary integer.
func Uint64(name string) uint64 { return next(name) }

// Int64In is an arbitrary integer in lo..hi.
func Int64In(name string, lo, hi int64) int64 {
	if lo >= 0 {
		v := int64(next(name))
		if v < lo || v > hi {
			return lo
		}
		return v
	}
	return lo + int64(next(name))
}

// Choose splits into n cases.
func Choose(name string, n int) int {
	v := int(next(name))
	if v >= n {
		return 0
	}
	return v
}

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(infeasible{})
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		panic(failure{msg})
	}
}

// Reach marks a point some input must reach.
func Reach(label string) {}

// Thorough reports whether the deep bounds are in force.
func Thorough() bool { return thorough }

// Engine reports whether the symbolic engine is running the harness.
func Engine() bool { return false }

// Bound records a bound of the harness.
func Bound(name, val string) {}

// MapOrder makes the iteration order of maps arbitrary.
func MapOrder(on bool) {}

// Observe records a value to compare between the engine and the real code.
func Observe(label string, v string) {
	if quiet {
		return
	}
	os.Stdout.WriteString("OBS " + strconv.Quote(label+"="+v) + "\n")
}

// Known records that a listed finding shows on this input.
func Known(id string) {
	knowns = append(knowns, id)
	if !quiet {
		os.Stdout.WriteString("KNOWN " + id + "\n")
	}
}

// Shared runs read-only operations on v: in the engine no memory reachable
// from v may be written; natively two goroutines run them at the same time.
func Shared(label string, v any, f func()) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var pan any
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					pan = r
					mu.Unlock()
				}
			}()
			f()
		}()
	}
	wg.Wait()
	if pan != nil {
		panic(pan)
	}
}

// Concrete splits into the possible values of s.
func Concrete(s string) string { return s }

// ConcreteInt splits into the possible values of n.
func ConcreteInt(n int) int { return n }

// Skip leaves the rest of this path undecided.
func Skip(why string) { panic(infeasible{}) }

// Sample, SampleUint and SampleFloat continue with a few concrete values of
// what cannot be followed symbolically and leave the others undecided.
func Sample(s string, why string) string        { return s }
func SampleUint(u uint64, why string) uint64    { return u }
func SampleFloat(f float64, why string) float64 { return f }

// ---- primitives for the library models

// Digits returns the k decimal digits of u, which has at most k of them.
func Digits(u uint64, k int) string {
	s := strconv.FormatUint(u, 10)
	for len(s) < k {
		s = "0" + s
	}
	return s
}

// DigitsOf returns u if s is what Digits(u, len(s)) returned.
func DigitsOf(s string) (u uint64, ok bool) { return 0, false }

func NativeFormatFloat(f float64, fmt byte, prec, bits int) string {
	return strconv.FormatFloat(f, fmt, prec, bits)
}

// NativeParseUint returns the value and 0 (ok), 1 (syntax), 2 (range).
func NativeParseUint(s string, base, bits int) (uint64, int) {
	u, err := strconv.ParseUint(s, base, bits)
	if err == nil {
		return u, 0
	}
	if err.(*strconv.NumError).Err == strconv.ErrRange {
		return u, 2
	}
	return u, 1
}

// NativeParseFloat returns the value and 0 (ok), 1 (syntax), 2 (range).
func NativeParseFloat(s string, bits int) (float64, int) {
	f, err := strconv.ParseFloat(s, bits)
	if err == nil {
		return f, 0
	}
	if err.(*strconv.NumError).Err == strconv.ErrRange {
		return f, 2
	}
	return f, 1
}

func IsConcrete(s string) bool   { return true }
func IsConcreteF(f float64) bool { return true }
func IsConcreteI(i uint64) bool  { return true }
func Decided(b bool) bool        { return true }
func IsSymbolic(v any) bool      { return false }

// FloatNote remembers that f is ±mant/10^scale.
func FloatNote(f float64, neg bool, mant uint64, scale int) {}

// FloatText returns what FloatNote remembered.
func FloatText(f float64) (neg bool, mant uint64, scale int, ok bool) { return }

// ---- derived inputs

// Str is a string of n arbitrary bytes.
func Str(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(name)
	}
	return string(b)
}

// StrUpTo is a string of at most n arbitrary bytes.
func StrUpTo(name string, n int) string {
	return Str(name, Choose(name+".len", n+1))
}

// ASCII is a string of n arbitrary bytes below 0x80.
func ASCII(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = ByteIn(name, 0, 0x7f)
	}
	return string(b)
}

// Digs is a string of n arbitrary decimal digits.
func Digs(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = ByteIn(name, '0', '9')
	}
	return string(b)
}

// OneOf is an arbitrary byte of set.
func OneOf(name string, set string) byte {
	i := ByteIn(name, 0, byte(len(set)-1))
	return set[i]
}

// From is a string of n arbitrary bytes of set.
func From(name string, n int, set string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = OneOf(name, set)
	}
	return string(b)
}

// HexDigit is an arbitrary hexadecimal digit (of value at least lo and at
// most hi), in lower or upper case, and its value.
func HexDigit(name string, lo, hi byte, upper bool) (digit, val byte) {
	if hi <= 9 || lo <= 9 && Choose(name+".class", 2) == 0 {
		if hi > 9 {
			hi = 9
		}
		d := ByteIn(name+".dec", '0'+lo, '0'+hi)
		return d, d - '0'
	}
	if lo < 10 {
		lo = 10
	}
	c := byte('a')
	if upper {
		c = 'A'
	}
	d := ByteIn(name+".hex", c+lo-10, c+hi-10)
	return d, d - c + 10
}
