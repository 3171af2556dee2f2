// Package sym is the interface between a harness and the symbolic engine. Under gosym every function
// here is an intrinsic; compiled natively they read the inputs of one counterexample or witness.
package sym

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
)

var (
	in      map[string]int64
	names   = map[string]int{}
	obs     [][2]string
	tier    string
	Scratch string
)

type stop struct{ kind, msg string }

func name(s string) string {
	names[s]++
	if n := names[s]; n > 1 {
		return fmt.Sprintf("%s#%d", s, n)
	}
	return s
}

func get(n string, lo, hi int64) int64 {
	v, ok := in[n]
	if !ok {
		v = lo
		if lo <= 0 && hi >= 0 {
			v = 0
		}
	}
	if v < lo || v > hi {
		panic(stop{"assume", "input " + n + " out of range"})
	}
	return v
}

// Int is an arbitrary integer of lo..hi.
func Int(n string, lo, hi int64) int64 { return get(name(n), lo, hi) }

// Byte is an arbitrary byte.
func Byte(n string) byte { return byte(get(name(n), 0, 255)) }

// Bool is an arbitrary boolean.
func Bool(n string) bool { return get(name(n), 0, 1) == 1 }

// Str is an arbitrary string of exactly n bytes, each within lo..hi.
func Str(nm string, n int, lo, hi int64) string {
	nm = name(nm)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(get(name(fmt.Sprintf("%s.%d", nm, i)), lo, hi))
	}
	return string(b)
}

// Choose forks the exploration over 0..n-1.
func Choose(nm string, n int) int { return int(get(name(nm), 0, int64(n-1))) }

// Assume restricts the exploration to c.
func Assume(c bool) {
	if !c {
		panic(stop{"assume", "assumption does not hold"})
	}
}

// Assert is the property: the solver shows c for every value on the path, or returns a counterexample.
func Assert(c bool, msg string) {
	if !c {
		panic(stop{"assert", msg})
	}
}

// Cover marks a situation which must be reachable.
func Cover(string) {}

// Observe records a value which must be the same symbolically and natively.
func Observe(n string, v interface{}) { obs = append(obs, [2]string{n, fmt.Sprint(v)}) }

// Concretize forks over all values of x.
func Concretize(x int64) int64 { return x }

func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }
func Ite(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}
func Abs(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

// Symbolic tells whether the engine runs this.
func Symbolic() bool { return false }

// Thorough tells whether the deep tier runs.
func Thorough() bool { return tier == "thorough" }

// MulLe is a*b <= c*d without overflow.
func MulLe(a, b, c, d int64) bool {
	return new(big.Int).Mul(big.NewInt(a), big.NewInt(b)).Cmp(new(big.Int).Mul(big.NewInt(c), big.NewInt(d))) <= 0
}

// ParseNum reads the decimal number at s[i:]: its value in millionths, the index after it and whether there is one.
func ParseNum(s string, i int) (int64, int, bool) {
	j := i
	if j < len(s) && (s[j] == '-' || s[j] == '+') {
		j++
	}
	st := j
	for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == '.') {
		j++
	}
	if j == st {
		return 0, j, false
	}
	r, ok := new(big.Rat).SetString(s[i:j])
	if !ok {
		return 0, j, false
	}
	r.Mul(r, big.NewRat(1000000, 1))
	f, _ := strconv.ParseFloat(r.FloatString(0), 64)
	return int64(f), j, true
}

// TempFile is a path inside the scratch directory of this replay.
func TempFile(base string) string { return filepath.Join(Scratch, base) }

// Main runs "replay FILE" for the registered harnesses.
func Main(hs map[string]func()) {
	if len(os.Args) < 3 || os.Args[1] != "replay" {
		fmt.Fprintln(os.Stderr, "usage: replay inputs.json")
		os.Exit(2)
	}
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var f struct {
		Harness string           `json:"harness"`
		Inputs  map[string]int64 `json:"inputs"`
		Tier    string           `json:"tier"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	in, tier = f.Inputs, f.Tier
	Scratch = os.Getenv("VERIF_SCRATCH")
	if Scratch == "" {
		Scratch, _ = os.MkdirTemp("", "verifreplay")
		defer os.RemoveAll(Scratch)
	}
	h, ok := hs[f.Harness]
	if !ok {
		fmt.Fprintln(os.Stderr, "no harness", f.Harness)
		os.Exit(2)
	}
	status, msg := "ok", ""
	debug.SetMaxStack(256 << 20)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(stop); ok {
					status, msg = s.kind, s.msg
					return
				}
				st := string(debug.Stack())
				where := ""
				for _, l := range strings.Split(st, "\n") {
					if strings.Contains(l, "/repo/") {
						where = " at " + strings.TrimSpace(l)
						break
					}
				}
				status, msg = "panic", fmt.Sprint("panic: ", r, where)
			}
		}()
		h()
	}()
	for _, o := range obs {
		b, _ := json.Marshal(o)
		fmt.Println("SYM-OBS " + string(b))
	}
	b, _ = json.Marshal([2]string{status, msg})
	fmt.Println("SYM-RESULT " + string(b))
	if status == "assert" || status == "panic" {
		os.Exit(1)
	}
}
