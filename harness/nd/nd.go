// Package nd is the harness interface to the symbolic executor. Symbolically
// these functions are intercepted; natively they replay one concrete case.
package nd

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
)

type inVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

type caseT struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Open    []string       `json:"open"` // known findings still open
	Inputs  []inVal        `json:"inputs"`
}

var cur caseT
var pos int

func verdict(s string) {
	fmt.Println("VERDICT " + s)
	os.Exit(0)
}

// Load reads a case (native only).
func Load(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		verdict("error " + err.Error())
	}
	if err := json.Unmarshal(b, &cur); err != nil {
		verdict("error " + err.Error())
	}
	return cur.Harness
}

func next(name string) string {
	if pos >= len(cur.Inputs) {
		// inputs after the recorded ones are unconstrained
		pos++
		return "0"
	}
	v := cur.Inputs[pos]
	pos++
	if v.Name != name {
		verdict("error input " + name + " expected, case has " + v.Name)
	}
	return v.Val
}

func Int(name string, lo, hi int) int {
	v, err := strconv.ParseInt(next(name), 10, 64)
	if err != nil {
		verdict("error " + err.Error())
	}
	if int(v) < lo || int(v) > hi {
		if pos > len(cur.Inputs) {
			return lo
		}
		verdict("assume " + name)
	}
	return int(v)
}

func Int64(name string) int64 {
	v, err := strconv.ParseInt(next(name), 10, 64)
	if err != nil {
		verdict("error " + err.Error())
	}
	return v
}

func Uint64(name string) uint64 {
	v, err := strconv.ParseUint(next(name), 10, 64)
	if err != nil {
		verdict("error " + err.Error())
	}
	return v
}

func Bool(name string) bool { return next(name) == "true" }

func Byte(name string) byte {
	v, _ := strconv.ParseUint(next(name), 10, 8)
	return byte(v)
}

// Str is a string of n arbitrary bytes from alphabet (any byte when empty).
func Str(name string, n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		v, _ := strconv.ParseUint(next(name+"["+strconv.Itoa(i)+"]"), 10, 8)
		b[i] = byte(v)
		if alphabet != "" && strings.IndexByte(alphabet, b[i]) < 0 {
			if pos > len(cur.Inputs) {
				b[i] = alphabet[0]
				continue
			}
			verdict("assume " + name)
		}
	}
	return string(b)
}

func Assume(c bool) {
	if !c {
		verdict("assume")
	}
}

func Check(c bool, msg string) {
	if !c {
		verdict("violation " + msg)
	}
}

// KnownCheck is an assertion whose failure is listed as known finding id.
func KnownCheck(c bool, id, msg string) {
	if !c {
		for _, o := range cur.Open {
			if o == id {
				fmt.Println("KNOWN " + id)
				return
			}
		}
		verdict("violation " + msg)
	}
}

func Reach(id string) {}

func Observe(v ...any) {
	parts := make([]string, len(v))
	for i, x := range v {
		switch y := x.(type) {
		case nil:
			parts[i] = "nil"
		case string:
			parts[i] = strconv.Quote(y)
		default:
			parts[i] = fmt.Sprint(y)
		}
	}
	fmt.Println("OBS " + strings.Join(parts, " "))
}

func Param(name string) int {
	v, ok := cur.Params[name]
	if !ok {
		verdict("error no param " + name)
	}
	return v
}

// Conc returns v; symbolically it case-splits on every feasible value.
func Conc(v int) int { return v }

func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func Log(v ...any) { fmt.Println(v...) }

// Done ends a native run without a violation.
func Done() { verdict("ok") }

// Panicked reports an uncaught panic.
func Panicked(r any) {
	verdict("panic " + strings.ReplaceAll(fmt.Sprint(r), "\n", " "))
}
