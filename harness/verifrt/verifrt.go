// Package verifrt is the interface between harnesses and the symbolic
// executor. The executor replaces these functions by intrinsics; the bodies
// below replay one concrete input natively.
package verifrt

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Alphabets for Str: a string lists the allowed bytes.
var (
	ASCII     = byteRange(0, 127)
	Printable = byteRange(32, 126)
	AllBytes  = byteRange(0, 255)
)

const (
	Lower    = "abcdefghijklmnopqrstuvwxyz"
	Digits   = "0123456789"
	LowerNum = Lower + Digits
)

func byteRange(lo, hi int) string {
	b := make([]byte, 0, hi-lo+1)
	for i := lo; i <= hi; i++ {
		b = append(b, byte(i))
	}
	return string(b)
}

type input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Str  []int  `json:"str"`
	Int  int64  `json:"int"`
}

type replay struct {
	Harness string           `json:"harness"`
	Inputs  []input          `json:"inputs"`
	Params  map[string]int64 `json:"params"`
}

var (
	cur    replay
	pos    int
	obs    []string
	failed bool
)

func next(name, kind string) input {
	if pos >= len(cur.Inputs) {
		// beyond the recorded inputs: any value will do
		return input{Name: name, Kind: kind}
	}
	in := cur.Inputs[pos]
	pos++
	if in.Name != name || in.Kind != kind {
		finish("REPLAY-MISMATCH wanted " + name + " got " + in.Name)
	}
	return in
}

// Str is a string of exactly n bytes drawn from alphabet.
func Str(name string, n int, alphabet string) string {
	in := next(name, "str")
	b := make([]byte, n)
	for i := range b {
		if i < len(in.Str) {
			b[i] = byte(in.Str[i])
		} else {
			b[i] = alphabet[0]
		}
	}
	return string(b)
}

// StrUpTo is a string of 0..max bytes drawn from alphabet.
func StrUpTo(name string, max int, alphabet string) string {
	return Str(name, Choice(name+".len", max+1), alphabet)
}

func Int64(name string) int64 { return next(name, "int").Int }

// Int64In is an int64 in [lo,hi].
func Int64In(name string, lo, hi int64) int64 {
	v := next(name, "int").Int
	if v < lo || v > hi {
		v = lo
	}
	return v
}

func Bool(name string) bool { return next(name, "bool").Int != 0 }

// Choice forks over 0..n-1 (concrete on every path).
func Choice(name string, n int) int { return int(next(name, "choice").Int) }

func Assume(c bool) {
	if !c {
		finish("ASSUME-FAILED")
	}
}

// Assert states the property.
func Assert(id string, c bool, msg string) {
	if !c {
		failed = true
		fmt.Printf("ASSERT-FAILED %s: %s\n", id, msg)
	}
}

// Observe records a value that must agree between executor and real run.
func Observe(name string, v interface{}) {
	obs = append(obs, name+"="+render(v))
}

// Note adds detail to a counterexample (native run only).
func Note(name string, v interface{}) { fmt.Printf("NOTE %s=%s\n", name, render(v)) }

func render(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case string:
		return fmt.Sprintf("%q", x)
	case []string:
		s := make([]string, len(x))
		for i, e := range x {
			s[i] = fmt.Sprintf("%q", e)
		}
		return "[" + strings.Join(s, " ") + "]"
	case bool, int, int64, int32:
		return fmt.Sprint(x)
	}
	return fmt.Sprintf("%T", v)
}

// Cover marks a state that must be reachable.
func Cover(name string) {}

// MapOrder makes map iteration order a choice of the executor.
func MapOrder(on bool) {}

// InEngine tells the executor from a native run.
func InEngine() bool { return false }

// Bound is a tier-dependent bound, recorded in the evidence.
func Bound(name string, quick, thorough int) int {
	if v, ok := cur.Params[name]; ok {
		return int(v)
	}
	if os.Getenv("VERIF_TIER") == "thorough" {
		return thorough
	}
	return quick
}

// Quiesce lets every other goroutine run until it blocks.
func Quiesce() {
	if perturb != nil {
		time.Sleep(300 * time.Millisecond)
	}
	time.Sleep(30 * time.Millisecond)
}

// Advance moves the (virtual) clock.
func Advance(d time.Duration) { time.Sleep(d) }

// Preempt allows n extra context switches at synchronisation points.
func Preempt(n int) { preempt.Store(n > 0) }

var (
	preempt atomic.Bool
	perturb *rand.Rand
	rate    = 2
	randMu  sync.Mutex
)

func perturbed() {
	if n, err := strconv.ParseInt(os.Getenv("VERIF_PERTURB"), 10, 64); err == nil {
		perturb = rand.New(rand.NewSource(n))
		rate = []int{2, 4, 16}[n%3]
	}
}

// Point is put before every statement of the code under test when a
// counterexample needs a schedule the runtime would hardly choose.
func Point() {
	if perturb == nil || !preempt.Load() {
		return
	}
	randMu.Lock()
	wait, d := perturb.Intn(rate) == 0, perturb.Intn(300)
	randMu.Unlock()
	if wait {
		time.Sleep(time.Duration(d) * time.Microsecond)
	}
}

// RaceStart begins recording shared accesses of the code under test.
func RaceStart() {}

// Races lists unordered conflicting accesses seen so far.
func Races() int { return 0 }

// LocksHeld counts mutexes held right now.
func LocksHeld() int { return 0 }

// Setenv and Args set the process environment.
func Setenv(k, v string) { os.Setenv(k, v) }
func SetArgs(a []string) { os.Args = a }

// RunMain runs the main function of the package as a program with the given
// arguments. Commands it executes end with status exit. It yields the
// program's status, its output and the commands with their arguments.
func RunMain(main func(), exit int, args []string) (code int, stdout string, calls [][]string) {
	d, err := os.MkdirTemp("", "verif-main")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(d)
	sh := "#!/bin/sh\n{ printf '%s\\0' kubectl \"$@\"; printf '\\n\\0'; } >> " + d + "/calls\nexit " + fmt.Sprint(exit) + "\n"
	if err := os.WriteFile(d+"/kubectl", []byte(sh), 0o755); err != nil {
		panic(err)
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(exe, args...)
	cmd.Dir = d
	cmd.Env = []string{"PATH=" + d + ":/usr/bin:/bin", "HOME=" + d}
	var out bytes.Buffer
	cmd.Stdout = &out
	err = cmd.Run()
	if ee, ok := err.(*exec.ExitError); ok {
		code = ee.ExitCode()
	} else if err != nil {
		panic(err)
	}
	b, _ := os.ReadFile(d + "/calls")
	var c []string
	for _, f := range strings.Split(string(b), "\x00") {
		if f == "\n" {
			calls = append(calls, c)
			c = nil
			continue
		}
		c = append(c, f)
	}
	return code, out.String(), calls
}

// Catch runs f and returns the text of a panic, or "".
func Catch(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint("panic: ", r)
		}
	}()
	f()
	return ""
}

func finish(why string) {
	if why != "" {
		fmt.Println(why)
	}
	for _, o := range obs {
		fmt.Println("OBS " + o)
	}
	if failed {
		os.Exit(9)
	}
	if why != "" {
		os.Exit(8)
	}
	os.Exit(0)
}

// Exit ends a native replay from within code that never returns.
func Exit() { finish("") }

// Main replays the input file named by VERIF_REPLAY.
func Main(hs map[string]func()) {
	bs, err := os.ReadFile(os.Getenv("VERIF_REPLAY"))
	if err == nil {
		err = json.Unmarshal(bs, &cur)
	}
	if err != nil {
		fmt.Println("cannot read replay:", err)
		os.Exit(7)
	}
	perturbed()
	h := hs[cur.Harness]
	if h == nil {
		fmt.Println("no harness", cur.Harness)
		os.Exit(7)
	}
	defer func() {
		if r := recover(); r != nil {
			fmt.Printf("ASSERT-FAILED no-panic: uncaught panic: %v\n", r)
			failed = true
			finish("")
		}
	}()
	h()
	finish("")
}
