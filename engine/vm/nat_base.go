package vm

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/engine/sym"
)

var natives = map[string]natFn{}

// natPkgs supplies intrinsics for whole packages.
var natPkgs = map[string]func(f *ssa.Function) natFn{}

var opaqueMethods = map[string]natFn{}

var globalOverride = map[string]func(w *Worker) Value{}

func skipInit(path string) bool {
	switch path {
	case "runtime", "reflect", "internal/reflectlite", "os", "syscall", "net", "encoding/json", "sync", "internal/poll",
		"crypto/tls", "crypto/x509", "internal/godebug", "internal/cpu", "math/rand", "math/rand/v2", "encoding/gob", "testing",
		"k8s.io/klog/v2", "sigs.k8s.io/json/internal/golang/encoding/json", "log", "log/slog", "internal/bisect", "crypto/rand",
		"github.com/json-iterator/go", "github.com/modern-go/reflect2", "github.com/modern-go/concurrent":
		return true
	}
	for _, p := range []string{"runtime/", "internal/runtime", "golang.org/x/net/http2", "github.com/prometheus/", "github.com/sirupsen/", "vendor/golang.org/x/crypto", "vendor/golang.org/x/sys", "vendor/golang.org/x/net/dns", "vendor/golang.org/x/text",
		"google.golang.org/protobuf", "github.com/gogo/protobuf", "github.com/golang/protobuf", "github.com/google/gnostic", "crypto/"} {
		if strings.HasPrefix(path, p) {
			return true
		}
	}
	return false
}

func zeroResults(f *ssa.Function) Value {
	r := f.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	t := make(Tuple, r.Len())
	for i := range t {
		t[i] = zero(r.At(i).Type())
	}
	return t
}

// noop results: interfaces are inhabited by an inert object.
func noopVal(w *Worker, t types.Type) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		if t.String() == "error" {
			return Iface{}
		}
		return Iface{w.canon(t), &Opaque{Kind: "noop", Data: t}}
	}
	return zero(t)
}

func noopNat(f *ssa.Function) natFn {
	sig := f.Signature
	return func(fr *frame, args []Value) Value {
		r := sig.Results()
		switch r.Len() {
		case 0:
			return nil
		case 1:
			return noopVal(fr.w, r.At(0).Type())
		}
		t := make(Tuple, r.Len())
		for i := range t {
			t[i] = noopVal(fr.w, r.At(i).Type())
		}
		return t
	}
}

func n(name string, f natFn) { natives[name] = f }

func (w *Worker) strOf(v Value) string { return w.concStr(v) }

func errIface(w *Worker, msg Value) Iface {
	t := w.prog.Type("errors", "errorString")
	p := new(Value)
	*p = Struct{msg}
	return Iface{w.canon(types.NewPointer(t)), p}
}

func (fr *frame) strIdx(s, sub Value) int {
	a, ok1 := s.(string)
	b, ok2 := sub.(string)
	if ok1 && ok2 {
		return strings.Index(a, b)
	}
	x, y := strBytes(s), strBytes(sub)
	for i := 0; i+len(y) <= len(x); i++ {
		if fr.w.path.Branch(fr.w.containsAt(x, y, i)) {
			return i
		}
	}
	return -1
}

func intv(i int) Value { return Int(uint64(int64(i))) }

func (w *Worker) containsTerm(s, sub Value) Value {
	a, ok1 := s.(string)
	b, ok2 := sub.(string)
	if ok1 && ok2 {
		return strings.Contains(a, b)
	}
	x, y := strBytes(s), strBytes(sub)
	r := w.ctx.False
	for i := 0; i+len(y) <= len(x); i++ {
		r = w.ctx.Or(r, w.containsAt(x, y, i))
		if r.IsTrue() {
			return true
		}
	}
	return w.mkBool(r)
}

func sliceSB(s Slice) Value { return bytesToStr(s) }

func (w *Worker) asciiOnly(v Value) bool {
	for _, b := range strBytes(v) {
		if b.T == nil {
			if b.C >= 0x80 {
				return false
			}
			continue
		}
		d, ok := w.path.vals(b.T, 0)
		if !ok || d[2]|d[3] != 0 {
			return false
		}
	}
	return true
}

func (fr *frame) caseMap(v Value, lo, hi byte, delta uint64) Value {
	w := fr.w
	b := strBytes(v)
	out := make([]SB, len(b))
	for i, x := range b {
		if x.T == nil {
			if x.C >= lo && x.C <= hi {
				x.C = byte(uint64(x.C) + delta)
			}
			out[i] = x
			continue
		}
		in := w.ctx.And(w.ctx.Not(w.ctx.Ult(x.T, w.ctx.Const(8, uint64(lo)))), w.ctx.Ult(x.T, w.ctx.Const(8, uint64(hi)+1)))
		// no case change when the set cannot contain such letters
		if r, ok := w.path.rangeDecide(in); ok && !r {
			out[i] = x
			continue
		}
		out[i] = valSB(mkInt(w.ctx.Ite(in, w.ctx.Bin(sym.OAdd, x.T, w.ctx.Const(8, delta)), x.T)))
	}
	return mkStr(out)
}

func init() {
	// ---- strings, bytes ----
	n("strings.Contains", func(fr *frame, a []Value) Value { return fr.w.containsTerm(a[0], a[1]) })
	n("strings.Index", func(fr *frame, a []Value) Value { return intv(fr.strIdx(a[0], a[1])) })
	n("bytes.Index", func(fr *frame, a []Value) Value { return intv(fr.strIdx(sliceSB(a[0].(Slice)), sliceSB(a[1].(Slice)))) })
	n("bytes.Contains", func(fr *frame, a []Value) Value {
		return fr.w.containsTerm(sliceSB(a[0].(Slice)), sliceSB(a[1].(Slice)))
	})
	idxByte := func(fr *frame, s Value, c Value) Value {
		if str, ok := s.(string); ok {
			if k, ok := c.(Int); ok {
				return intv(strings.IndexByte(str, byte(k)))
			}
		}
		return intv(fr.strIdx(s, mkStr([]SB{valSB(c)})))
	}
	n("strings.IndexByte", func(fr *frame, a []Value) Value { return idxByte(fr, a[0], a[1]) })
	n("internal/bytealg.IndexByteString", func(fr *frame, a []Value) Value { return idxByte(fr, a[0], a[1]) })
	n("internal/stringslite.IndexByte", func(fr *frame, a []Value) Value { return idxByte(fr, a[0], a[1]) })
	n("internal/stringslite.Index", func(fr *frame, a []Value) Value { return intv(fr.strIdx(a[0], a[1])) })
	n("internal/bytealg.IndexString", func(fr *frame, a []Value) Value { return intv(fr.strIdx(a[0], a[1])) })
	n("internal/bytealg.IndexByte", func(fr *frame, a []Value) Value { return idxByte(fr, sliceSB(a[0].(Slice)), a[1]) })
	n("bytes.IndexByte", func(fr *frame, a []Value) Value { return idxByte(fr, sliceSB(a[0].(Slice)), a[1]) })
	lastByte := func(fr *frame, s Value, c Value) Value {
		x, y := strBytes(s), []SB{valSB(c)}
		for i := len(x) - 1; i >= 0; i-- {
			if fr.w.path.Branch(fr.w.containsAt(x, y, i)) {
				return intv(i)
			}
		}
		return intv(-1)
	}
	n("internal/bytealg.LastIndexByteString", func(fr *frame, a []Value) Value { return lastByte(fr, a[0], a[1]) })
	n("internal/bytealg.LastIndexByte", func(fr *frame, a []Value) Value { return lastByte(fr, sliceSB(a[0].(Slice)), a[1]) })
	n("strings.LastIndexByte", func(fr *frame, a []Value) Value { return lastByte(fr, a[0], a[1]) })
	n("strings.LastIndex", func(fr *frame, a []Value) Value {
		x, y := strBytes(a[0]), strBytes(a[1])
		for i := len(x) - len(y); i >= 0; i-- {
			if fr.w.path.Branch(fr.w.containsAt(x, y, i)) {
				return intv(i)
			}
		}
		return intv(-1)
	})
	count := func(fr *frame, s, sub Value) Value {
		a, ok1 := s.(string)
		b, ok2 := sub.(string)
		if ok1 && ok2 {
			return intv(strings.Count(a, b))
		}
		if strLen(sub) == 0 {
			panic(unsupported("strings.Count of symbolic string with empty separator"))
		}
		c := 0
		x, y := strBytes(s), strBytes(sub)
		for i := 0; i+len(y) <= len(x); {
			if fr.w.path.Branch(fr.w.containsAt(x, y, i)) {
				c++
				i += len(y)
			} else {
				i++
			}
		}
		return intv(c)
	}
	n("strings.Count", func(fr *frame, a []Value) Value { return count(fr, a[0], a[1]) })
	n("internal/bytealg.CountString", func(fr *frame, a []Value) Value { return count(fr, a[0], mkStr([]SB{valSB(a[1])})) })
	n("internal/bytealg.Count", func(fr *frame, a []Value) Value {
		return count(fr, sliceSB(a[0].(Slice)), mkStr([]SB{valSB(a[1])}))
	})
	n("bytes.Equal", func(fr *frame, a []Value) Value { return fr.w.strEq(sliceSB(a[0].(Slice)), sliceSB(a[1].(Slice))) })
	n("internal/bytealg.Equal", natives["bytes.Equal"])
	cmp := func(fr *frame, a, b Value) Value {
		x, ok1 := a.(string)
		y, ok2 := b.(string)
		if ok1 && ok2 {
			return intv(strings.Compare(x, y))
		}
		w := fr.w
		eq, lt := w.boolTerm(w.strEq(a, b)), w.boolTerm(w.strLess(a, b))
		c := w.ctx
		return mkInt(c.Ite(eq, c.Const(64, 0), c.Ite(lt, c.Const(64, math.MaxUint64), c.Const(64, 1))))
	}
	n("strings.Compare", func(fr *frame, a []Value) Value { return cmp(fr, a[0], a[1]) })
	n("internal/bytealg.CompareString", func(fr *frame, a []Value) Value { return cmp(fr, a[0], a[1]) })
	n("bytes.Compare", func(fr *frame, a []Value) Value { return cmp(fr, sliceSB(a[0].(Slice)), sliceSB(a[1].(Slice))) })
	n("internal/bytealg.Compare", natives["bytes.Compare"])
	n("internal/bytealg.MakeNoZero", func(fr *frame, a []Value) Value {
		k := int(fr.concInt(a[0]))
		s := make(Slice, k)
		for i := range s {
			s[i] = Int(0)
		}
		return s
	})
	n("(*strings.Builder).copyCheck", func(fr *frame, a []Value) Value { return nil })
	n("strings.ToLower", func(fr *frame, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return strings.ToLower(s)
		}
		if fr.w.asciiOnly(a[0]) {
			return fr.caseMap(a[0], 'A', 'Z', 32)
		}
		return strings.ToLower(fr.w.concStr(a[0]))
	})
	n("strings.ToUpper", func(fr *frame, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return strings.ToUpper(s)
		}
		if fr.w.asciiOnly(a[0]) {
			neg := int64(-32)
			return fr.caseMap(a[0], 'a', 'z', uint64(neg))
		}
		return strings.ToUpper(fr.w.concStr(a[0]))
	})
	n("unicode/utf8.DecodeRuneInString", func(fr *frame, a []Value) Value {
		if strLen(a[0]) == 0 {
			return Tuple{Int(0xFFFD), Int(0)}
		}
		r, k := fr.decodeRune(strBytes(a[0]), 0)
		return Tuple{r, intv(k)}
	})
	n("unicode/utf8.DecodeRune", func(fr *frame, a []Value) Value {
		s := a[0].(Slice)
		if len(s) == 0 {
			return Tuple{Int(0xFFFD), Int(0)}
		}
		if len(s) > 4 {
			s = s[:4]
		}
		r, k := fr.decodeRune(strBytes(bytesToStr(s)), 0)
		return Tuple{r, intv(k)}
	})
	n("unicode/utf8.ValidString", func(fr *frame, a []Value) Value {
		if fr.w.asciiOnly(a[0]) {
			return true
		}
		b := strBytes(a[0])
		for i := 0; i < len(b); {
			r, k := fr.decodeRune(b, i)
			if ri, ok := r.(Int); ok && ri == 0xFFFD && k == 1 {
				return false
			}
			i += k
		}
		return true
	})
	n("strings.EqualFold", func(fr *frame, a []Value) Value {
		x, ok1 := a[0].(string)
		y, ok2 := a[1].(string)
		if ok1 && ok2 {
			return strings.EqualFold(x, y)
		}
		if fr.w.asciiOnly(a[0]) && fr.w.asciiOnly(a[1]) {
			return fr.w.strEq(fr.caseMap(a[0], 'A', 'Z', 32), fr.caseMap(a[1], 'A', 'Z', 32))
		}
		return strings.EqualFold(fr.w.concStr(a[0]), fr.w.concStr(a[1]))
	})

	n("strings.Clone", func(fr *frame, a []Value) Value { return a[0] })
	n("internal/stringslite.Clone", func(fr *frame, a []Value) Value { return a[0] })

	// ---- strconv ----
	fmtInt := func(fr *frame, v Value, base int, signed bool) Value {
		switch x := v.(type) {
		case Int:
			if signed {
				return strconv.FormatInt(int64(x), base)
			}
			return strconv.FormatUint(uint64(x), base)
		case *sym.Term:
			if base == 10 {
				return fr.fmtDec(x, signed)
			}
			c := fr.w.path.Concretize(x)
			if signed {
				return strconv.FormatInt(sym.SignExt(c, x.W), base)
			}
			return strconv.FormatUint(c, base)
		}
		panic("fmtInt")
	}
	n("strconv.Itoa", func(fr *frame, a []Value) Value { return fmtInt(fr, a[0], 10, true) })
	n("strconv.FormatInt", func(fr *frame, a []Value) Value { return fmtInt(fr, a[0], int(fr.concInt(a[1])), true) })
	n("strconv.FormatUint", func(fr *frame, a []Value) Value { return fmtInt(fr, a[0], int(fr.concInt(a[1])), false) })
	n("strconv.AppendInt", func(fr *frame, a []Value) Value {
		return fr.w.appendSlice(a[0].(Slice), strToBytes(fmtInt(fr, a[1], int(fr.concInt(a[2])), true)))
	})
	n("strconv.ParseFloat", func(fr *frame, a []Value) Value { return fr.parseFloat(a[0], int(fr.concInt(a[1]))) })
	n("strconv.FormatFloat", func(fr *frame, a []Value) Value {
		if f, ok := a[0].(float64); ok {
			return strconv.FormatFloat(f, byte(fr.concInt(a[1])), int(fr.concInt(a[2])), int(fr.concInt(a[3])))
		}
		panic(unsupported("FormatFloat of a symbolic value"))
	})

	// ---- math ----
	mf := func(name string, f func(float64) float64) {
		n("math."+name, func(fr *frame, a []Value) Value {
			if x, ok := a[0].(float64); ok {
				return f(x)
			}
			if x, ok := a[0].(*FInt); ok && (name == "Floor" || name == "Ceil" || name == "Trunc") {
				return x
			}
			panic(unsupported("math." + name))
		})
	}
	mf("Floor", math.Floor)
	mf("Ceil", math.Ceil)
	mf("Trunc", math.Trunc)
	mf("Abs", math.Abs)
	mf("Sqrt", math.Sqrt)
	mf("Log", math.Log)
	mf("Log2", math.Log2)
	mf("Log10", math.Log10)
	mf("Exp", math.Exp)
	n("math.Pow", func(fr *frame, a []Value) Value { return math.Pow(a[0].(float64), a[1].(float64)) })
	n("math.IsNaN", func(fr *frame, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return math.IsNaN(x)
		}
		return false
	})
	n("math.IsInf", func(fr *frame, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return math.IsInf(x, int(fr.concInt(a[1])))
		}
		return false
	})
	n("math.Float64bits", func(fr *frame, a []Value) Value { return Int(math.Float64bits(a[0].(float64))) })
	n("math.Float64frombits", func(fr *frame, a []Value) Value { return math.Float64frombits(uint64(a[0].(Int))) })
	n("math.Float32bits", func(fr *frame, a []Value) Value { return Int(math.Float32bits(float32(a[0].(float64)))) })
	n("math.Float32frombits", func(fr *frame, a []Value) Value {
		return float64(math.Float32frombits(uint32(a[0].(Int))))
	})

	// ---- runtime, os, misc ----
	for _, s := range []string{"runtime/debug.PrintStack", "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer"} {
		n(s, func(fr *frame, a []Value) Value { return nil })
	}
	n("runtime.Gosched", func(fr *frame, a []Value) Value {
		if fr.w.initing == 0 {
			fr.yield()
		}
		return nil
	})
	n("runtime/debug.Stack", func(fr *frame, a []Value) Value { return Slice(nil) })
	n("runtime.Stack", func(fr *frame, a []Value) Value { return Int(0) })
	n("runtime.Callers", func(fr *frame, a []Value) Value { return Int(0) })
	n("runtime.Caller", func(fr *frame, a []Value) Value { return Tuple{Int(0), "", Int(0), false} })
	n("runtime.NumGoroutine", func(fr *frame, a []Value) Value { return Int(1) })
	n("runtime.GOMAXPROCS", func(fr *frame, a []Value) Value { return Int(8) })
	n("runtime.NumCPU", func(fr *frame, a []Value) Value { return Int(8) })
	n("(runtime.errorString).Error", func(fr *frame, a []Value) Value { return a[0] })
	n("(runtime.errorString).RuntimeError", func(fr *frame, a []Value) Value { return nil })
	n("os.Getenv", func(fr *frame, a []Value) Value {
		if e, ok := fr.w.side["env"].(map[string]Value); ok {
			if v, ok := e[fr.w.concStr(a[0])]; ok {
				return v
			}
		}
		return ""
	})
	n("os.LookupEnv", func(fr *frame, a []Value) Value {
		if e, ok := fr.w.side["env"].(map[string]Value); ok {
			if v, ok := e[fr.w.concStr(a[0])]; ok {
				return Tuple{v, true}
			}
		}
		return Tuple{"", false}
	})
	n("os.Getpid", func(fr *frame, a []Value) Value { return Int(1) })
	n("internal/godebug.New", func(fr *frame, a []Value) Value { p := new(Value); *p = Struct{a[0]}; return p })
	n("(*internal/godebug.Setting).Value", func(fr *frame, a []Value) Value { return "" })
	n("(*internal/godebug.Setting).IncNonDefault", func(fr *frame, a []Value) Value { return nil })
	n("(*internal/godebug.Setting).Name", func(fr *frame, a []Value) Value { return "" })
	n("internal/race.Enabled", func(fr *frame, a []Value) Value { return false })
	n("math/rand.Int63", func(fr *frame, a []Value) Value { return Int(4) })
	n("math/rand.Float64", func(fr *frame, a []Value) Value { return float64(0.5) })
	n("math/rand.Intn", func(fr *frame, a []Value) Value { return Int(0) })
	n("math/rand.Int63n", func(fr *frame, a []Value) Value { return Int(0) })
	n("hash/maphash.MakeSeed", func(fr *frame, a []Value) Value { return Struct{Int(1)} })

	// ---- time ----
	n("time.initLocal", func(fr *frame, a []Value) Value { return nil })
	n("time.Now", func(fr *frame, a []Value) Value { return fr.w.timeNow() })
	n("time.runtimeNano", func(fr *frame, a []Value) Value { return Int(uint64(fr.w.now())) })
	n("time.now", func(fr *frame, a []Value) Value {
		return Tuple{Int(1700000000 + uint64(fr.w.now())/1e9), Int(0), Int(uint64(fr.w.now()))}
	})
	n("time.Since", func(fr *frame, a []Value) Value { return Int(0) })
	n("time.Until", func(fr *frame, a []Value) Value {
		// remaining = t - now, on the virtual clock
		t := a[0].(Struct)
		ext, ok := t[1].(Int)
		if !ok {
			panic(unsupported("time.Until of symbolic time"))
		}
		cur := fr.w.timeNow()
		return Int((uint64(ext) - uint64(cur[1].(Int))) * 1e9)
	})
	n("time.Sleep", func(fr *frame, a []Value) Value {
		d := fr.concInt(a[0])
		s := fr.w.sched
		if s == nil {
			return nil
		}
		fired := false
		s.timers = append(s.timers, &timer{at: s.now + d, fire: func() { fired = true }})
		fr.wait(func() bool { return fired })
		return nil
	})
	n("time.After", func(fr *frame, a []Value) Value {
		ch := &Chan{cap: 1}
		s := fr.w.sched
		w := fr.w
		s.timers = append(s.timers, &timer{at: s.now + fr.concInt(a[0]), fire: func() { ch.buf = append(ch.buf, w.timeNow()) }})
		return ch
	})
	mkTimer := func(fr *frame, d int64, ch *Chan, f *Closure) Value {
		p := new(Value)
		var c Value = (*Chan)(nil)
		if ch != nil {
			c = ch
		}
		*p = Struct{c, false}
		w := fr.w
		t := &timer{at: w.sched.now + d}
		t.fire = func() {
			if f != nil {
				g := &frame{w: w, g: w.sched.cur, f: &fn{name: "timer", recover: -1}}
				w.spawn(g, func(fr *frame) { fr.callClosure(f) })
			} else {
				ch.buf = append(ch.buf, w.timeNow())
			}
		}
		w.sched.timers = append(w.sched.timers, t)
		w.side[p] = t
		return p
	}
	n("time.AfterFunc", func(fr *frame, a []Value) Value { return mkTimer(fr, fr.concInt(a[0]), nil, a[1].(*Closure)) })
	n("time.NewTimer", func(fr *frame, a []Value) Value { return mkTimer(fr, fr.concInt(a[0]), &Chan{cap: 1}, nil) })
	n("(*time.Timer).Stop", func(fr *frame, a []Value) Value {
		t, _ := fr.w.side[a[0].(*Value)].(*timer)
		if t == nil || t.dead {
			return false
		}
		t.dead = true
		return true
	})
	n("(*time.Timer).Reset", func(fr *frame, a []Value) Value { return false })

	// ---- noop packages ----
	for _, p := range []string{"github.com/sirupsen/logrus", "k8s.io/klog/v2", "github.com/prometheus/client_golang/prometheus",
		"github.com/prometheus/client_golang/prometheus/promauto", "github.com/prometheus/client_golang/prometheus/promhttp",
		"log", "k8s.io/apimachinery/pkg/util/runtime", "k8s.io/utils/trace", "log/slog", "runtime/trace"} {
		natPkgs[p] = func(f *ssa.Function) natFn {
			if f.Name() == "init" {
				return noopNat(f)
			}
			return noopNat(f)
		}
	}
	mod := "github.com/DaoCloud/ckube/zzverif/model."
	newVec := func(fr *frame, a []Value) Value {
		in, out := new(Value), new(Value)
		*in = Int(0)
		*out = Struct{in}
		return out
	}
	vecOf := func(fr *frame, a []Value) Value { return (*a[0].(*Value)).(Struct)[0] }
	n(mod+"newGaugeVec", newVec)
	n(mod+"newCounterVec", newVec)
	n(mod+"gaugeVec", vecOf)
	n(mod+"counterVec", vecOf)
	ex := map[string]bool{"k8s.io/apimachinery/pkg/util/runtime.Must": true}
	old := natPkgs["k8s.io/apimachinery/pkg/util/runtime"]
	natPkgs["k8s.io/apimachinery/pkg/util/runtime"] = func(f *ssa.Function) natFn {
		if ex[f.String()] {
			return func(fr *frame, a []Value) Value { return nil }
		}
		return old(f)
	}
}

func (w *Worker) now() int64 {
	if w.sched == nil {
		return 0
	}
	return w.sched.now
}

// timeNow is a time.Time without monotonic reading, UTC.
func (w *Worker) timeNow() Struct {
	sec := uint64(1700000000+62135596800) + uint64(w.now())/uint64(time.Second)
	return Struct{Int(0), Int(sec), (*Value)(nil)}
}

// fmtDec renders a symbolic integer in base 10, forking on its length.
func (fr *frame) fmtDec(x *sym.Term, signed bool) Value {
	w := fr.w
	c := w.ctx
	t := x
	var out []SB
	if t.W < 64 {
		if signed {
			t = c.SExt(t, 64)
		} else {
			t = c.ZExt(t, 64)
		}
	}
	if signed {
		if w.path.Branch(c.Slt(t, c.Const(64, 0))) {
			out = append(out, SB{C: '-'})
			t = c.Neg(t)
		}
	}
	pow := uint64(10)
	digits := 1
	for digits < 20 {
		if digits == 19 {
			if signed {
				break
			}
		}
		if w.path.Branch(c.Ult(t, c.Const(64, pow))) {
			break
		}
		digits++
		if digits < 20 {
			pow *= 10
		}
	}
	p := uint64(1)
	for i := 1; i < digits; i++ {
		p *= 10
	}
	for i := 0; i < digits; i++ {
		q := t
		if p > 1 {
			q = c.Bin(sym.OUDiv, t, c.Const(64, p))
		}
		d := c.Bin(sym.OURem, q, c.Const(64, 10))
		out = append(out, valSB(mkInt(c.Bin(sym.OAdd, c.Trunc(d, 8), c.Const(8, '0')))))
		p /= 10
	}
	// remember the source so that parsing the digits back is exact
	s := mkStr(out)
	if ss, ok := s.(*SymStr); ok {
		fr.w.noteDec(ss, x, signed)
	}
	return s
}

type decNote struct {
	x      *sym.Term
	signed bool
}

func decKey(b []SB) string {
	var sb strings.Builder
	for _, x := range b {
		if x.T == nil {
			fmt.Fprintf(&sb, "c%d,", x.C)
		} else {
			fmt.Fprintf(&sb, "t%d,", x.T.ID)
		}
	}
	return sb.String()
}

func (w *Worker) noteDec(s *SymStr, x *sym.Term, signed bool) {
	w.side["dec:"+decKey(s.B)] = decNote{x, signed}
	b := s.B
	if b[0].T == nil && b[0].C == '-' {
		b = b[1:]
	}
	if len(b) > 0 && b[0].T != nil {
		w.side[decFirst(b[0].T.ID)] = b
	}
}

func (w *Worker) lookupDec(b []SB) (decNote, bool) {
	d, ok := w.side["dec:"+decKey(b)].(decNote)
	return d, ok
}

// parseDec parses an optionally signed run of symbolic digits (at most 18),
// branching on digit-ness; ok=false when it is not of that form.
func (fr *frame) parseDec(b []SB) (*sym.Term, bool) {
	w := fr.w
	c := w.ctx
	if d, ok := w.lookupDec(b); ok {
		t := d.x
		if t.W < 64 {
			if d.signed {
				t = c.SExt(t, 64)
			} else {
				t = c.ZExt(t, 64)
			}
		}
		return t, true
	}
	i := 0
	neg := false
	if len(b) == 0 {
		return nil, false
	}
	is := func(x SB, ch byte) bool {
		if x.T == nil {
			return x.C == ch
		}
		return w.path.Branch(c.Eq(x.T, c.Const(8, uint64(ch))))
	}
	if is(b[0], '-') {
		neg = true
		i = 1
	} else if is(b[0], '+') {
		i = 1
	}
	if i == len(b) || len(b)-i > 15 {
		return nil, false
	}
	acc := c.Const(64, 0)
	for ; i < len(b); i++ {
		t := w.term(b[i])
		dig := c.And(c.Not(c.Ult(t, c.Const(8, '0'))), c.Ult(t, c.Const(8, '9'+1)))
		if !w.path.Branch(dig) {
			return nil, false
		}
		acc = c.Bin(sym.OAdd, c.Bin(sym.OMul, acc, c.Const(64, 10)), c.ZExt(c.Bin(sym.OSub, t, c.Const(8, '0')), 64))
	}
	if neg {
		acc = c.Neg(acc)
	}
	return acc, true
}

func (fr *frame) parseFloat(s Value, bits int) Value {
	w := fr.w
	mkErr := func(str string, err error) Value {
		ne := err.(*strconv.NumError)
		p := new(Value)
		base := "ErrSyntax"
		if ne.Err == strconv.ErrRange {
			base = "ErrRange"
		}
		var inner Value = Iface{}
		if g := w.prog.Pkgs["strconv"].Var(base); g != nil {
			inner = *w.global(g)
		}
		*p = Struct{"ParseFloat", str, inner}
		return Iface{w.canon(types.NewPointer(w.prog.Type("strconv", "NumError"))), p}
	}
	if str, ok := s.(string); ok {
		f, err := strconv.ParseFloat(str, bits)
		if err != nil {
			return Tuple{f, mkErr(str, err)}
		}
		return Tuple{f, Iface{}}
	}
	b := s.(*SymStr).B
	if t, ok := fr.parseDec(b); ok {
		if _, noted := w.lookupDec(b); noted {
			// beyond 2^53 the float is a rounded integer
			c := w.ctx
			lim := c.Const(64, 1<<53)
			if w.path.Branch(c.Or(c.Slt(lim, t), c.Slt(t, c.Neg(lim)))) {
				f, _ := strconv.ParseFloat(w.concStr(s), bits)
				return Tuple{f, Iface{}}
			}
		}
		// "-0" is a float with a sign; comparisons treat it as 0, so the
		// integer view is exact for ordering.
		return Tuple{&FInt{t}, Iface{}}
	}
	str := w.concStr(s)
	f, err := strconv.ParseFloat(str, bits)
	if err != nil {
		return Tuple{f, mkErr(str, err)}
	}
	return Tuple{f, Iface{}}
}
