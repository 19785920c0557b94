// verif decides one property of ckube by symbolic execution of its real
// source: see /verif/DESIGN.md.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/engine/vm"
)

var (
	verifDir = flag.String("verif", "/verif", "verification directory")
	repoDir  = flag.String("repo", "/repo", "repository")
	prop     = flag.String("prop", "", "property id")
	only     = flag.String("only", "", "run only harnesses whose name contains this")
	tier     = flag.String("tier", "", "quick or thorough (default $VERIF_TIER)")
	verbose  = flag.Bool("v", false, "verbose")
	budget   = flag.Duration("budget", 0, "wall clock budget for exploration")
	workers  = flag.Int("j", 0, "workers")
	noReplay = flag.Bool("noreplay", false, "do not replay natively")
	nSamples = flag.Int("samples", 0, "paths per harness replayed natively")
	maxViol  = flag.Int("maxviol", 3, "violations kept per assertion")
	level    = flag.String("level", "model_checking", "evidence level")
	dbgPaths = flag.Int64("maxpaths", 0, "stop after this many paths")
)

const modPath = "github.com/DaoCloud/ckube"

type unit struct {
	pkg   string   // import path of the harness package
	rel   string   // directory below the repo
	name  string   // harness directory name
	main  bool     // overlaid into a main package
	funcs []string // Check* functions
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "verif: "+f+"\n", a...)
	os.Exit(2)
}

func goEnv() []string {
	e := os.Environ()
	p := os.Getenv("PATH")
	if g := "/opt/veriftools/go1.23.12/bin"; exists(g) {
		p = g + ":" + p
	}
	return append(e, "PATH="+p, "GOTOOLCHAIN=local", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOSUMDB=off", "GO111MODULE=on")
}

func exists(p string) bool { _, err := os.Stat(p); return err == nil }

// collect maps the harness files of a property onto paths inside the repo.
func collect() (units []*unit, overlay map[string]string) {
	overlay = map[string]string{}
	h := filepath.Join(*verifDir, "harness")
	add := func(dir, target string) {
		es, err := os.ReadDir(dir)
		if err != nil {
			die("%v", err)
		}
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") {
				dst := e.Name()
				if !strings.Contains(target, "zzverif") {
					dst = "zz_verif_" + e.Name()
				}
				overlay[filepath.Join(target, dst)] = filepath.Join(dir, e.Name())
			}
		}
	}
	add(filepath.Join(h, "verifrt"), filepath.Join(*repoDir, "zzverif/verifrt"))
	add(filepath.Join(h, "hlib"), filepath.Join(*repoDir, "zzverif/hlib"))
	add(filepath.Join(h, "model"), filepath.Join(*repoDir, "zzverif/model"))
	id := strings.ToLower(*prop)
	ds, _ := filepath.Glob(filepath.Join(h, id+"*"))
	sort.Strings(ds)
	for _, d := range ds {
		b := filepath.Base(d)
		if b != id && !strings.HasPrefix(b, id+"_") {
			continue
		}
		u := &unit{name: b}
		if t, err := os.ReadFile(filepath.Join(d, "TARGET")); err == nil {
			u.rel = strings.TrimSpace(string(t))
			u.main = true
		} else {
			u.rel = "zzverif/" + b
		}
		u.pkg = modPath + "/" + u.rel
		add(d, filepath.Join(*repoDir, u.rel))
		units = append(units, u)
	}
	if len(units) == 0 {
		die("no harness for property %s", *prop)
	}
	return
}

type result struct {
	unit *unit
	ex   *vm.Explorer
}

func main() {
	flag.Parse()
	if *prop == "" {
		die("-prop is required")
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	thorough := *tier == "thorough"
	if *tier == "" {
		*tier = "quick"
	}
	os.Setenv("VERIF_TIER", *tier)
	if *budget == 0 {
		*budget = 240 * time.Second
		if thorough {
			*budget = 700 * time.Second
		}
	}
	if *nSamples == 0 {
		*nSamples = 6
		if thorough {
			*nSamples = 24
		}
	}
	if *workers == 0 {
		*workers = runtime.NumCPU()
		if *workers > 8 {
			*workers = 8
		}
	}
	start := time.Now()
	units, ov := collect()
	ovb := map[string][]byte{}
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			die("%v", err)
		}
		ovb[dst] = b
	}
	var pats []string
	for _, u := range units {
		pats = append(pats, "./"+u.rel)
	}
	pats = append(pats, "errors", "strconv", "encoding/json", "reflect", "runtime")
	prog, err := vm.Load(*repoDir, goEnv(), ovb, pats...)
	if err != nil {
		die("%v", err)
	}
	loadT := time.Since(start)
	opt := vm.Options{Workers: *workers, StepLimit: 30_000_000, SolverMS: 10000, Verbose: *verbose, MaxViol: *maxViol, Samples: *nSamples,
		Thorough: thorough, MaxPaths: *dbgPaths, Seed: seed(), Solver: solverCmd()}
	opt.Known = map[string]bool{}
	for _, k := range knownFindings() {
		if k.prop == *prop {
			opt.Known[k.assert] = true
		}
	}
	pool := vm.NewPool(prog, opt)
	defer pool.Close()
	var todo []result
	for _, u := range units {
		pk := prog.Pkgs[u.pkg]
		if pk == nil {
			die("package %s not loaded", u.pkg)
		}
		var names []string
		for n, m := range pk.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "Check") && f.Signature.Params().Len() == 0 {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		u.funcs = names
		for _, n := range names {
			if *only != "" && !strings.Contains(n, *only) {
				continue
			}
			todo = append(todo, result{u, vm.NewExplorer(prog, pk.Func(n), opt)})
		}
	}
	if len(todo) == 0 {
		die("no Check functions for %s", *prop)
	}
	deadline := start.Add(*budget)
	found := false
	for i, r := range todo {
		left := time.Until(deadline)
		share := left / time.Duration(len(todo)-i)
		// early harnesses may use up to twice their share
		if i < len(todo)-1 {
			share = share * 2
			if share > left*3/4 {
				share = left * 3 / 4
			}
		}
		if found && share > 15*time.Second {
			share = 15 * time.Second
		}
		r.ex.SetDeadline(time.Now().Add(share))
		pool.Run(r.ex)
		for _, v := range r.ex.Violations {
			found = found || !opt.Known[v.ID]
		}
		if *verbose || os.Getenv("VERIF_SUMMARY") != "" {
			s := &r.ex.Stats
			fmt.Fprintf(os.Stderr, "%s: %.1fs paths=%d ended=%d infeasible=%d limits=%d unsup=%d deadlocks=%d branches=%d domq=%d smt=%d (%.1fs) asserts triv=%d unsat=%d viol=%d reached=%v covers=%v\n",
				r.ex.Name, r.ex.Elapsed.Seconds(), s.Paths, s.Ended, s.Infeasible, s.Limits, s.Unsup, s.Deadlocks, s.Branches, s.DomQueries, s.SolverQueries, s.SolverTime.Seconds(),
				s.AssertTriv, s.AssertUnsat, len(r.ex.Violations), r.ex.Reached, r.ex.Covers)
			for k, n := range r.ex.Unsup {
				fmt.Fprintf(os.Stderr, "   unsupported x%d: %s\n", n, k)
			}
			for k, n := range r.ex.Reduced {
				fmt.Fprintf(os.Stderr, "   reduced x%d: %s\n", n, k)
			}
		}
	}
	os.Exit(report(units, ov, todo, start, loadT))
}

func seed() int64 {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return s
}

// ---- native replay ----

type runner struct {
	dir   string
	bins  map[string]string
	ov    map[string]string
	units []*unit
	mu    sync.Mutex
	seed  atomic.Int64
}

func newRunner(units []*unit, ov map[string]string) *runner {
	d, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		die("%v", err)
	}
	return &runner{dir: d, bins: map[string]string{}, ov: ov, units: units}
}

func (r *runner) close() { os.RemoveAll(r.dir) }

func (r *runner) build(u *unit, race, perturb bool) (string, error) {
	key := u.name
	if race {
		key += "-race"
	}
	if perturb {
		key += "-perturb"
	}
	if b, ok := r.bins[key]; ok {
		return b, nil
	}
	repl := map[string]string{}
	for k, v := range r.ov {
		repl[k] = v
	}
	if perturb {
		if err := r.instrument(repl); err != nil {
			return "", err
		}
	}
	var hs strings.Builder
	q := ""
	if !u.main {
		q = "h."
	}
	for _, f := range u.funcs {
		fmt.Fprintf(&hs, "\t\t%q: %s%s,\n", f, q, f)
	}
	src := filepath.Join(r.dir, u.name+"_main.go")
	var target, text string
	if u.main {
		target = "./" + u.rel
		text = fmt.Sprintf("package main\n\nimport (\n\t\"os\"\n\tverifrt_ %q\n)\n\nfunc init() {\n\tif os.Getenv(\"VERIF_REPLAY\") != \"\" {\n\t\tverifrt_.Main(map[string]func(){\n%s\t\t})\n\t}\n}\n",
			modPath+"/zzverif/verifrt", hs.String())
		repl[filepath.Join(*repoDir, u.rel, "zz_verif_init_.go")] = src
	} else {
		target = "./zzverif/run_" + u.name
		text = fmt.Sprintf("package main\n\nimport (\n\th %q\n\t%q\n)\n\nfunc main() {\n\tverifrt.Main(map[string]func(){\n%s\t})\n}\n",
			u.pkg, modPath+"/zzverif/verifrt", hs.String())
		repl[filepath.Join(*repoDir, "zzverif/run_"+u.name, "main.go")] = src
	}
	if err := os.WriteFile(src, []byte(text), 0o644); err != nil {
		return "", err
	}
	js, _ := json.Marshal(map[string]any{"Replace": repl})
	ovf := filepath.Join(r.dir, key+"_overlay.json")
	if err := os.WriteFile(ovf, js, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(r.dir, key+".bin")
	args := []string{"build", "-overlay", ovf, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, target)
	cmd := exec.Command("go", args...)
	for _, e := range goEnv() {
		if strings.HasPrefix(e, "PATH=/opt/veriftools") {
			cmd.Path = "/opt/veriftools/go1.23.12/bin/go"
		}
	}
	cmd.Dir = *repoDir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, out)
	}
	r.bins[key] = bin
	return bin, nil
}

type outcome struct {
	code  int
	out   string
	obs   []string
	fails map[string]string
	crash bool
}

// instrument makes every statement of the code under test a point where a
// replay may be delayed.
func (r *runner) instrument(repl map[string]string) error {
	return filepath.WalkDir(*repoDir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if n := d.Name(); p != *repoDir && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "vendor" || n == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || repl[p] != "" {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return nil // not part of the build, or the build tells
		}
		at := map[int]bool{}
		list := func(l []ast.Stmt) {
			for _, s := range l {
				at[fset.Position(s.Pos()).Offset] = true
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			}
			return true
		})
		// the clauses of a switch or select are no statements
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.CaseClause, *ast.CommClause:
				delete(at, fset.Position(n.Pos()).Offset)
			}
			return true
		})
		if len(at) == 0 {
			return nil
		}
		var out []byte
		end := fset.Position(f.Name.End()).Offset
		for i, c := range src {
			if at[i] {
				out = append(out, "zzpoint.Point(); "...)
			}
			if i == end {
				out = append(out, fmt.Sprintf("; import zzpoint %q", modPath+"/zzverif/verifrt")...)
			}
			out = append(out, c)
		}
		t := filepath.Join(r.dir, "perturb"+strings.ReplaceAll(strings.TrimPrefix(p, *repoDir), "/", "__"))
		repl[p] = t
		return os.WriteFile(t, out, 0o644)
	})
}

func (r *runner) run(u *unit, file string, race, perturb bool) (*outcome, error) {
	r.mu.Lock()
	bin, err := r.build(u, race, perturb)
	r.mu.Unlock()
	if err != nil {
		return nil, err
	}
	wd, err := os.MkdirTemp(r.dir, "wd")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(wd)
	cmd := exec.Command(bin)
	cmd.Dir = wd
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+file, "GORACE=halt_on_error=0 exitcode=66", "TMPDIR="+wd, "HOME="+wd)
	if perturb {
		cmd.Env = append(cmd.Env, fmt.Sprintf("VERIF_PERTURB=%d", r.seed.Add(1)))
	}
	var sb strings.Builder
	cmd.Stdout = &sb
	cmd.Stderr = &sb
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var werr error
	select {
	case werr = <-done:
	case <-time.After(90 * time.Second):
		_ = cmd.Process.Kill()
		<-done
		return &outcome{code: -1, out: sb.String() + "\n[replay killed after 90s]", fails: map[string]string{"hang": "no progress"}}, nil
	}
	o := &outcome{out: sb.String(), fails: map[string]string{}}
	if ee, ok := werr.(*exec.ExitError); ok {
		o.code = ee.ExitCode()
	}
	for _, l := range strings.Split(o.out, "\n") {
		if strings.HasPrefix(l, "OBS ") {
			o.obs = append(o.obs, l[4:])
		}
		if strings.HasPrefix(l, "ASSERT-FAILED ") {
			id, msg, _ := strings.Cut(l[14:], ": ")
			o.fails[id] = msg
		}
		if strings.HasPrefix(l, "WARNING: DATA RACE") {
			o.fails["race"] = "data race"
		}
	}
	if o.code == 2 && strings.Contains(o.out, "goroutine ") {
		o.crash = true
		o.fails["no-panic"] = firstLine(o.out, "panic:", "fatal error:")
	}
	return o, nil
}

func firstLine(s string, pre ...string) string {
	for _, l := range strings.Split(s, "\n") {
		for _, p := range pre {
			if strings.HasPrefix(l, p) {
				return l
			}
		}
	}
	return ""
}

type replayFile struct {
	Property string           `json:"property"`
	Harness  string           `json:"harness"`
	Assert   string           `json:"assert"`
	Message  string           `json:"message"`
	Inputs   []vm.InputVal    `json:"inputs"`
	Params   map[string]int64 `json:"params"`
	Detail   []string         `json:"detail,omitempty"`
	Observed []string         `json:"observed,omitempty"`
	Native   string           `json:"native,omitempty"`
	Readable []string         `json:"readable,omitempty"`
}

func readable(in []vm.InputVal) (out []string) {
	for _, i := range in {
		if i.Kind == "str" {
			b := make([]byte, len(i.Str))
			for k, c := range i.Str {
				b[k] = byte(c)
			}
			out = append(out, fmt.Sprintf("%s=%q", i.Name, b))
		} else {
			out = append(out, fmt.Sprintf("%s=%d", i.Name, i.Int))
		}
	}
	return
}

type known struct{ prop, assert, text string }

func knownFindings() (ks []known) {
	b, err := os.ReadFile(filepath.Join(*verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		fs := strings.SplitN(l[7:], " ", 3)
		if len(fs) < 3 || !strings.HasPrefix(fs[0], "property=") || !strings.HasPrefix(fs[1], "assert=") {
			continue
		}
		ks = append(ks, known{fs[0][9:], fs[1][7:], fs[2]})
	}
	return
}

func report(units []*unit, ov map[string]string, todo []result, start time.Time, loadT time.Duration) int {
	exploreT := time.Since(start)
	rn := newRunner(units, ov)
	defer rn.close()
	knowns := knownFindings()
	repDir := filepath.Join(*verifDir, "replays", *prop)
	_ = os.MkdirAll(repDir, 0o755)
	if old, _ := filepath.Glob(filepath.Join(repDir, "*.json")); len(old) > 0 {
		for _, f := range old {
			_ = os.Remove(f)
		}
	}
	var warnings []string
	warn := func(f string, a ...any) {
		m := fmt.Sprintf(f, a...)
		warnings = append(warnings, m)
		fmt.Println("NOTE: " + m)
	}
	nviol, nknown := 0, 0
	var replayT time.Duration
	confirmed := map[string]bool{}
	seenKnown := map[string]bool{}
	for _, r := range todo {
		for i, v := range r.ex.Violations {
			if confirmed[r.ex.Name+"/"+v.ID] {
				continue
			}
			file := filepath.Join(repDir, fmt.Sprintf("%s-%s-%d.json", r.ex.Name, strings.ReplaceAll(v.ID, "/", "_"), i))
			rf := replayFile{Property: *prop, Harness: v.Harness, Assert: v.ID, Message: v.Msg, Inputs: v.Inputs, Params: r.ex.Bounds, Detail: v.Detail,
				Observed: v.Observed, Readable: readable(v.Inputs)}
			write := func() {
				b, _ := json.MarshalIndent(rf, "", " ")
				_ = os.WriteFile(file, b, 0o644)
			}
			write()
			ok := *noReplay
			if !ok {
				// map order and scheduling are up to the runtime in a native run
				race := strings.HasPrefix(v.ID, "race")
				attempt := func(perturb bool, tries int, limit time.Duration) {
					t0 := time.Now()
					n := 1
					for k := 0; k < tries && !ok && (k == 0 || time.Since(t0) < limit); k += n {
						if k > 0 {
							n = 8
						}
						outs := make([]*outcome, n)
						errs := make([]error, n)
						var wg sync.WaitGroup
						for j := range outs {
							wg.Add(1)
							go func() {
								defer wg.Done()
								outs[j], errs[j] = rn.run(r.unit, file, race, perturb)
							}()
						}
						wg.Wait()
						for j, o := range outs {
							if errs[j] != nil {
								warn("replay of %s: %v", v.ID, errs[j])
								return
							}
							_, hit := o.fails[v.ID]
							if race && o.fails["race"] != "" {
								hit = true
							}
							if v.ID == "no-panic" && (o.crash || o.fails["no-panic"] != "") {
								hit = true
							}
							if v.ID == "deadlock" && o.fails["hang"] != "" {
								hit = true
							}
							if !hit && len(o.fails) > 0 && !perturb {
								// another assertion of the property fails on the real code
								hit = true
							}
							if !ok {
								rf.Native, ok = o.out, hit
							}
						}
					}
				}
				if replayT < 240*time.Second {
					t0 := time.Now()
					attempt(false, 60, 25*time.Second)
					if !ok && v.Scheduled {
						// a schedule the runtime does not choose on its own
						attempt(true, 500, 60*time.Second)
					}
					replayT += time.Since(t0)
				}
				write()
			}
			if !ok {
				warn("counterexample for %s (%s) did not reproduce on the real code and is not reported: %s %v", v.ID, r.ex.Name, v.Msg, readable(v.Inputs))
				if *verbose {
					fmt.Fprintln(os.Stderr, rf.Native)
				}
				continue
			}
			confirmed[r.ex.Name+"/"+v.ID] = true
			isKnown := false
			for _, k := range knowns {
				if k.prop == *prop && k.assert == v.ID {
					isKnown = true
					if !seenKnown[k.assert] {
						seenKnown[k.assert] = true
						nknown++
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.text)
					}
				}
			}
			if isKnown {
				continue
			}
			nviol++
			fmt.Printf("counterexample: harness %s assertion %s: %s\n", r.ex.Name, v.ID, v.Msg)
			for _, l := range readable(v.Inputs) {
				fmt.Printf("    %s\n", l)
			}
			for _, l := range v.Detail {
				fmt.Printf("    %s\n", l)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, file)
		}
	}
	// translator validation: replay sampled paths on the real code
	validated, mismatched := 0, 0
	var samples []any
	if !*noReplay {
		type job struct {
			r result
			s vm.Sample
		}
		var jobs []job
		for _, r := range todo {
			for _, s := range r.ex.Samples {
				jobs = append(jobs, job{r, s})
			}
		}
		buildOK := true
		for _, u := range units {
			if len(u.funcs) > 0 {
				if _, err := rn.build(u, false, false); err != nil {
					buildOK = false
					warn("%v", err)
				}
			}
		}
		if buildOK {
			var mu sync.Mutex
			var wg sync.WaitGroup
			type failed struct {
				job
				o *outcome
				f string
			}
			var failing []failed
			sem := make(chan bool, *workers)
			for i, j := range jobs {
				wg.Add(1)
				sem <- true
				go func(i int, j job) {
					defer wg.Done()
					defer func() { <-sem }()
					f := filepath.Join(rn.dir, fmt.Sprintf("s%d.json", i))
					b, _ := json.Marshal(replayFile{Property: *prop, Harness: j.s.Harness, Inputs: j.s.Inputs, Params: j.r.ex.Bounds})
					_ = os.WriteFile(f, b, 0o644)
					o, err := rn.run(j.r.unit, f, false, false)
					mu.Lock()
					defer mu.Unlock()
					if err != nil {
						warn("%v", err)
						return
					}
					if len(o.fails) > 0 {
						mismatched++
						failing = append(failing, failed{j, o, f})
						return
					}
					if o.code != 0 || strings.Join(o.obs, "\n") != strings.Join(j.s.Observed, "\n") {
						mismatched++
						warn("executor and real code disagree on %s %v (exit %d):\n  executor: %v\n  real:     %v\n%s", j.s.Harness, readable(j.s.Inputs), o.code, j.s.Observed, o.obs, tail(o.out, 600))
						return
					}
					validated++
					if len(samples) < 8 {
						samples = append(samples, map[string]any{"harness": j.s.Harness, "inputs": readable(j.s.Inputs), "observed": j.s.Observed})
					}
				}(i, j)
			}
			wg.Wait()
			// a concrete failing run of the real code is a violation whatever
			// the executor thought, unless it only failed for lack of time
			t0 := time.Now()
			for _, j := range failing {
				warn("the real code fails %v on a path the executor accepted: %s %v", j.o.fails, j.s.Harness, readable(j.s.Inputs))
				for id := range j.o.fails {
					kn := confirmed[j.s.Harness+"/"+id] || id == "hang"
					for _, k := range knowns {
						if k.prop == *prop && k.assert == id {
							kn = true
						}
					}
					if kn {
						continue
					}
					again := false
					for k := 0; k < 6 && !again && time.Since(t0) < 2*time.Minute; k++ {
						o, err := rn.run(j.r.unit, j.f, false, false)
						if err != nil {
							warn("%v", err)
							break
						}
						_, again = o.fails[id]
					}
					if !again {
						warn("%s of %s failed once only and is not reported", id, j.s.Harness)
						continue
					}
					confirmed[j.s.Harness+"/"+id] = true
					nviol++
					file := filepath.Join(repDir, fmt.Sprintf("%s-%s-native.json", j.s.Harness, strings.ReplaceAll(id, "/", "_")))
					b, _ := json.MarshalIndent(replayFile{Property: *prop, Harness: j.s.Harness, Assert: id, Message: j.o.fails[id], Inputs: j.s.Inputs,
						Params: j.r.ex.Bounds, Native: j.o.out, Readable: readable(j.s.Inputs)}, "", " ")
					_ = os.WriteFile(file, b, 0o644)
					fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, file)
				}
			}
		}
	}
	// evidence
	cov := map[string]any{}
	var tot vm.Stats
	funcs := map[string]bool{}
	bounds := map[string]int64{}
	reached := map[string]int{}
	covers := map[string]int{}
	reduced := map[string]int{}
	var per []any
	vac := true
	for _, r := range todo {
		s := r.ex.Stats
		tot.Add(&s)
		for f := range r.ex.Funcs {
			funcs[f] = true
		}
		for k, v := range r.ex.Bounds {
			bounds[k] = v
		}
		for k, v := range r.ex.Reached {
			reached[k] += v
		}
		for k, v := range r.ex.Covers {
			covers[k] += v
		}
		for k, v := range r.ex.Reduced {
			reduced[k] += v
		}
		for k, v := range r.ex.Unsup {
			reduced["not encodable: "+k] += v
		}
		if s.Ended > 0 && len(r.ex.Reached) > 0 {
			vac = false
		}
		per = append(per, map[string]any{"harness": r.ex.Name, "paths": s.Paths, "completed": s.Ended, "assumption_cut": s.Infeasible, "cut_by_limits": s.Limits,
			"unsupported": s.Unsup, "deadlocked": s.Deadlocks, "seconds": round(r.ex.Elapsed.Seconds()), "exhausted": !r.ex.TimedOut && s.Unsup == 0 && s.Limits == 0})
		if s.Ended == 0 && len(r.ex.Violations) == 0 {
			warn("harness %s completed no path; it decides nothing in this run", r.ex.Name)
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, strings.ReplaceAll(f, modPath+"/", ""))
	}
	sort.Strings(fl)
	exhaustive := len(reduced) == 0
	cov["states"] = tot.Ended
	cov["transitions"] = tot.Branches
	cov["instructions_executed_symbolically"] = tot.Steps
	cov["traces_validated_against_impl"] = validated
	cov["validation_mismatches"] = mismatched
	cov["samples"] = samples
	if samples == nil {
		cov["samples"] = []any{}
	}
	cov["functions_encoded"] = fl
	cov["functions_encoded_count"] = len(fl)
	cov["bounds"] = bounds
	cov["paths"] = tot.Paths
	cov["paths_cut_by_assumptions"] = tot.Infeasible
	cov["queries"] = map[string]any{"smt": tot.SolverQueries, "finite_domain": tot.DomQueries, "smt_unknown": tot.SolverUnknown, "smt_seconds": round(tot.SolverTime.Seconds())}
	cov["assertions"] = map[string]any{"reached": reached, "decided_concrete_on_path": tot.AssertTriv, "decided_unsat": tot.AssertUnsat}
	cov["reachability_witnesses"] = covers
	cov["reduced_bounds"] = reduced
	cov["harnesses"] = per
	cov["exhausted_within_bounds"] = exhaustive
	cov["known_findings_seen"] = nknown
	cov["warnings"] = warnings
	cov["load_s"] = round(loadT.Seconds())
	cov["explore_s"] = round(exploreT.Seconds())
	ev := map[string]any{"property": *prop, "tier": *tier, "seed": seed(), "level": *level, "coverage": cov, "wall_s": round(time.Since(start).Seconds()), "violations": nviol,
		"assumptions": []string{
			"claims hold within the listed bounds only; inputs outside the stated lengths, alphabets and counts are not covered",
			"the Go front end (go/packages, go/ssa), the executor's intrinsics for standard-library primitives and the SMT solver are trusted; sampled paths are replayed on the compiled code to validate the translation",
		}}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(*verifDir, "evidence"), 0o755)
	if *only == "" {
		_ = os.WriteFile(filepath.Join(*verifDir, "evidence", *prop+".json"), b, 0o644)
	}
	fmt.Printf("%s %s: %d harnesses, %d paths completed, %d smt + %d finite-domain queries (%.1fs solver), %d functions, validated %d traces, violations %d, %.1fs\n",
		*prop, *tier, len(todo), tot.Ended, tot.SolverQueries, tot.DomQueries, tot.SolverTime.Seconds(), len(fl), validated, nviol, time.Since(start).Seconds())
	if nviol > 0 {
		return 1
	}
	if vac {
		fmt.Fprintln(os.Stderr, "verif: no assertion was reached on any path; the check decided nothing")
		return 2
	}
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func solverCmd() []string {
	if v := os.Getenv("VERIF_SOLVER"); v != "" {
		return strings.Fields(v)
	}
	for _, c := range []string{"z3-new", "z3"} {
		if p, err := exec.LookPath(c); err == nil {
			return []string{p, "-in"}
		}
	}
	die("no SMT solver found")
	return nil
}
