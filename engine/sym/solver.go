package sym

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Solver is one SMT-LIB2 process. Every query is self-contained: it sends the
// independent slice of constraints between push and pop.
type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	inc      io.Closer
	out      *bufio.Reader
	declared map[int]bool
	Queries  int
	Time     time.Duration
	Errors   int
	Unknowns int
	args     []string
	Log      io.Writer
	isCVC    bool
	tmo      int
}

func NewSolver(timeoutMS int, args ...string) (*Solver, error) {
	s := &Solver{args: args, tmo: timeoutMS}
	s.isCVC = strings.Contains(args[0], "cvc5")
	return s, s.start()
}

func (s *Solver) start() error {
	cmd := exec.Command(s.args[0], s.args[1:]...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	s.cmd, s.inc, s.in, s.out = cmd, in, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	s.declared = map[int]bool{}
	s.send("(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :global-declarations true)\n")
	if s.isCVC {
		s.send("(set-logic QF_BV)\n")
		s.send(fmt.Sprintf("(set-option :tlimit-per %d)\n", s.tmo))
	} else {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n(set-logic QF_BV)\n", s.tmo))
	}
	return nil
}

func (s *Solver) Close() {
	if s.cmd == nil {
		return
	}
	s.in.WriteString("(exit)\n")
	s.in.Flush()
	s.inc.Close()
	done := make(chan bool)
	go func() { s.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Second):
		s.cmd.Process.Kill()
		<-done
	}
	s.cmd = nil
}

func (s *Solver) send(t string) {
	s.in.WriteString(t)
	if s.Log != nil {
		io.WriteString(s.Log, t)
	}
}

func vname(t *Term) string { return "v" + strconv.Itoa(t.Idx) }

type printer struct {
	sb    strings.Builder
	refs  map[*Term]int
	names map[*Term]string
	nlet  int
}

func (p *printer) count(t *Term) {
	if t.Op == OConst || t.Op == OVar {
		return
	}
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	if t.X != nil {
		p.count(t.X)
	}
	if t.Y != nil {
		p.count(t.Y)
	}
	if t.Z != nil {
		p.count(t.Z)
	}
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OUlt: "bvult", OSlt: "bvslt"}

func constStr(t *Term) string {
	if t.W == 0 {
		if t.C == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.C, t.W)
}

func (p *printer) ref(t *Term) string {
	switch t.Op {
	case OConst:
		return constStr(t)
	case OVar:
		return vname(t)
	}
	if n, ok := p.names[t]; ok {
		return n
	}
	return p.body(t)
}

func (p *printer) body(t *Term) string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.Op {
	case OZExt:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.W-t.X.W)
	case OSExt:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.W-t.X.W)
	case OExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", t.C+uint64(t.W)-1, t.C)
	default:
		sb.WriteString(opNames[t.Op])
	}
	for _, a := range []*Term{t.X, t.Y, t.Z} {
		if a != nil {
			sb.WriteByte(' ')
			sb.WriteString(p.ref(a))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

// assertStr renders (assert t), naming shared subterms with nested lets in
// topological (ID) order.
func assertStr(t *Term) string {
	p := &printer{refs: map[*Term]int{}, names: map[*Term]string{}}
	p.count(t)
	var shared []*Term
	for k, n := range p.refs {
		if n > 1 && k != t {
			shared = append(shared, k)
		}
	}
	sort.Slice(shared, func(i, j int) bool { return shared[i].ID < shared[j].ID })
	var sb strings.Builder
	sb.WriteString("(assert ")
	for i, k := range shared {
		b := p.body(k)
		n := "l" + strconv.Itoa(i)
		p.names[k] = n
		sb.WriteString("(let ((" + n + " " + b + ")) ")
	}
	sb.WriteString(p.ref(t))
	for range shared {
		sb.WriteByte(')')
	}
	sb.WriteString(")\n")
	return sb.String()
}

func domStr(v *Term, d *Dom) string {
	// ranges of allowed values
	var sb strings.Builder
	n := 0
	var parts []string
	max := 1 << v.W
	for i := 0; i < max; {
		if !d.Has(uint64(i)) {
			i++
			continue
		}
		j := i
		for j+1 < max && d.Has(uint64(j+1)) {
			j++
		}
		if i == j {
			parts = append(parts, fmt.Sprintf("(= %s (_ bv%d %d))", vname(v), i, v.W))
		} else {
			parts = append(parts, fmt.Sprintf("(and (bvuge %s (_ bv%d %d)) (bvule %s (_ bv%d %d)))", vname(v), i, v.W, vname(v), j, v.W))
		}
		n++
		i = j + 1
	}
	sb.WriteString("(assert (or false")
	for _, p := range parts {
		sb.WriteByte(' ')
		sb.WriteString(p)
	}
	sb.WriteString("))\n")
	return sb.String()
}

// Check decides the conjunction of cs plus the domains of the variables that
// occur, and returns values for those variables when satisfiable.
func (s *Solver) Check(cs []*Term, dom func(v *Term) (Dom, bool)) (Result, map[*Term]uint64) {
	st := time.Now()
	defer func() { s.Time += time.Since(st) }()
	s.Queries++
	var vars []*Term
	seen := map[*Term]bool{}
	for _, t := range cs {
		for _, v := range t.vars {
			if !seen[v] {
				seen[v] = true
				vars = append(vars, v)
			}
		}
	}
	var sb strings.Builder
	for _, v := range vars {
		if !s.declared[v.Idx] {
			s.declared[v.Idx] = true
			if v.W == 0 {
				fmt.Fprintf(&sb, "(declare-const %s Bool)\n", vname(v))
			} else {
				fmt.Fprintf(&sb, "(declare-const %s (_ BitVec %d))\n", vname(v), v.W)
			}
		}
	}
	sb.WriteString("(push 1)\n")
	for _, v := range vars {
		if v.W == 0 || v.W > 8 {
			if v.W == 0 {
				if d, ok := dom(v); ok && d.Count() == 1 {
					if d.Has(1) {
						sb.WriteString("(assert " + vname(v) + ")\n")
					} else {
						sb.WriteString("(assert (not " + vname(v) + "))\n")
					}
				}
			}
			continue
		}
		if d, ok := dom(v); ok && d.Count() < 1<<v.W {
			sb.WriteString(domStr(v, &d))
		}
	}
	for _, t := range cs {
		sb.WriteString(assertStr(t))
	}
	sb.WriteString("(check-sat)\n")
	s.send(sb.String())
	s.in.Flush()
	line, err := s.line()
	if err != nil {
		s.restart()
		s.Unknowns++
		return Unknown, nil
	}
	res := Unknown
	var m map[*Term]uint64
	switch line {
	case "sat":
		res = Sat
		m = map[*Term]uint64{}
		if len(vars) > 0 {
			var g strings.Builder
			g.WriteString("(get-value (")
			for _, v := range vars {
				g.WriteString(vname(v))
				g.WriteByte(' ')
			}
			g.WriteString("))\n")
			s.send(g.String())
			s.in.Flush()
			txt, err := s.sexp()
			if err != nil {
				s.restart()
				s.Unknowns++
				return Unknown, nil
			}
			vals := parseValues(txt)
			for _, v := range vars {
				x, ok := vals[vname(v)]
				if !ok {
					s.Errors++
					res = Unknown
				}
				m[v] = x
			}
		}
	case "unsat":
		res = Unsat
	default:
		if strings.HasPrefix(line, "(error") {
			s.Errors++
		}
		s.Unknowns++
		if line != "unknown" && line != "timeout" {
			s.restart()
			return Unknown, nil
		}
	}
	s.send("(pop 1)\n")
	return res, m
}

func (s *Solver) restart() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	if err := s.start(); err != nil {
		panic(err)
	}
}

func (s *Solver) line() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) sexp() (string, error) {
	var sb strings.Builder
	depth, started := 0, false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
			started = true
		}
		if b == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

func parseValues(s string) map[string]uint64 {
	m := map[string]uint64{}
	toks := strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	for i := 0; i+1 < len(toks); {
		n := toks[i]
		v := toks[i+1]
		i += 2
		switch {
		case v == "true":
			m[n] = 1
		case v == "false":
			m[n] = 0
		case strings.HasPrefix(v, "#x"):
			x, _ := strconv.ParseUint(v[2:], 16, 64)
			m[n] = x
		case strings.HasPrefix(v, "#b"):
			x, _ := strconv.ParseUint(v[2:], 2, 64)
			m[n] = x
		case v == "_":
			// (_ bvN W)
			x, _ := strconv.ParseUint(strings.TrimPrefix(toks[i], "bv"), 10, 64)
			m[n] = x
			i += 2
		}
	}
	return m
}
