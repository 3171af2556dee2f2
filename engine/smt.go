package main

// SMT solver back end: one live z3 process per worker plus one-shot portfolio fallback.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Stats struct {
	queries, sat, unsat, unknown int64
	fallback                     int64
	linear, guess                int64
	solverNS                     int64
	asserts, assertsConst        int64
	inconclusive                 int64
}

var stats Stats

var solverCmd = []string{"z3-new", "-in"}
var fallbackCmds = [][]string{{"z3-new", "-in"}, {"z3", "-in"}, {"cvc5", "--lang=smt2", "--produce-models", "-"}}
var debugSMT = os.Getenv("GOSYM_SMT") != ""

type Solver struct {
	bank    *Bank
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	gen     int
	defs    int
	stack   []*Term
	buf     strings.Builder
	apps    map[string]bool
	timeout int
	curTO   int
	logf    io.Writer

	// abs is a second live solver in which every product and quotient of two unknowns is an arbitrary number within
	// its interval: what is unsatisfiable there is unsatisfiable.
	abs, lin *Solver
	abstract bool
	slot     int
	vars     map[*Term][]*Term
	monos    map[*Term]int // abstracted terms whose bounds are asserted, and at which level
}

func NewSolver(b *Bank) *Solver {
	s := &Solver{bank: b, timeout: 4000}
	s.abs = &Solver{bank: b, timeout: 1500, abstract: true, slot: 1}
	return s
}

// bounds returns the interval constraints of the abstracted terms below t which are not asserted yet.
func (s *Solver) bounds(t *Term, level int, to []string) []string {
	if !t.nl {
		return to
	}
	if t.op == OMul || t.op == ORDiv {
		if _, ok := s.monos[t]; !ok {
			s.monos[t] = level
			r := s.emit(t)
			if !math.IsInf(t.lo, 0) && t.lo > -1e300 {
				to = append(to, "(<= "+numStr(t.lo, t.sort, false)+" "+r+")")
			}
			if !math.IsInf(t.hi, 0) && t.hi < 1e300 {
				to = append(to, "(<= "+r+" "+numStr(t.hi, t.sort, true)+")")
			}
		}
		return to
	}
	for _, a := range t.args {
		to = s.bounds(a, level, to)
	}
	return to
}

// monoVars lists the unknowns which occur in products and quotients.
func monoVars(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	var all func(t *Term)
	all = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar && t.sort != SBool {
			r = append(r, t)
		}
		for _, a := range t.args {
			all(a)
		}
	}
	done := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.nl || done[t] {
			return
		}
		done[t] = true
		if t.op == OMul || t.op == ORDiv {
			all(t)
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		if t != nil {
			walk(t)
		}
	}
	return r
}

// slice keeps the conjuncts which are connected to the query by common unknowns. The others are satisfiable on their own
// as the path condition is.
func (s *Solver) slice(pc []*Term, extra *Term) []*Term {
	if s.vars == nil || len(s.vars) > 200000 {
		s.vars = map[*Term][]*Term{}
	}
	in := map[*Term]bool{}
	for _, v := range s.varsOf(extra) {
		in[v] = true
	}
	used := make([]bool, len(pc))
	for again := true; again; {
		again = false
		for i, t := range pc {
			if used[i] {
				continue
			}
			vs := s.varsOf(t)
			hit := len(vs) == 0
			for _, v := range vs {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				for _, v := range vs {
					if !in[v] {
						in[v] = true
						again = true
					}
				}
			}
		}
	}
	var r []*Term
	for i, t := range pc {
		if used[i] {
			r = append(r, t)
		}
	}
	return r
}

// varsOf lists the unknowns and uninterpreted functions of a term.
func (s *Solver) varsOf(t *Term) []*Term {
	if r, ok := s.vars[t]; ok {
		return r
	}
	seen := map[*Term]bool{}
	apps := map[string]bool{}
	var r []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar {
			r = append(r, t)
		}
		if t.op == OApp && !apps[t.name] {
			apps[t.name] = true
			r = append(r, s.bank.Var("app!"+t.name, SInt, 0, 0))
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	s.vars[t] = r
	return r
}

func numStr(f float64, so Sort, up bool) string {
	if so == SInt {
		if up {
			f = math.Floor(f)
		} else {
			f = math.Ceil(f)
		}
	}
	r := new(big.Rat).SetFloat64(f)
	n := r.Num()
	neg := n.Sign() < 0
	str := new(big.Int).Abs(n).String()
	if so == SReal {
		str = "(/ " + str + ".0 " + r.Denom().String() + ".0)"
	}
	if neg {
		str = "(- " + str + ")"
	}
	return str
}

func (s *Solver) start() {
	s.stop()
	s.gen++
	s.defs = 0
	s.stack = nil
	s.apps = map[string]bool{}
	s.monos = map[*Term]int{}
	s.curTO = 0
	s.cmd = exec.Command(solverCmd[0], solverCmd[1:]...)
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	if err := s.cmd.Start(); err != nil {
		fatal("cannot start solver: %v", err)
	}
	if debugSMT && s.logf == nil {
		f, _ := os.Create(fmt.Sprintf("/tmp/gosym-%d-%p.smt2", os.Getpid(), s))
		s.logf = f
	}
	s.buf.Reset()
	s.buf.WriteString("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
}

func (s *Solver) stop() {
	if s.abs != nil {
		s.abs.stop()
	}
	if s.lin != nil {
		s.lin.stop()
	}
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) flush() error {
	str := s.buf.String()
	s.buf.Reset()
	if s.logf != nil {
		io.WriteString(s.logf, str)
	}
	_, err := io.WriteString(s.in, str)
	return err
}

// emit makes sure t (and subterms) are declared and returns its printed reference.
func (s *Solver) emit(t *Term) string {
	k := s.slot
	if t.smtGen[k] == s.gen && t.smt[k] != "" {
		return t.smt[k]
	}
	if s.abstract && (t.op == OMul || t.op == ORDiv) {
		t.smt[k] = "m" + strconv.Itoa(t.id)
		fmt.Fprintf(&s.buf, "(declare-const %s %s)\n", t.smt[k], t.sort)
		t.smtGen[k] = s.gen
		return t.smt[k]
	}
	switch t.op {
	case OVar:
		fmt.Fprintf(&s.buf, "(declare-const %s %s)\n", t.name, t.sort)
		t.smt[k] = t.name
	case OConst:
		t.smt[k] = t.body(nil)
	case OApp:
		if !s.apps[t.name] {
			s.apps[t.name] = true
			fmt.Fprintf(&s.buf, "(declare-fun %s (%s) Int)\n", t.name, strings.TrimSpace(strings.Repeat("Int ", len(t.args))))
		}
		fallthrough
	default:
		body := t.body(s.emit)
		if t.size > 6 {
			n := "d" + strconv.Itoa(t.id)
			fmt.Fprintf(&s.buf, "(define-fun %s () %s %s)\n", n, t.sort, body)
			s.defs++
			t.smt[k] = n
		} else {
			t.smt[k] = body
		}
	}
	t.smtGen[k] = s.gen
	return t.smt[k]
}

func (s *Solver) sync(pc []*Term) {
	if s.cmd == nil || s.defs > 60000 {
		s.start()
	}
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if n < len(s.stack) {
		fmt.Fprintf(&s.buf, "(pop %d)\n", len(s.stack)-n)
		s.stack = s.stack[:n]
		for t, l := range s.monos {
			if l > n {
				delete(s.monos, t)
			}
		}
	}
	for _, t := range pc[n:] {
		r := s.emit(t)
		if s.abstract && t.nl {
			if bs := s.bounds(t, len(s.stack)+1, nil); len(bs) > 0 {
				r = "(and " + r + " " + strings.Join(bs, " ") + ")"
			}
		}
		fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n", r)
		s.stack = append(s.stack, t)
	}
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if depth == 0 && sb.Len() == 0 && (c == '\n' || c == ' ' || c == '\r') {
			continue
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
		if depth == 0 && c == '\n' {
			return sb.String(), nil
		}
	}
}

// Check decides pc AND extra. If want is non-nil and the answer is sat, values are returned.
func (s *Solver) Check(pc []*Term, extra *Term, want []*Term, timeoutMS int, thorough bool) (Result, []Val) {
	if extra != nil && extra.op == OConst {
		if !extra.b {
			return Unsat, nil
		}
		extra = nil
	}
	for _, p := range pc {
		if p == s.bank.tFals {
			return Unsat, nil
		}
	}
	t0 := time.Now()
	atomic.AddInt64(&stats.queries, 1)
	nl := extra != nil && extra.nl
	for _, p := range pc {
		nl = nl || p.nl
	}
	r := Unknown
	var vals []Val
	full := pc
	if nl && s.abs != nil && extra != nil {
		if want == nil {
			pc = s.slice(pc, extra)
		}
		vars := monoVars(append(append([]*Term(nil), pc...), extra))
		r1, vs := s.abs.check1(pc, extra, vars, 0)
		if slowQ > 0 && time.Since(t0) > slowQ/4 {
			fmt.Fprintf(os.Stderr, "abstract %.1fs -> %v (%d of %d)\n", time.Since(t0).Seconds(), r1, len(pc), len(full))
			if d := os.Getenv("GOSYM_DUMP"); d != "" && r1 == Unknown {
				os.WriteFile(fmt.Sprintf("%s/a%d.smt2", d, stats.queries), []byte(s.script(pc, extra, want)), 0644)
			}
		}
		switch {
		case r1 == Unsat:
			atomic.AddInt64(&stats.linear, 1)
			r = r1
		case r1 == Sat && len(vs) == len(vars) && len(vars) <= 64:
			// fix the factors of all products to the values of the abstract model: what is left is linear
			m := map[*Term]*Term{}
			for i, v := range vars {
				if vs[i].ok && !vs[i].isB && vs[i].r != nil {
					m[v] = s.bank.num(vs[i].r, v.sort)
				}
			}
			memo := map[*Term]*Term{}
			var sp []*Term
			lin := true
			for _, t := range append(append([]*Term(nil), pc...), extra) {
				q := s.bank.subst(t, m, memo)
				lin = lin && !q.nl && q != s.bank.tFals
				if q != s.bank.tTrue {
					sp = append(sp, q)
				}
			}
			if !lin {
				if slowQ > 0 {
					fmt.Fprintf(os.Stderr, "not linear after fixing\n")
				}
				break
			}
			var sw []*Term
			for _, w := range want {
				q := s.bank.subst(w, m, memo)
				lin = lin && !q.nl
				sw = append(sw, q)
			}
			for _, v := range vars {
				sp = append(sp, s.bank.rangeOf(v, m[v])...)
			}
			if !lin {
				break
			}
			if s.lin == nil {
				s.lin = &Solver{bank: s.bank, timeout: 1500, slot: 2}
			}
			r2, v2 := s.lin.check1(sp, nil, sw, 0)
			if slowQ > 0 && r2 != Sat {
				fmt.Fprintf(os.Stderr, "fixed -> %v\n", r2)
			}
			if r2 == Sat {
				atomic.AddInt64(&stats.guess, 1)
				r, vals = r2, v2
			}
		}
	}
	if r == Unknown {
		r, vals = s.check1(full, extra, want, timeoutMS)
	}
	if r == Unknown && thorough {
		atomic.AddInt64(&stats.fallback, 1)
		r, vals = s.oneShot(pc, extra, want, fallbackTimeout)
	}
	atomic.AddInt64(&stats.solverNS, int64(time.Since(t0)))
	switch r {
	case Sat:
		atomic.AddInt64(&stats.sat, 1)
	case Unsat:
		atomic.AddInt64(&stats.unsat, 1)
	default:
		atomic.AddInt64(&stats.unknown, 1)
	}
	if slowQ > 0 && time.Since(t0) > slowQ {
		fmt.Fprintf(os.Stderr, "slow query %.1fs -> %v  %s\n", time.Since(t0).Seconds(), r, termStr(extra))
		if d := os.Getenv("GOSYM_DUMP"); d != "" {
			os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, stats.queries), []byte(s.script(pc, extra, want)), 0644)
		}
	}
	return r, vals
}

var slowQ time.Duration
var fallbackTimeout = 40 * time.Second

func termStr(t *Term) string {
	if t == nil {
		return "-"
	}
	return t.String()
}

func (s *Solver) check1(pc []*Term, extra *Term, want []*Term, timeoutMS int) (Result, []Val) {
	s.sync(pc)
	if timeoutMS == 0 {
		timeoutMS = s.timeout
	}
	if timeoutMS != s.curTO {
		fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", timeoutMS)
		s.curTO = timeoutMS
	}
	var refs []string
	for _, w := range want {
		refs = append(refs, s.emit(w))
	}
	if extra != nil {
		r := s.emit(extra)
		if s.abstract && extra.nl {
			lv := len(s.stack) + 1
			if bs := s.bounds(extra, lv, nil); len(bs) > 0 {
				r = "(and " + r + " " + strings.Join(bs, " ") + ")"
			}
			for t, l := range s.monos {
				if l == lv {
					delete(s.monos, t)
				}
			}
		}
		fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n", r)
	}
	s.buf.WriteString("(check-sat)\n")
	if err := s.flush(); err != nil {
		s.stop()
		return Unknown, nil
	}
	type resp struct {
		l   string
		err error
	}
	ch := make(chan resp, 1)
	go func() {
		for {
			l, err := s.readLine()
			if err == nil && l == "" {
				continue
			}
			ch <- resp{l, err}
			return
		}
	}()
	var rp resp
	select {
	case rp = <-ch:
	case <-time.After(time.Duration(timeoutMS)*time.Millisecond*2 + 5*time.Second):
		s.cmd.Process.Kill()
		<-ch
		s.stop()
		return Unknown, nil
	}
	if rp.err != nil {
		s.stop()
		return Unknown, nil
	}
	res := Unknown
	switch rp.l {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
	default:
		fmt.Fprintf(os.Stderr, "solver: %s\n", rp.l)
		s.stop()
		return Unknown, nil
	}
	var vals []Val
	if res == Sat && len(refs) > 0 {
		s.buf.WriteString("(get-value (" + strings.Join(refs, " ") + "))\n")
		if s.flush() != nil {
			s.stop()
			return Unknown, nil
		}
		str, err := s.readSexp()
		if err != nil || strings.HasPrefix(str, "(error") {
			fmt.Fprintf(os.Stderr, "solver get-value: %s %v\n", str, err)
			s.stop()
			return Unknown, nil
		}
		vals = parseValues(str, len(refs))
	}
	if extra != nil {
		s.buf.WriteString("(pop 1)\n")
	}
	return res, vals
}

// script prints a self-contained SMT-LIB script.
func (s *Solver) script(pc []*Term, extra *Term, want []*Term) string {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	seen := map[int]string{}
	apps := map[string]bool{}
	var em func(t *Term) string
	em = func(t *Term) string {
		if r, ok := seen[t.id]; ok {
			return r
		}
		var r string
		if t.op == OVar {
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", t.name, t.sort)
			r = t.name
		} else if t.op == OConst {
			r = t.body(nil)
		} else {
			if t.op == OApp && !apps[t.name] {
				apps[t.name] = true
				fmt.Fprintf(&sb, "(declare-fun %s (%s) Int)\n", t.name, strings.TrimSpace(strings.Repeat("Int ", len(t.args))))
			}
			r = t.body(em)
			if t.size > 6 {
				n := "d" + strconv.Itoa(t.id)
				fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.sort, r)
				r = n
			}
		}
		seen[t.id] = r
		return r
	}
	for _, t := range pc {
		r := em(t)
		fmt.Fprintf(&sb, "(assert %s)\n", r)
	}
	if extra != nil {
		r := em(extra)
		fmt.Fprintf(&sb, "(assert %s)\n", r)
	}
	var refs []string
	for _, w := range want {
		refs = append(refs, em(w))
	}
	sb.WriteString("(check-sat)\n")
	if len(refs) > 0 {
		sb.WriteString("(get-value (" + strings.Join(refs, " ") + "))\n")
	}
	return sb.String()
}

func (s *Solver) oneShot(pc []*Term, extra *Term, want []*Term, to time.Duration) (Result, []Val) {
	txt := s.script(pc, extra, want)
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	type ans struct {
		r Result
		v []Val
	}
	ch := make(chan ans, len(fallbackCmds))
	for _, c := range fallbackCmds {
		go func(c []string) {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(txt)
			out, _ := cmd.Output()
			o := strings.TrimSpace(string(out))
			switch {
			case strings.HasPrefix(o, "unsat"):
				ch <- ans{Unsat, nil}
			case strings.HasPrefix(o, "sat"):
				rest := strings.TrimSpace(o[3:])
				if len(want) > 0 && !strings.HasPrefix(rest, "((") {
					ch <- ans{Unknown, nil}
				} else {
					ch <- ans{Sat, parseValues(rest, len(want))}
				}
			default:
				ch <- ans{Unknown, nil}
			}
		}(c)
	}
	for range fallbackCmds {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.v
		}
	}
	return Unknown, nil
}

// Val is a model value.
type Val struct {
	ok  bool
	b   bool
	isB bool
	r   *big.Rat
}

type sexp struct {
	atom string
	list []sexp
	isL  bool
}

func parseSexp(s string, i int) (sexp, int) {
	for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
		i++
	}
	if i >= len(s) {
		return sexp{}, i
	}
	if s[i] == '(' {
		i++
		var r sexp
		r.isL = true
		for {
			for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
				i++
			}
			if i >= len(s) {
				return r, i
			}
			if s[i] == ')' {
				return r, i + 1
			}
			var e sexp
			e, i = parseSexp(s, i)
			r.list = append(r.list, e)
		}
	}
	j := i
	for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
		j++
	}
	return sexp{atom: s[i:j]}, j
}

func sexpVal(e sexp) Val {
	if !e.isL {
		switch e.atom {
		case "true":
			return Val{ok: true, b: true, isB: true}
		case "false":
			return Val{ok: true, isB: true}
		}
		r, ok := new(big.Rat).SetString(strings.TrimSuffix(e.atom, "?"))
		return Val{ok: ok, r: r}
	}
	if len(e.list) == 2 && e.list[0].atom == "-" {
		v := sexpVal(e.list[1])
		if v.ok {
			v.r = new(big.Rat).Neg(v.r)
		}
		return v
	}
	if len(e.list) == 3 && e.list[0].atom == "/" {
		a, b := sexpVal(e.list[1]), sexpVal(e.list[2])
		if a.ok && b.ok && b.r.Sign() != 0 {
			return Val{ok: true, r: new(big.Rat).Quo(a.r, b.r)}
		}
	}
	return Val{}
}

func parseValues(s string, n int) []Val {
	e, _ := parseSexp(s, 0)
	r := make([]Val, n)
	for i := 0; i < n && i < len(e.list); i++ {
		p := e.list[i]
		if p.isL && len(p.list) == 2 {
			r[i] = sexpVal(p.list[1])
		}
	}
	return r
}
