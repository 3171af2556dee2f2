package main

import (
	"context"
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type HarnessCfg struct {
	Name     string
	Paths    int
	Time     time.Duration
	Merge    bool
	MapOrd   bool
	Covers   []string
	Instrs   int
	Replays  int
	Doc      string
	AssertTO int
}

type Violation struct {
	Harness string           `json:"harness"`
	Msg     string           `json:"message"`
	Kind    string           `json:"kind"`
	Where   string           `json:"where,omitempty"`
	Inputs  map[string]int64 `json:"inputs"`
	Native  string           `json:"native"`
}

type Explorer struct {
	prog     *ssa.Program
	pkgs     []*ssa.Package
	mainPkg  *ssa.Package
	cfg      HarnessCfg
	harness  *ssa.Function
	native   string
	scratch  string
	maxInstr int
	merge    bool
	mapOrder bool
	trace    bool
	profile  bool
	tier     string
	seed     int64

	rtErrType   types.Type
	errStrT     types.Type
	wrapErrType types.Type

	mu       sync.Mutex
	cond     *sync.Cond
	work     [][]Decision
	active   int
	stopped  bool
	deadline time.Time

	paths, infeasible, completed       int64
	decisions                          int64
	forkN, mergeN                      int64
	inconclusive                       map[string]int
	notes                              map[string]bool
	covers                             map[string]int
	fnEncoded                          map[string]bool
	violations                         []Violation
	known                              []Violation
	unconfirmed                        []Violation
	replays, replayOK, hunts           int64
	samples                            []map[string]int64
	unknownBr                          int64
	budget                             bool
	instrs                             int64
	asserts, assertProved, assertConst int64
	forkSites                          map[string]int
	covWitness                         map[string]int
	mcache                             sync.Map
	icache                             sync.Map
	knownIDs                           map[string]bool
}

type Worker struct {
	x             *Explorer
	id            int
	bank          *Bank
	solver        *Solver
	globals       map[*ssa.Global]*Value
	inited        map[*ssa.Package]bool
	fninfo        map[*ssa.Function]*fnInfo
	consts        map[*ssa.Const]Value
	intr          map[*ssa.Function]intrinsic
	rounded       map[int]int
	squares       map[int]square
	skolIDs       map[string]int
	noMerge       map[ssa.Instruction]int
	once          map[string]bool
	fns           map[*ssa.Function]bool
	errStringType types.Type
	p             *Path
}

func (w *Worker) skolId(name string, s Sort, lo, hi float64) int {
	k := fmt.Sprintf("%s|%d|%v|%v", name, s, lo, hi)
	if id, ok := w.skolIDs[k]; ok {
		return id
	}
	id := len(w.skolIDs)
	w.skolIDs[k] = id
	return id
}

func (w *Worker) noteFn(fn *ssa.Function) {
	if w.fns[fn] {
		return
	}
	w.fns[fn] = true
	f := fn
	if f.Pkg == nil {
		return
	}
	path := f.Pkg.Pkg.Path()
	if strings.HasPrefix(path, "github.com/") {
		w.x.mu.Lock()
		w.x.fnEncoded[f.String()] = true
		w.x.mu.Unlock()
	}
}

func (x *Explorer) pos(p token.Pos) string {
	ps := x.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(ps.Filename), ps.Line)
}

func (x *Explorer) note(s string) {
	x.mu.Lock()
	x.notes[s] = true
	x.mu.Unlock()
}
func (x *Explorer) noteFork(s string) {
	x.mu.Lock()
	x.forkSites[s]++
	x.mu.Unlock()
}
func (x *Explorer) noteUnknownBranch() { atomic.AddInt64(&x.unknownBr, 1) }
func (x *Explorer) noteInconclusive(s string) {
	x.mu.Lock()
	x.inconclusive[s]++
	x.mu.Unlock()
}

func (x *Explorer) userPkg(path string) bool {
	first := strings.SplitN(path, "/", 2)[0]
	return strings.Contains(first, ".") || strings.HasPrefix(path, "verifharness")
}

var deniedPkgs = map[string]bool{"runtime": true, "syscall": true, "os": true, "reflect": true, "net": true, "time": true, "sync": true, "log": true, "fmt": true, "unsafe": true, "context": true, "testing": true, "io/ioutil": true}

func (x *Explorer) denied(path string) bool {
	if deniedPkgs[path] {
		return true
	}
	for _, pre := range []string{"runtime/", "internal/poll", "internal/syscall", "internal/reflectlite", "internal/runtime", "internal/abi", "net/", "sync/", "os/", "internal/testlog", "internal/oserror", "encoding/"} {
		if strings.HasPrefix(path, pre) {
			return true
		}
	}
	return false
}

func (w *Worker) global(p *Path, g *ssa.Global) *Value {
	if v, ok := w.globals[g]; ok {
		return v
	}
	pkg := g.Pkg
	path := pkg.Pkg.Path()
	if path == "io/fs" || path == "internal/oserror" {
		if o := w.x.prog.ImportedPackage("os"); o != nil {
			if m, ok := o.Members[g.Name()].(*ssa.Global); ok {
				return w.global(p, m)
			}
		}
	}
	if !w.x.userPkg(path) && !w.x.denied(path) && !w.inited[pkg] {
		w.runInit(pkg)
		if v, ok := w.globals[g]; ok {
			return v
		}
	}
	v := new(Value)
	*v = zero(deref(g.Type()))
	if w.x.denied(path) {
		// error sentinels of packages that are not initialised get a unique value
		if types.Identical(deref(g.Type()), types.Universe.Lookup("error").Type()) {
			c := new(Value)
			*c = StructV{path + "." + g.Name()}
			*v = Iface{w.errStringType, c}
		}
	}
	if path == "os" && g.Name() == "Args" {
		a := Value("prog")
		*v = SliceV([]Value{a})
	}
	w.globals[g] = v
	return v
}

func (w *Worker) runInit(pkg *ssa.Package) {
	w.inited[pkg] = true
	fn := pkg.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	p := w.newPath(nil)
	p.journalOff = true
	fi := w.info(fn)
	fr := &frame{p: p, fi: fi, regs: make([]Value, fi.n)}
	fr.exec(fn.Blocks[0], nil, nil)
}

func (w *Worker) newPath(prefix []Decision) *Path {
	return &Path{w: w, b: w.bank, prefix: prefix, memo: map[memoKey]*Term{}, inNames: map[string]int{}, covers: map[string]bool{}}
}

func (x *Explorer) newWorker(id int) *Worker {
	b := NewBank()
	w := &Worker{x: x, id: id, bank: b, solver: NewSolver(b), globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{}, fninfo: map[*ssa.Function]*fnInfo{}, consts: map[*ssa.Const]Value{}, intr: map[*ssa.Function]intrinsic{}, rounded: map[int]int{}, squares: map[int]square{}, skolIDs: map[string]int{}, noMerge: map[ssa.Instruction]int{}, once: map[string]bool{}, fns: map[*ssa.Function]bool{}}
	w.errStringType = x.errStrT
	return w
}

// initUser runs the initialisers of the harness package and all non standard dependencies.
func (w *Worker) initUser() (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("package initialisation: %v\n%s", r, debug.Stack())
		}
	}()
	p := w.newPath(nil)
	p.journalOff = true
	w.p = p
	p.callFn(w.x.mainPkg.Func("init"), nil, nil, nil)
	return nil
}

func (x *Explorer) findMethod(t types.Type, name string) *ssa.Function {
	type key struct {
		t types.Type
		n string
	}
	k := key{t, name}
	if v, ok := x.mcache.Load(k); ok {
		f, _ := v.(*ssa.Function)
		return f
	}
	var f *ssa.Function
	ms := x.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			f = x.prog.MethodValue(s)
		}
	}
	x.mcache.Store(k, f)
	return f
}

func (x *Explorer) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	type key struct {
		t types.Type
		m string
		p *types.Package
	}
	k := key{t, m.Name(), m.Pkg()}
	if v, ok := x.icache.Load(k); ok {
		f, _ := v.(*ssa.Function)
		return f
	}
	f := x.prog.LookupMethod(t, m.Pkg(), m.Name())
	x.icache.Store(k, f)
	return f
}

func (x *Explorer) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

// ---------------------------------------------------------------------------

func (x *Explorer) run(nworkers int) {
	x.cond = sync.NewCond(&x.mu)
	x.work = [][]Decision{nil}
	x.deadline = time.Now().Add(x.cfg.Time)
	var wg sync.WaitGroup
	for i := 0; i < nworkers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			x.workerLoop(i)
		}(i)
	}
	wg.Wait()
}

func (x *Explorer) workerLoop(id int) {
	var w *Worker
	for {
		x.mu.Lock()
		for len(x.work) == 0 && x.active > 0 && !x.stopped {
			x.cond.Wait()
		}
		if x.stopped || len(x.work) == 0 {
			x.mu.Unlock()
			x.cond.Broadcast()
			break
		}
		if time.Now().After(x.deadline) || x.paths >= int64(x.cfg.Paths) {
			x.budget = true
			x.stopped = true
			x.mu.Unlock()
			x.cond.Broadcast()
			break
		}
		pre := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.active++
		x.paths++
		x.mu.Unlock()
		if w == nil {
			w = x.newWorker(id)
			if err := w.initUser(); err != nil {
				x.noteInconclusive(err.Error())
				x.mu.Lock()
				x.active--
				x.stopped = true
				x.mu.Unlock()
				x.cond.Broadcast()
				break
			}
		}
		forks := w.runPath(pre)
		x.mu.Lock()
		x.active--
		// deeper alternatives last => depth first
		x.work = append(x.work, forks...)
		x.mu.Unlock()
		x.cond.Broadcast()
	}
	if w != nil {
		w.solver.stop()
	}
}

func (w *Worker) runPath(prefix []Decision) [][]Decision {
	x := w.x
	p := w.newPath(prefix)
	w.p = p
	if w.bank.terms > 3000000 {
		// start over with a fresh bank to bound memory
		nw := x.newWorker(w.id)
		w.solver.stop()
		*w = *nw
		w.initUser()
		p = w.newPath(prefix)
		w.p = p
	}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch r := r.(type) {
			case pathEnd:
				atomic.AddInt64(&x.infeasible, 1)
			case targetPanic:
				p.arm = 0
				p.violation("panic", p.panicMsg(r), r.stack, nil)
			case boundExceeded:
				p.arm = 0
				p.boundHit(r.what)
			case engineError:
				where := p.stackString()
				x.noteInconclusive("unsupported: " + r.msg + " [" + where + "]")
			case abortMerge:
				x.noteInconclusive("engine: stray merge abort " + r.why)
			default:
				x.noteInconclusive(fmt.Sprintf("engine panic: %v [%s]\n%s", r, p.stackString(), debug.Stack()))
			}
		}()
		p.callFn(x.harness, nil, nil, nil)
		p.complete()
	}()
	atomic.AddInt64(&x.decisions, int64(len(p.log)-len(prefix)))
	atomic.AddInt64(&x.mergeN, int64(p.nMerge))
	atomic.AddInt64(&x.instrs, int64(p.instrs))
	p.rollback(0)
	x.mu.Lock()
	for c := range p.covers {
		x.covers[c]++
	}
	x.mu.Unlock()
	return p.forks
}

func (p *Path) wantTerms() []*Term {
	var ts []*Term
	for _, in := range p.inputs {
		ts = append(ts, in.term)
	}
	return ts
}

func (p *Path) modelInputs(vals []Val) (map[string]int64, bool) {
	m := map[string]int64{}
	for i, in := range p.inputs {
		if i >= len(vals) || !vals[i].ok || vals[i].r == nil || !vals[i].r.IsInt() || !vals[i].r.Num().IsInt64() {
			return nil, false
		}
		m[in.name] = vals[i].r.Num().Int64()
	}
	return m, true
}

func (p *Path) assert(c *Term, msgv Value) {
	x := p.w.x
	if len(p.log) < len(p.prefix) {
		return // already decided by the parent path
	}
	atomic.AddInt64(&x.asserts, 1)
	if c == p.b.tTrue {
		atomic.AddInt64(&x.assertConst, 1)
		return
	}
	msg := "assertion"
	switch m := msgv.(type) {
	case string:
		msg = m
	case *SymStr:
		msg = m.String()
	}
	neg := p.b.Not(c)
	r, vals := p.w.solver.Check(p.pc, neg, p.wantTerms(), x.cfg.AssertTO, true)
	switch r {
	case Unsat:
		atomic.AddInt64(&x.assertProved, 1)
	case Unknown:
		p.candidate("assert", msg, "", neg, nil)
	case Sat:
		p.candidate("assert", msg, "", neg, vals)
	}
}

// violation handles a panic on the current path.
func (p *Path) violation(kind, msg, where string, extra *Term) {
	r, vals := p.w.solver.Check(p.pc, extra, p.wantTerms(), 0, true)
	switch r {
	case Unsat:
		atomic.AddInt64(&p.w.x.infeasible, 1)
	case Unknown:
		p.w.x.noteInconclusive("solver unknown on path ending in " + msg)
	case Sat:
		p.candidate(kind, msg, where, extra, vals)
	}
}

func (p *Path) boundHit(what string) {
	x := p.w.x
	r, vals := p.w.solver.Check(p.pc, nil, p.wantTerms(), 0, true)
	if r == Sat {
		if m, ok := p.modelInputs(vals); ok {
			if res := x.replay(m); strings.HasPrefix(res.status, "hang") {
				x.addViolation(Violation{Harness: x.cfg.Name, Msg: "does not terminate", Kind: "hang", Where: p.stackString(), Inputs: m, Native: res.status})
				return
			} else if res.bad() {
				x.addViolation(Violation{Harness: x.cfg.Name, Msg: res.msg, Kind: res.status, Where: p.stackString(), Inputs: m, Native: res.msg})
				return
			}
		}
	}
	x.noteInconclusive("bound exceeded: " + what + " [" + p.stackString() + "]")
}

func (p *Path) candidate(kind, msg, where string, extra *Term, vals []Val) {
	x := p.w.x
	var last Violation
	try := func(vals []Val) bool {
		m, ok := p.modelInputs(vals)
		if !ok {
			return false
		}
		res := x.replay(m)
		v := Violation{Harness: x.cfg.Name, Msg: msg, Kind: kind, Where: where, Inputs: m, Native: res.status + " " + res.msg}
		last = v
		if res.bad() {
			if res.msg != "" {
				v.Msg = res.msg
			}
			x.addViolation(v)
			return true
		}
		return false
	}
	if vals != nil && try(vals) {
		return
	}
	bad, proved := p.refine(extra, try)
	if bad {
		return
	}
	if proved {
		if kind == "assert" {
			atomic.AddInt64(&x.assertProved, 1)
		}
		return
	}
	if p.hunt(extra, try) {
		return
	}
	if vals == nil {
		x.noteInconclusive("solver unknown: " + msg)
		return
	}
	x.mu.Lock()
	if len(x.unconfirmed) < 20 {
		x.unconfirmed = append(x.unconfirmed, last)
	}
	x.mu.Unlock()
	x.noteInconclusive("counterexample not reproduced natively: " + msg)
}

// refine replaces, binade combination by binade combination, the relative error bound of every rounding on the path by
// the exact set of representable numbers. It ends with a reproduced counterexample, with a proof that there is none,
// or without an answer.
func (p *Path) refine(extra *Term, try func([]Val) bool) (bad, proved bool) {
	x, b := p.w.x, p.b
	if len(p.errs) == 0 || len(p.errs) > 60 || atomic.AddInt64(&x.hunts, 1) > 60 {
		return false, false
	}
	end := time.Now().Add(20 * time.Second)
	pc := append([]*Term(nil), p.pc...)
	want := p.wantTerms()
	ni := len(want)
	for _, e := range p.errs {
		want = append(want, e.t)
	}
	for n := 0; n < 60 && time.Now().Before(end); n++ {
		r, vals := p.w.solver.Check(pc, extra, want, 4000, false)
		if r == Unsat {
			return false, true
		}
		if r != Sat || len(vals) != len(want) {
			return false, false
		}
		if n > 0 && try(vals[:ni]) {
			return true, false
		}
		var bin, exact []*Term
		for i, e := range p.errs {
			v := vals[ni+i]
			if !v.ok || v.r == nil {
				return false, false
			}
			if v.r.Sign() == 0 {
				c := b.Eq(e.t, b.zeroR)
				bin = append(bin, c)
				continue
			}
			f, _ := v.r.Float64()
			_, ex := math.Frexp(math.Abs(f)) // |f| in [2^(ex-1), 2^ex)
			if ex < -60 || ex > 100 {
				return false, false
			}
			two := func(k int) *big.Rat {
				one := big.NewInt(1)
				if k >= 0 {
					return new(big.Rat).SetInt(new(big.Int).Lsh(one, uint(k)))
				}
				return new(big.Rat).SetFrac(one, new(big.Int).Lsh(one, uint(-k)))
			}
			// correct a model value that Float64 rounded up to a power of two
			if new(big.Rat).Abs(v.r).Cmp(two(ex-1)) < 0 {
				ex--
			}
			t := e.t
			if v.r.Sign() < 0 {
				t = b.Neg(t)
			}
			bin = append(bin, b.Le(b.RealC(two(ex-1)), t), b.Lt(t, b.RealC(two(ex))))
			prec := 53
			if e.bits == 32 {
				prec = 24
			}
			ulp := two(ex - prec)
			m := math.Ldexp(1, prec)
			k := p.newSkolem("m", SInt, -m, m)
			exact = append(exact, b.Eq(b.Add(e.t, e.e), b.Scale(b.ToReal(k), ulp)))
			half := b.RealC(new(big.Rat).Mul(ulp, big.NewRat(1, 2)))
			exact = append(exact, b.Le(b.Neg(half), e.e), b.Le(e.e, half))
		}
		combo := b.And(bin...)
		r, vals = p.w.solver.Check(append(append(append([]*Term(nil), pc...), combo), exact...), extra, want, 4000, false)
		switch r {
		case Unsat:
			pc = append(pc, b.Not(combo))
		case Sat:
			return try(vals[:ni]), false
		default:
			return false, false
		}
	}
	return false, false
}

// hunt asks the solver for models of pc and extra inside random sub-ranges of the inputs (first with all rounding
// errors zero), for models the over-approximation of floating point arithmetic or nonlinear terms hides.
func (p *Path) hunt(extra *Term, try func([]Val) bool) bool {
	x, b := p.w.x, p.b
	if atomic.AddInt64(&x.hunts, 1) > 40 {
		return false
	}
	end := time.Now().Add(15 * time.Second)
	seed := uint64(x.seed)*7919 + 12345
	rnd := func() float64 {
		seed = seed*6364136223846793005 + 1442695040888963407
		return float64(seed>>11) / (1 << 53)
	}
	found := map[string]bool{}
	var blocks []*Term // inputs tried before
	for n := 0; n < 40 && time.Now().Before(end); n++ {
		pc := append(append([]*Term(nil), p.pc...), blocks...)
		if n%4 == 0 {
			for _, e := range p.errs {
				pc = append(pc, b.Eq(e.e, b.zeroR))
			}
		}
		for _, in := range p.inputs {
			if in.term.op == OConst || in.term.hi-in.term.lo < 256 && (n%2 == 0 || in.term.hi-in.term.lo < 2) {
				continue
			}
			if n == 0 || rnd() < 0.3 {
				continue
			}
			w := in.term.hi - in.term.lo
			c := in.term.lo + w*rnd()
			if rnd() < 0.3 && in.term.lo <= 0 {
				c = c * rnd() * rnd() * rnd()
			}
			wd := w * math.Pow(10, -1-5*rnd())
			if n%3 == 2 {
				wd = 0
			}
			lo, hi := math.Floor(c), math.Floor(c+wd)
			pc = append(pc, b.Le(b.IntC(int64(lo)), in.term), b.Le(in.term, b.IntC(int64(hi))))
		}
		r, vals := p.w.solver.Check(pc, extra, p.wantTerms(), 1500, false)
		if r != Sat {
			continue
		}
		m, ok := p.modelInputs(vals)
		if ok {
			var same []*Term
			for _, in := range p.inputs {
				if v, ok := m[in.name]; ok && in.term.op != OConst && in.term.sort == SInt {
					same = append(same, b.Eq(in.term, b.IntC(v)))
				}
			}
			if len(same) > 0 {
				blocks = append(blocks, b.Not(b.And(same...)))
			}
		}
		k := fmt.Sprint(m)
		if found[k] {
			continue
		}
		found[k] = true
		if try(vals) {
			return true
		}
	}
	return false
}

func (x *Explorer) addViolation(v Violation) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for id := range x.knownIDs {
		if strings.HasPrefix(v.Msg, "["+id+"]") {
			if len(x.known) < 50 {
				x.known = append(x.known, v)
			}
			return
		}
	}
	x.violations = append(x.violations, v)
	if len(x.violations) >= 1 {
		x.stopped = true
		x.cond.Broadcast()
	}
}

// complete handles a path that ran to the end of the harness: optionally replay a witness.
func (p *Path) complete() {
	x := p.w.x
	n := atomic.AddInt64(&x.completed, 1)
	needCover := false
	x.mu.Lock()
	for c := range p.covers {
		if x.covWitness[c] == 0 {
			needCover = true
		}
	}
	x.mu.Unlock()
	// geometric thinning keeps the number of native replays bounded
	if !needCover && !(n <= 12 || (n&(n-1)) == 0 || n%97 == 0) {
		return
	}
	if atomic.LoadInt64(&x.replays) >= int64(x.cfg.Replays) && !needCover {
		return
	}
	want := p.wantTerms()
	ni := len(want)
	type ob struct {
		name string
		conc string
		idx  []int
		els  []any
		kind byte
	}
	var obs []ob
	for _, o := range p.obs {
		switch v := o.v.(type) {
		case int64:
			obs = append(obs, ob{name: o.name, conc: fmt.Sprint(v), kind: 'c'})
		case bool:
			obs = append(obs, ob{name: o.name, conc: fmt.Sprint(v), kind: 'c'})
		case string:
			obs = append(obs, ob{name: o.name, conc: v, kind: 'c'})
		case *Term:
			if v.inexact {
				obs = append(obs, ob{name: o.name, kind: '?'})
				continue
			}
			obs = append(obs, ob{name: o.name, kind: 't', idx: []int{len(want)}})
			want = append(want, v)
		default:
			obs = append(obs, ob{name: o.name, kind: '?'})
		}
	}
	r, vals := p.w.solver.Check(p.pc, nil, want, 0, true)
	if r == Unsat {
		atomic.AddInt64(&x.infeasible, 1)
		for c := range p.covers {
			delete(p.covers, c)
		}
		return
	}
	if r != Sat {
		x.note("some completed paths have no solver witness (unknown)")
		return
	}
	m, ok := p.modelInputs(vals[:ni])
	if !ok {
		return
	}
	res := x.replay(m)
	atomic.AddInt64(&x.replays, 1)
	if res.bad() {
		x.addViolation(Violation{Harness: x.cfg.Name, Msg: res.msg, Kind: "witness-" + res.status, Inputs: m, Native: res.msg})
		return
	}
	if res.status != "ok" {
		x.noteInconclusive("witness replay ended with " + res.status + " " + res.msg)
		return
	}
	match := true
	if len(res.obs) != len(obs) {
		match = false
	} else {
		for i, o := range obs {
			exp := o.conc
			switch o.kind {
			case '?':
				continue
			case 't':
				v := vals[o.idx[0]]
				if !v.ok {
					continue
				}
				if v.isB {
					exp = fmt.Sprint(v.b)
				} else if v.r.IsInt() {
					exp = v.r.Num().String()
				} else {
					continue
				}
			}
			if res.obs[i][0] != o.name || res.obs[i][1] != exp {
				match = false
				x.noteInconclusive(fmt.Sprintf("translation mismatch: %s symbolic %s native %s inputs %v", o.name, exp, res.obs[i][1], m))
				break
			}
		}
	}
	if match {
		atomic.AddInt64(&x.replayOK, 1)
		x.mu.Lock()
		if len(x.samples) < 4 {
			x.samples = append(x.samples, m)
		}
		for c := range p.covers {
			x.covWitness[c]++
		}
		x.mu.Unlock()
	} else if len(res.obs) != len(obs) {
		x.noteInconclusive(fmt.Sprintf("translation mismatch: %d observations vs %d natively, inputs %v", len(obs), len(res.obs), m))
	}
}

// native replay -----------------------------------------------------------------

type replayRes struct {
	status string // ok, assert, panic, hang, assume, error
	msg    string
	obs    [][2]string
}

func (r replayRes) bad() bool {
	return r.status == "assert" || r.status == "panic" || r.status == "hang"
}

var replaySeq int64

func (x *Explorer) replay(m map[string]int64) replayRes {
	return runNative(x.native, x.cfg.Name, m, x.scratch, x.tier)
}

func runNative(bin, harness string, m map[string]int64, scratch, tier string) replayRes {
	n := atomic.AddInt64(&replaySeq, 1)
	dir := filepath.Join(scratch, fmt.Sprintf("r%d", n))
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "inputs.json")
	b, _ := json.Marshal(map[string]any{"harness": harness, "inputs": m, "tier": tier})
	os.WriteFile(f, b, 0644)
	ctx, cancel := context.WithTimeout(context.Background(), 25*time.Second)
	defer cancel()
	// the address space is limited so that a runaway loop in changed code cannot exhaust the machine
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", `ulimit -v 6000000; exec "$0" replay "$1"`, bin, f)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+dir, "GOMAXPROCS=2", "GOGC=100")
	out, err := cmd.Output()
	var res replayRes
	if ctx.Err() != nil {
		return replayRes{status: "hang", msg: "no result after 25 s"}
	}
	res.status = "error"
	for _, l := range strings.Split(string(out), "\n") {
		switch {
		case strings.HasPrefix(l, "SYM-OBS "):
			var o [2]string
			if json.Unmarshal([]byte(l[8:]), &o) == nil {
				res.obs = append(res.obs, o)
			}
		case strings.HasPrefix(l, "SYM-RESULT "):
			var o [2]string
			if json.Unmarshal([]byte(l[11:]), &o) == nil {
				res.status, res.msg = o[0], o[1]
			}
		}
	}
	if res.status == "error" {
		if ee, ok := err.(*exec.ExitError); ok {
			s := string(ee.Stderr)
			if strings.Contains(s, "fatal error: ") || strings.Contains(s, "panic: ") || strings.Contains(s, "goroutine stack exceeds") {
				if i := strings.IndexByte(s, '\n'); i > 0 {
					s = s[:i]
				}
				return replayRes{status: "panic", msg: s}
			}
			res.msg = s
		}
	}
	return res
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
