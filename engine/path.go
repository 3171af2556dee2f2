package main

// One symbolic execution path: path condition, decisions, heap journal, merging.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Decision struct {
	Kind byte  // 'T','F' forked; 't','f' forced; 'M' merged; 'V' value chosen (N)
	N    int64 // for 'V'
}

func (d Decision) String() string {
	if d.Kind == 'V' {
		return fmt.Sprintf("V%d", d.N)
	}
	return string(d.Kind)
}

type undo struct {
	addr *Value
	old  Value
	f    func()
}

type memoKey struct {
	op   string
	a, b int
}

type input struct {
	name string
	term *Term
	kind string
}

type observation struct {
	name string
	v    Value
}

type roundErr struct {
	t, e *Term
	bits int
}

type Path struct {
	xorApps    []xorApp
	xorSamples []xorConc
	w          *Worker
	b          *Bank
	pc         []*Term
	prefix     []Decision
	log        []Decision
	forks      [][]Decision // alternatives discovered

	journal    []undo
	journalOff bool
	arm        int // merge arm depth
	armInstr   []int
	memo       map[memoKey]*Term
	memoLog    []memoKey
	skol       int
	errs       []roundErr
	vfs        map[string][]any
	vfd        map[*Value]*vfile

	inputs  []input
	inNames map[string]int
	obs     []observation
	covers  map[string]bool
	instrs  int
	depth   int
	asserts int
	stack   []*ssa.Function

	nIf, nMerge int
	panicking   *targetPanic
	sites       map[ssa.Instruction]int
	curFrame    *frame
}

type abortMerge struct{ why string }
type pathEnd struct{ why string } // infeasible assume / stop
type boundExceeded struct{ what string }
type targetPanic struct {
	v     Value
	msg   string
	stack string
}

func (p *Path) assertPC(t *Term) {
	if t == p.b.tTrue {
		return
	}
	p.pc = append(p.pc, t)
}

func (p *Path) newSkolem(prefix string, s Sort, lo, hi float64) *Term {
	p.skol++
	name := fmt.Sprintf("k!%s%d", prefix, p.skol)
	// intervals depend on use: key includes bounds
	name = fmt.Sprintf("%s_%d", name, p.w.skolId(name, s, lo, hi))
	t := p.b.Var(name, s, lo, hi)
	return t
}

func (p *Path) memoized(op string, a, b *Term, mk func() *Term) *Term {
	k := memoKey{op: op, a: a.id}
	if b != nil {
		k.b = b.id
	}
	if t, ok := p.memo[k]; ok {
		return t
	}
	t := mk()
	p.memo[k] = t
	p.memoLog = append(p.memoLog, k)
	return t
}

func (p *Path) setCell(a *Value, v Value) {
	if !p.journalOff {
		p.journal = append(p.journal, undo{addr: a, old: *a})
	}
	*a = v
}

func (p *Path) logUndo(f func()) {
	if !p.journalOff {
		p.journal = append(p.journal, undo{f: f})
	}
}

func (p *Path) rollback(n int) {
	for i := len(p.journal) - 1; i >= n; i-- {
		u := p.journal[i]
		if u.f != nil {
			u.f()
		} else {
			*u.addr = u.old
		}
	}
	p.journal = p.journal[:n]
}

// replaying reports whether the next decision is dictated.
func (p *Path) nextDecision() (Decision, bool) {
	if len(p.log) < len(p.prefix) {
		d := p.prefix[len(p.log)]
		p.log = append(p.log, d)
		return d, true
	}
	return Decision{}, false
}

func (p *Path) check(extra *Term, to int, thorough bool) Result {
	r, _ := p.w.solver.Check(p.pc, extra, nil, to, thorough)
	return r
}

// feasible treats unknown as feasible.
func (p *Path) feasible(c *Term) bool {
	r := p.check(c, 0, false)
	if r == Unknown {
		p.w.x.noteUnknownBranch()
	}
	return r != Unsat
}

// branch decides a condition, forking when both sides are feasible.
func (p *Path) branch(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return p.branchTerm(v)
	}
	panic(engineErr("branch on %T", v))
}

func (p *Path) branchTerm(c *Term) bool {
	if c.op == OConst {
		return c.b
	}
	if d, ok := p.nextDecision(); ok {
		switch d.Kind {
		case 'T':
			p.assertPC(c)
			return true
		case 'F':
			p.assertPC(p.b.Not(c))
			return false
		case 't':
			return true
		case 'f':
			return false
		}
		panic(engineErr("replay divergence: decision %s at branch", d))
	}
	ft := p.feasible(c)
	if !ft {
		p.log = append(p.log, Decision{Kind: 'f'})
		return false
	}
	ff := p.feasible(p.b.Not(c))
	if !ff {
		p.log = append(p.log, Decision{Kind: 't'})
		return true
	}
	return p.forkTF(c)
}

func (p *Path) forkTF(c *Term) bool {
	if p.arm > 0 {
		panic(abortMerge{"fork"})
	}
	if p.w.x.profile {
		p.w.x.noteFork("fork in " + p.stackString())
	}
	alt := append(append([]Decision(nil), p.log...), Decision{Kind: 'F'})
	p.forks = append(p.forks, alt)
	p.log = append(p.log, Decision{Kind: 'T'})
	p.assertPC(c)
	return true
}

// must checks an implicit runtime condition (bounds, nil, division): returns true if it holds;
// forks into the failing side when that is feasible.
func (p *Path) must(v Value) bool { return p.branch(v) }

// maybe reports whether c can be true on this path, without constraining it.
func (p *Path) possibly(c *Term) bool {
	if c.op == OConst {
		return c.b
	}
	if d, ok := p.nextDecision(); ok {
		return d.Kind == 'p'
	}
	if p.feasible(c) {
		p.log = append(p.log, Decision{Kind: 'p'})
		return true
	}
	p.log = append(p.log, Decision{Kind: 'n'})
	return false
}

// concretize forks over the feasible values of an integer term.
func (p *Path) concretize(t *Term) int64 {
	for n := 0; ; n++ {
		if t.op == OConst {
			return t.rat.Num().Int64()
		}
		if d, ok := p.nextDecision(); ok {
			e := p.b.Eq(t, p.b.IntC(d.N))
			switch d.Kind {
			case 'V':
				p.assertPC(e)
				return d.N
			case 'v':
				return d.N
			case 'X':
				p.assertPC(p.b.Not(e))
				continue
			}
			panic(engineErr("replay divergence: %s at concretize", d))
		}
		if n > 400 {
			panic(boundExceeded{"concretization of a symbolic value"})
		}
		r, vals := p.w.solver.Check(p.pc, nil, []*Term{t}, 0, true)
		if r == Unsat {
			panic(pathEnd{"infeasible"})
		}
		if r != Sat || len(vals) != 1 || !vals[0].ok {
			panic(engineErr("cannot concretize %s (solver %v %v)", t, r, vals))
		}
		v := vals[0].r.Num().Int64()
		e := p.b.Eq(t, p.b.IntC(v))
		if !p.feasible(p.b.Not(e)) {
			p.log = append(p.log, Decision{Kind: 'v', N: v})
			return v
		}
		if p.arm > 0 {
			panic(abortMerge{"concretize"})
		}
		alt := append(append([]Decision(nil), p.log...), Decision{Kind: 'X', N: v})
		p.forks = append(p.forks, alt)
		p.log = append(p.log, Decision{Kind: 'V', N: v})
		p.assertPC(e)
		return v
	}
}

// ---------------------------------------------------------------------------
// numbers

func (p *Path) intTerm(v Value, k intKind) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case int64:
		if !k.signed && k.bits == 64 && v < 0 {
			return p.b.IntBig(new(big.Int).SetUint64(uint64(v)))
		}
		return p.b.IntC(v)
	}
	panic(engineErr("int expected, got %T", v))
}

func (p *Path) termInt(t *Term, k intKind) Value {
	if t.op == OConst {
		n := t.rat.Num()
		if n.IsInt64() {
			return n.Int64()
		}
		if n.IsUint64() {
			return int64(n.Uint64())
		}
		panic(engineErr("constant out of range %s", n))
	}
	return t
}

func kindRange(k intKind) (lo, hi *big.Int) {
	one := big.NewInt(1)
	if k.signed {
		hi = new(big.Int).Lsh(one, uint(k.bits-1))
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, one)
	} else {
		lo = new(big.Int)
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(k.bits)), one)
	}
	return
}

// wrap reduces the mathematical value t to the machine type k.
func (p *Path) wrap(t *Term, k intKind) Value {
	if t.op == OConst {
		return p.wrapConst(t, k)
	}
	lo, hi := kindRange(k)
	lof, _ := new(big.Float).SetInt(lo).Float64()
	hif, _ := new(big.Float).SetInt(hi).Float64()
	if k.bits == 64 {
		if k.signed {
			hif = math.Nextafter(hif, 0)
		} else {
			hif = math.Nextafter(hif, 0)
		}
	}
	if t.lo >= lof && t.hi <= hif {
		return t
	}
	b := p.b
	over := b.Or(b.Lt(t, b.IntBig(lo)), b.Lt(b.IntBig(hi), t))
	if !p.possibly(over) {
		return t
	}
	mod := new(big.Int).Lsh(big.NewInt(1), uint(k.bits))
	if !k.signed {
		return p.termInt(b.FMod(t, mod), k)
	}
	half := new(big.Int).Rsh(mod, 1)
	h := b.IntBig(half)
	return p.termInt(b.Sub(b.FMod(b.Add(t, h), mod), h), k)
}

func (p *Path) wrapConst(t *Term, k intKind) Value {
	n := t.rat.Num()
	mod := new(big.Int).Lsh(big.NewInt(1), 64)
	m := new(big.Int).Mod(n, mod)
	return normInt(int64(m.Uint64()), k)
}

// quoRem computes Go's truncated division. y is known nonzero.
func (p *Path) quoRem(x, y *Term) (q, r *Term) {
	b := p.b
	if y.op == OConst {
		k := y.rat.Num()
		neg := k.Sign() < 0
		ka := new(big.Int).Abs(k)
		if x.lo >= 0 {
			q = b.FDiv(x, ka)
		} else if x.hi <= 0 {
			q = b.Neg(b.FDiv(b.Neg(x), ka))
		} else {
			q = b.Ite(b.Le(b.zeroI, x), b.FDiv(x, ka), b.Neg(b.FDiv(b.Neg(x), ka)))
		}
		r = b.Sub(x, b.Scale(q, new(big.Rat).SetInt(ka)))
		if x.lo >= 0 {
			r = b.FMod(x, ka)
		}
		if neg {
			q = b.Neg(q)
		}
		return
	}
	q = p.memoized("quo", x, y, func() *Term {
		m := math.Max(math.Abs(x.lo), math.Abs(x.hi))
		if y.lo >= 1 {
			// |q| <= |x| / ylo
			m = fup(m / y.lo)
		}
		lo, hi := -m, m
		if (x.lo >= 0 && y.lo > 0) || (x.hi <= 0 && y.hi < 0) {
			lo = 0
		}
		if (x.hi <= 0 && y.lo > 0) || (x.lo >= 0 && y.hi < 0) {
			hi = 0
		}
		q := p.newSkolem("q", SInt, lo, hi)
		r := b.Sub(x, b.Mul(q, y))
		z := b.zeroI
		var c *Term
		ya := y
		if y.hi < 0 {
			ya = b.Neg(y)
		}
		if y.lo > 0 || y.hi < 0 {
			// positive magnitude known
			pos := b.And(b.Le(z, r), b.Lt(r, ya))
			neg := b.And(b.Le(r, z), b.Lt(b.Neg(r), ya))
			if x.lo >= 0 {
				c = pos
			} else if x.hi <= 0 {
				c = neg
			} else {
				c = b.And(b.Implies(b.Le(z, x), pos), b.Implies(b.Lt(x, z), neg))
			}
		} else {
			yp := b.Lt(z, y)
			abs := b.Ite(yp, y, b.Neg(y))
			pos := b.And(b.Le(z, r), b.Lt(r, abs))
			neg := b.And(b.Le(r, z), b.Lt(b.Neg(r), abs))
			c = b.And(b.Implies(b.Le(z, x), pos), b.Implies(b.Lt(x, z), neg))
		}
		p.assertPC(c)
		p.assertRange(q)
		return q
	})
	r = b.Sub(x, b.Mul(q, y))
	return
}

func (p *Path) assertRange(t *Term) {
	b := p.b
	mk := func(f float64) *Term {
		if t.sort == SInt {
			bf := new(big.Float).SetFloat64(f)
			i, _ := bf.Int(nil)
			return b.IntBig(i)
		}
		return b.RealF(f)
	}
	// built without interval simplification: the interval is what is being asserted
	raw := func(op Op, x, y *Term) *Term {
		return b.intern(&Term{op: op, sort: SBool, args: []*Term{x, y}}, "raw"+key2(op, x, y))
	}
	if !math.IsInf(t.lo, 0) {
		p.assertPC(raw(OLe, mk(math.Floor(t.lo)), t))
	}
	if !math.IsInf(t.hi, 0) {
		p.assertPC(raw(OLe, t, mk(math.Ceil(t.hi))))
	}
}

// floats ---------------------------------------------------------------

func (p *Path) realTerm(v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case float64:
		if math.IsNaN(v) || math.IsInf(v, 0) {
			panic(engineErr("special float %v mixed with symbolic float", v))
		}
		return p.b.RealF(v)
	}
	panic(engineErr("float expected, got %T", v))
}

func (p *Path) termReal(t *Term, bits int) Value {
	if t.op == OConst {
		f, _ := t.rat.Float64()
		if bits == 32 {
			f32, _ := t.rat.Float32()
			f = float64(f32)
		}
		return f
	}
	return t
}

// exactlyRepresentable: value is n/2^j with |n| <= 2^prec for every model.
func exactlyRepresentable(t *Term, prec int) bool {
	lim := math.Ldexp(1, prec)
	if t.op == OIte {
		return exactlyRepresentable(t.args[1], prec) && exactlyRepresentable(t.args[2], prec)
	}
	if t.intval {
		return t.lo >= -lim && t.hi <= lim
	}
	if t.op == OConst {
		if prec == 24 {
			_, ex := t.rat.Float32()
			return ex
		}
		_, ex := t.rat.Float64()
		return ex
	}
	if t.op == OLin {
		j := 0
		upd := func(r *big.Rat) bool {
			d := r.Denom()
			bl := d.BitLen()
			if new(big.Int).Lsh(big.NewInt(1), uint(bl-1)).Cmp(d) != 0 {
				return false
			}
			if bl-1 > j {
				j = bl - 1
			}
			return true
		}
		if !upd(t.rat) {
			return false
		}
		for i, a := range t.args {
			if !a.intval || !upd(t.coefs[i]) {
				return false
			}
		}
		s := math.Ldexp(1, j)
		return t.lo*s >= -lim && t.hi*s <= lim
	}
	return false
}

// fround models IEEE rounding of the exact real t to the given width.
func (p *Path) fround(t *Term, bits int) Value {
	prec := 53
	if bits == 32 {
		prec = 24
	}
	if t.op == OConst {
		return p.termReal(t, bits)
	}
	if exactlyRepresentable(t, prec) {
		return t
	}
	if r, ok := p.w.rounded[t.id]; ok && (r == bits || r == 32) {
		return t // already the result of a rounding at that or lower precision
	}
	if t.op == OIte {
		x, y := p.fround(t.args[1], bits), p.fround(t.args[2], bits)
		return p.termReal(p.b.Ite(t.args[0], p.realTerm(x), p.realTerm(y)), bits)
	}
	b := p.b
	return p.memoized(fmt.Sprintf("fround%d", bits), t, nil, func() *Term {
		u := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), uint(prec)))
		uf, _ := u.Float64()
		m := math.Max(math.Abs(t.lo), math.Abs(t.hi))
		e := p.newSkolem("e", SReal, -fup(m*uf), fup(m*uf))
		e.inexact = true
		p.errs = append(p.errs, roundErr{t, e, bits})
		p.assertErr(e, t, u)
		r := b.Add(t, e)
		p.w.rounded[r.id] = bits
		return r
	})
}

func (p *Path) assertErr(e, t *Term, u *big.Rat) {
	b := p.b
	ut := b.Scale(t, u)
	raw := func(x, y *Term) *Term {
		return b.intern(&Term{op: OLe, sort: SBool, args: []*Term{x, y}}, "raw"+key2(OLe, x, y))
	}
	pos := b.And(raw(b.Neg(ut), e), raw(e, ut))
	neg := b.And(raw(ut, e), raw(e, b.Neg(ut)))
	switch {
	case t.lo >= 0:
		p.assertPC(pos)
	case t.hi <= 0:
		p.assertPC(neg)
	default:
		c := b.Le(b.zeroR, t)
		p.assertPC(b.Ite(c, pos, neg))
	}
}

func (p *Path) fop(op byte, x, y Value, bits int) Value {
	xc, ok1 := x.(float64)
	yc, ok2 := y.(float64)
	if ok1 && ok2 {
		var r float64
		switch op {
		case '+':
			r = xc + yc
		case '-':
			r = xc - yc
		case '*':
			r = xc * yc
		case '/':
			r = xc / yc
		}
		if bits == 32 {
			r = float64(float32(r))
		}
		return r
	}
	if (ok1 && (math.IsInf(xc, 0) || math.IsNaN(xc))) || (ok2 && (math.IsInf(yc, 0) || math.IsNaN(yc))) {
		// special values: only the simple cases
		if ok1 && (op == '+' || op == '-') {
			return xc
		}
		if ok1 && math.IsNaN(xc) || ok2 && math.IsNaN(yc) {
			return math.NaN()
		}
		if ok2 && op == '+' {
			return yc
		}
		if ok2 && op == '-' {
			return -yc
		}
		if ok2 && op == '/' {
			return float64(0)
		}
		panic(engineErr("special float arithmetic"))
	}
	b := p.b
	X, Y := p.realTerm(x), p.realTerm(y)
	var r *Term
	switch op {
	case '+':
		r = b.Add(X, Y)
	case '-':
		r = b.Sub(X, Y)
	case '*':
		r = b.Mul(X, Y)
	case '/':
		if p.branch(b.Eq(Y, b.zeroR)) {
			if p.branch(b.Eq(X, b.zeroR)) {
				return math.NaN()
			}
			if p.branch(b.Lt(b.zeroR, X)) {
				return math.Inf(1)
			}
			return math.Inf(-1)
		}
		r = b.RDiv(X, Y)
		if r.op == ORDiv {
			// introduce the quotient as a variable: q*y = x
			r = p.memoized("rdiv", X, Y, func() *Term {
				q := p.newSkolem("d", SReal, r.lo, r.hi)
				p.assertPC(b.Eq(b.Mul(q, Y), X))
				return q
			})
		}
	}
	v := p.fround(r, bits)
	if t, ok := v.(*Term); ok && op == '*' && X == Y {
		p.w.squares[t.id] = square{X, bits}
	}
	return v
}

// square notes that a term is the square of x, rounded to the given width.
type square struct {
	x    *Term
	bits int
}

// trunc converts a float to an integer of kind k.
func (p *Path) floatToInt(v Value, k intKind) Value {
	b := p.b
	switch v := v.(type) {
	case float64:
		if k.signed {
			return normInt(int64(v), k)
		}
		return normInt(int64(uint64(v)), k)
	case *Term:
		var t *Term
		switch {
		case v.lo >= 0 || v.intval:
			t = b.ToInt(v)
		case v.hi <= 0:
			t = b.Neg(b.ToInt(b.Neg(v)))
		default:
			t = b.Ite(b.Le(b.zeroR, v), b.ToInt(v), b.Neg(b.ToInt(b.Neg(v))))
		}
		return p.wrap(t, k)
	}
	panic(engineErr("floatToInt %T", v))
}

func (p *Path) roundEven(v Value) Value {
	switch v := v.(type) {
	case float64:
		return math.RoundToEven(v)
	case *Term:
		if v.intval {
			return v
		}
		b := p.b
		return p.memoized("rte", v, nil, func() *Term {
			n := p.newSkolem("n", SInt, math.Floor(v.lo-0.5), math.Ceil(v.hi+0.5))
			p.nearest(n, v, true)
			return b.ToReal(n)
		})
	}
	panic(engineErr("roundEven %T", v))
}

// nearest asserts |v-n| <= 1/2 (with ties to even if even).
func (p *Path) nearest(n *Term, v *Term, even bool) {
	b := p.b
	half := b.RealC(big.NewRat(1, 2))
	d := b.Sub(v, b.ToReal(n))
	p.assertPC(b.And(b.Le(b.Neg(half), d), b.Le(d, half)))
	if even {
		tie := b.Or(b.Eq(d, half), b.Eq(d, b.Neg(half)))
		p.assertPC(b.Implies(tie, b.Eq(b.FMod(n, big.NewInt(2)), b.zeroI)))
	}
	p.assertRange(n)
}

func (p *Path) sqrt(v Value, bits int) Value {
	switch v := v.(type) {
	case float64:
		return math.Sqrt(v)
	case *Term:
		b := p.b
		if v.lo < 0 && p.branch(b.Lt(v, b.zeroR)) {
			return math.NaN()
		}
		if v.op == OMul && v.args[0] == v.args[1] {
			t := v.args[0]
			return b.Ite(b.Le(b.zeroR, t), t, b.Neg(t))
		}
		if q, ok := p.w.squares[v.id]; ok {
			// sqrt(x*x*(1+d)) = |x| * (1+d') with |d'| <= |d|
			x := q.x
			ax := b.Ite(b.Le(b.zeroR, x), x, b.Neg(x))
			s := p.memoized("sqrtsq", v, nil, func() *Term {
				u := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 52))
				if q.bits == 32 {
					u.SetFrac(big.NewInt(1), big.NewInt(1<<23))
				}
				s := p.newSkolem("s", SReal, 0, fup(math.Sqrt(v.hi)))
				s.inexact = true
				p.assertRange(s)
				p.assertPC(b.Le(b.Scale(ax, new(big.Rat).Sub(ratOne, u)), s))
				p.assertPC(b.Le(s, b.Scale(ax, new(big.Rat).Add(ratOne, u))))
				return s
			})
			return p.fround(s, bits)
		}
		s := p.memoized("sqrt", v, nil, func() *Term {
			s := p.newSkolem("s", SReal, 0, fup(math.Sqrt(v.hi)))
			p.assertRange(s)
			p.assertPC(b.Eq(b.Mul(s, s), v))
			return s
		})
		if v.intval && v.hi <= 1<<50 && bits == 64 {
			// the square root of an integer never rounds across an integer
			r := p.realTerm(p.fround(s, bits))
			p.memoized("isqrt", v, nil, func() *Term {
				k := p.newSkolem("k", SInt, 0, fup(math.Sqrt(v.hi)))
				p.assertRange(k)
				kr := b.ToReal(k)
				kk := b.Mul(kr, kr)
				p.assertPC(b.And(b.Le(kk, v), b.Lt(v, b.Add(kk, b.Add(b.Scale(kr, ratInt(2)), b.RealC(ratOne))))))
				p.assertPC(b.And(b.Le(kr, r), b.Lt(r, b.Add(kr, b.RealC(ratOne)))))
				return k
			})
			return r
		}
		return p.fround(s, bits)
	}
	panic(engineErr("sqrt %T", v))
}

// ---------------------------------------------------------------------------
// merging of values

type unmergeable struct{ why string }

func (p *Path) mergeVal(c *Term, x, y Value) (Value, bool) {
	if x == nil && y == nil {
		return nil, true
	}
	switch xv := x.(type) {
	case bool:
		switch yv := y.(type) {
		case bool:
			if xv == yv {
				return x, true
			}
			return unTerm(p.b.Ite(c, p.b.BoolC(xv), p.b.BoolC(yv))), true
		case *Term:
			if yv.sort == SBool {
				return unTerm(p.b.Ite(c, p.b.BoolC(xv), yv)), true
			}
		}
	case int64:
		switch yv := y.(type) {
		case int64:
			if xv == yv {
				return x, true
			}
			return p.b.Ite(c, p.b.IntC(xv), p.b.IntC(yv)), true
		case *Term:
			if yv.sort == SInt {
				return p.b.Ite(c, p.b.IntC(xv), yv), true
			}
		}
	case float64:
		if math.IsNaN(xv) || math.IsInf(xv, 0) {
			yf, ok := y.(float64)
			return x, ok && (yf == xv)
		}
		switch yv := y.(type) {
		case float64:
			if xv == yv && math.Signbit(xv) == math.Signbit(yv) {
				return x, true
			}
			if math.IsNaN(yv) || math.IsInf(yv, 0) {
				return nil, false
			}
			return p.b.Ite(c, p.b.RealF(xv), p.b.RealF(yv)), true
		case *Term:
			if yv.sort == SReal {
				return p.b.Ite(c, p.b.RealF(xv), yv), true
			}
		}
	case *Term:
		switch yv := y.(type) {
		case *Term:
			if xv.sort == yv.sort {
				return unTerm(p.b.Ite(c, xv, yv)), true
			}
		case bool:
			return unTerm(p.b.Ite(c, xv, p.b.BoolC(yv))), true
		case int64:
			return p.b.Ite(c, xv, p.b.IntC(yv)), true
		case float64:
			if math.IsNaN(yv) || math.IsInf(yv, 0) {
				return nil, false
			}
			return p.b.Ite(c, xv, p.b.RealF(yv)), true
		}
	case string:
		if yv, ok := y.(string); ok && xv == yv {
			return x, true
		}
	case *SymStr:
		if yv, ok := y.(*SymStr); ok && xv == yv {
			return x, true
		}
	case *Value:
		if yv, ok := y.(*Value); ok && xv == yv {
			return x, true
		}
	case StructV:
		yv, ok := y.(StructV)
		if !ok || len(xv) != len(yv) {
			return nil, false
		}
		r := make(StructV, len(xv))
		for i := range xv {
			m, ok := p.mergeVal(c, xv[i], yv[i])
			if !ok {
				return nil, false
			}
			r[i] = m
		}
		return r, true
	case ArrayV:
		yv, ok := y.(ArrayV)
		if !ok || len(xv) != len(yv) {
			return nil, false
		}
		r := make(ArrayV, len(xv))
		for i := range xv {
			m, ok := p.mergeVal(c, xv[i], yv[i])
			if !ok {
				return nil, false
			}
			r[i] = m
		}
		return r, true
	case SliceV:
		yv, ok := y.(SliceV)
		if ok && len(xv) == len(yv) && cap(xv) == cap(yv) {
			if cap(xv) == 0 {
				return x, (xv == nil) == (yv == nil)
			}
			if &xv[:1][0] == &yv[:1][0] {
				return x, true
			}
		}
	case Tuple:
		yv, ok := y.(Tuple)
		if !ok || len(xv) != len(yv) {
			return nil, false
		}
		r := make(Tuple, len(xv))
		for i := range xv {
			m, ok := p.mergeVal(c, xv[i], yv[i])
			if !ok {
				return nil, false
			}
			r[i] = m
		}
		return r, true
	case Iface:
		yv, ok := y.(Iface)
		if !ok {
			return nil, false
		}
		if xv.t == nil || yv.t == nil {
			return x, xv.t == nil && yv.t == nil
		}
		if !types.Identical(xv.t, yv.t) {
			return nil, false
		}
		m, ok := p.mergeVal(c, xv.v, yv.v)
		if !ok {
			return nil, false
		}
		return Iface{xv.t, m}, true
	case *MapV:
		if yv, ok := y.(*MapV); ok && xv == yv {
			return x, true
		}
	case *ssa.Function:
		if yv, ok := y.(*ssa.Function); ok && xv == yv {
			return x, true
		}
	case *Closure:
		if yv, ok := y.(*Closure); ok && xv == yv {
			return x, true
		}
	case UnsafePtr:
		if yv, ok := y.(UnsafePtr); ok && xv == yv {
			return x, true
		}
	}
	return nil, false
}

func unTerm(t *Term) Value {
	if t.op == OConst && t.sort == SBool {
		return t.b
	}
	return t
}

func (p *Path) panicMsg(tp targetPanic) string {
	if tp.msg != "" {
		return tp.msg
	}
	if i, ok := tp.v.(Iface); ok {
		switch v := i.v.(type) {
		case string:
			return v
		}
		return fmt.Sprintf("%v", i.t)
	}
	return "panic"
}

func (p *Path) stackString() string {
	var s []string
	for i := len(p.stack) - 1; i >= 0 && len(s) < 12; i-- {
		s = append(s, p.stack[i].String())
	}
	return strings.Join(s, " < ")
}
