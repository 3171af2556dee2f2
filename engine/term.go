package main

// Hash-consed first-order terms over Bool, Int and Real, with interval analysis.

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort uint8

const (
	SBool Sort = iota
	SInt
	SReal
)

func (s Sort) String() string { return [...]string{"Bool", "Int", "Real"}[s] }

type Op uint8

const (
	OVar Op = iota
	OConst
	OLin // rat + sum coefs[i]*args[i]
	OMul // product of exactly two non constant factors
	ORDiv
	ODiv // floor division by positive constant rat
	OMod // Euclidean modulus by positive constant rat
	OToReal
	OToInt // floor
	OEq
	OLe
	OLt
	ONot
	OAnd
	OOr
	OIte
	OApp // uninterpreted function name(args)
)

type Term struct {
	id      int
	op      Op
	sort    Sort
	args    []*Term
	coefs   []*big.Rat
	rat     *big.Rat // OConst value, OLin constant, ODiv/OMod divisor
	b       bool     // OConst bool
	name    string
	lo, hi  float64 // sound interval (numeric sorts)
	inexact bool    // depends on an over-approximating skolem
	intval  bool    // Real term known to be integer valued
	size    int
	smt     [3]string // printed form in current solvers ("" = not yet)
	smtGen  [3]int
	nl      bool // contains a product or quotient of unknowns
}

type Bank struct {
	tab   map[string]*Term
	terms int
	vars  []*Term
	tTrue *Term
	tFals *Term
	zeroI *Term
	zeroR *Term
	fresh int
}

func NewBank() *Bank {
	b := &Bank{tab: map[string]*Term{}}
	b.tTrue = b.intern(&Term{op: OConst, sort: SBool, b: true}, "T")
	b.tFals = b.intern(&Term{op: OConst, sort: SBool, b: false}, "F")
	b.zeroI = b.IntC(0)
	b.zeroR = b.RealC(new(big.Rat))
	return b
}

func (b *Bank) intern(t *Term, key string) *Term {
	if o, ok := b.tab[key]; ok {
		return o
	}
	b.terms++
	t.id = b.terms
	sz := 1
	t.nl = t.op == OMul || t.op == ORDiv
	for _, a := range t.args {
		sz += a.size
		if a.inexact {
			t.inexact = true
		}
		t.nl = t.nl || a.nl
	}
	if sz > 1<<30 {
		sz = 1 << 30
	}
	t.size = sz
	b.tab[key] = t
	return t
}

var ratOne = big.NewRat(1, 1)
var ratMinusOne = big.NewRat(-1, 1)

func ratF(r *big.Rat) (lo, hi float64) {
	f, exact := r.Float64()
	if exact {
		return f, f
	}
	return math.Nextafter(f, math.Inf(-1)), math.Nextafter(f, math.Inf(1))
}

func fdn(f float64) float64 {
	if math.IsNaN(f) {
		return math.Inf(-1)
	}
	if math.IsInf(f, 0) || (f == math.Trunc(f) && math.Abs(f) <= 1<<52) {
		return f
	}
	return math.Nextafter(f, math.Inf(-1))
}
func fup(f float64) float64 {
	if math.IsNaN(f) {
		return math.Inf(1)
	}
	if math.IsInf(f, 0) || (f == math.Trunc(f) && math.Abs(f) <= 1<<52) {
		return f
	}
	return math.Nextafter(f, math.Inf(1))
}

func (b *Bank) BoolC(v bool) *Term {
	if v {
		return b.tTrue
	}
	return b.tFals
}

func (b *Bank) num(r *big.Rat, s Sort) *Term {
	key := "c" + s.String() + r.RatString()
	if o, ok := b.tab[key]; ok {
		return o
	}
	lo, hi := ratF(r)
	return b.intern(&Term{op: OConst, sort: s, rat: new(big.Rat).Set(r), lo: lo, hi: hi, intval: r.IsInt()}, key)
}
func (b *Bank) IntC(v int64) *Term      { return b.num(new(big.Rat).SetInt64(v), SInt) }
func (b *Bank) IntBig(v *big.Int) *Term { return b.num(new(big.Rat).SetInt(v), SInt) }
func (b *Bank) RealC(r *big.Rat) *Term  { return b.num(r, SReal) }
func (b *Bank) RealF(f float64) *Term {
	r := new(big.Rat)
	r.SetFloat64(f)
	return b.RealC(r)
}

// Var creates (or returns) the named variable. Interval bounds are only trusted if also asserted.
func (b *Bank) Var(name string, s Sort, lo, hi float64) *Term {
	key := "v" + name
	if o, ok := b.tab[key]; ok {
		return o
	}
	t := b.intern(&Term{op: OVar, sort: s, name: name, lo: lo, hi: hi, intval: s == SInt}, key)
	b.vars = append(b.vars, t)
	return t
}

func (b *Bank) isC(t *Term) bool { return t.op == OConst }

func key2(op Op, args ...*Term) string {
	var sb strings.Builder
	sb.WriteByte('o')
	sb.WriteString(strconv.Itoa(int(op)))
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	return sb.String()
}

// linear combination helpers -------------------------------------------------

type mono struct {
	t *Term
	c *big.Rat
}

func (b *Bank) monos(t *Term) (*big.Rat, []mono) {
	switch t.op {
	case OConst:
		return t.rat, nil
	case OLin:
		ms := make([]mono, len(t.args))
		for i := range t.args {
			ms[i] = mono{t.args[i], t.coefs[i]}
		}
		return t.rat, ms
	}
	return new(big.Rat), []mono{{t, ratOne}}
}

func (b *Bank) mkLin(c *big.Rat, ms []mono, s Sort) *Term {
	// ms sorted and merged, nonzero
	if len(ms) == 0 {
		return b.num(c, s)
	}
	if len(ms) == 1 && c.Sign() == 0 && ms[0].c.Cmp(ratOne) == 0 {
		return ms[0].t
	}
	var sb strings.Builder
	sb.WriteString("L")
	sb.WriteString(s.String())
	sb.WriteString(c.RatString())
	for _, m := range ms {
		sb.WriteByte(';')
		sb.WriteString(m.c.RatString())
		sb.WriteByte('*')
		sb.WriteString(strconv.Itoa(m.t.id))
	}
	key := sb.String()
	if o, ok := b.tab[key]; ok {
		return o
	}
	t := &Term{op: OLin, sort: s, rat: c}
	lo, hi := ratF(c)
	iv := c.IsInt()
	for _, m := range ms {
		t.args = append(t.args, m.t)
		t.coefs = append(t.coefs, m.c)
		cl, ch := ratF(m.c)
		l, h := imul(cl, ch, m.t.lo, m.t.hi)
		lo = fdn(lo + l)
		hi = fup(hi + h)
		if !m.c.IsInt() || !m.t.intval {
			iv = false
		}
	}
	if l, h, ok := b.relaxed(c, ms); ok {
		lo, hi = math.Max(lo, l), math.Min(hi, h)
	}
	t.lo, t.hi = lo, hi
	t.intval = iv || s == SInt
	return b.intern(t, key)
}

func ratOf(f float64) *big.Rat { return new(big.Rat).SetInt64(int64(f)) }

// divs tells whether t is a sum with a floor division.
func divs(t *Term) bool {
	if t.op == OLin {
		for _, a := range t.args {
			if a.op == ODiv {
				return true
			}
		}
	}
	return t.op == ODiv
}

// relaxed bounds a sum which contains floor divisions: floor(x/k) lies in (x/k-1, x/k], which lets occurrences of the same variables
// inside and outside of the divisions cancel out.
func (b *Bank) relaxed(c *big.Rat, ms []mono) (lo, hi float64, ok bool) {
	if len(ms) < 2 {
		return
	}
	sum := map[*Term]*big.Rat{}
	rest := new(big.Rat).Set(c)
	slack := [2]*big.Rat{new(big.Rat), new(big.Rat)} // lower, upper
	n := 0
	var add func(t *Term, f *big.Rat)
	add = func(t *Term, f *big.Rat) {
		if t.op == ODiv && n < 40 {
			n++
			ok = true
			// f*floor(x/k) = f*x/k - f*r/k with 0 <= r <= k-1
			k := new(big.Rat).Quo(f, t.rat)
			r := new(big.Rat).Mul(k, new(big.Rat).Sub(t.rat, ratOne))
			if f.Sign() > 0 {
				slack[0].Sub(slack[0], r)
			} else {
				slack[1].Sub(slack[1], r)
			}
			xc, xs := b.monos(t.args[0])
			rest.Add(rest, new(big.Rat).Mul(xc, k))
			for _, m := range xs {
				add(m.t, new(big.Rat).Mul(m.c, k))
			}
			return
		}
		if t.op == OIte && n < 40 && (divs(t.args[1]) || divs(t.args[2])) {
			// truncating division: both arms are nearly the same
			if d := b.Sub(t.args[1], t.args[2]); d.hi-d.lo <= 4 && math.Abs(d.lo) < 8 {
				n++
				ok = true
				// t = arm - s with s = 0 or s = d
				l := ratOf(math.Min(0, math.Floor(d.lo)))
				h := ratOf(math.Max(0, math.Ceil(d.hi)))
				x, y := new(big.Rat).Mul(f, h), new(big.Rat).Mul(f, l)
				if x.Cmp(y) < 0 {
					x, y = y, x
				}
				slack[0].Sub(slack[0], x)
				slack[1].Sub(slack[1], y)
				xc, xs := b.monos(t.args[1])
				rest.Add(rest, new(big.Rat).Mul(xc, f))
				for _, m := range xs {
					add(m.t, new(big.Rat).Mul(m.c, f))
				}
				return
			}
		}
		if o := sum[t]; o != nil {
			sum[t] = new(big.Rat).Add(o, f)
		} else {
			sum[t] = f
		}
	}
	for _, m := range ms {
		add(m.t, m.c)
	}
	if !ok {
		return
	}
	lo, _ = ratF(new(big.Rat).Add(rest, slack[0]))
	_, hi = ratF(new(big.Rat).Add(rest, slack[1]))
	for t, f := range sum {
		if f.Sign() == 0 {
			continue
		}
		cl, ch := ratF(f)
		l, h := imul(cl, ch, t.lo, t.hi)
		lo = fdn(lo + l)
		hi = fup(hi + h)
	}
	return lo, hi, true
}

func mulz(a, b float64) float64 {
	if a == 0 || b == 0 {
		return 0
	}
	return a * b
}
func imul(al, ah, bl, bh float64) (float64, float64) {
	p := [4]float64{mulz(al, bl), mulz(al, bh), mulz(ah, bl), mulz(ah, bh)}
	lo, hi := p[0], p[0]
	for _, x := range p[1:] {
		if x < lo {
			lo = x
		}
		if x > hi {
			hi = x
		}
	}
	return fdn(lo), fup(hi)
}

func (b *Bank) addScaled(x *Term, y *Term, k *big.Rat) *Term {
	cx, mx := b.monos(x)
	cy, my := b.monos(y)
	c := new(big.Rat).Mul(cy, k)
	c.Add(c, cx)
	res := make([]mono, 0, len(mx)+len(my))
	i, j := 0, 0
	for i < len(mx) || j < len(my) {
		switch {
		case j >= len(my) || (i < len(mx) && mx[i].t.id < my[j].t.id):
			res = append(res, mx[i])
			i++
		case i >= len(mx) || my[j].t.id < mx[i].t.id:
			res = append(res, mono{my[j].t, new(big.Rat).Mul(my[j].c, k)})
			j++
		default:
			s := new(big.Rat).Mul(my[j].c, k)
			s.Add(s, mx[i].c)
			if s.Sign() != 0 {
				res = append(res, mono{mx[i].t, s})
			}
			i++
			j++
		}
	}
	return b.mkLin(c, res, x.sort)
}

func (b *Bank) Add(x, y *Term) *Term { return b.addScaled(x, y, ratOne) }
func (b *Bank) Sub(x, y *Term) *Term { return b.addScaled(x, y, ratMinusOne) }
func (b *Bank) Scale(x *Term, k *big.Rat) *Term {
	if k.Sign() == 0 {
		return b.num(new(big.Rat), x.sort)
	}
	if k.Cmp(ratOne) == 0 {
		return x
	}
	c, ms := b.monos(x)
	r := make([]mono, len(ms))
	for i, m := range ms {
		r[i] = mono{m.t, new(big.Rat).Mul(m.c, k)}
	}
	return b.mkLin(new(big.Rat).Mul(c, k), r, x.sort)
}
func (b *Bank) Neg(x *Term) *Term { return b.Scale(x, ratMinusOne) }

func (b *Bank) Mul(x, y *Term) *Term {
	if x.op == OConst {
		return b.Scale(y, x.rat)
	}
	if y.op == OConst {
		return b.Scale(x, y.rat)
	}
	// pull out a scalar factor of a single-monomial linear term
	if x.op == OLin && len(x.args) == 1 && x.rat.Sign() == 0 {
		return b.Scale(b.Mul(x.args[0], y), x.coefs[0])
	}
	if y.op == OLin && len(y.args) == 1 && y.rat.Sign() == 0 {
		return b.Scale(b.Mul(x, y.args[0]), y.coefs[0])
	}
	// distribute over ite with constant arms
	if x.op == OIte && x.args[1].op == OConst && x.args[2].op == OConst {
		return b.Ite(x.args[0], b.Scale(y, x.args[1].rat), b.Scale(y, x.args[2].rat))
	}
	if y.op == OIte && y.args[1].op == OConst && y.args[2].op == OConst {
		return b.Ite(y.args[0], b.Scale(x, y.args[1].rat), b.Scale(x, y.args[2].rat))
	}
	// an integer factor with a handful of possible values: distinguish them
	for i := 0; i < 2; i++ {
		if x.intval && x.hi-x.lo <= 4 && math.Abs(x.lo) < 1<<50 {
			at := func(v int64) *Term {
				c := new(big.Rat).SetInt64(v)
				if x == y {
					return b.num(c.Mul(c, c), x.sort)
				}
				return b.Scale(y, c)
			}
			v := int64(math.Floor(x.hi))
			r := at(v)
			for v--; float64(v) >= x.lo; v-- {
				r = b.Ite(b.Le(x, b.num(new(big.Rat).SetInt64(v), x.sort)), at(v), r)
			}
			return r
		}
		x, y = y, x
	}
	if x.id > y.id {
		x, y = y, x
	}
	key := key2(OMul, x, y)
	if o, ok := b.tab[key]; ok {
		return o
	}
	lo, hi := imul(x.lo, x.hi, y.lo, y.hi)
	if x == y && lo < 0 {
		lo = 0
	}
	return b.intern(&Term{op: OMul, sort: x.sort, args: []*Term{x, y}, lo: lo, hi: hi, intval: x.intval && y.intval}, key)
}

// RDiv is exact real division (divisor known to be nonzero).
func (b *Bank) RDiv(x, y *Term) *Term {
	if y.op == OConst && y.rat.Sign() != 0 {
		return b.Scale(x, new(big.Rat).Inv(y.rat))
	}
	if x.op == OConst && x.rat.Sign() == 0 {
		return x
	}
	key := key2(ORDiv, x, y)
	if o, ok := b.tab[key]; ok {
		return o
	}
	lo, hi := math.Inf(-1), math.Inf(1)
	if y.lo > 0 || y.hi < 0 {
		lo, hi = imul(x.lo, x.hi, fdn(1/y.hi), fup(1/y.lo))
	}
	return b.intern(&Term{op: ORDiv, sort: SReal, args: []*Term{x, y}, lo: lo, hi: hi}, key)
}

func floorRat(r *big.Rat) *big.Int {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(r.Num(), r.Denom(), m)
	return q
}

// FDiv: floor(x / k), k > 0 constant integer.
func (b *Bank) FDiv(x *Term, k *big.Int) *Term {
	if k.Cmp(big.NewInt(1)) == 0 {
		return x
	}
	kr := new(big.Rat).SetInt(k)
	if x.op == OConst {
		return b.IntBig(floorRat(new(big.Rat).Quo(x.rat, kr)))
	}
	kf, _ := kr.Float64()
	lo, hi := math.Floor(fdn(x.lo/kf)), math.Floor(fup(x.hi/kf))
	if lo == hi && math.Abs(lo) < 1<<50 {
		return b.IntC(int64(lo))
	}
	// pull out divisible part
	if x.op == OLin {
		c, ms := b.monos(x)
		var keep, out []mono
		for _, m := range ms {
			q := new(big.Rat).Quo(m.c, kr)
			if q.IsInt() {
				out = append(out, mono{m.t, q})
			} else {
				keep = append(keep, m)
			}
		}
		if len(out) > 0 {
			rest := b.mkLin(c, keep, SInt)
			return b.Add(b.mkLin(new(big.Rat), out, SInt), b.FDiv(rest, k))
		}
	}
	key := key2(ODiv, x) + "/" + k.String()
	if o, ok := b.tab[key]; ok {
		return o
	}
	return b.intern(&Term{op: ODiv, sort: SInt, args: []*Term{x}, rat: kr, lo: lo, hi: hi, intval: true}, key)
}

// FMod: x mod k in [0,k), k > 0 constant integer.
func (b *Bank) FMod(x *Term, k *big.Int) *Term {
	kr := new(big.Rat).SetInt(k)
	if x.op == OConst {
		m := new(big.Int).Mod(x.rat.Num(), k)
		return b.IntBig(m)
	}
	kf, _ := kr.Float64()
	if x.lo >= 0 && x.hi <= kf-1 && kf < 1<<52 {
		return x
	}
	if kf >= 1<<52 && x.lo >= 0 && x.hi < kf { // big modulus: strict bound is enough for integers
		return x
	}
	if x.op == OLin { // drop divisible monomials
		c, ms := b.monos(x)
		var keep []mono
		for _, m := range ms {
			if !new(big.Rat).Quo(m.c, kr).IsInt() {
				keep = append(keep, m)
			}
		}
		if len(keep) < len(ms) {
			return b.FMod(b.mkLin(c, keep, SInt), k)
		}
	}
	key := key2(OMod, x) + "%" + k.String()
	if o, ok := b.tab[key]; ok {
		return o
	}
	return b.intern(&Term{op: OMod, sort: SInt, args: []*Term{x}, rat: kr, lo: 0, hi: kf, intval: true}, key)
}

func (b *Bank) ToReal(x *Term) *Term {
	if x.sort == SReal {
		return x
	}
	if x.op == OConst {
		return b.RealC(x.rat)
	}
	if x.op == OLin {
		c, ms := b.monos(x)
		r := b.RealC(c)
		for _, m := range ms {
			r = b.addScaled(r, b.ToReal(m.t), m.c)
		}
		return r
	}
	if x.op == OIte {
		return b.Ite(x.args[0], b.ToReal(x.args[1]), b.ToReal(x.args[2]))
	}
	if x.op == OMul {
		return b.Mul(b.ToReal(x.args[0]), b.ToReal(x.args[1]))
	}
	if x.op == OToInt && x.args[0].intval {
		return x.args[0]
	}
	key := key2(OToReal, x)
	if o, ok := b.tab[key]; ok {
		return o
	}
	return b.intern(&Term{op: OToReal, sort: SReal, args: []*Term{x}, lo: x.lo, hi: x.hi, intval: true}, key)
}

// ToInt: floor of a real.
func (b *Bank) ToInt(x *Term) *Term {
	if x.sort == SInt {
		return x
	}
	if x.op == OConst {
		return b.IntBig(floorRat(x.rat))
	}
	if x.op == OToReal {
		return x.args[0]
	}
	if x.op == OIte {
		return b.Ite(x.args[0], b.ToInt(x.args[1]), b.ToInt(x.args[2]))
	}
	if x.op == OLin && x.intval { // integer combination of integer valued terms
		c, ms := b.monos(x)
		ok := true
		r := b.num(c, SInt)
		for _, m := range ms {
			if m.t.op != OToReal && m.t.op != OMul {
				ok = false
				break
			}
			r = b.addScaled(r, b.ToInt(m.t), m.c)
		}
		if ok {
			return r
		}
	}
	if x.op == OMul && x.args[0].intval && x.args[1].intval {
		return b.Mul(b.ToInt(x.args[0]), b.ToInt(x.args[1]))
	}
	key := key2(OToInt, x)
	if o, ok := b.tab[key]; ok {
		return o
	}
	return b.intern(&Term{op: OToInt, sort: SInt, args: []*Term{x}, lo: math.Floor(x.lo), hi: math.Floor(x.hi), intval: true}, key)
}

// booleans ---------------------------------------------------------------

func (b *Bank) Not(x *Term) *Term {
	if x.op == OConst {
		return b.BoolC(!x.b)
	}
	if x.op == ONot {
		return x.args[0]
	}
	if x.op == OLe { // not (x<=y) == y<x
		return b.cmp(OLt, x.args[1], x.args[0])
	}
	if x.op == OLt {
		return b.cmp(OLe, x.args[1], x.args[0])
	}
	return b.intern(&Term{op: ONot, sort: SBool, args: []*Term{x}}, key2(ONot, x))
}

func (b *Bank) nary(op Op, xs []*Term) *Term {
	abs, neu := b.tFals, b.tTrue
	if op == OOr {
		abs, neu = b.tTrue, b.tFals
	}
	var fl []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == neu || seen[x.id] {
			return true
		}
		if x == abs {
			return false
		}
		if x.op == op {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[x.id] = true
		fl = append(fl, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return abs
		}
	}
	for _, x := range fl {
		if seen[b.Not(x).id] {
			return abs
		}
	}
	if len(fl) == 0 {
		return neu
	}
	if len(fl) == 1 {
		return fl[0]
	}
	sort.Slice(fl, func(i, j int) bool { return fl[i].id < fl[j].id })
	return b.intern(&Term{op: op, sort: SBool, args: fl}, key2(op, fl...))
}
func (b *Bank) And(xs ...*Term) *Term { return b.nary(OAnd, xs) }
func (b *Bank) Or(xs ...*Term) *Term  { return b.nary(OOr, xs) }
func (b *Bank) Implies(x, y *Term) *Term {
	return b.Or(b.Not(x), y)
}

func (b *Bank) Ite(c, x, y *Term) *Term {
	if c == b.tTrue || x == y {
		return x
	}
	if c == b.tFals {
		return y
	}
	if x.sort == SBool {
		if x == b.tTrue {
			return b.Or(c, y)
		}
		if x == b.tFals {
			return b.And(b.Not(c), y)
		}
		if y == b.tTrue {
			return b.Or(b.Not(c), x)
		}
		if y == b.tFals {
			return b.And(c, x)
		}
	}
	if c.op == ONot {
		return b.Ite(c.args[0], y, x)
	}
	if x.op == OIte && x.args[0] == c {
		x = x.args[1]
	}
	if y.op == OIte && y.args[0] == c {
		y = y.args[2]
	}
	if x == y {
		return x
	}
	lo, hi := math.Min(x.lo, y.lo), math.Max(x.hi, y.hi)
	// refine intervals for min/max/abs shapes
	if c.op == OLe || c.op == OLt {
		p, q := c.args[0], c.args[1]
		// on the true arm p<=q, on the false arm q<=p
		xl, xh, yl, yh := x.lo, x.hi, y.lo, y.hi
		refine := func(t *Term, small, big *Term, l, h float64) (float64, float64) {
			if t == small && big.hi < h {
				h = big.hi
			}
			if t == big && small.lo > l {
				l = small.lo
			}
			if small.op == OConst && small.rat.Sign() == 0 && t == big && l < 0 {
				l = 0
			}
			// -small when small<=0
			if big.op == OConst && big.rat.Sign() == 0 && b.Neg(small) == t && l < 0 {
				l = 0
			}
			// -big when big >= 0
			if small.op == OConst && small.rat.Sign() == 0 && b.Neg(big) == t && h > 0 {
				h = 0
			}
			return l, h
		}
		xl, xh = refine(x, p, q, xl, xh)
		yl, yh = refine(y, q, p, yl, yh)
		lo, hi = math.Min(xl, yl), math.Max(xh, yh)
	}
	return b.intern(&Term{op: OIte, sort: x.sort, args: []*Term{c, x, y}, lo: lo, hi: hi, intval: x.intval && y.intval}, key2(OIte, c, x, y))
}

func (b *Bank) cmp(op Op, x, y *Term) *Term {
	if x == y {
		return b.BoolC(op == OLe)
	}
	if x.op == OConst && y.op == OConst {
		c := x.rat.Cmp(y.rat)
		return b.BoolC(c < 0 || (op == OLe && c == 0))
	}
	if op == OLe {
		if x.hi <= y.lo {
			return b.tTrue
		}
		if x.lo > y.hi {
			return b.tFals
		}
	} else {
		if x.hi < y.lo {
			return b.tTrue
		}
		if x.lo >= y.hi {
			return b.tFals
		}
	}
	// normalise: move everything to one side and split positive / negative monomials
	d := b.Sub(x, y)
	if d.op == OConst {
		s := d.rat.Sign()
		return b.BoolC(s < 0 || (op == OLe && s == 0))
	}
	if d.hi < 0 || (op == OLe && d.hi <= 0) {
		return b.tTrue
	}
	if d.lo > 0 || (op == OLt && d.lo >= 0) {
		return b.tFals
	}
	// distribute comparisons over ite with constant arms against constants
	if x.op == OIte && y.op == OConst && (x.args[1].op == OConst || x.args[2].op == OConst) {
		return b.Ite(x.args[0], b.cmp(op, x.args[1], y), b.cmp(op, x.args[2], y))
	}
	if y.op == OIte && x.op == OConst && (y.args[1].op == OConst || y.args[2].op == OConst) {
		return b.Ite(y.args[0], b.cmp(op, x, y.args[1]), b.cmp(op, x, y.args[2]))
	}
	c, ms := b.monos(d)
	// scale so that coefficients are integers with gcd 1
	scale := coefScale(ms)
	var pos, neg []mono
	k := new(big.Rat).Mul(c, scale)
	for _, m := range ms {
		cc := new(big.Rat).Mul(m.c, scale)
		if cc.Sign() > 0 {
			pos = append(pos, mono{m.t, cc})
		} else {
			neg = append(neg, mono{m.t, cc.Neg(cc)})
		}
	}
	s := x.sort
	// pos + k (op) neg
	if s == SInt {
		if op == OLt { // pos - neg < -k  <=>  pos - neg + floor(k) + 1 <= 0
			k = new(big.Rat).SetInt(floorRat(k))
			k.Add(k, ratOne)
			op = OLe
		}
		// pos + k <= neg ; k rational -> ceil
		if !k.IsInt() {
			kk := floorRat(k)
			kk.Add(kk, big.NewInt(1))
			k.SetInt(kk)
		}
	}
	var l, r *Term
	if len(pos) == 0 {
		l = b.num(k, s)
		r = b.mkLin(new(big.Rat), neg, s)
	} else {
		l = b.mkLin(new(big.Rat), pos, s)
		r = b.mkLin(new(big.Rat).Neg(k), neg, s)
	}
	if op == OLe {
		if l.hi <= r.lo {
			return b.tTrue
		}
		if l.lo > r.hi {
			return b.tFals
		}
	}
	return b.intern(&Term{op: op, sort: SBool, args: []*Term{l, r}}, key2(op, l, r))
}

func coefScale(ms []mono) *big.Rat {
	den := big.NewInt(1)
	num := new(big.Int)
	for _, m := range ms {
		g := new(big.Int).GCD(nil, nil, den, m.c.Denom())
		den.Div(new(big.Int).Mul(den, m.c.Denom()), g)
	}
	for _, m := range ms {
		x := new(big.Int).Mul(m.c.Num(), new(big.Int).Div(den, m.c.Denom()))
		x.Abs(x)
		if num.Sign() == 0 {
			num = x
		} else {
			num.GCD(nil, nil, num, x)
		}
	}
	return new(big.Rat).SetFrac(den, num)
}

func (b *Bank) Le(x, y *Term) *Term { return b.cmp(OLe, x, y) }
func (b *Bank) Lt(x, y *Term) *Term { return b.cmp(OLt, x, y) }

func (b *Bank) Eq(x, y *Term) *Term {
	if x == y {
		return b.tTrue
	}
	if x.sort == SBool {
		if x.op == OConst {
			if x.b {
				return y
			}
			return b.Not(y)
		}
		if y.op == OConst {
			return b.Eq(y, x)
		}
		if x == b.Not(y) {
			return b.tFals
		}
		if x.id > y.id {
			x, y = y, x
		}
		return b.intern(&Term{op: OEq, sort: SBool, args: []*Term{x, y}}, key2(OEq, x, y))
	}
	if x.op == OConst && y.op == OConst {
		return b.tFals
	}
	if x.hi < y.lo || x.lo > y.hi {
		return b.tFals
	}
	if x.op == OIte && y.op == OConst && (x.args[1].op == OConst || x.args[2].op == OConst) {
		return b.Ite(x.args[0], b.Eq(x.args[1], y), b.Eq(x.args[2], y))
	}
	if y.op == OIte && x.op == OConst {
		return b.Eq(y, x)
	}
	d := b.Sub(x, y)
	if d.op == OConst {
		return b.BoolC(d.rat.Sign() == 0)
	}
	if d.lo > 0 || d.hi < 0 {
		return b.tFals
	}
	c, ms := b.monos(d)
	scale := coefScale(ms)
	if ms[0].c.Sign() < 0 {
		scale.Neg(scale)
	}
	var pos, neg []mono
	k := new(big.Rat).Mul(c, scale)
	if x.sort == SInt && !k.IsInt() {
		return b.tFals
	}
	for _, m := range ms {
		cc := new(big.Rat).Mul(m.c, scale)
		if cc.Sign() > 0 {
			pos = append(pos, mono{m.t, cc})
		} else {
			neg = append(neg, mono{m.t, cc.Neg(cc)})
		}
	}
	l := b.mkLin(new(big.Rat), pos, x.sort)
	r := b.mkLin(k.Neg(k), neg, x.sort)
	return b.intern(&Term{op: OEq, sort: SBool, args: []*Term{l, r}}, key2(OEq, l, r))
}

func (b *Bank) App(name string, lo, hi float64, args ...*Term) *Term {
	return b.intern(&Term{op: OApp, sort: SInt, name: name, args: args, lo: lo, hi: hi, intval: true}, key2(OApp, args...)+name)
}

// printing ---------------------------------------------------------------

func ratSMT(r *big.Rat, s Sort) string {
	if s == SInt {
		if r.Sign() < 0 {
			return "(- " + new(big.Int).Neg(r.Num()).String() + ")"
		}
		return r.Num().String()
	}
	n := new(big.Int).Abs(r.Num()).String() + ".0"
	if !r.IsInt() {
		n = "(/ " + n + " " + r.Denom().String() + ".0)"
	}
	if r.Sign() < 0 {
		return "(- " + n + ")"
	}
	return n
}

// body prints t given the printed forms of its arguments.
func (t *Term) body(p func(*Term) string) string {
	var sb strings.Builder
	switch t.op {
	case OVar:
		return t.name
	case OConst:
		if t.sort == SBool {
			if t.b {
				return "true"
			}
			return "false"
		}
		return ratSMT(t.rat, t.sort)
	case OLin:
		n := 0
		for i := range t.args {
			n++
			sb.WriteByte(' ')
			if t.coefs[i].Cmp(ratOne) == 0 {
				sb.WriteString(p(t.args[i]))
			} else {
				sb.WriteString("(* " + ratSMT(t.coefs[i], t.sort) + " " + p(t.args[i]) + ")")
			}
		}
		if t.rat.Sign() != 0 {
			n++
			sb.WriteString(" " + ratSMT(t.rat, t.sort))
		}
		if n == 1 {
			return sb.String()[1:]
		}
		return "(+" + sb.String() + ")"
	}
	op := ""
	switch t.op {
	case OMul:
		op = "*"
	case ORDiv:
		op = "/"
	case ODiv:
		return "(div " + p(t.args[0]) + " " + ratSMT(t.rat, SInt) + ")"
	case OMod:
		return "(mod " + p(t.args[0]) + " " + ratSMT(t.rat, SInt) + ")"
	case OToReal:
		op = "to_real"
	case OToInt:
		op = "to_int"
	case OEq:
		op = "="
	case OLe:
		op = "<="
	case OLt:
		op = "<"
	case ONot:
		op = "not"
	case OAnd:
		op = "and"
	case OOr:
		op = "or"
	case OIte:
		op = "ite"
	case OApp:
		op = t.name
	}
	sb.WriteString("(" + op)
	for _, a := range t.args {
		sb.WriteString(" " + p(a))
	}
	sb.WriteString(")")
	return sb.String()
}

func (t *Term) String() string {
	if t.size > 200 {
		return fmt.Sprintf("<term %d size %d>", t.id, t.size)
	}
	return t.body(func(a *Term) string { return a.String() })
}

// subst replaces variables.
func (b *Bank) subst(t *Term, m, memo map[*Term]*Term) *Term {
	switch t.op {
	case OConst:
		return t
	case OVar:
		if r, ok := m[t]; ok {
			return r
		}
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = b.subst(a, m, memo)
		same = same && args[i] == a
	}
	r := t
	if !same {
		switch t.op {
		case OLin:
			r = b.num(t.rat, t.sort)
			for i, a := range args {
				r = b.addScaled(r, a, t.coefs[i])
			}
		case OMul:
			r = b.Mul(args[0], args[1])
		case ORDiv:
			if args[1].op == OConst && args[1].rat.Sign() == 0 {
				r = b.zeroR
			} else {
				r = b.RDiv(args[0], args[1])
			}
		case ODiv:
			r = b.FDiv(args[0], t.rat.Num())
		case OMod:
			r = b.FMod(args[0], t.rat.Num())
		case OToReal:
			r = b.ToReal(args[0])
		case OToInt:
			r = b.ToInt(args[0])
		case OEq:
			r = b.Eq(args[0], args[1])
		case OLe:
			if args[0].op == OConst && args[1].op == OConst {
				r = b.BoolC(args[0].rat.Cmp(args[1].rat) <= 0)
			} else {
				// not simplified by intervals, which stem from such assertions
				r = b.intern(&Term{op: OLe, sort: SBool, args: args}, "raw"+key2(OLe, args[0], args[1]))
			}
		case OLt:
			r = b.Lt(args[0], args[1])
		case ONot:
			r = b.Not(args[0])
		case OAnd:
			r = b.And(args...)
		case OOr:
			r = b.Or(args...)
		case OIte:
			r = b.Ite(args[0], args[1], args[2])
		case OApp:
			r = b.App(t.name, t.lo, t.hi, args...)
		default:
			panic("subst")
		}
	}
	memo[t] = r
	return r
}

// rangeOf checks that a value lies within the interval of its variable: the result is empty if so.
func (b *Bank) rangeOf(v, c *Term) []*Term {
	if c == nil {
		return nil
	}
	f, _ := c.rat.Float64()
	if f < v.lo || f > v.hi {
		return []*Term{b.tFals}
	}
	return nil
}
