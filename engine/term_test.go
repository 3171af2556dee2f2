package main

import (
	"math/big"
	"math/rand"
	"testing"
)

// TestTerms builds random terms through the simplifying constructors next to their exact meaning.
func TestTerms(t *testing.T) {
	seed := int64(1)
	for round := 0; round < 20000; round++ {
		r := rand.New(rand.NewSource(seed + int64(round)))
		b := NewBank()
		type I struct {
			t *Term
			f func(e []int64) *big.Rat
		}
		type B struct {
			t *Term
			f func(e []int64) bool
		}
		var is, rs []I
		var bs []B
		lims := []int64{1, 3, 20, 5000}
		var lo, hi []int64
		for i := 0; i < 3; i++ {
			i := i
			l := lims[r.Intn(4)]
			lo, hi = append(lo, -l*int64(r.Intn(2))), append(hi, l)
			is = append(is, I{b.Var(string(rune('a'+i)), SInt, float64(lo[i]), float64(hi[i])), func(e []int64) *big.Rat { return new(big.Rat).SetInt64(e[i]) }})
		}
		pick := func() I {
			if r.Intn(4) == 0 {
				c := r.Int63n(41) - 20
				return I{b.IntC(c), func([]int64) *big.Rat { return new(big.Rat).SetInt64(c) }}
			}
			return is[r.Intn(len(is))]
		}
		rat := func() *big.Rat { return big.NewRat(r.Int63n(41)-20, r.Int63n(9)+1) }
		pickR := func() I {
			if len(rs) == 0 || r.Intn(3) == 0 {
				x := pick()
				return I{b.ToReal(x.t), x.f}
			}
			return rs[r.Intn(len(rs))]
		}
		floor := func(x *big.Rat) *big.Int { return floorRat(x) }
		for n := 0; n < 14; n++ {
			x, y := pick(), pick()
			u, v := pickR(), pickR()
			k := r.Int63n(30) + 1
			q := rat()
			cmp := func(x, y I) {
				switch r.Intn(3) {
				case 0:
					bs = append(bs, B{b.Le(x.t, y.t), func(e []int64) bool { return x.f(e).Cmp(y.f(e)) <= 0 }})
				case 1:
					bs = append(bs, B{b.Lt(x.t, y.t), func(e []int64) bool { return x.f(e).Cmp(y.f(e)) < 0 }})
				case 2:
					bs = append(bs, B{b.Eq(x.t, y.t), func(e []int64) bool { return x.f(e).Cmp(y.f(e)) == 0 }})
				}
			}
			switch r.Intn(17) {
			case 0:
				is = append(is, I{b.Add(x.t, y.t), func(e []int64) *big.Rat { return new(big.Rat).Add(x.f(e), y.f(e)) }})
			case 1:
				is = append(is, I{b.Sub(x.t, y.t), func(e []int64) *big.Rat { return new(big.Rat).Sub(x.f(e), y.f(e)) }})
			case 2:
				is = append(is, I{b.Mul(x.t, y.t), func(e []int64) *big.Rat { return new(big.Rat).Mul(x.f(e), y.f(e)) }})
			case 3:
				is = append(is, I{b.FDiv(x.t, big.NewInt(k)), func(e []int64) *big.Rat {
					return new(big.Rat).SetInt(floor(new(big.Rat).Quo(x.f(e), big.NewRat(k, 1))))
				}})
			case 4:
				is = append(is, I{b.FMod(x.t, big.NewInt(k)), func(e []int64) *big.Rat {
					a := x.f(e)
					d := new(big.Rat).SetInt(floor(new(big.Rat).Quo(a, big.NewRat(k, 1))))
					return new(big.Rat).Sub(a, d.Mul(d, big.NewRat(k, 1)))
				}})
			case 5, 6, 7:
				cmp(x, y)
			case 8:
				cmp(u, v)
			case 9:
				rs = append(rs, I{b.Scale(u.t, q), func(e []int64) *big.Rat { return new(big.Rat).Mul(u.f(e), q) }})
			case 10:
				rs = append(rs, I{b.Add(u.t, v.t), func(e []int64) *big.Rat { return new(big.Rat).Add(u.f(e), v.f(e)) }})
			case 11:
				rs = append(rs, I{b.Mul(u.t, v.t), func(e []int64) *big.Rat { return new(big.Rat).Mul(u.f(e), v.f(e)) }})
			case 12:
				is = append(is, I{b.ToInt(u.t), func(e []int64) *big.Rat { return new(big.Rat).SetInt(floor(u.f(e))) }})
			case 13, 14:
				if len(bs) > 0 {
					c := bs[r.Intn(len(bs))]
					is = append(is, I{b.Ite(c.t, x.t, y.t), func(e []int64) *big.Rat {
						if c.f(e) {
							return x.f(e)
						}
						return y.f(e)
					}})
				}
			case 16: // truncating division
				z := b.IntC(0)
				is = append(is, I{b.Ite(b.Le(z, x.t), b.FDiv(x.t, big.NewInt(k)), b.Neg(b.FDiv(b.Neg(x.t), big.NewInt(k)))), func(e []int64) *big.Rat {
					v := x.f(e)
					return new(big.Rat).SetInt(new(big.Int).Quo(new(big.Int).Quo(v.Num(), v.Denom()), big.NewInt(k)))
				}})
			case 15:
				if len(bs) > 1 {
					c, d, f := bs[r.Intn(len(bs))], bs[r.Intn(len(bs))], bs[r.Intn(len(bs))]
					switch r.Intn(4) {
					case 0:
						bs = append(bs, B{b.And(c.t, d.t, f.t), func(e []int64) bool { return c.f(e) && d.f(e) && f.f(e) }})
					case 1:
						bs = append(bs, B{b.Or(c.t, d.t, f.t), func(e []int64) bool { return c.f(e) || d.f(e) || f.f(e) }})
					case 2:
						bs = append(bs, B{b.Not(c.t), func(e []int64) bool { return !c.f(e) }})
					case 3:
						bs = append(bs, B{b.Ite(c.t, d.t, f.t), func(e []int64) bool {
							if c.f(e) {
								return d.f(e)
							}
							return f.f(e)
						}})
					}
				}
			}
		}
		for s := 0; s < 6; s++ {
			e := make([]int64, 3)
			env := map[*Term]*big.Rat{}
			for i := range e {
				e[i] = lo[i] + r.Int63n(hi[i]-lo[i]+1)
				env[is[i].t] = new(big.Rat).SetInt64(e[i])
			}
			for _, x := range append(append([]I{}, is...), rs...) {
				want, got := x.f(e), evalTerm(x.t, env).(*big.Rat)
				if want.Cmp(got) != 0 {
					t.Fatalf("round %d: %v at %v is %v, want %v", round, x.t, e, got, want)
				}
				if f, _ := want.Float64(); f < x.t.lo || f > x.t.hi {
					t.Fatalf("round %d: %v at %v is %v, outside of its interval %v..%v", round, x.t, e, want, x.t.lo, x.t.hi)
				}
			}
			for _, x := range bs {
				if want, got := x.f(e), evalTerm(x.t, env).(bool); want != got {
					t.Fatalf("round %d: %v at %v is %v, want %v", round, x.t, e, got, want)
				}
			}
		}
	}
}

func evalTerm(t *Term, env map[*Term]*big.Rat) any {
	num := func(i int) *big.Rat { return evalTerm(t.args[i], env).(*big.Rat) }
	switch t.op {
	case OConst:
		if t.sort == SBool {
			return t.b
		}
		return t.rat
	case OVar:
		return env[t]
	case OLin:
		r := new(big.Rat).Set(t.rat)
		for i := range t.args {
			r.Add(r, new(big.Rat).Mul(t.coefs[i], num(i)))
		}
		return r
	case OMul:
		return new(big.Rat).Mul(num(0), num(1))
	case ODiv:
		return new(big.Rat).SetInt(floorRat(new(big.Rat).Quo(num(0), t.rat)))
	case OMod:
		a := num(0)
		d := new(big.Rat).SetInt(floorRat(new(big.Rat).Quo(a, t.rat)))
		return new(big.Rat).Sub(a, d.Mul(d, t.rat))
	case OToReal:
		return num(0)
	case OToInt:
		return new(big.Rat).SetInt(floorRat(num(0)))
	case OEq:
		if t.args[0].sort == SBool {
			return evalTerm(t.args[0], env).(bool) == evalTerm(t.args[1], env).(bool)
		}
		return num(0).Cmp(num(1)) == 0
	case OLe:
		return num(0).Cmp(num(1)) <= 0
	case OLt:
		return num(0).Cmp(num(1)) < 0
	case ONot:
		return !evalTerm(t.args[0], env).(bool)
	case OAnd, OOr:
		for _, a := range t.args {
			if evalTerm(a, env).(bool) != (t.op == OAnd) {
				return t.op == OOr
			}
		}
		return t.op == OAnd
	case OIte:
		if evalTerm(t.args[0], env).(bool) {
			return evalTerm(t.args[1], env)
		}
		return evalTerm(t.args[2], env)
	}
	panic("eval")
}
