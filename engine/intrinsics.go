package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(p *Path, fn *ssa.Function, a []Value) Value

func ratInt(i int64) *big.Rat { return new(big.Rat).SetInt64(i) }

const symPkg = "verifharness/sym"

var intrinsics map[string]intrinsic

func nop(p *Path, fn *ssa.Function, a []Value) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return zero(res.At(0).Type())
	}
	return zero(res)
}

func float1(f func(float64) float64) intrinsic {
	return func(p *Path, fn *ssa.Function, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return f(x)
		}
		panic(engineErr("%s of a symbolic value", fn))
	}
}

func (w *Worker) intrinsic(fn *ssa.Function) intrinsic {
	if in, ok := w.intr[fn]; ok {
		return in
	}
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	name := f.String()
	in := intrinsics[name]
	if in == nil && f.Pkg != nil && f.Name() == "init" && f.Parent() == nil && f.Signature.Recv() == nil && len(f.Params) == 0 {
		// package initialisers of the standard library run lazily
		path := f.Pkg.Pkg.Path()
		if !w.x.userPkg(path) {
			in = nop
		}
	}
	if in == nil && strings.HasPrefix(name, "(*log.Logger).") && !strings.Contains(name, "Fatal") && !strings.Contains(name, "Panic") {
		in = nop
	}
	if in == nil && f.Pkg != nil && w.x.denied(f.Pkg.Pkg.Path()) {
		in = func(p *Path, fn *ssa.Function, a []Value) Value {
			panic(engineErr("call into unsupported package: %s", fn))
		}
	}
	w.intr[fn] = in
	return in
}

func tErr(p *Path, v Value) Value { return v }

func (p *Path) symName(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(engineErr("sym input name must be concrete"))
	}
	p.inNames[s]++
	if n := p.inNames[s]; n > 1 {
		s = fmt.Sprintf("%s#%d", s, n)
	}
	return s
}

func (p *Path) nextName(s string) int {
	p.inNames["~"+s]++
	return p.inNames["~"+s]
}

func smtName(s string) string {
	var sb strings.Builder
	sb.WriteString("in!")
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' {
			sb.WriteRune(c)
		} else {
			fmt.Fprintf(&sb, "!%x!", c)
		}
	}
	return sb.String()
}

func (p *Path) newInput(name string, lo, hi int64) Value {
	if p.arm > 0 {
		panic(abortMerge{"input"})
	}
	if lo > hi {
		panic(pathEnd{"empty input range"})
	}
	if lo == hi {
		p.inputs = append(p.inputs, input{name, p.b.IntC(lo), "int"})
		return lo
	}
	// the variable name carries the range: the interval is part of its identity
	t := p.b.Var(fmt.Sprintf("%s!%s", smtName(name), smtName(fmt.Sprintf("%d.%d", lo, hi))[3:]), SInt, float64(lo), float64(hi))
	if float64(lo) != fdn(float64(lo)) {
		t.lo = fdn(float64(lo))
	}
	if hi > 1<<52 {
		t.hi = fup(float64(hi))
	}
	raw := func(x, y *Term) *Term {
		return p.b.intern(&Term{op: OLe, sort: SBool, args: []*Term{x, y}}, "raw"+key2(OLe, x, y))
	}
	p.assertPC(raw(p.b.IntC(lo), t))
	p.assertPC(raw(t, p.b.IntC(hi)))
	p.inputs = append(p.inputs, input{name, t, "int"})
	return t
}

// choose forks over 0..n-1 recorded as an input.
func (p *Path) choose(name string, n int) int64 {
	if n <= 0 {
		panic(pathEnd{"empty choice"})
	}
	if p.arm > 0 {
		panic(abortMerge{"choose"})
	}
	var v int64
	if n == 1 {
		v = 0
	} else if d, ok := p.nextDecision(); ok {
		if d.Kind != 'C' {
			panic(engineErr("replay divergence at choose"))
		}
		v = d.N
	} else {
		for k := n - 1; k >= 1; k-- {
			alt := append(append([]Decision(nil), p.log...), Decision{Kind: 'C', N: int64(k)})
			p.forks = append(p.forks, alt)
		}
		p.log = append(p.log, Decision{Kind: 'C', N: 0})
	}
	p.inputs = append(p.inputs, input{name, p.b.IntC(v), "int"})
	return v
}

func boolTerm(p *Path, v Value) *Term {
	switch v := v.(type) {
	case bool:
		return p.b.BoolC(v)
	case *Term:
		return v
	}
	panic(engineErr("bool expected, %T", v))
}

func elemsOf(p *Path, v Value) []any {
	if s, ok := v.(SliceV); ok {
		return strElems(p.bytesToStr(s))
	}
	return strElems(v)
}

// indexElems finds the first occurrence of sub in s, branching on symbolic comparisons.
func (p *Path) indexElems(s, sub []any, from int) int {
	for i := from; i+len(sub) <= len(s); i++ {
		if p.matchAt(s, sub, i) {
			return i
		}
	}
	return -1
}

func (p *Path) matchAt(s, sub []any, i int) bool {
	var c Value = true
	for j := range sub {
		c = andV(p.b, c, p.elemEq(s[i+j], sub[j]))
		if c == false {
			return false
		}
	}
	return p.branch(c)
}

func (p *Path) elemEq(x, y any) Value {
	if a, ok := x.(*Atom); ok {
		if b, ok := y.(*Atom); ok && a == b {
			return true
		}
		if b, ok := y.(byte); ok && !isNumChar(b) {
			return false
		}
		panic(engineErr("search inside a formatted symbolic number"))
	}
	if _, ok := y.(*Atom); ok {
		return p.elemEq(y, x)
	}
	return unTerm(p.b.Eq(p.byteTerm(x), p.byteTerm(y)))
}

func (p *Path) byteElem(v Value) any {
	switch v := v.(type) {
	case int64:
		return byte(v)
	case *Term:
		return v
	}
	panic(engineErr("byte elem %T", v))
}

func (p *Path) mathAbs(v Value) Value {
	switch v := v.(type) {
	case float64:
		return math.Abs(v)
	case *Term:
		r := p.b.Ite(p.b.Le(p.b.zeroR, v), v, p.b.Neg(v))
		if rb, ok := p.w.rounded[v.id]; ok {
			p.w.rounded[r.id] = rb
		}
		return r
	}
	panic("abs")
}

func (p *Path) mathFloor(v Value) Value {
	switch v := v.(type) {
	case float64:
		return math.Floor(v)
	case *Term:
		return p.b.ToReal(p.b.ToInt(v))
	}
	panic("floor")
}

func errStr(p *Path, msg Value) Value {
	// an errors.errorString value
	c := new(Value)
	*c = StructV{msg}
	return Iface{p.w.errStringType, c}
}

// formatInt renders an integer term like strconv does.
func (p *Path) fmtInt(v Value, base Value, unsigned bool) Value {
	switch x := v.(type) {
	case int64:
		if unsigned {
			return strconv.FormatUint(uint64(x), int(p.conc(base)))
		}
		return strconv.FormatInt(x, int(p.conc(base)))
	case *Term:
		if p.conc(base) != 10 {
			panic(engineErr("FormatInt of symbolic with base != 10"))
		}
		return mkStr([]any{&Atom{verb: 'd', t: x}})
	}
	panic("fmtInt")
}

func (p *Path) fmtFloat(v Value, f, prec, bits Value) Value {
	switch x := v.(type) {
	case float64:
		return strconv.FormatFloat(x, byte(p.conc(f)), int(p.conc(prec)), int(p.conc(bits)))
	case *Term:
		switch byte(p.conc(f)) {
		case 'f':
			if p.conc(prec) >= 0 {
				return mkStr([]any{&Atom{verb: 'f', prec: int(p.conc(prec)), t: x}})
			}
			return mkStr([]any{&Atom{verb: 'g', t: x}})
		case 'g', 'e':
			if p.conc(prec) < 0 {
				return mkStr([]any{&Atom{verb: 'g', t: x}})
			}
		}
		panic(engineErr("FormatFloat of symbolic"))
	}
	panic("fmtFloat")
}

func (p *Path) sortSlice(x Value, less Value) {
	s := x.(Iface).v.(SliceV)
	n := len(s)
	if n > 12 {
		p.w.x.note("sort.Slice on more than 12 elements modelled as insertion sort")
	}
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			r := p.call(less, []Value{int64(j), int64(j - 1)}, nil)
			if !p.branch(r) {
				break
			}
			a, b := copyVal(s[j]), copyVal(s[j-1])
			p.store(&s[j], b)
			p.store(&s[j-1], a)
		}
	}
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	reg := func(names string, f intrinsic) {
		for _, n := range strings.Fields(names) {
			I[n] = f
		}
	}
	// --- sym API
	S := symPkg + "."
	I[S+"Int"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.newInput(p.symName(a[0]), p.conc(a[1]), p.conc(a[2]))
	}
	I[S+"Byte"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.newInput(p.symName(a[0]), 0, 255)
	}
	I[S+"Bool"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		v := p.newInput(p.symName(a[0]), 0, 1)
		return unTerm(p.b.Eq(v.(*Term), p.b.IntC(1)))
	}
	I[S+"Str"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		n := int(p.conc(a[1]))
		name := p.symName(a[0])
		var e []any
		for i := 0; i < n; i++ {
			e = append(e, p.newInput(fmt.Sprintf("%s.%d", name, i), p.conc(a[2]), p.conc(a[3])).(*Term))
		}
		return mkStr(e)
	}
	I[S+"Choose"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.choose(p.symName(a[0]), int(p.conc(a[1])))
	}
	I[S+"Assume"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		c := boolTerm(p, a[0])
		if c == p.b.tTrue {
			return nil
		}
		if p.arm > 0 {
			panic(abortMerge{"assume"})
		}
		if c == p.b.tFals {
			panic(pathEnd{"assume false"})
		}
		p.assertPC(c)
		if d, ok := p.nextDecision(); ok {
			_ = d
			return nil
		}
		if !p.feasible(nil) {
			panic(pathEnd{"assume infeasible"})
		}
		p.log = append(p.log, Decision{Kind: 'A'})
		return nil
	}
	I[S+"Assert"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		p.assert(boolTerm(p, a[0]), a[1])
		return nil
	}
	I[S+"Cover"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		p.covers[a[0].(string)] = true
		return nil
	}
	I[S+"Observe"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if p.arm > 0 {
			panic(abortMerge{"observe"})
		}
		p.obs = append(p.obs, observation{a[0].(string), a[1]})
		return nil
	}
	I[S+"Concretize"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.conc(a[0])
	}
	I[S+"And"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		r := p.b.tTrue
		for _, x := range a[0].(SliceV) {
			r = p.b.And(r, boolTerm(p, x))
		}
		return unTerm(r)
	}
	I[S+"Or"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		r := p.b.tFals
		for _, x := range a[0].(SliceV) {
			r = p.b.Or(r, boolTerm(p, x))
		}
		return unTerm(r)
	}
	I[S+"Implies"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return unTerm(p.b.Implies(boolTerm(p, a[0]), boolTerm(p, a[1])))
	}
	I[S+"Ite"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		k := intKind{64, true}
		return p.termInt(p.b.Ite(boolTerm(p, a[0]), p.intTerm(a[1], k), p.intTerm(a[2], k)), k)
	}
	I[S+"Abs"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		k := intKind{64, true}
		t := p.intTerm(a[0], k)
		return p.termInt(p.b.Ite(p.b.Le(p.b.zeroI, t), t, p.b.Neg(t)), k)
	}
	I[S+"Thorough"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.w.x.tier == "thorough" }
	I[S+"TempFile"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return "/nonexistent/" + a[0].(string)
	}
	I[S+"Symbolic"] = func(p *Path, fn *ssa.Function, a []Value) Value { return true }
	// exact sign of a sum of products (no machine wrap around): CmpProd(a,b,c,d) compares a*b with c*d
	I[S+"MulLe"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		k := intKind{64, true}
		b := p.b
		return unTerm(b.Le(b.Mul(p.intTerm(a[0], k), p.intTerm(a[1], k)), b.Mul(p.intTerm(a[2], k), p.intTerm(a[3], k))))
	}
	I[S+"ParseNum"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		e := strElems(a[0])
		i := int(p.conc(a[1]))
		if i < len(e) {
			if at, ok := e[i].(*Atom); ok {
				return Tuple{p.termInt(p.atomMicro(at), intKind{64, true}), int64(i + 1), true}
			}
			if c, ok := e[i].(byte); ok && c == '-' && i+1 < len(e) {
				if at, ok := e[i+1].(*Atom); ok {
					return Tuple{p.termInt(p.b.Neg(p.atomMicro(at)), intKind{64, true}), int64(i + 2), true}
				}
			}
		}
		var sb []byte
		for j := i; j < len(e); j++ {
			c, ok := e[j].(byte)
			if ok && !isNumChar(c) {
				break
			}
			if !ok {
				if _, isA := e[j].(*Atom); isA {
					panic(engineErr("number atom glued to digits"))
				}
				panic(engineErr("ParseNum on symbolic bytes"))
			}
			sb = append(sb, c)
		}
		v, n, ok := parseMicro(string(sb))
		return Tuple{v, int64(i + n), ok}
	}
	// --- math
	I["math.Sqrt"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.sqrt(a[0], 64) }
	I["math.sqrt"] = I["math.Sqrt"]
	I["math.RoundToEven"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.roundEven(a[0]) }
	I["math.Abs"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.mathAbs(a[0]) }
	I["math.Floor"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.mathFloor(a[0]) }
	I["math.Ceil"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return math.Ceil(x)
		}
		return p.b.Neg(p.b.ToReal(p.b.ToInt(p.b.Neg(a[0].(*Term)))))
	}
	I["math.Trunc"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return math.Trunc(x)
		}
		b, t := p.b, a[0].(*Term)
		return b.ToReal(b.Ite(b.Le(b.zeroR, t), b.ToInt(t), b.Neg(b.ToInt(b.Neg(t)))))
	}
	I["math.Round"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return math.Round(x)
		}
		b, t := p.b, a[0].(*Term)
		h := b.RealC(big.NewRat(1, 2))
		return b.ToReal(b.Ite(b.Le(b.zeroR, t), b.ToInt(b.Add(t, h)), b.Neg(b.ToInt(b.Add(b.Neg(t), h)))))
	}
	I["math.Hypot"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		x, ok1 := a[0].(float64)
		y, ok2 := a[1].(float64)
		if ok1 && ok2 {
			return math.Hypot(x, y)
		}
		b := p.b
		X, Y := p.realTerm(a[0]), p.realTerm(a[1])
		return p.sqrt(p.termReal(b.Add(b.Mul(X, X), b.Mul(Y, Y)), 64), 64)
	}
	I["math.Max"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		x, ok1 := a[0].(float64)
		y, ok2 := a[1].(float64)
		if ok1 && ok2 {
			return math.Max(x, y)
		}
		X, Y := p.realTerm(a[0]), p.realTerm(a[1])
		return p.termReal(p.b.Ite(p.b.Lt(X, Y), Y, X), 64)
	}
	I["math.Min"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		x, ok1 := a[0].(float64)
		y, ok2 := a[1].(float64)
		if ok1 && ok2 {
			return math.Min(x, y)
		}
		X, Y := p.realTerm(a[0]), p.realTerm(a[1])
		return p.termReal(p.b.Ite(p.b.Lt(X, Y), X, Y), 64)
	}
	I["math.Pow"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		x, ok1 := a[0].(float64)
		y, ok2 := a[1].(float64)
		if ok1 && ok2 {
			return math.Pow(x, y)
		}
		if ok2 && y == 2 {
			return p.fop('*', a[0], a[0], 64)
		}
		if ok2 && y == 0.5 {
			return p.sqrt(a[0], 64)
		}
		panic(engineErr("math.Pow of a symbolic value"))
	}
	I["math.IsNaN"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return math.IsNaN(x)
		}
		return false
	}
	I["math.IsInf"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return math.IsInf(x, int(p.conc(a[1])))
		}
		return false
	}
	I["math.Inf"] = func(p *Path, fn *ssa.Function, a []Value) Value { return math.Inf(int(p.conc(a[0]))) }
	I["math.NaN"] = func(p *Path, fn *ssa.Function, a []Value) Value { return math.NaN() }
	I["math.Sin"] = float1(math.Sin)
	I["math.Cos"] = float1(math.Cos)
	I["math.Tan"] = float1(math.Tan)
	I["math.Atan"] = float1(math.Atan)
	I["math.Asin"] = float1(math.Asin)
	I["math.Acos"] = float1(math.Acos)
	I["math.Exp"] = float1(math.Exp)
	I["math.Log"] = float1(math.Log)
	I["math.Float64bits"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return int64(math.Float64bits(a[0].(float64)))
	}
	I["math.Float32bits"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return int64(math.Float32bits(float32(a[0].(float64))))
	}
	I["math.Float64frombits"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return math.Float64frombits(uint64(p.conc(a[0])))
	}
	I["math.Float32frombits"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return float64(math.Float32frombits(uint32(p.conc(a[0]))))
	}
	I["math.Signbit"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return math.Signbit(x)
		}
		return unTerm(p.b.Lt(a[0].(*Term), p.b.zeroR))
	}
	// --- fmt
	I["fmt.Sprintf"] = func(p *Path, fn *ssa.Function, a []Value) Value { return mkStr(p.sprintf(a[0], a[1].(SliceV))) }
	I["fmt.Errorf"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		// %w is formatted like %v and kept for Unwrap
		fs, _ := a[0].(string)
		msg := mkStr(p.sprintf(strings.ReplaceAll(fs, "%w", "%v"), a[1].(SliceV)))
		if strings.Contains(fs, "%w") && p.w.x.wrapErrType != nil {
			for _, x := range a[1].(SliceV) {
				if i, ok := x.(Iface); ok && i.t != nil && p.w.x.findMethod(i.t, "Error") != nil {
					c := new(Value)
					*c = StructV{msg, i}
					return Iface{p.w.x.wrapErrType, c}
				}
			}
		}
		return errStr(p, msg)
	}
	sprint := func(p *Path, args SliceV, ln bool) []any {
		var out []any
		prevStr := true
		for i, x := range args {
			f := x.(Iface)
			isS := f.t != nil && isString(f.t)
			if i > 0 && (ln || (!isS && !prevStr)) {
				out = append(out, byte(' '))
			}
			out = append(out, p.formatValue(f, 'v', fmtFlags{}, 0)...)
			prevStr = isS
		}
		if ln {
			out = append(out, byte('\n'))
		}
		return out
	}
	I["fmt.Sprint"] = func(p *Path, fn *ssa.Function, a []Value) Value { return mkStr(sprint(p, a[0].(SliceV), false)) }
	I["fmt.Sprintln"] = func(p *Path, fn *ssa.Function, a []Value) Value { return mkStr(sprint(p, a[0].(SliceV), true)) }
	write := func(p *Path, w Value, e []any) Value {
		i := w.(Iface)
		if i.t == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		if i.t.String() == "*os.File" {
			if err, ok := p.vfsWrite(i.v, e); ok {
				return Tuple{int64(len(e)), err}
			}
			return Tuple{int64(len(e)), Iface{}}
		}
		m := p.w.x.findMethod(i.t, "Write")
		return p.call(m, []Value{i.v, p.strToBytes(mkStr(e))}, nil)
	}
	I["fmt.Fprintf"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return write(p, a[0], p.sprintf(a[1], a[2].(SliceV)))
	}
	I["fmt.Fprint"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return write(p, a[0], sprint(p, a[1].(SliceV), false))
	}
	I["fmt.Fprintln"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return write(p, a[0], sprint(p, a[1].(SliceV), true))
	}
	reg("fmt.Printf fmt.Println fmt.Print", nop)
	// --- strconv
	I["strconv.Itoa"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.fmtInt(a[0], int64(10), false) }
	I["strconv.FormatInt"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.fmtInt(a[0], a[1], false) }
	I["strconv.FormatUint"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.fmtInt(a[0], a[1], true) }
	I["strconv.FormatFloat"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.fmtFloat(a[0], a[1], a[2], a[3]) }
	appendStr := func(p *Path, dst Value, s Value) Value {
		return p.appendVals(dst.(SliceV), p.strToBytes(s), types.Typ[types.Uint8])
	}
	I["strconv.AppendInt"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return appendStr(p, a[0], p.fmtInt(a[1], a[2], false))
	}
	I["strconv.AppendUint"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return appendStr(p, a[0], p.fmtInt(a[1], a[2], true))
	}
	I["strconv.AppendFloat"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return appendStr(p, a[0], p.fmtFloat(a[1], a[2], a[3], a[4]))
	}
	I["strconv.Quote"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return strconv.Quote(s)
		}
		return mkStr(append(append([]any{byte('"')}, strElems(a[0])...), byte('"')))
	}
	// text that is one formatted integer is read back as that integer; everything else runs the real code
	atomInt := func(v Value) *Term {
		if e := strElems(v); len(e) == 1 {
			if a, ok := e[0].(*Atom); ok && a.verb == 'd' && !a.plus {
				return a.t
			}
		}
		return nil
	}
	I["strconv.ParseInt"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		t := atomInt(a[0])
		base, ok1 := a[1].(int64)
		bits, ok2 := a[2].(int64)
		if t == nil || !ok1 || !ok2 || (base != 0 && base != 10) || (bits != 64 && bits != 0) {
			return notHandled{}
		}
		return Tuple{t, Iface{}}
	}
	I["strconv.Atoi"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if t := atomInt(a[0]); t != nil {
			return Tuple{t, Iface{}}
		}
		return notHandled{}
	}
	I["strconv.ParseFloat"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.parseFloat(a[0], a[1]) }
	// --- strings / bytes
	idx := func(p *Path, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			if t, ok := a[1].(string); ok {
				return int64(strings.Index(s, t))
			}
		}
		return int64(p.indexElems(elemsOf(p, a[0]), elemsOf(p, a[1]), 0))
	}
	reg("strings.Index bytes.Index internal/bytealg.IndexString internal/bytealg.Index internal/stringslite.Index", idx)
	idxb := func(p *Path, fn *ssa.Function, a []Value) Value {
		e := elemsOf(p, a[0])
		return int64(p.indexElems(e, []any{p.byteElem(a[1])}, 0))
	}
	reg("strings.IndexByte bytes.IndexByte internal/bytealg.IndexByte internal/bytealg.IndexByteString internal/stringslite.IndexByte", idxb)
	lidxb := func(p *Path, fn *ssa.Function, a []Value) Value {
		e := elemsOf(p, a[0])
		for i := len(e) - 1; i >= 0; i-- {
			if p.branch(p.elemEq(e[i], p.byteElem(a[1]))) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	reg("internal/bytealg.LastIndexByteString internal/bytealg.LastIndexByte strings.LastIndexByte bytes.LastIndexByte", lidxb)
	cnt := func(p *Path, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, x := range elemsOf(p, a[0]) {
			if p.branch(p.elemEq(x, p.byteElem(a[1]))) {
				n++
			}
		}
		return int64(n)
	}
	reg("internal/bytealg.CountString internal/bytealg.Count", cnt)
	I["strings.Count"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		s, sub := strElems(a[0]), strElems(a[1])
		if len(sub) == 0 {
			return int64(len(s) + 1)
		}
		n := 0
		for i := 0; ; {
			j := p.indexElems(s, sub, i)
			if j < 0 {
				return int64(n)
			}
			n++
			i = j + len(sub)
		}
	}
	eq := func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.strEqual(mkStr(elemsOf(p, a[0])), mkStr(elemsOf(p, a[1])))
	}
	reg("bytes.Equal internal/bytealg.Equal", eq)
	I["internal/bytealg.MakeNoZero"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		n := int(p.conc(a[0]))
		c := int(roundup(int64(n)))
		s := make(SliceV, c)
		for i := range s {
			s[i] = int64(0)
		}
		p.fresh(s)
		return s[:n]
	}
	I["(*strings.Builder).String"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		st := (*a[0].(*Value)).(StructV)
		return p.bytesToStr(st[1].(SliceV))
	}
	reg("(*strings.Builder).copyCheck", nop)
	matchV := func(p *Path, s, sub []any, i int) Value {
		var c Value = true
		for j := range sub {
			if c = andV(p.b, c, p.elemEq(s[i+j], sub[j])); c == false {
				break
			}
		}
		return c
	}
	reg("strings.HasPrefix bytes.HasPrefix internal/stringslite.HasPrefix", func(p *Path, fn *ssa.Function, a []Value) Value {
		s, sub := elemsOf(p, a[0]), elemsOf(p, a[1])
		if len(sub) > len(s) {
			return false
		}
		return matchV(p, s, sub, 0)
	})
	reg("strings.HasSuffix bytes.HasSuffix internal/stringslite.HasSuffix", func(p *Path, fn *ssa.Function, a []Value) Value {
		s, sub := elemsOf(p, a[0]), elemsOf(p, a[1])
		if len(sub) > len(s) {
			return false
		}
		return matchV(p, s, sub, len(s)-len(sub))
	})
	reg("strings.Contains bytes.Contains", func(p *Path, fn *ssa.Function, a []Value) Value {
		s, sub := elemsOf(p, a[0]), elemsOf(p, a[1])
		r := p.b.tFals
		for i := 0; i+len(sub) <= len(s); i++ {
			r = p.b.Or(r, boolTerm(p, matchV(p, s, sub, i)))
		}
		return unTerm(r)
	})
	I["strings.TrimSpace"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return strings.TrimSpace(s)
		}
		e := strElems(a[0])
		space := func(x any) bool {
			if _, ok := x.(*Atom); ok {
				return false
			}
			t := p.byteTerm(x)
			if p.branch(unTerm(p.b.Lt(p.b.IntC(127), t))) {
				panic(engineErr("TrimSpace of symbolic non ASCII text"))
			}
			return p.branch(unTerm(p.b.Or(p.b.And(p.b.Le(p.b.IntC(9), t), p.b.Le(t, p.b.IntC(13))), p.b.Eq(t, p.b.IntC(32)))))
		}
		for len(e) > 0 && space(e[0]) {
			e = e[1:]
		}
		for len(e) > 0 && space(e[len(e)-1]) {
			e = e[:len(e)-1]
		}
		return mkStr(e)
	}
	I["strings.Clone"] = func(p *Path, fn *ssa.Function, a []Value) Value { return a[0] }
	I["internal/stringslite.Clone"] = I["strings.Clone"]
	cmp3 := func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := mkStr(elemsOf(p, a[0])), mkStr(elemsOf(p, a[1]))
		if p.branch(p.strEqual(x, y)) {
			return int64(0)
		}
		if l := p.binop(token.LSS, types.Typ[types.String], types.Typ[types.String], x, y); p.branch(l) {
			return int64(-1)
		}
		return int64(1)
	}
	reg("internal/bytealg.Compare internal/bytealg.CompareString strings.Compare bytes.Compare", cmp3)
	// --- sort
	I["sort.Slice"] = func(p *Path, fn *ssa.Function, a []Value) Value { p.sortSlice(a[0], a[1]); return nil }
	I["sort.SliceStable"] = I["sort.Slice"]
	// --- sync & co
	reg("(*sync.WaitGroup).Add (*sync.WaitGroup).Done (*sync.WaitGroup).Wait (*sync.Mutex).Lock (*sync.Mutex).Unlock (*sync.RWMutex).Lock (*sync.RWMutex).Unlock (*sync.RWMutex).RLock (*sync.RWMutex).RUnlock runtime.GC runtime.KeepAlive runtime.Gosched time.Sleep internal/race.Acquire internal/race.Enable internal/race.Disable runtime/debug.FreeOSMemory", nop)
	I["(*sync.Once).Do"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		cell := a[0].(*Value)
		st := (*cell).(StructV)
		for i := range st {
			if v, ok := st[i].(int64); ok && v == 1 {
				_ = i
			}
		}
		k := fmt.Sprintf("%p", cell)
		if p.w.once[k] {
			return nil
		}
		p.w.once[k] = true
		p.logUndo(func() { delete(p.w.once, k) })
		p.call(a[1], nil, nil)
		return nil
	}
	I["runtime.NumGoroutine"] = func(p *Path, fn *ssa.Function, a []Value) Value { return int64(1) }
	I["runtime.NumCPU"] = func(p *Path, fn *ssa.Function, a []Value) Value { return int64(1) }
	I["runtime.GOMAXPROCS"] = func(p *Path, fn *ssa.Function, a []Value) Value { return int64(1) }
	I["time.Now"] = func(p *Path, fn *ssa.Function, a []Value) Value { return zero(fn.Signature.Results().At(0).Type()) }
	I["time.Since"] = func(p *Path, fn *ssa.Function, a []Value) Value { return int64(1000000) }
	I["(time.Time).Sub"] = func(p *Path, fn *ssa.Function, a []Value) Value { return int64(1000000) }
	I["(time.Duration).String"] = func(p *Path, fn *ssa.Function, a []Value) Value { return "1ms" }
	I["errors.Is"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		for n := 0; n < 20; n++ {
			if e.t == nil {
				return t.t == nil
			}
			if t.t != nil && types.Identical(e.t, t.t) && types.Comparable(e.t) && p.branch(p.equal(e.t, e.v, t.v)) {
				return true
			}
			m := p.w.x.findMethod(e.t, "Unwrap")
			if m == nil || m.Signature.Results().Len() != 1 {
				return false
			}
			r, ok := p.call(m, []Value{e.v}, nil).(Iface)
			if !ok {
				return false
			}
			e = r
		}
		return false
	}
	I["log.New"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		c := new(Value)
		*c = zero(deref(fn.Signature.Results().At(0).Type()))
		return c
	}
	I["log.Default"] = I["log.New"]
	reg("log.Printf log.Println log.Print log.SetFlags log.SetOutput log.SetPrefix", nop)
	I["os.Exit"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		p.rtPanicRaw(fmt.Sprintf("os.Exit(%v)", a[0]))
		return nil
	}
	I["os.Getenv"] = func(p *Path, fn *ssa.Function, a []Value) Value { return "" }
	I["math/bits.Mul64"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := uint64(p.conc(a[0])), uint64(p.conc(a[1]))
		r := new(big.Int).Mul(new(big.Int).SetUint64(x), new(big.Int).SetUint64(y))
		lo := new(big.Int).And(r, new(big.Int).SetUint64(math.MaxUint64))
		hi := new(big.Int).Rsh(r, 64)
		return Tuple{int64(hi.Uint64()), int64(lo.Uint64())}
	}
	I["math/rand.Intn"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.newInput(p.symName("math/rand.Intn"), 0, p.conc(a[0])-1)
	}
}

func parseMicro(s string) (int64, int, bool) {
	i := 0
	neg := false
	if i < len(s) && (s[i] == '-' || s[i] == '+') {
		neg = s[i] == '-'
		i++
	}
	st := i
	var v int64
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		v = v*10 + int64(s[i]-'0')
		i++
	}
	digits := i - st
	v *= 1000000
	if i < len(s) && s[i] == '.' {
		i++
		m := int64(100000)
		first7 := true
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			d := int64(s[i] - '0')
			if m > 0 {
				v += d * m
				m /= 10
			} else if first7 {
				if d >= 5 {
					v++
				}
				first7 = false
			}
			i++
			digits++
		}
	}
	if neg {
		v = -v
	}
	return v, i, digits > 0
}

// parseFloat models strconv.ParseFloat on partly symbolic strings: only [+-]digits[.digits] is followed
// symbolically; other shapes fork on concrete characters.
func (p *Path) parseFloat(s Value, bits Value) Value {
	bsz := int(p.conc(bits))
	mk := func(cs string) Value {
		f, err := strconv.ParseFloat(cs, bsz)
		if err != nil {
			return Tuple{f, errStr(p, "strconv.ParseFloat: parsing "+strconv.Quote(cs)+": "+err.(*strconv.NumError).Err.Error())}
		}
		return Tuple{f, Iface{}}
	}
	if cs, ok := s.(string); ok {
		return mk(cs)
	}
	e := strElems(s)
	if len(e) == 1 {
		if a, ok := e[0].(*Atom); ok && a.verb == 'd' {
			return Tuple{p.fround(p.b.ToReal(a.t), bsz), Iface{}}
		}
	}
	if len(e) == 2 && e[0] == byte('-') {
		if a, ok := e[1].(*Atom); ok && a.verb == 'd' && a.t.lo >= 0 && !a.plus {
			return Tuple{p.fround(p.b.Neg(p.b.ToReal(a.t)), bsz), Iface{}}
		}
	}
	if len(e) == 1 {
		if a, ok := e[0].(*Atom); ok && a.verb == 'f' && a.prec <= 6 {
			r := p.fround(p.b.Scale(p.b.ToReal(p.atomMicro(a)), big.NewRat(1, 1000000)), bsz)
			return Tuple{r, Iface{}}
		}
	}
	b := p.b
	// classify every byte
	i := 0
	neg := false
	isb := func(i int, lo, hi byte) bool {
		t := p.byteTerm(e[i])
		return p.branch(unTerm(b.And(b.Le(b.IntC(int64(lo)), t), b.Le(t, b.IntC(int64(hi))))))
	}
	fail := func() Value {
		return Tuple{float64(0), errStr(p, mkStr(append(strElems("strconv.ParseFloat: parsing: "), e...)))}
	}
	if len(e) == 0 {
		return mk("")
	}
	if isb(0, '-', '-') {
		neg = true
		i++
	} else if isb(0, '+', '+') {
		i++
	}
	num := b.zeroI
	den := big.NewInt(1)
	digits := 0
	dot := false
	for ; i < len(e); i++ {
		if isb(i, '0', '9') {
			num = b.Add(b.Scale(num, ratInt(10)), b.Sub(p.byteTerm(e[i]), b.IntC('0')))
			digits++
			if dot {
				den.Mul(den, big.NewInt(10))
			}
			continue
		}
		if !dot && isb(i, '.', '.') {
			dot = true
			continue
		}
		// other characters: e E _ x X p P i I n N may still be legal: decide concretely
		t := p.byteTerm(e[i])
		special := b.tFals
		for _, c := range "eE_xXpPiInN" {
			special = b.Or(special, b.Eq(t, b.IntC(int64(c))))
		}
		if p.branch(unTerm(special)) {
			cs := make([]byte, len(e))
			for j := range e {
				cs[j] = byte(p.concElem(e[j]))
			}
			return mk(string(cs))
		}
		return fail()
	}
	if digits == 0 {
		return fail()
	}
	if digits > 15 {
		panic(engineErr("ParseFloat on more than 15 symbolic digits"))
	}
	v := b.Scale(b.ToReal(num), new(big.Rat).SetFrac(big.NewInt(1), den))
	if neg {
		v = b.Neg(v)
	}
	r := p.fround(v, 64)
	if bsz == 32 {
		r = p.fround(v, 32)
	}
	return Tuple{r, Iface{}}
}

func (p *Path) concElem(e any) int64 {
	switch e := e.(type) {
	case byte:
		return int64(e)
	case *Term:
		return p.concretize(e)
	}
	panic(engineErr("concElem"))
}
