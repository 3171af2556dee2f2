package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
)

type fmtFlags struct {
	spec    string // everything between % and the verb
	width   bool
	prec    int
	hasPrec bool
	plus    bool
	sharp   bool
}

func (p *Path) sprintf(format Value, args SliceV) []any {
	fe := strElems(format)
	var out []any
	argi := 0
	get := func(i int) (byte, bool) {
		if i >= len(fe) {
			return 0, false
		}
		switch e := fe[i].(type) {
		case byte:
			return e, true
		case *Term:
			return byte(p.concretize(e)), true
		}
		panic(engineErr("formatted number inside a format string"))
	}
	for i := 0; i < len(fe); i++ {
		switch e := fe[i].(type) {
		case byte:
			if e != '%' {
				out = append(out, e)
				continue
			}
		case *Term:
			if !p.branch(unTerm(p.b.Eq(e, p.b.IntC('%')))) {
				out = append(out, e)
				continue
			}
		case *Atom:
			out = append(out, e)
			continue
		}
		i++
		var fl fmtFlags
		var c byte
		var ok bool
		spec := ""
	flags:
		for ; ; i++ {
			c, ok = get(i)
			if !ok {
				break
			}
			switch c {
			case '+':
				fl.plus = true
			case '#':
				fl.sharp = true
			case '0', '-', ' ':
			default:
				break flags
			}
			spec += string(c)
		}
		num := func() (int, bool) {
			n, any := 0, false
			if ok && c == '*' {
				if argi < len(args) {
					if v, isI := args[argi].(Iface).v.(int64); isI {
						argi++
						i++
						c, ok = get(i)
						return int(v), true
					}
				}
			}
			for ok && c >= '0' && c <= '9' {
				n = n*10 + int(c-'0')
				any = true
				i++
				c, ok = get(i)
			}
			return n, any
		}
		if w, any := num(); any {
			fl.width = true
			spec += fmt.Sprint(w)
		}
		if ok && c == '.' {
			i++
			c, ok = get(i)
			n, _ := num()
			fl.prec, fl.hasPrec = n, true
			spec += "." + fmt.Sprint(n)
		}
		fl.spec = spec
		if !ok {
			out = append(out, strElems("%!(NOVERB)")...)
			break
		}
		if c == '%' {
			out = append(out, byte('%'))
			continue
		}
		if c >= 0x80 {
			// multi byte verbs: only the text matters, report a bad verb
			out = append(out, strElems("%!"+string([]byte{c})+"(NOVERB)")...)
			continue
		}
		if argi >= len(args) {
			out = append(out, strElems("%!"+string(c)+"(MISSING)")...)
			continue
		}
		a := args[argi].(Iface)
		argi++
		out = append(out, p.formatValue(a, c, fl, 0)...)
	}
	if argi < len(args) {
		out = append(out, strElems("%!(EXTRA ")...)
		for j := argi; j < len(args); j++ {
			if j > argi {
				out = append(out, strElems(", ")...)
			}
			a := args[j].(Iface)
			if a.t == nil {
				out = append(out, strElems("<nil>")...)
			} else {
				out = append(out, strElems(typeName(a.t)+"=")...)
				out = append(out, p.formatValue(a, 'v', fmtFlags{}, 0)...)
			}
		}
		out = append(out, byte(')'))
	}
	return out
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// nativeOf converts a concrete basic value to a Go value of the right kind.
func nativeOf(t types.Type, v Value) (any, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	switch x := v.(type) {
	case bool:
		return x, true
	case string:
		return x, true
	case float64:
		if b.Kind() == types.Float32 {
			return float32(x), true
		}
		return x, true
	case complex128:
		return x, true
	case int64:
		switch b.Kind() {
		case types.Int:
			return int(x), true
		case types.Int8:
			return int8(x), true
		case types.Int16:
			return int16(x), true
		case types.Int32:
			return int32(x), true
		case types.Uint:
			return uint(x), true
		case types.Uint8:
			return uint8(x), true
		case types.Uint16:
			return uint16(x), true
		case types.Uint32:
			return uint32(x), true
		case types.Uint64:
			return uint64(x), true
		case types.Uintptr:
			return uintptr(x), true
		}
		return x, true
	}
	return nil, false
}

func (p *Path) formatValue(a Iface, verb byte, fl fmtFlags, depth int) []any {
	if a.t == nil {
		if verb == 'v' || verb == 's' && false {
			return strElems("<nil>")
		}
		return strElems("%!" + string(verb) + "(<nil>)")
	}
	if depth > 4 {
		return strElems("...")
	}
	// Error / String methods
	if strings.IndexByte("vsxXq", verb) >= 0 && !fl.sharp {
		for _, mn := range []string{"Error", "String"} {
			fn := p.w.x.findMethod(a.t, mn)
			if fn == nil {
				continue
			}
			sig := fn.Signature
			if sig.Params().Len() != 0 || sig.Results().Len() != 1 || !isString(sig.Results().At(0).Type()) {
				continue
			}
			if pv, ok := a.v.(*Value); ok && pv == nil {
				return strElems("<nil>")
			}
			s := p.call(fn, []Value{copyVal(a.v)}, nil)
			return p.formatValue(Iface{types.Typ[types.String], s}, verb, fl, depth+1)
		}
	}
	if n, ok := nativeOf(a.t, a.v); ok {
		return strElems(fmt.Sprintf("%"+fl.spec+string(verb), n))
	}
	switch v := a.v.(type) {
	case *Term:
		if v.sort == SBool {
			if p.branchTerm(v) {
				return p.formatValue(Iface{a.t, true}, verb, fl, depth)
			}
			return p.formatValue(Iface{a.t, false}, verb, fl, depth)
		}
		if fl.width {
			panic(engineErr("width on a symbolic number"))
		}
		if v.sort == SInt {
			switch verb {
			case 'd', 'v':
				return []any{&Atom{verb: 'd', t: v, plus: fl.plus}}
			case 'c':
				return strElems(p.convert(types.Typ[types.String], types.Typ[types.Rune], v))
			default:
				r := strElems("%!" + string(verb) + "(" + typeName(a.t) + "=")
				r = append(r, &Atom{verb: 'd', t: v})
				return append(r, byte(')'))
			}
		}
		switch verb {
		case 'f', 'F':
			pr := 6
			if fl.hasPrec {
				pr = fl.prec
			}
			return []any{&Atom{verb: 'f', prec: pr, t: v, plus: fl.plus}}
		case 'v', 'g', 'e', 'G', 'E':
			if fl.hasPrec {
				panic(engineErr("%%%c with precision on a symbolic float", verb))
			}
			return []any{&Atom{verb: 'g', t: v, plus: fl.plus}}
		default:
			r := strElems("%!" + string(verb) + "(" + typeName(a.t) + "=")
			r = append(r, &Atom{verb: 'g', t: v})
			return append(r, byte(')'))
		}
	case *SymStr:
		switch verb {
		case 's', 'v':
			if fl.width || fl.hasPrec {
				panic(engineErr("width on a symbolic string"))
			}
			return v.e
		case 'q':
			return append(append([]any{byte('"')}, v.e...), byte('"'))
		}
		return append(strElems("%!"+string(verb)+"(string="), append(append([]any{}, v.e...), byte(')'))...)
	case SliceV:
		et := a.t.Underlying().(*types.Slice).Elem()
		out := []any{byte('[')}
		for i, x := range v {
			if i > 0 {
				out = append(out, byte(' '))
			}
			e := Iface{et, x}
			if xi, ok := x.(Iface); ok {
				e = xi
			}
			out = append(out, p.formatValue(e, verb, fl, depth+1)...)
		}
		return append(out, byte(']'))
	case StructV:
		st := a.t.Underlying().(*types.Struct)
		out := []any{byte('{')}
		for i, x := range v {
			if i > 0 {
				out = append(out, byte(' '))
			}
			e := Iface{st.Field(i).Type(), x}
			if xi, ok := x.(Iface); ok {
				e = xi
			}
			out = append(out, p.formatValue(e, verb, fl, depth+1)...)
		}
		return append(out, byte('}'))
	case *Value:
		if v == nil {
			return strElems("<nil>")
		}
		if depth == 0 {
			if _, ok := (*v).(StructV); ok {
				return append([]any{byte('&')}, p.formatValue(Iface{deref(a.t), *v}, verb, fl, depth+1)...)
			}
		}
		return strElems("0xc000000000")
	case *MapV:
		return strElems("map[...]")
	case Iface:
		return p.formatValue(v, verb, fl, depth+1)
	}
	return strElems(fmt.Sprintf("<%s>", typeName(a.t)))
}

// numeric value of an Atom in micro units (1e-6).
func (p *Path) atomMicro(a *Atom) *Term {
	b := p.b
	switch a.verb {
	case 'd':
		return b.Scale(a.t, ratInt(1000000))
	case 'f', 'g':
		prec := a.prec
		if a.verb == 'g' || prec > 6 {
			prec = 6
		}
		pow := int64(1)
		for i := 0; i < prec; i++ {
			pow *= 10
		}
		up := int64(1000000) / pow
		n := p.memoized(fmt.Sprintf("dec%d", prec), a.t, nil, func() *Term {
			x := b.Scale(a.t, ratInt(pow))
			n := p.newSkolem("a", SInt, math.Floor(x.lo-0.5), math.Ceil(x.hi+0.5))
			n.inexact = true
			p.nearest(n, x, false)
			return n
		})
		return b.Scale(n, ratInt(up))
	}
	panic("atom")
}
