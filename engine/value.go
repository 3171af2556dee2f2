package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value representations:
//
//	bool       bool | *Term(SBool)
//	integers   int64 (bit pattern for uint64) | *Term(SInt, mathematical value)
//	floats     float64 | *Term(SReal)
//	complex    complex128
//	string     string | *SymStr
//	pointer    *Value
//	struct     StructV      array ArrayV     slice SliceV
//	map        *MapV        interface Iface  func *ssa.Function | *Closure | *ssa.Builtin | *Native
//	tuple      Tuple        unsafe.Pointer  UnsafePtr
type Value = any

type StructV []Value
type ArrayV []Value
type SliceV []Value
type Tuple []Value
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn  *ssa.Function
	env []Value
}
type Native struct {
	name string
	f    func(p *Path, args []Value) Value
}
type UnsafePtr struct{ v Value }
type PtrData struct{ s SliceV } // result of unsafe.SliceData / StringData
type bad struct{}

type Atom struct {
	verb byte // 'd' or 'f'
	prec int  // decimals for 'f'
	t    *Term
	plus bool
}

type SymStr struct{ e []any } // byte | *Term | *Atom

type mapEntry struct {
	k, v Value
	dead bool
}
type MapV struct {
	entries []*mapEntry
	idx     map[string]*mapEntry
	nsym    int
	live    int
}

func newMap() *MapV { return &MapV{idx: map[string]*mapEntry{}} }

type mapIter struct {
	m    *MapV
	ents []*mapEntry
	i    int
}
type strIter struct {
	s Value
	i int
}

func (s *SymStr) String() string {
	var sb strings.Builder
	for _, e := range s.e {
		switch e := e.(type) {
		case byte:
			sb.WriteByte(e)
		case *Term:
			sb.WriteString("<?>")
		case *Atom:
			fmt.Fprintf(&sb, "<%c%d:%s>", e.verb, e.prec, e.t)
		}
	}
	return sb.String()
}

func strElems(v Value) []any {
	switch v := v.(type) {
	case string:
		r := make([]any, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = v[i]
		}
		return r
	case *SymStr:
		return v.e
	}
	panic(engineErr("not a string: %T", v))
}

func mkStr(e []any) Value {
	for _, x := range e {
		if _, ok := x.(byte); !ok {
			return &SymStr{e}
		}
	}
	b := make([]byte, len(e))
	for i, x := range e {
		b[i] = x.(byte)
	}
	return string(b)
}

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.e)
	}
	panic(engineErr("len of %T", v))
}

func strHasAtom(v Value) bool {
	if s, ok := v.(*SymStr); ok {
		for _, e := range s.e {
			if _, ok := e.(*Atom); ok {
				return true
			}
		}
	}
	return false
}

type engineError struct{ msg string }

func engineErr(f string, a ...any) engineError { return engineError{fmt.Sprintf(f, a...)} }

func copyVal(v Value) Value {
	switch v := v.(type) {
	case StructV:
		r := make(StructV, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case ArrayV:
		r := make(ArrayV, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	}
	return v
}

func zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UnsafePointer:
			return UnsafePtr{}
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return int64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UntypedNil:
			return Iface{}
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Array:
		a := make(ArrayV, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Struct:
		s := make(StructV, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Slice:
		return SliceV(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*Value)(nil)
	case *types.Tuple:
		r := make(Tuple, t.Len())
		for i := range r {
			r[i] = zero(t.At(i).Type())
		}
		return r
	case *types.Named, *types.Alias:
		return zero(t.Underlying())
	}
	panic(engineErr("zero of %s", t))
}

// intKind describes an integer type.
type intKind struct {
	bits   int
	signed bool
}

func intInfo(t types.Type) (intKind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intKind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intKind{64, true}, true
	case types.Int32, types.UntypedRune:
		return intKind{32, true}, true
	case types.Int16:
		return intKind{16, true}, true
	case types.Int8:
		return intKind{8, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intKind{64, false}, true
	case types.Uint32:
		return intKind{32, false}, true
	case types.Uint16:
		return intKind{16, false}, true
	case types.Uint8:
		return intKind{8, false}, true
	}
	return intKind{}, false
}

func isFloat(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Float64, types.UntypedFloat:
		return 64, true
	case types.Float32:
		return 32, true
	}
	return 0, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func normInt(v int64, k intKind) int64 {
	switch {
	case k.bits == 64:
		return v
	case k.signed && k.bits == 32:
		return int64(int32(v))
	case k.signed && k.bits == 16:
		return int64(int16(v))
	case k.signed && k.bits == 8:
		return int64(int8(v))
	case k.bits == 32:
		return int64(uint32(v))
	case k.bits == 16:
		return int64(uint16(v))
	case k.bits == 8:
		return int64(uint8(v))
	}
	return v
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			k, _ := intInfo(t)
			if k.signed {
				return c.Int64()
			}
			return int64(c.Uint64())
		case b.Info()&types.IsFloat != 0:
			f := c.Float64()
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		}
	}
	panic(engineErr("const %s", c))
}

func sizeofElem(t types.Type) int64 {
	return types.SizesFor("gc", "amd64").Sizeof(t)
}

// size classes of the Go allocator, for faithful append growth (aliasing behaviour).
var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundup(sz int64) int64 {
	for _, c := range sizeClasses {
		if c >= sz {
			return c
		}
	}
	return (sz + 8191) / 8192 * 8192
}

func growCap(oldLen, oldCap, newLen int, elem int64) int {
	newcap := oldCap
	doublecap := newcap + newcap
	if newLen > doublecap {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = doublecap
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if elem == 0 {
		return newLen
	}
	return int(roundup(int64(newcap)*elem) / elem)
}

func isConc(v Value) bool {
	switch v := v.(type) {
	case *Term, *SymStr:
		return false
	case Iface:
		return isConc(v.v)
	case StructV:
		for _, x := range v {
			if !isConc(x) {
				return false
			}
		}
	case ArrayV:
		for _, x := range v {
			if !isConc(x) {
				return false
			}
		}
	}
	return true
}

var _ = math.Inf
