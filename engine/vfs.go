package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A small model of the file system: files written on this path, by name. Names inside a directory called "missing"
// cannot be created or opened; writing to /dev/full fails.

type vfile struct {
	name   string
	closed bool
	write  bool
}

func (p *Path) vfsName(v Value) string {
	if p.arm > 0 {
		panic(abortMerge{"file system"})
	}
	s, ok := v.(string)
	if !ok {
		panic(engineErr("symbolic file name"))
	}
	return s
}

func (p *Path) vfsOpen(fn *ssa.Function, name string, create, trunc, write bool) Value {
	if p.vfs == nil {
		p.vfs, p.vfd = map[string][]any{}, map[*Value]*vfile{}
	}
	_, exists := p.vfs[name]
	if name == "/dev/full" {
		exists = true
	}
	if strings.Contains(name, "/missing/") || name == "" || strings.HasSuffix(name, "/") || !exists && !create {
		return Tuple{zero(fn.Signature.Results().At(0).Type()), p.errNotExist()}
	}
	if !exists || trunc {
		p.vfs[name] = nil
	}
	c := new(Value)
	*c = zero(deref(fn.Signature.Results().At(0).Type()))
	p.vfd[c] = &vfile{name: name, write: write}
	return Tuple{c, Iface{}}
}

// vfsWrite appends to an open file; ok is false if f is no modelled file.
func (p *Path) vfsWrite(f Value, e []any) (err Value, ok bool) {
	c, _ := f.(*Value)
	v := p.vfd[c]
	if v == nil {
		return nil, false
	}
	if p.arm > 0 {
		panic(abortMerge{"file system"})
	}
	if v.closed || !v.write {
		return errStr(p, "write "+v.name+": file already closed"), true
	}
	if v.name == "/dev/full" {
		if len(e) == 0 {
			return Iface{}, true
		}
		return errStr(p, "write /dev/full: no space left on device"), true
	}
	p.vfs[v.name] = append(append([]any(nil), p.vfs[v.name]...), e...)
	return Iface{}, true
}

// errNotExist is os.ErrNotExist.
func (p *Path) errNotExist() Value {
	pkg := p.w.x.prog.ImportedPackage("os")
	return *p.w.global(p, pkg.Members["ErrNotExist"].(*ssa.Global))
}

func init() {
	I := intrinsics
	stat := func(p *Path, fn *ssa.Function, a []Value) Value {
		n := p.vfsName(a[0])
		e, ok := p.vfs[n]
		if !ok && n != "/dev/full" {
			return Tuple{Iface{}, p.errNotExist()}
		}
		t := fn.Pkg.Members["fileStat"].(*ssa.Type).Type()
		c := new(Value)
		*c = StructV{n, int64(len(e))}
		return Tuple{Iface{types.NewPointer(t), c}, Iface{}}
	}
	I["os.Stat"], I["os.Lstat"] = stat, stat
	I["(*os.fileStat).Name"] = func(p *Path, fn *ssa.Function, a []Value) Value { return (*a[0].(*Value)).(StructV)[0] }
	I["(*os.fileStat).Size"] = func(p *Path, fn *ssa.Function, a []Value) Value { return (*a[0].(*Value)).(StructV)[1] }
	I["(*os.fileStat).IsDir"] = func(p *Path, fn *ssa.Function, a []Value) Value { return false }
	I["(*os.fileStat).Mode"] = func(p *Path, fn *ssa.Function, a []Value) Value { return int64(0600) }
	I["os.IsNotExist"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.equal(types.Universe.Lookup("error").Type(), a[0], p.errNotExist())
	}
	I["os.Create"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.vfsOpen(fn, p.vfsName(a[0]), true, true, true)
	}
	I["os.Open"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.vfsOpen(fn, p.vfsName(a[0]), false, false, false)
	}
	I["os.OpenFile"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		const wronly, rdwr, create, trunc = 1, 2, 0x40, 0x200
		fl := p.conc(a[1])
		r := p.vfsOpen(fn, p.vfsName(a[0]), fl&create != 0, fl&trunc != 0, fl&(wronly|rdwr) != 0)
		if fl&trunc == 0 && fl&0x400 == 0 && fl&(wronly|rdwr) != 0 {
			// overwriting in place: only the empty file is modelled
			if len(p.vfs[p.vfsName(a[0])]) > 0 {
				panic(engineErr("opening a file for writing without truncating it"))
			}
		}
		return r
	}
	wr := func(p *Path, fn *ssa.Function, a []Value) Value {
		e := elemsOf(p, a[1])
		err, ok := p.vfsWrite(a[0], e)
		if !ok {
			if c, isP := a[0].(*Value); !isP || c == nil {
				return Tuple{int64(0), errStr(p, "invalid argument")}
			}
			return Tuple{int64(len(e)), Iface{}}
		}
		n := int64(len(e))
		if err.(Iface).t != nil {
			n = 0
		}
		return Tuple{n, err}
	}
	I["(*os.File).Write"] = wr
	I["(*os.File).WriteString"] = wr
	I["(*os.File).Close"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		c, _ := a[0].(*Value)
		v := p.vfd[c]
		if v == nil {
			return errStr(p, "invalid argument")
		}
		if v.closed {
			return errStr(p, "file already closed")
		}
		v.closed = true
		return Iface{}
	}
	I["(*os.File).Sync"] = func(p *Path, fn *ssa.Function, a []Value) Value { return Iface{} }
	I["(*os.File).Name"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if c, ok := a[0].(*Value); ok && p.vfd[c] != nil {
			return p.vfd[c].name
		}
		return ""
	}
	wf := func(p *Path, fn *ssa.Function, a []Value) Value {
		n := p.vfsName(a[0])
		// open through a signature with a *os.File result
		if strings.Contains(n, "/missing/") || n == "" || strings.HasSuffix(n, "/") {
			return p.errNotExist()
		}
		e := elemsOf(p, a[1])
		if n == "/dev/full" {
			if len(e) == 0 {
				return Iface{}
			}
			return errStr(p, "write /dev/full: no space left on device")
		}
		if p.vfs == nil {
			p.vfs, p.vfd = map[string][]any{}, map[*Value]*vfile{}
		}
		p.vfs[n] = append([]any(nil), e...)
		return Iface{}
	}
	reg := func(names string, f intrinsic) {
		for _, n := range strings.Fields(names) {
			I[n] = f
		}
	}
	reg("os.WriteFile io/ioutil.WriteFile", wf)
	rf := func(p *Path, fn *ssa.Function, a []Value) Value {
		n := p.vfsName(a[0])
		e, ok := p.vfs[n]
		if !ok {
			return Tuple{zero(fn.Signature.Results().At(0).Type()), p.errNotExist()}
		}
		return Tuple{p.strToBytes(mkStr(append([]any(nil), e...))), Iface{}}
	}
	reg("os.ReadFile io/ioutil.ReadFile", rf)
	I["os.Remove"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		n := p.vfsName(a[0])
		if _, ok := p.vfs[n]; !ok {
			return errStr(p, "remove "+n+": no such file or directory")
		}
		delete(p.vfs, n)
		return Iface{}
	}
	I["os.Rename"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		n, m := p.vfsName(a[0]), p.vfsName(a[1])
		e, ok := p.vfs[n]
		if !ok || strings.Contains(m, "/missing/") {
			return errStr(p, "rename "+n+": no such file or directory")
		}
		delete(p.vfs, n)
		p.vfs[m] = e
		return Iface{}
	}
}
