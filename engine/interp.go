package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fnInfo struct {
	fn     *ssa.Function
	slots  map[ssa.Value]int
	defBlk []*ssa.BasicBlock // per slot
	n      int
	ipdom  []*ssa.BasicBlock // immediate postdominator per block (nil = exit)
	hasIp  []bool
	defers bool
	recov  bool
}

func (w *Worker) info(fn *ssa.Function) *fnInfo {
	if fi, ok := w.fninfo[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, slots: map[ssa.Value]int{}}
	add := func(v ssa.Value, b *ssa.BasicBlock) {
		fi.slots[v] = fi.n
		fi.defBlk = append(fi.defBlk, b)
		fi.n++
	}
	for _, v := range fn.Params {
		add(v, nil)
	}
	for _, v := range fn.FreeVars {
		add(v, nil)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v, b)
			}
			if _, ok := in.(*ssa.Defer); ok {
				fi.defers = true
			}
		}
	}
	fi.ipdom = postdoms(fn)
	w.fninfo[fn] = fi
	return fi
}

// postdoms computes the immediate postdominator of each block; nil means the virtual exit.
func postdoms(fn *ssa.Function) []*ssa.BasicBlock {
	n := len(fn.Blocks)
	// reverse postorder on the reverse graph with virtual exit n
	succs := func(b int) []int { // forward succs
		var r []int
		for _, s := range fn.Blocks[b].Succs {
			r = append(r, s.Index)
		}
		if len(r) == 0 {
			r = append(r, n)
		}
		return r
	}
	preds := make([][]int, n+1)
	for i := 0; i < n; i++ {
		for _, s := range succs(i) {
			preds[s] = append(preds[s], i)
		}
	}
	order := []int{}
	seen := make([]bool, n+1)
	var dfs func(int)
	dfs = func(x int) {
		seen[x] = true
		for _, y := range preds[x] {
			if !seen[y] {
				dfs(y)
			}
		}
		order = append(order, x)
	}
	dfs(n)
	num := make([]int, n+1)
	for i, x := range order {
		num[x] = i
	}
	idom := make([]int, n+1)
	for i := range idom {
		idom[i] = -1
	}
	idom[n] = n
	for ch := true; ch; {
		ch = false
		for i := len(order) - 1; i >= 0; i-- {
			x := order[i]
			if x == n {
				continue
			}
			nd := -1
			for _, s := range succs(x) {
				if !seen[s] || idom[s] == -1 {
					continue
				}
				if nd == -1 {
					nd = s
				} else {
					a, b := nd, s
					for a != b {
						for num[a] < num[b] {
							a = idom[a]
						}
						for num[b] < num[a] {
							b = idom[b]
						}
					}
					nd = a
				}
			}
			if nd != -1 && idom[x] != nd {
				idom[x] = nd
				ch = true
			}
		}
	}
	r := make([]*ssa.BasicBlock, n)
	for i := 0; i < n; i++ {
		if idom[i] >= 0 && idom[i] < n {
			r[i] = fn.Blocks[idom[i]]
		}
	}
	return r
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type frame struct {
	p         *Path
	fi        *fnInfo
	regs      []Value
	defers    []*deferred
	caller    *frame
	panicking bool
	pan       targetPanic
	result    Value
}

func (fr *frame) get(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		if c, ok := fr.p.w.consts[v]; ok {
			return c
		}
		c := constVal(v)
		switch c.(type) {
		case StructV, ArrayV:
			return c
		}
		fr.p.w.consts[v] = c
		return c
	case *ssa.Global:
		return fr.p.w.global(fr.p, v)
	case *ssa.Function:
		return v
	case *ssa.Builtin:
		return v
	}
	if i, ok := fr.fi.slots[v]; ok {
		return fr.regs[i]
	}
	panic(engineErr("no slot for %s", v.Name()))
}

func (fr *frame) set(v ssa.Value, x Value) { fr.regs[fr.fi.slots[v]] = x }

type outcome struct {
	ret  bool
	val  Value
	prev *ssa.BasicBlock
}

const maxDepth = 400

func (p *Path) call(fnv Value, args []Value, caller *frame) Value {
	switch fn := fnv.(type) {
	case *ssa.Function:
		if fn == nil {
			p.rtPanic("invalid memory address or nil pointer dereference (nil func)")
		}
		return p.callFn(fn, args, nil, caller)
	case *Closure:
		if fn == nil {
			p.rtPanic("invalid memory address or nil pointer dereference (nil func)")
		}
		return p.callFn(fn.fn, args, fn.env, caller)
	case *Native:
		return fn.f(p, args)
	case *ssa.Builtin:
		panic(engineErr("builtin via call"))
	}
	panic(engineErr("call of %T", fnv))
}

// notHandled makes callFn execute the real body after all.
type notHandled struct{}

func (p *Path) callFn(fn *ssa.Function, args []Value, env []Value, caller *frame) Value {
	if in := p.w.intrinsic(fn); in != nil {
		if r := in(p, fn, args); r != (notHandled{}) {
			return r
		}
	}
	if fn.Blocks == nil {
		panic(engineErr("no body for %s", fn))
	}
	if p.depth > maxDepth {
		p.rtStackOverflow()
	}
	p.depth++
	p.stack = append(p.stack, fn)
	nst := len(p.stack)
	fi := p.w.info(fn)
	if p.w.x.fnEncoded != nil {
		p.w.noteFn(fn)
	}
	fr := &frame{p: p, fi: fi, regs: make([]Value, fi.n), caller: caller}
	i := 0
	for _, a := range args {
		fr.regs[i] = a
		i++
	}
	for _, a := range env {
		fr.regs[i] = a
		i++
	}
	var v Value
	if !fi.defers {
		v = fr.exec(fn.Blocks[0], nil, nil).val
	} else {
		v = fr.runWithDefers()
	}
	p.depth--
	p.stack = p.stack[:nst-1]
	return v
}

func (p *Path) rtStackOverflow() { panic(boundExceeded{"call depth"}) }

func (fr *frame) runWithDefers() (v Value) {
	p := fr.p
	depth, nst := p.depth, len(p.stack)
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				p.depth, p.stack = depth, p.stack[:nst]
				fr.panicking, fr.pan = true, tp
			}
		}()
		v = fr.exec(fr.fi.fn.Blocks[0], nil, nil).val
	}()
	if !fr.panicking {
		return v
	}
	fr.runDefers()
	if fr.panicking {
		panic(fr.pan)
	}
	// recovered
	if rb := fr.fi.fn.Recover; rb != nil {
		return fr.exec(rb, nil, nil).val
	}
	res := fr.fi.fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return zero(res.At(0).Type())
	}
	return zero(res)
}

func (fr *frame) runDefers() {
	p := fr.p
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth, nst := p.depth, len(p.stack)
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					p.depth, p.stack = depth, p.stack[:nst]
					fr.panicking, fr.pan = true, tp
				}
			}()
			if b, ok := d.fn.(*ssa.Builtin); ok {
				p.builtin(fr, b, d.args, d.call)
			} else {
				p.call(d.fn, d.args, fr)
			}
		}()
	}
}

// exec runs from block b (entered from prev) until return or until reaching stop.
func (fr *frame) exec(b, prev, stop *ssa.BasicBlock) outcome {
	p := fr.p
	for {
		// phis
		k := 0
		if prev != nil {
			pi := -1
			for ; k < len(b.Instrs); k++ {
				phi, ok := b.Instrs[k].(*ssa.Phi)
				if !ok {
					break
				}
				if pi < 0 {
					for i, q := range b.Preds {
						if q == prev {
							pi = i
						}
					}
				}
				_ = phi
			}
			if k > 0 {
				vals := make([]Value, k)
				for i := 0; i < k; i++ {
					vals[i] = fr.get(b.Instrs[i].(*ssa.Phi).Edges[pi])
				}
				for i := 0; i < k; i++ {
					fr.set(b.Instrs[i].(*ssa.Phi), vals[i])
				}
			}
		}
		var next *ssa.BasicBlock
		skipPhi := false
		for ; k < len(b.Instrs); k++ {
			p.instrs++
			if p.instrs > p.w.x.maxInstr {
				panic(boundExceeded{"instructions per path"})
			}
			if p.arm > 0 && p.instrs > p.armInstr[len(p.armInstr)-1] {
				panic(abortMerge{"arm too long"})
			}
			switch in := b.Instrs[k].(type) {
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				c := fr.get(in.Cond)
				switch c := c.(type) {
				case bool:
					if c {
						next = b.Succs[0]
					} else {
						next = b.Succs[1]
					}
				case *Term:
					var o outcome
					var merged bool
					var taken int
					o, merged, taken = fr.symIf(in, b, c, stop)
					if merged {
						if o.ret {
							return o
						}
						// registers (incl. phis of ipdom) are set; continue after them
						next = fr.fi.ipdom[b.Index]
						if next == stop {
							return outcome{prev: nil}
						}
						skipPhi = true
					} else {
						next = b.Succs[taken]
					}
				default:
					panic(engineErr("if on %T", c))
				}
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
					return outcome{ret: true}
				case 1:
					return outcome{ret: true, val: fr.get(in.Results[0])}
				}
				t := make(Tuple, len(in.Results))
				for i, r := range in.Results {
					t[i] = fr.get(r)
				}
				return outcome{ret: true, val: t}
			case *ssa.Panic:
				v := fr.get(in.X)
				p.goPanic(v)
			default:
				fr.instr(b.Instrs[k])
			}
		}
		if next == nil {
			panic(engineErr("fell off block"))
		}
		if next == stop {
			return outcome{prev: b}
		}
		if skipPhi {
			prev = nil
			// phis of next already assigned: jump past them
			b = next
			if fr.execAfterPhi(&b, &prev) {
				continue
			}
			continue
		}
		prev, b = b, next
	}
}

// execAfterPhi is a no-op: with prev == nil the phi prologue is skipped, and ssa.Phi instructions are
// ignored by instr.
func (fr *frame) execAfterPhi(b, prev **ssa.BasicBlock) bool { return true }

// symIf handles a symbolic branch: forced, merged, or forked.
func (fr *frame) symIf(in *ssa.If, b *ssa.BasicBlock, c *Term, stop *ssa.BasicBlock) (outcome, bool, int) {
	p := fr.p
	if c.op == OConst {
		if c.b {
			return outcome{}, false, 0
		}
		return outcome{}, false, 1
	}
	if d, ok := p.nextDecision(); ok {
		switch d.Kind {
		case 'T':
			p.assertPC(c)
			return outcome{}, false, 0
		case 'F':
			p.assertPC(p.b.Not(c))
			return outcome{}, false, 1
		case 't':
			return outcome{}, false, 0
		case 'f':
			return outcome{}, false, 1
		case 'M':
			o, ok := fr.tryMerge(in, b, c, true)
			if !ok {
				panic(engineErr("replay divergence: merge failed on replay at %s in %s", p.w.x.pos(in.Pos()), b.Parent()))
			}
			return o, true, 0
		}
		panic(engineErr("replay divergence: %s at if", d))
	}
	if p.w.x.trace {
		fmt.Printf("  if %s in %s: %s\n", p.w.x.pos(in.Cond.Pos()), b.Parent(), termStr(c))
	}
	if !p.feasible(c) {
		p.log = append(p.log, Decision{Kind: 'f'})
		return outcome{}, false, 1
	}
	if !p.feasible(p.b.Not(c)) {
		p.log = append(p.log, Decision{Kind: 't'})
		return outcome{}, false, 0
	}
	p.nIf++
	if p.w.x.merge && p.w.noMerge[in] < 3 {
		p.log = append(p.log, Decision{Kind: 'M'})
		n := len(p.log)
		o, ok := fr.tryMerge(in, b, c, false)
		if ok {
			p.nMerge++
			return o, true, 0
		}
		p.log = p.log[:n-1]
		p.w.noMerge[in]++
	}
	if p.w.x.profile {
		p.w.x.noteFork(p.w.x.pos(in.Cond.Pos()) + " " + b.Parent().String())
	}
	if p.forkTF(c) {
		return outcome{}, false, 0
	}
	return outcome{}, false, 1
}

type armState struct {
	out     outcome
	regs    []Value
	writes  map[*Value]Value
	order   []*Value
	pcExtra []*Term
	phis    []Value
}

// tryMerge runs both sides of an If up to the immediate postdominator and merges the states.
func (fr *frame) tryMerge(in *ssa.If, b *ssa.BasicBlock, c *Term, replay bool) (res outcome, ok bool) {
	p := fr.p
	stop := fr.fi.ipdom[b.Index]
	if fr.fi.defers && stop == nil {
		return outcome{}, false
	}
	var arms [2]armState
	saved := append([]Value(nil), fr.regs...)
	jn, pn, mn, sk := len(p.journal), len(p.pc), len(p.memoLog), p.skol
	logn, forkn := len(p.log), len(p.forks)
	depth, nst := p.depth, len(p.stack)
	ninp, nobs := len(p.inputs), len(p.obs)
	restore := func() {
		p.rollback(jn)
		p.pc = p.pc[:pn]
		for _, k := range p.memoLog[mn:] {
			delete(p.memo, k)
		}
		p.memoLog = p.memoLog[:mn]
		copy(fr.regs, saved)
		p.depth, p.stack = depth, p.stack[:nst]
	}
	abort := func() {
		restore()
		p.skol = sk
		p.log = p.log[:logn]
		p.forks = p.forks[:forkn]
		p.inputs = p.inputs[:ninp]
		p.obs = p.obs[:nobs]
	}
	for a := 0; a < 2; a++ {
		cond := c
		if a == 1 {
			cond = p.b.Not(c)
		}
		p.assertPC(cond)
		good := func() (good bool) {
			p.arm++
			lim := p.instrs + 20000
			if n := len(p.armInstr); n > 0 && p.armInstr[n-1] < lim {
				lim = p.armInstr[n-1]
			}
			p.armInstr = append(p.armInstr, lim)
			defer func() {
				p.arm--
				p.armInstr = p.armInstr[:len(p.armInstr)-1]
				if r := recover(); r != nil {
					switch r.(type) {
					case abortMerge, targetPanic, pathEnd:
						if p.w.x.trace {
							fmt.Printf("  merge abort at %s: %v\n", p.w.x.pos(in.Cond.Pos()), r)
						}
						good = false
						return
					}
					panic(r)
				}
			}()
			if b.Succs[a] == stop {
				arms[a].out = outcome{prev: b}
			} else {
				arms[a].out = fr.exec(b.Succs[a], b, stop)
			}
			return true
		}()
		if !good {
			abort()
			return outcome{}, false
		}
		st := &arms[a]
		if !st.out.ret && stop == nil {
			panic(engineErr("arm ended without return"))
		}
		// phi values for the join
		if !st.out.ret {
			pi := -1
			for _, ins := range stop.Instrs {
				phi, isPhi := ins.(*ssa.Phi)
				if !isPhi {
					break
				}
				if st.out.prev == nil { // nested merge already assigned the phis of stop
					st.phis = append(st.phis, fr.get(phi))
					continue
				}
				if pi < 0 {
					for i, q := range stop.Preds {
						if q == st.out.prev {
							pi = i
						}
					}
				}
				st.phis = append(st.phis, fr.get(phi.Edges[pi]))
			}
		}
		st.regs = append([]Value(nil), fr.regs...)
		st.writes = map[*Value]Value{}
		for _, u := range p.journal[jn:] {
			if u.f != nil {
				if p.w.x.trace {
					fmt.Printf("  merge abort at %s: map write\n", p.w.x.pos(in.Cond.Pos()))
				}
				abort()
				return outcome{}, false
			}
			if _, seen := st.writes[u.addr]; !seen {
				st.writes[u.addr] = nil
				st.order = append(st.order, u.addr)
			}
		}
		for ad := range st.writes {
			st.writes[ad] = *ad
		}
		for _, t := range p.pc[pn+1:] {
			st.pcExtra = append(st.pcExtra, p.b.Implies(cond, t))
		}
		if len(p.obs) != nobs || len(p.inputs) != ninp {
			abort()
			return outcome{}, false
		}
		restore()
	}
	if arms[0].out.ret != arms[1].out.ret {
		abort()
		return outcome{}, false
	}
	// merge heap writes
	type wr struct {
		a *Value
		v Value
	}
	var ws []wr
	fail := func(why string, x, y Value) (outcome, bool) {
		if p.w.x.trace {
			fmt.Printf("  merge abort at %s: %s (%T/%T)\n", p.w.x.pos(in.Cond.Pos()), why, x, y)
		}
		abort()
		return outcome{}, false
	}
	for ai := 0; ai < 2; ai++ {
		for _, ad := range arms[ai].order {
			v0, in0 := arms[0].writes[ad]
			v1, in1 := arms[1].writes[ad]
			if ai == 1 && in0 {
				continue
			}
			old := *ad
			if !in0 {
				v0 = old
			}
			if !in1 {
				v1 = old
			}
			m, ok := p.mergeVal(c, v0, v1)
			if !ok {
				// cells of objects allocated inside one arm are unreachable from the other one
				if _, fresh := old.(bad); fresh {
					if in0 {
						m = v0
					} else {
						m = v1
					}
				} else {
					return fail("heap", v0, v1)
				}
			}
			ws = append(ws, wr{ad, m})
		}
	}
	var val Value
	if arms[0].out.ret {
		m, ok := p.mergeVal(c, arms[0].out.val, arms[1].out.val)
		if !ok {
			return fail("return value", arms[0].out.val, arms[1].out.val)
		}
		val = m
	}
	var phis []Value
	for i := range arms[0].phis {
		m, ok := p.mergeVal(c, arms[0].phis[i], arms[1].phis[i])
		if !ok {
			return fail("phi", arms[0].phis[i], arms[1].phis[i])
		}
		phis = append(phis, m)
	}
	regs := append([]Value(nil), saved...)
	if stop != nil && !arms[0].out.ret {
		for i := range regs {
			x, y := arms[0].regs[i], arms[1].regs[i]
			if sameVal(x, y) {
				regs[i] = x
				continue
			}
			db := fr.fi.defBlk[i]
			if db == nil || db == stop || !db.Dominates(stop) {
				continue
			}
			m, ok := p.mergeVal(c, x, y)
			if !ok {
				return fail("register", x, y)
			}
			regs[i] = m
		}
	}
	// commit
	copy(fr.regs, regs)
	for _, w := range ws {
		p.setCell(w.a, w.v)
	}
	if stop != nil && !arms[0].out.ret {
		for i, v := range phis {
			fr.set(stop.Instrs[i].(*ssa.Phi), v)
		}
	}
	for _, st := range arms {
		for _, t := range st.pcExtra {
			p.assertPC(t)
		}
	}
	return outcome{ret: arms[0].out.ret, val: val}, true
}

func sameVal(x, y Value) bool {
	switch xv := x.(type) {
	case nil:
		return y == nil
	case bool, int64, float64, string, *Term, *Value, *MapV, *ssa.Function, *Closure, *SymStr:
		switch y.(type) {
		case bool, int64, float64, string, *Term, *Value, *MapV, *ssa.Function, *Closure, *SymStr:
			return x == y
		}
		return false
	case SliceV:
		yv, ok := y.(SliceV)
		return ok && len(xv) == len(yv) && cap(xv) == cap(yv) && (cap(xv) == 0 || &xv[:1][0] == &yv[:1][0])
	case Iface:
		yv, ok := y.(Iface)
		return ok && xv.t == yv.t && sameVal(xv.v, yv.v)
	}
	return false
}

func (p *Path) rtPanic(msg string) {
	if p.arm > 0 {
		panic(abortMerge{"panic"})
	}
	panic(targetPanic{v: Iface{p.w.x.rtErrType, "runtime error: " + msg}, msg: "runtime error: " + msg, stack: p.stackString()})
}

func (p *Path) goPanic(v Value) {
	if p.arm > 0 {
		panic(abortMerge{"panic"})
	}
	tp := targetPanic{v: v, stack: p.stackString()}
	if i, ok := v.(Iface); ok {
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp.msg = "panic"
				}
			}()
			s := p.formatValue(i, 'v', fmtFlags{}, 0)
			tp.msg = (&SymStr{s}).String()
		}()
	}
	panic(tp)
}

func deref(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

func (p *Path) load(a *Value) Value {
	if a == nil {
		p.rtPanic("invalid memory address or nil pointer dereference")
	}
	return copyVal(*a)
}

func (p *Path) store(a *Value, v Value) {
	if a == nil {
		p.rtPanic("invalid memory address or nil pointer dereference")
	}
	switch nv := v.(type) {
	case StructV:
		if old, ok := (*a).(StructV); ok && len(old) == len(nv) {
			for i := range nv {
				p.store(&old[i], nv[i])
			}
			return
		}
		v = copyVal(v)
	case ArrayV:
		if old, ok := (*a).(ArrayV); ok && len(old) == len(nv) {
			for i := range nv {
				p.store(&old[i], nv[i])
			}
			return
		}
		v = copyVal(v)
	}
	p.setCell(a, v)
}

func (p *Path) index(i Value, n int, t types.Type) int {
	var c int64
	switch iv := i.(type) {
	case int64:
		k, _ := intInfo(t)
		if !k.signed && k.bits == 64 && iv < 0 {
			p.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", uint64(iv), n))
		}
		c = iv
	case *Term:
		ok := p.b.And(p.b.Le(p.b.zeroI, iv), p.b.Lt(iv, p.b.IntC(int64(n))))
		if !p.branchTerm(ok) {
			p.rtPanic(fmt.Sprintf("index out of range with length %d", n))
		}
		c = p.concretize(iv)
	}
	if c < 0 || c >= int64(n) {
		p.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", c, n))
	}
	return int(c)
}

func (p *Path) conc(v Value) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case *Term:
		return p.concretize(v)
	}
	panic(engineErr("conc %T", v))
}

func (fr *frame) instr(in ssa.Instruction) {
	p := fr.p
	switch in := in.(type) {
	case *ssa.Phi, *ssa.DebugRef:
	case *ssa.Alloc:
		v := new(Value)
		*v = zero(deref(in.Type()))
		if p.arm > 0 {
			// mark as created here so that merging knows it is arm-local
			p.freshCell(v)
		}
		fr.set(in, v)
	case *ssa.UnOp:
		fr.set(in, fr.unop(in))
	case *ssa.BinOp:
		fr.set(in, p.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(in.X), fr.get(in.Y)))
	case *ssa.Call:
		fr.set(in, fr.doCall(&in.Call))
	case *ssa.ChangeInterface:
		fr.set(in, fr.get(in.X))
	case *ssa.ChangeType:
		fr.set(in, fr.get(in.X))
	case *ssa.Convert:
		fr.set(in, p.convert(in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.SliceToArrayPointer:
		s := fr.get(in.X).(SliceV)
		n := int(deref(in.Type()).Underlying().(*types.Array).Len())
		if len(s) < n {
			p.rtPanic("cannot convert slice to array pointer: length mismatch")
		}
		v := new(Value)
		*v = ArrayV(s[:n:n])
		fr.set(in, v)
	case *ssa.Extract:
		fr.set(in, fr.get(in.Tuple).(Tuple)[in.Index])
	case *ssa.Field:
		fr.set(in, fr.get(in.X).(StructV)[in.Field])
	case *ssa.FieldAddr:
		a := fr.get(in.X).(*Value)
		if a == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		s, ok := (*a).(StructV)
		if !ok {
			panic(engineErr("fieldaddr of %T in %s (%s)", *a, in.Parent(), in))
		}
		fr.set(in, &s[in.Field])
	case *ssa.Index:
		x := fr.get(in.X)
		switch x := x.(type) {
		case ArrayV:
			fr.set(in, p.indexRead([]Value(x), fr.get(in.Index), in.Index.Type()))
		case string, *SymStr:
			fr.set(in, p.strIndex(x, fr.get(in.Index), in.Index.Type()))
		default:
			panic(engineErr("index of %T", x))
		}
	case *ssa.IndexAddr:
		x := fr.get(in.X)
		var s []Value
		switch x := x.(type) {
		case SliceV:
			s = x
		case *Value:
			if x == nil {
				p.rtPanic("invalid memory address or nil pointer dereference")
			}
			s = (*x).(ArrayV)
		default:
			panic(engineErr("indexaddr of %T", x))
		}
		i := p.index(fr.get(in.Index), len(s), in.Index.Type())
		fr.set(in, &s[i])
	case *ssa.Lookup:
		fr.set(in, fr.lookup(in))
	case *ssa.MakeInterface:
		fr.set(in, Iface{in.X.Type(), copyVal(fr.get(in.X))})
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.env = append(c.env, fr.get(b))
		}
		fr.set(in, c)
	case *ssa.MakeMap:
		fr.set(in, newMap())
	case *ssa.MakeSlice:
		n, c := p.conc(fr.get(in.Len)), p.conc(fr.get(in.Cap))
		if n < 0 || n > 1<<28 {
			p.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<28 {
			p.rtPanic("makeslice: cap out of range")
		}
		s := make(SliceV, c)
		et := in.Type().Underlying().(*types.Slice).Elem()
		for i := range s {
			s[i] = zero(et)
		}
		p.fresh(s)
		fr.set(in, s[:n])
	case *ssa.MapUpdate:
		m := fr.get(in.Map).(*MapV)
		if m == nil {
			p.goPanicStr("assignment to entry in nil map")
		}
		p.mapSet(m, fr.get(in.Key), fr.get(in.Value), in.Map.Type().Underlying().(*types.Map).Key())
	case *ssa.Range:
		x := fr.get(in.X)
		switch x := x.(type) {
		case *MapV:
			it := &mapIter{m: x}
			if x != nil {
				for _, e := range x.entries {
					if !e.dead {
						it.ents = append(it.ents, e)
					}
				}
				if p.w.x.mapOrder && len(it.ents) > 1 && len(it.ents) <= 4 {
					it.ents = p.permute(it.ents)
				}
			}
			fr.set(in, it)
		default:
			fr.set(in, &strIter{s: x})
		}
	case *ssa.Next:
		fr.set(in, fr.next(in))
	case *ssa.Slice:
		fr.set(in, fr.slice(in))
	case *ssa.Store:
		a, ok := fr.get(in.Addr).(*Value)
		if !ok {
			panic(engineErr("store to %T", fr.get(in.Addr)))
		}
		p.store(a, fr.get(in.Val))
	case *ssa.TypeAssert:
		fr.set(in, fr.typeAssert(in))
	case *ssa.Defer:
		if p.arm > 0 {
			panic(abortMerge{"defer"})
		}
		fn, args := fr.prepCall(&in.Call)
		fr.defers = append(fr.defers, &deferred{fn, args, &in.Call})
	case *ssa.RunDefers:
		if len(fr.defers) > 0 && p.arm > 0 {
			panic(abortMerge{"defer"})
		}
		fr.runDefers()
		if fr.panicking {
			tp := fr.pan
			panic(tp)
		}
	case *ssa.Go:
		// a single legal schedule: run the goroutine to completion at the go statement
		fn, args := fr.prepCall(&in.Call)
		if p.arm > 0 {
			panic(abortMerge{"go"})
		}
		p.w.x.note("goroutine executed inline at the go statement in " + in.Parent().String())
		p.call(fn, args, nil)
	default:
		panic(engineErr("unsupported instruction %T in %s", in, in.Parent()))
	}
}

// fresh journals the creation of slice cells inside a merge arm.
func (p *Path) fresh(s []Value) {
	if p.arm > 0 {
		for i := range s {
			p.freshCell(&s[i])
		}
	}
}

func (p *Path) freshCell(v *Value) {
	p.journal = append(p.journal, undo{addr: v, old: bad{}})
	switch x := (*v).(type) {
	case StructV:
		for i := range x {
			p.freshCell(&x[i])
		}
	case ArrayV:
		for i := range x {
			p.freshCell(&x[i])
		}
	}
}

func (p *Path) goPanicStr(s string) {
	p.rtPanicRaw(s)
}
func (p *Path) rtPanicRaw(msg string) {
	if p.arm > 0 {
		panic(abortMerge{"panic"})
	}
	panic(targetPanic{v: Iface{p.w.x.rtErrType, msg}, msg: msg, stack: p.stackString()})
}

func (p *Path) permute(es []*mapEntry) []*mapEntry {
	rest := append([]*mapEntry(nil), es...)
	var out []*mapEntry
	for len(rest) > 1 {
		k := int(p.choose(fmt.Sprintf("maporder%d", p.nextName("maporder")), len(rest)))
		out = append(out, rest[k])
		rest = append(rest[:k:k], rest[k+1:]...)
	}
	return append(out, rest[0])
}

// indexRead reads s[i], using an ite chain for scalar elements.
func (p *Path) indexRead(s []Value, i Value, t types.Type) Value {
	return copyVal(s[p.index(i, len(s), t)])
}

func (p *Path) strIndex(s Value, i Value, t types.Type) Value {
	n := strLen(s)
	k := p.index(i, n, t)
	if str, ok := s.(string); ok {
		return int64(str[k])
	}
	switch e := s.(*SymStr).e[k].(type) {
	case byte:
		return int64(e)
	case *Term:
		return e
	case *Atom:
		panic(engineErr("byte access into a formatted symbolic number"))
	}
	panic("unreachable")
}

func (fr *frame) unop(in *ssa.UnOp) Value {
	p := fr.p
	x := fr.get(in.X)
	switch in.Op {
	case token.MUL:
		a, ok := x.(*Value)
		if !ok {
			panic(engineErr("load from %T in %s", x, in.Parent()))
		}
		return p.load(a)
	case token.NOT:
		switch x := x.(type) {
		case bool:
			return !x
		case *Term:
			return unTerm(p.b.Not(x))
		}
	case token.SUB:
		if k, ok := intInfo(in.Type()); ok {
			switch x := x.(type) {
			case int64:
				return normInt(-x, k)
			case *Term:
				return p.wrap(p.b.Neg(x), k)
			}
		}
		switch x := x.(type) {
		case float64:
			return -x
		case *Term:
			r := p.b.Neg(x)
			if rb, ok := p.w.rounded[x.id]; ok {
				p.w.rounded[r.id] = rb
			}
			return r
		case complex128:
			return -x
		}
	case token.XOR:
		k, _ := intInfo(in.Type())
		switch x := x.(type) {
		case int64:
			return normInt(^x, k)
		case *Term:
			// ^x = -x-1 (signed) or max-x (unsigned)
			if k.signed {
				return p.b.Sub(p.b.Neg(x), p.b.IntC(1))
			}
			_, hi := kindRange(k)
			return p.b.Sub(p.b.IntBig(hi), x)
		}
	}
	panic(engineErr("unop %s on %T", in.Op, x))
}

func (p *Path) binop(op token.Token, tx, ty types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return p.equal(tx, x, y)
	case token.NEQ:
		r := p.equal(tx, x, y)
		switch r := r.(type) {
		case bool:
			return !r
		case *Term:
			return unTerm(p.b.Not(r))
		}
	}
	if k, ok := intInfo(tx); ok {
		return p.intBinop(op, k, tx, ty, x, y)
	}
	if bitsz, ok := isFloat(tx); ok {
		switch op {
		case token.ADD:
			return p.fop('+', x, y, bitsz)
		case token.SUB:
			return p.fop('-', x, y, bitsz)
		case token.MUL:
			return p.fop('*', x, y, bitsz)
		case token.QUO:
			return p.fop('/', x, y, bitsz)
		}
		xf, ok1 := x.(float64)
		yf, ok2 := y.(float64)
		if ok1 && ok2 {
			switch op {
			case token.LSS:
				return xf < yf
			case token.LEQ:
				return xf <= yf
			case token.GTR:
				return xf > yf
			case token.GEQ:
				return xf >= yf
			}
		}
		if ok1 && math.IsNaN(xf) || ok2 && math.IsNaN(yf) {
			return false
		}
		if ok1 && math.IsInf(xf, 0) {
			if xf > 0 {
				return op == token.GTR || op == token.GEQ
			}
			return op == token.LSS || op == token.LEQ
		}
		if ok2 && math.IsInf(yf, 0) {
			if yf > 0 {
				return op == token.LSS || op == token.LEQ
			}
			return op == token.GTR || op == token.GEQ
		}
		return p.cmpTerms(op, p.realTerm(x), p.realTerm(y))
	}
	if isString(tx) {
		switch op {
		case token.ADD:
			if a, ok := x.(string); ok {
				if b, ok := y.(string); ok {
					return a + b
				}
			}
			return mkStr(append(append([]any{}, strElems(x)...), strElems(y)...))
		}
		a, ok1 := x.(string)
		b, ok2 := y.(string)
		if ok1 && ok2 {
			switch op {
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
		return p.strCompare(op, x, y)
	}
	if xc, ok := x.(complex128); ok {
		yc := y.(complex128)
		switch op {
		case token.ADD:
			return xc + yc
		case token.SUB:
			return xc - yc
		case token.MUL:
			return xc * yc
		case token.QUO:
			return xc / yc
		}
	}
	panic(engineErr("binop %s on %s", op, tx))
}

func (p *Path) strCompare(op token.Token, x, y Value) Value {
	a, b := strElems(x), strElems(y)
	for i := 0; i < len(a) && i < len(b); i++ {
		ta, tb := p.byteTerm(a[i]), p.byteTerm(b[i])
		if p.branch(unTerm(p.b.Eq(ta, tb))) {
			continue
		}
		less := p.branch(unTerm(p.b.Lt(ta, tb)))
		return less == (op == token.LSS || op == token.LEQ)
	}
	la, lb := len(a), len(b)
	switch op {
	case token.LSS:
		return la < lb
	case token.LEQ:
		return la <= lb
	case token.GTR:
		return la > lb
	}
	return la >= lb
}

func (p *Path) byteTerm(e any) *Term {
	switch e := e.(type) {
	case byte:
		return p.b.IntC(int64(e))
	case *Term:
		return e
	}
	panic(engineErr("byte access into a formatted symbolic number"))
}

func (p *Path) cmpTerms(op token.Token, x, y *Term) Value {
	b := p.b
	switch op {
	case token.LSS:
		return unTerm(b.Lt(x, y))
	case token.LEQ:
		return unTerm(b.Le(x, y))
	case token.GTR:
		return unTerm(b.Lt(y, x))
	case token.GEQ:
		return unTerm(b.Le(y, x))
	}
	panic(engineErr("cmp %s", op))
}

func (p *Path) intBinop(op token.Token, k intKind, tx, ty types.Type, x, y Value) Value {
	b := p.b
	xc, ok1 := x.(int64)
	yc, ok2 := y.(int64)
	if op == token.SHL || op == token.SHR {
		ky, _ := intInfo(ty)
		if !ok2 {
			yc = p.concretize(y.(*Term))
			ok2 = true
		}
		if ky.signed && yc < 0 {
			p.rtPanic("negative shift amount")
		}
		sh := uint64(yc)
		if ok1 {
			switch {
			case op == token.SHL:
				if sh >= 64 {
					return int64(0)
				}
				return normInt(xc<<sh, k)
			case k.signed:
				if sh >= 64 {
					sh = 63
				}
				return xc >> sh
			default:
				if sh >= 64 {
					return int64(0)
				}
				return int64(uint64(xc) >> sh)
			}
		}
		t := x.(*Term)
		if sh > 128 {
			sh = 128
		}
		pow := new(big.Int).Lsh(big.NewInt(1), uint(sh))
		if op == token.SHL {
			return p.wrap(b.Scale(t, new(big.Rat).SetInt(pow)), k)
		}
		return p.termInt(b.FDiv(t, pow), k)
	}
	if ok1 && ok2 {
		r := p.intConc(op, k, xc, yc)
		if op == token.XOR {
			p.xorSample(k, xc, yc, r.(int64))
		}
		return r
	}
	X, Y := p.intTerm(x, k), p.intTerm(y, k)
	switch op {
	case token.ADD:
		return p.wrap(b.Add(X, Y), k)
	case token.SUB:
		return p.wrap(b.Sub(X, Y), k)
	case token.MUL:
		return p.wrap(b.Mul(X, Y), k)
	case token.QUO, token.REM:
		if !p.branch(unTerm(b.Not(b.Eq(Y, b.zeroI)))) {
			p.rtPanic("integer divide by zero")
		}
		q, r := p.quoRem(X, Y)
		if op == token.QUO {
			if k.signed { // MinInt / -1
				return p.wrap(q, k)
			}
			return p.termInt(q, k)
		}
		return p.termInt(r, k)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return p.cmpTerms(op, X, Y)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return p.bitop(op, k, X, Y)
	}
	panic(engineErr("int op %s", op))
}

func (p *Path) bitop(op token.Token, k intKind, X, Y *Term) Value {
	b := p.b
	if X.op == OConst && op != token.AND_NOT {
		X, Y = Y, X
	}
	if Y.op == OConst {
		c := Y.rat.Num()
		if c.Sign() == 0 {
			switch op {
			case token.AND:
				return int64(0)
			default:
				return p.termInt(X, k)
			}
		}
		// x & (2^n-1)
		c1 := new(big.Int).Add(c, big.NewInt(1))
		if op == token.AND && c.Sign() > 0 && c1.BitLen()-1 == int(c1.TrailingZeroBits()) {
			return p.termInt(b.FMod(X, c1), k)
		}
		if op == token.AND && c.Sign() > 0 && c.BitLen()-1 == int(c.TrailingZeroBits()) {
			// single bit: c * ((x div c) mod 2)
			return p.termInt(b.Scale(b.FMod(b.FDiv(X, c), big.NewInt(2)), new(big.Rat).SetInt(c)), k)
		}
		if op == token.OR && c.Sign() > 0 && c.BitLen()-1 == int(c.TrailingZeroBits()) {
			// x | bit = x + bit*(1 - bit set)
			bit := b.FMod(b.FDiv(X, c), big.NewInt(2))
			return p.termInt(b.Add(X, b.Scale(b.Sub(b.IntC(1), bit), new(big.Rat).SetInt(c))), k)
		}
	}
	if X == Y {
		switch op {
		case token.XOR, token.AND_NOT:
			return int64(0)
		default:
			return p.termInt(X, k)
		}
	}
	// over-approximation: an uninterpreted function of the operands with the right range
	lo, hi := kindRange(k)
	lof, _ := new(big.Float).SetInt(lo).Float64()
	hif, _ := new(big.Float).SetInt(hi).Float64()
	name := fmt.Sprintf("bit_%s_%d_%v", map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot"}[op], k.bits, k.signed)
	// the operands keep their order (a constant comes second): the same operation in the next round of a loop has them in the same order
	return p.memoized(name, X, Y, func() *Term {
		t := b.App(name, lof, hif, X, Y)
		t.inexact = true
		p.w.x.note("bitwise " + op.String() + " on symbolic operands modelled as an uninterpreted function (congruence and range only)")
		raw := func(x, y *Term) *Term {
			return b.intern(&Term{op: OLe, sort: SBool, args: []*Term{x, y}}, "raw"+key2(OLe, x, y))
		}
		p.assertPC(raw(b.IntBig(lo), t))
		p.assertPC(raw(t, b.IntBig(hi)))
		if op == token.XOR {
			p.assertPC(b.Or(b.Not(b.Eq(X, b.zeroI)), b.Eq(t, Y)))
			p.assertPC(b.Or(b.Not(b.Eq(Y, b.zeroI)), b.Eq(t, X)))
			a := xorApp{k, X, Y, t}
			for _, s := range p.xorSamples {
				p.xorLemma(a, s)
			}
			if len(p.xorApps) < 64 {
				p.xorApps = append(p.xorApps, a)
			}
		}
		return t
	})
}

// Exclusive ors of concrete operands on the same path are samples of the uninterpreted function, so that a concrete
// value and a symbolic one which happens to be equal get the same result.
type xorApp struct {
	k       intKind
	x, y, t *Term
}

type xorConc struct {
	k       intKind
	x, y, r int64
}

func (p *Path) xorSample(k intKind, x, y, r int64) {
	if x == 0 || y == 0 || len(p.xorSamples) >= 64 {
		return
	}
	s := xorConc{k, x, y, r}
	for _, t := range p.xorSamples {
		if t == s {
			return
		}
	}
	p.xorSamples = append(p.xorSamples, s)
	for _, a := range p.xorApps {
		p.xorLemma(a, s)
	}
}

func (p *Path) xorLemma(a xorApp, s xorConc) {
	if a.k != s.k {
		return
	}
	b := p.b
	x, y, r := p.intTerm(s.x, s.k), p.intTerm(s.y, s.k), b.Eq(a.t, p.intTerm(s.r, s.k))
	for i := 0; i < 2; i++ {
		if l := b.Or(b.Not(b.And(b.Eq(a.x, x), b.Eq(a.y, y))), r); l != b.tTrue {
			p.assertPC(l)
		}
		x, y = y, x
	}
}

func (p *Path) intConc(op token.Token, k intKind, x, y int64) Value {
	switch op {
	case token.ADD:
		return normInt(x+y, k)
	case token.SUB:
		return normInt(x-y, k)
	case token.MUL:
		return normInt(x*y, k)
	case token.QUO:
		if y == 0 {
			p.rtPanic("integer divide by zero")
		}
		if !k.signed {
			return int64(uint64(x) / uint64(y))
		}
		if y == -1 {
			return normInt(-x, k)
		}
		return normInt(x/y, k)
	case token.REM:
		if y == 0 {
			p.rtPanic("integer divide by zero")
		}
		if !k.signed {
			return int64(uint64(x) % uint64(y))
		}
		if y == -1 {
			return int64(0)
		}
		return x % y
	case token.AND:
		return x & y
	case token.OR:
		return x | y
	case token.XOR:
		return normInt(x^y, k)
	case token.AND_NOT:
		return x &^ y
	}
	if !k.signed && k.bits == 64 {
		a, c := uint64(x), uint64(y)
		switch op {
		case token.LSS:
			return a < c
		case token.LEQ:
			return a <= c
		case token.GTR:
			return a > c
		case token.GEQ:
			return a >= c
		}
	}
	switch op {
	case token.LSS:
		return x < y
	case token.LEQ:
		return x <= y
	case token.GTR:
		return x > y
	case token.GEQ:
		return x >= y
	}
	panic(engineErr("int op %s", op))
}

func andV(b *Bank, x, y Value) Value {
	toT := func(v Value) *Term {
		if t, ok := v.(*Term); ok {
			return t
		}
		return b.BoolC(v.(bool))
	}
	return unTerm(b.And(toT(x), toT(y)))
}

// equal returns bool or *Term.
func (p *Path) equal(t types.Type, x, y Value) Value {
	b := p.b
	switch xv := x.(type) {
	case bool:
		switch yv := y.(type) {
		case bool:
			return xv == yv
		case *Term:
			return unTerm(b.Eq(b.BoolC(xv), yv))
		}
	case int64:
		switch yv := y.(type) {
		case int64:
			return xv == yv
		case *Term:
			k, _ := intInfo(t)
			return unTerm(b.Eq(p.intTerm(xv, k), yv))
		}
	case float64:
		switch yv := y.(type) {
		case float64:
			return xv == yv
		case *Term:
			if math.IsNaN(xv) || math.IsInf(xv, 0) {
				return false
			}
			return unTerm(b.Eq(b.RealF(xv), yv))
		}
	case *Term:
		switch yv := y.(type) {
		case *Term:
			return unTerm(b.Eq(xv, yv))
		default:
			return p.equal(t, y, x)
		}
	case string, *SymStr:
		if xs, ok := x.(string); ok {
			if ys, ok := y.(string); ok {
				return xs == ys
			}
		}
		return p.strEqual(x, y)
	case *Value:
		yv, ok := y.(*Value)
		if !ok {
			return false
		}
		return xv == yv
	case *MapV:
		return xv == y.(*MapV)
	case SliceV:
		yv := y.(SliceV)
		if xv != nil && yv != nil {
			panic(engineErr("slice comparison"))
		}
		return xv == nil && yv == nil
	case *Closure:
		if yv, ok := y.(*Closure); ok {
			return xv == yv
		}
		return false
	case *ssa.Function:
		if yv, ok := y.(*ssa.Function); ok {
			return xv == yv
		}
		return false
	case *Native:
		yv, ok := y.(*Native)
		return ok && xv == yv
	case UnsafePtr:
		return xv == y.(UnsafePtr)
	case complex128:
		return xv == y.(complex128)
	case StructV:
		yv := y.(StructV)
		st := t.Underlying().(*types.Struct)
		var r Value = true
		for i := range xv {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = andV(b, r, p.equal(st.Field(i).Type(), xv[i], yv[i]))
			if r == false {
				return false
			}
		}
		return r
	case ArrayV:
		yv := y.(ArrayV)
		et := t.Underlying().(*types.Array).Elem()
		var r Value = true
		for i := range xv {
			r = andV(b, r, p.equal(et, xv[i], yv[i]))
			if r == false {
				return false
			}
		}
		return r
	case Iface:
		yv, ok := y.(Iface)
		if !ok {
			return false
		}
		if xv.t == nil || yv.t == nil {
			return xv.t == nil && yv.t == nil
		}
		if xv.t != yv.t && !types.Identical(xv.t, yv.t) {
			return false
		}
		if !types.Comparable(xv.t) {
			p.rtPanic("comparing uncomparable type " + xv.t.String())
		}
		return p.equal(xv.t, xv.v, yv.v)
	}
	panic(engineErr("equal %T %T (%s)", x, y, t))
}

func isNumChar(c byte) bool {
	return c >= '0' && c <= '9' || c == '-' || c == '.' || c == '+' || c == 'e'
}

func (p *Path) strEqual(x, y Value) Value {
	a, c := strElems(x), strElems(y)
	b := p.b
	if strHasAtom(x) || strHasAtom(y) {
		return p.atomEqual(a, c)
	}
	if len(a) != len(c) {
		return false
	}
	var r Value = true
	for i := range a {
		r = andV(b, r, unTerm(b.Eq(p.byteTerm(a[i]), p.byteTerm(c[i]))))
		if r == false {
			return false
		}
	}
	return r
}

func (p *Path) atomEqual(a, c []any) Value {
	i := 0
	var r Value = true
	for i < len(a) && i < len(c) {
		at, ok1 := a[i].(*Atom)
		ct, ok2 := c[i].(*Atom)
		if ok1 && ok2 {
			if at.verb == ct.verb && at.prec == ct.prec && at.t == ct.t && at.plus == ct.plus {
				i++
				continue
			}
			if at.verb == ct.verb && at.verb == 'd' && at.plus == ct.plus {
				r = andV(p.b, r, unTerm(p.b.Eq(at.t, ct.t)))
				i++
				continue
			}
			panic(engineErr("comparison of formatted symbolic numbers"))
		}
		if ok1 || ok2 {
			o := c[i]
			if ok2 {
				o = a[i]
			}
			if ch, ok := o.(byte); ok && !isNumChar(ch) {
				return false
			}
			panic(engineErr("comparison with a formatted symbolic number"))
		}
		r = andV(p.b, r, unTerm(p.b.Eq(p.byteTerm(a[i]), p.byteTerm(c[i]))))
		if r == false {
			return false
		}
		i++
	}
	if len(a) == len(c) {
		return r
	}
	// one is longer: an atom has at least one character
	return false
}

func (p *Path) convert(to, from types.Type, x Value) Value {
	tu, fu := to.Underlying(), from.Underlying()
	if k, ok := intInfo(tu); ok {
		if fk, ok := intInfo(fu); ok {
			switch xv := x.(type) {
			case int64:
				return normInt(xv, k)
			case *Term:
				_ = fk
				return p.wrap(xv, k)
			}
		}
		if _, ok := isFloat(fu); ok {
			return p.floatToInt(x, k)
		}
		if up, ok := x.(UnsafePtr); ok {
			panic(engineErr("uintptr of unsafe pointer %v", up))
		}
	}
	if bitsz, ok := isFloat(tu); ok {
		if fk, ok := intInfo(fu); ok {
			switch xv := x.(type) {
			case int64:
				f := float64(xv)
				if !fk.signed && fk.bits == 64 {
					f = float64(uint64(xv))
				}
				if bitsz == 32 {
					f = float64(float32(xv))
				}
				return f
			case *Term:
				return p.fround(p.b.ToReal(xv), bitsz)
			}
		}
		if fb, ok := isFloat(fu); ok {
			switch xv := x.(type) {
			case float64:
				if bitsz == 32 {
					return float64(float32(xv))
				}
				return xv
			case *Term:
				if bitsz < fb {
					return p.fround(xv, bitsz)
				}
				return xv
			}
		}
	}
	if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsString != 0 {
		switch xv := x.(type) {
		case string, *SymStr:
			return x
		case int64:
			return string(rune(xv))
		case *Term:
			// rune to string: ASCII only
			if p.branch(unTerm(p.b.And(p.b.Le(p.b.zeroI, xv), p.b.Lt(xv, p.b.IntC(128))))) {
				return mkStr([]any{xv})
			}
			panic(engineErr("string(rune) of symbolic non-ASCII rune"))
		case SliceV:
			if st, ok := fu.(*types.Slice); ok {
				if ek, ok := intInfo(st.Elem()); ok && ek.bits == 32 {
					var e []any
					for _, r := range xv {
						e = append(e, strElems(p.convert(to, types.Typ[types.Rune], r))...)
					}
					return mkStr(e)
				}
			}
			return p.bytesToStr(xv)
		}
	}
	if st, ok := tu.(*types.Slice); ok {
		switch x.(type) {
		case string, *SymStr:
			ek, _ := intInfo(st.Elem())
			if ek.bits == 8 {
				return p.strToBytes(x)
			}
			if s, ok := x.(string); ok {
				var r SliceV
				for _, c := range s {
					r = append(r, int64(c))
				}
				return r
			}
			var r SliceV
			for _, e := range strElems(x) {
				t := p.byteTerm(e)
				if !p.branch(unTerm(p.b.Lt(t, p.b.IntC(128)))) {
					panic(engineErr("[]rune of symbolic non-ASCII string"))
				}
				r = append(r, p.termInt(t, intKind{32, true}))
			}
			return r
		}
	}
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return UnsafePtr{x}
	}
	if up, ok := x.(UnsafePtr); ok {
		if up.v == nil {
			return zero(to)
		}
		return up.v
	}
	if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		return x
	}
	panic(engineErr("convert %s -> %s (%T)", from, to, x))
}

func (p *Path) bytesToStr(s SliceV) Value {
	e := make([]any, len(s))
	for i, x := range s {
		switch xv := x.(type) {
		case int64:
			e[i] = byte(xv)
		case *Term:
			e[i] = xv
		case *Atom:
			e[i] = xv
		}
	}
	return mkStr(e)
}

func (p *Path) strToBytes(x Value) SliceV {
	e := strElems(x)
	c := int(roundup(int64(len(e))))
	if len(e) <= 32 {
		c = 32
	}
	r := make(SliceV, len(e), c)
	full := r[:c]
	for i := range full {
		full[i] = int64(0)
	}
	for i, x := range e {
		switch xv := x.(type) {
		case byte:
			r[i] = int64(xv)
		default:
			r[i] = xv
		}
	}
	p.fresh(full)
	return r
}

func (fr *frame) slice(in *ssa.Slice) Value {
	p := fr.p
	x := fr.get(in.X)
	bound := func(v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		return int(p.conc(fr.get(v)))
	}
	switch xv := x.(type) {
	case string, *SymStr:
		n := strLen(x)
		lo := bound(in.Low, 0)
		hi := bound(in.High, n)
		if lo < 0 || hi > n || lo > hi {
			p.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		if s, ok := xv.(string); ok {
			return s[lo:hi]
		}
		return mkStr(strElems(x)[lo:hi])
	case SliceV:
		lo := bound(in.Low, 0)
		hi := bound(in.High, len(xv))
		mx := bound(in.Max, cap(xv))
		if hi < 0 || hi > cap(xv) {
			p.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, cap(xv)))
		}
		if lo < 0 || lo > hi || mx < hi || mx > cap(xv) {
			p.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		if xv == nil {
			return SliceV(nil)
		}
		return xv[lo:hi:mx]
	case *Value:
		if xv == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := (*xv).(ArrayV)
		lo := bound(in.Low, 0)
		hi := bound(in.High, len(a))
		mx := bound(in.Max, len(a))
		if lo < 0 || lo > hi || hi > mx || mx > len(a) {
			p.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return SliceV(a[lo:hi:mx])
	}
	panic(engineErr("slice of %T", x))
}

func (fr *frame) typeAssert(in *ssa.TypeAssert) Value {
	p := fr.p
	x := fr.get(in.X).(Iface)
	ok := false
	var v Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil && p.w.x.implements(x.t, it) {
			ok = true
			v = x
		} else {
			v = Iface{}
		}
	} else {
		if x.t != nil && (x.t == in.AssertedType || types.Identical(x.t, in.AssertedType)) {
			ok = true
			v = copyVal(x.v)
		} else {
			v = zero(in.AssertedType)
		}
	}
	if in.CommaOk {
		return Tuple{v, ok}
	}
	if !ok {
		have := "nil"
		if x.t != nil {
			have = x.t.String()
		}
		p.rtPanicRaw(fmt.Sprintf("interface conversion: interface is %s, not %s", have, in.AssertedType))
	}
	return v
}

// maps ---------------------------------------------------------------------

func (p *Path) concKey(k Value) (string, bool) {
	switch k := k.(type) {
	case bool:
		return fmt.Sprintf("b%v", k), true
	case int64:
		return fmt.Sprintf("i%d", k), true
	case float64:
		return fmt.Sprintf("f%v", k), true
	case string:
		return "s" + k, true
	case *Value:
		return fmt.Sprintf("p%p", k), true
	case *MapV:
		return fmt.Sprintf("m%p", k), true
	case Iface:
		if k.t == nil {
			return "nil", true
		}
		s, ok := p.concKey(k.v)
		return "I" + k.t.String() + ":" + s, ok
	case StructV:
		var sb strings.Builder
		sb.WriteString("S")
		for _, f := range k {
			s, ok := p.concKey(f)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s;", len(s), s)
		}
		return sb.String(), true
	case ArrayV:
		return p.concKey(StructV(k))
	case *SymStr, *Term:
		return "", false
	}
	panic(engineErr("map key %T", k))
}

func (p *Path) mapFind(m *MapV, k Value, kt types.Type) *mapEntry {
	if m == nil {
		return nil
	}
	ck, ok := p.concKey(k)
	if ok {
		if e := m.idx[ck]; e != nil && !e.dead {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		if ok {
			if _, ec := p.concKey(e.k); ec {
				continue
			}
		}
		if p.branch(p.equal(kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (p *Path) mapSet(m *MapV, k, v Value, kt types.Type) {
	v = copyVal(v)
	if e := p.mapFind(m, k, kt); e != nil {
		old := e.v
		p.logUndo(func() { e.v = old })
		e.v = v
		return
	}
	e := &mapEntry{k: copyVal(k), v: v}
	n := len(m.entries)
	m.entries = append(m.entries, e)
	m.live++
	ck, ok := p.concKey(k)
	if ok {
		old := m.idx[ck]
		m.idx[ck] = e
		p.logUndo(func() {
			m.entries = m.entries[:n]
			m.live--
			if old != nil {
				m.idx[ck] = old
			} else {
				delete(m.idx, ck)
			}
		})
	} else {
		m.nsym++
		p.logUndo(func() { m.entries = m.entries[:n]; m.live--; m.nsym-- })
	}
}

func (p *Path) mapDelete(m *MapV, k Value, kt types.Type) {
	e := p.mapFind(m, k, kt)
	if e == nil {
		return
	}
	e.dead = true
	m.live--
	p.logUndo(func() { e.dead = false; m.live++ })
}

func (fr *frame) lookup(in *ssa.Lookup) Value {
	p := fr.p
	x := fr.get(in.X)
	k := fr.get(in.Index)
	switch x.(type) {
	case string, *SymStr:
		return p.strIndex(x, k, in.Index.Type())
	}
	m := x.(*MapV)
	mt := in.X.Type().Underlying().(*types.Map)
	e := p.mapFind(m, k, mt.Key())
	var v Value
	if e != nil {
		v = copyVal(e.v)
	} else {
		v = zero(mt.Elem())
	}
	if in.CommaOk {
		return Tuple{v, e != nil}
	}
	return v
}

func (fr *frame) next(in *ssa.Next) Value {
	p := fr.p
	switch it := fr.get(in.Iter).(type) {
	case *mapIter:
		old := it.i
		p.logIter(func() { it.i = old })
		for it.i < len(it.ents) {
			e := it.ents[it.i]
			it.i++
			if !e.dead {
				return Tuple{true, copyVal(e.k), copyVal(e.v)}
			}
		}
		tt := in.Type().(*types.Tuple)
		return Tuple{false, zeroOrNil(tt.At(1).Type()), zeroOrNil(tt.At(2).Type())}
	case *strIter:
		old := it.i
		p.logIter(func() { it.i = old })
		n := strLen(it.s)
		if it.i >= n {
			return Tuple{false, int64(0), int64(0)}
		}
		i := it.i
		if s, ok := it.s.(string); ok {
			for j, r := range s[i:] {
				_ = j
				sz := len(string(r))
				if r == 0xfffd {
					sz = 1
					if strings.HasPrefix(s[i:], "\uFFFD") {
						sz = 3
					}
				}
				it.i += sz
				return Tuple{true, int64(i), int64(r)}
			}
		}
		t := p.byteTerm(strElems(it.s)[i])
		if !p.branch(unTerm(p.b.Lt(t, p.b.IntC(128)))) {
			panic(engineErr("range over symbolic non-ASCII string"))
		}
		it.i++
		return Tuple{true, int64(i), p.termInt(t, intKind{32, true})}
	}
	panic(engineErr("next"))
}

func zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

// logIter: iterator state advanced inside a merge arm makes merging unsafe.
func (p *Path) logIter(f func()) {
	if p.arm > 0 {
		p.logUndo(f)
	}
}

// calls ----------------------------------------------------------------------

func (fr *frame) prepCall(c *ssa.CallCommon) (Value, []Value) {
	p := fr.p
	if c.IsInvoke() {
		recv := fr.get(c.Value).(Iface)
		if recv.t == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := p.w.x.lookupMethod(recv.t, c.Method)
		if fn == nil {
			panic(engineErr("no method %s on %s", c.Method, recv.t))
		}
		args := make([]Value, 0, len(c.Args)+1)
		args = append(args, copyVal(recv.v))
		for _, a := range c.Args {
			args = append(args, fr.get(a))
		}
		return fn, args
	}
	args := make([]Value, 0, len(c.Args))
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	return fr.get(c.Value), args
}

func (fr *frame) doCall(c *ssa.CallCommon) Value {
	fn, args := fr.prepCall(c)
	if b, ok := fn.(*ssa.Builtin); ok {
		return fr.p.builtin(fr, b, args, c)
	}
	return fr.p.call(fn, args, fr)
}

func (p *Path) appendVals(s SliceV, add []Value, et types.Type) SliceV {
	n := len(s) + len(add)
	if n <= cap(s) && s != nil {
		r := s[:n]
		for i, v := range add {
			p.store2(&r[len(s)+i], v)
		}
		return r
	}
	if len(add) == 0 {
		return s
	}
	c := growCap(len(s), cap(s), n, sizeofElem(et))
	if c < n {
		c = n
	}
	r := make(SliceV, c)
	p.fresh(r)
	for i := range s {
		r[i] = copyVal(s[i])
	}
	for i, v := range add {
		r[len(s)+i] = copyVal(v)
	}
	if n < c {
		z := zero(et)
		for i := n; i < c; i++ {
			r[i] = copyVal(z)
		}
	}
	return r[:n]
}

// store2 stores a whole element (byte cells may hold Atoms).
func (p *Path) store2(a *Value, v Value) { p.store(a, v) }

func (p *Path) builtin(fr *frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string:
			return int64(len(x))
		case *SymStr:
			if strHasAtom(x) {
				p.w.x.note("len() of a string holding a formatted symbolic number counts the number as one character")
			}
			return int64(len(x.e))
		case SliceV:
			return int64(len(x))
		case ArrayV:
			return int64(len(x))
		case *MapV:
			if x == nil {
				return int64(0)
			}
			return int64(x.live)
		case *Value:
			return int64(deref(c.Args[0].Type()).Underlying().(*types.Array).Len())
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return int64(cap(x))
		case ArrayV:
			return int64(len(x))
		case *Value:
			return int64(deref(c.Args[0].Type()).Underlying().(*types.Array).Len())
		}
	case "append":
		s := args[0].(SliceV)
		if len(args) == 1 {
			return s
		}
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		switch y := args[1].(type) {
		case string, *SymStr:
			bs := p.strToBytes(y)
			return p.appendVals(s, bs, et)
		case SliceV:
			add := make([]Value, len(y))
			copy(add, y)
			return p.appendVals(s, add, et)
		}
	case "copy":
		d := args[0].(SliceV)
		var src SliceV
		switch y := args[1].(type) {
		case string, *SymStr:
			src = p.strToBytes(y)
		case SliceV:
			src = y
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = copyVal(src[i])
		}
		for i := range tmp {
			p.store2(&d[i], tmp[i])
		}
		return int64(n)
	case "delete":
		m := args[0].(*MapV)
		if m != nil {
			p.mapDelete(m, args[1], c.Args[0].Type().Underlying().(*types.Map).Key())
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			for _, e := range x.entries {
				if !e.dead {
					e := e
					e.dead = true
					x.live--
					p.logUndo(func() { e.dead = false; x.live++ })
				}
			}
		case SliceV:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				p.store(&x[i], zero(et))
			}
		}
		return nil
	case "print", "println":
		return nil
	case "recover":
		// recover is called by a deferred function: look at the frame that is running defers
		f := fr.caller
		if f != nil && f.panicking {
			f.panicking = false
			return f.pan.v
		}
		return Iface{}
	case "panic":
		p.goPanic(args[0])
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			t := c.Args[0].Type()
			lt := p.binop(op, t, t, a, r)
			switch l := lt.(type) {
			case bool:
				if l {
					r = a
				}
			case *Term:
				m, ok := p.mergeVal(l, a, r)
				if !ok {
					panic(engineErr("min/max"))
				}
				r = m
			}
		}
		return r
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "ssa:wrapnilchk":
		if a, ok := args[0].(*Value); ok && a == nil {
			p.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		n := int(p.conc(args[1]))
		switch x := args[0].(type) {
		case PtrData:
			return p.bytesToStr(x.s[:n])
		case *Value:
			if n == 0 {
				return ""
			}
		}
	case "StringData":
		return PtrData{p.strToBytes(args[0])}
	case "SliceData":
		if s, ok := args[0].(SliceV); ok {
			return PtrData{s}
		}
	case "Slice":
		n := int(p.conc(args[1]))
		if x, ok := args[0].(PtrData); ok {
			return x.s[:n:n]
		}
	}
	panic(engineErr("builtin %s(%T...)", b.Name(), args[0]))
}

var _ = bits.Len
