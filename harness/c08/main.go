// C08: layer regions keep outlines, holes and islands in boolean operations.
package main

import (
	clipper "github.com/aligator/go.clipper"
	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
	"verifharness/sym"
)

// contour is a contour given to or returned by the clipping: an arbitrary triangle, of which it is known whether one arbitrary point
// of the plane lies inside.
type contour struct {
	pts [3][2]int64
	in  bool
	// flat contours have no area
	flat bool
	uses int
}

// area is the clipping: it knows the contours and answers with a chosen tree.
type area struct {
	all []*contour
	// answer
	tree []*contour
	root []*clipper.PolyNode
	ok   bool

	// what was asked
	calls    int
	op       clipper.ClipType
	sub, clp []*contour
	fill     bool
}

func (a *area) contour(name string, flat bool) *contour {
	c := &contour{in: sym.Bool("in" + name), flat: flat}
	if flat {
		sym.Assume(!c.in)
	}
	for i := range c.pts {
		c.pts[i] = [2]int64{sym.Int("x", -400000, 400000), sym.Int("y", -400000, 400000)}
	}
	// all of them are told apart by their first point
	c.pts[0][0] += int64(len(a.all)+1) * 1000000
	a.all = append(a.all, c)
	return c
}

func (c *contour) path() data.Path {
	var p data.Path
	for _, q := range c.pts {
		p = append(p, data.NewMicroPoint(data.Micrometer(q[0]), data.Micrometer(q[1])))
	}
	return p
}

func (c *contour) cpath() clipper.Path {
	var p clipper.Path
	for _, q := range c.pts {
		p = append(p, &clipper.IntPoint{X: clipper.CInt(q[0]), Y: clipper.CInt(q[1])})
	}
	return p
}

// find tells which contour the points are: those of one, in their order, possibly starting elsewhere or the other way round.
func (a *area) find(x func(i int) (int64, int64), n int) *contour {
	sym.Assert(n == 3, "contours keep their points")
	for k, c := range a.all {
		lo, hi := int64(k+1)*1000000-400000, int64(k+1)*1000000+400000
		for i := 0; i < 3; i++ {
			if px, _ := x(i); !sym.And(px >= lo, px <= hi) {
				continue
			}
			all := func(dir int) bool {
				r := true
				for j := 0; j < 3; j++ {
					qx, qy := x((i + dir*j + 3) % 3)
					r = sym.And(r, qx == c.pts[j][0], qy == c.pts[j][1])
				}
				return r
			}
			sym.Assert(sym.Or(all(1), all(-1)), "contours keep their points")
			return c
		}
	}
	sym.Assert(false, "contours are not made up")
	return nil
}

func (a *area) findC(p clipper.Path) *contour {
	return a.find(func(i int) (int64, int64) { return int64(p[i].X), int64(p[i].Y) }, len(p))
}

func (a *area) findD(p data.Path) *contour {
	return a.find(func(i int) (int64, int64) { return int64(p[i].X()), int64(p[i].Y()) }, len(p))
}

// Accept implements clipper.Acceptor.
func (a *area) Accept(pg clipper.Path, closed bool) bool {
	if len(pg) < 3 {
		return false
	}
	return !a.findC(pg).flat
}

// Clip implements clipper.Model.
func (a *area) Clip(added []clipper.Added, op clipper.ClipType, sf, cf clipper.PolyFillType, rev bool) (*clipper.PolyTree, bool) {
	a.calls++
	a.op = op
	sym.Assert(!rev, "the result is not reversed")
	for _, p := range added {
		sym.Assert(p.Closed, "contours are closed")
		c := a.findC(p.Path)
		if p.Type == clipper.PtSubject {
			sym.Assert(sf == clipper.PftEvenOdd, "the contours are interpreted even-odd")
			a.sub = append(a.sub, c)
		} else {
			sym.Assert(cf == clipper.PftEvenOdd, "the contours are interpreted even-odd")
			a.clp = append(a.clp, c)
		}
	}
	if !a.ok {
		return nil, false
	}
	return clipper.NewTree(a.root...), true
}

// Offset implements clipper.Model.
func (a *area) Offset(added []clipper.OffsetAdded, delta, miter float64) *clipper.PolyTree {
	sym.Assert(false, "nothing is grown")
	return nil
}

// odd tells whether the point is inside an odd number of the contours.
func odd(cs []*contour) bool {
	r := false
	for _, c := range cs {
		r = r != c.in
	}
	return r
}

// operand is a list of n parts with all their contours. Inside of a part's outline are its holes, which do not overlap, nor do parts.
func (a *area) operand(name string, n, holes int) (ps []data.LayerPart, in bool, cs []*contour) {
	if n < 0 {
		return nil, false, nil
	}
	ps = []data.LayerPart{}
	for i := 0; i < n; i++ {
		o := a.contour(name, sym.Choose("flat", 2) == 1)
		p := o.in
		var h data.Paths
		cs = append(cs, o)
		for j := sym.Choose("holes", holes+1); j > 0; j-- {
			c := a.contour(name+"Hole", false)
			sym.Assume(sym.Implies(c.in, p))
			p = sym.And(p, !c.in)
			cs = append(cs, c)
			h = append(h, c.path())
		}
		sym.Assume(!sym.And(in, p))
		in = sym.Or(in, p)
		ps = append(ps, data.NewBasicLayerPart(o.path(), h))
	}
	return ps, in, cs
}

// answers chooses the tree of contours which is the answer of the clipping, of n contours and at most the depth. The point is in its
// region iff in.
func (a *area) answers(n, depth int, in bool) {
	var nodes []*clipper.PolyNode
	var level []int
	var inside []bool // of the contour and no other in it
	region := false
	for i := 0; i < n; i++ {
		c := a.contour("Result", false)
		node := clipper.NewNode(c.cpath(), false)
		p := sym.Choose("parent", i+1) - 1
		d := 1
		if p >= 0 {
			d = level[p] + 1
		}
		sym.Assume(d <= depth)
		nodes, level, inside = append(nodes, node), append(level, d), append(inside, c.in)
		if p < 0 {
			for _, t := range a.root {
				for j := range nodes {
					if nodes[j] == t {
						sym.Assume(!sym.And(a.tree[j].in, c.in))
					}
				}
			}
			a.root = append(a.root, node)
		} else {
			nodes[p].AddChild(node)
			sym.Assume(sym.Implies(c.in, inside[p]))
			inside[p] = sym.And(inside[p], !c.in)
		}
		a.tree = append(a.tree, c)
	}
	for i := range a.tree {
		if level[i]%2 == 1 {
			region = sym.Or(region, inside[i])
		}
	}
	sym.Assume(region == in)
}

// check asserts that the parts are the answer.
func (a *area) check(ps []data.LayerPart, in bool) {
	for _, c := range a.tree {
		c.uses = 0
	}
	got := false
	for _, p := range ps {
		o := a.findD(p.Outline())
		o.uses++
		here := o.in
		for _, h := range p.Holes() {
			c := a.findD(h)
			c.uses++
			sym.Assert(sym.Implies(c.in, here), "holes are in their part")
			here = sym.And(here, !c.in)
		}
		sym.Assert(!sym.And(got, here), "parts do not overlap")
		got = sym.Or(got, here)
	}
	for _, c := range a.tree {
		sym.Assert(c.uses == 1, "every contour of the result is in exactly one part")
	}
	sym.Assert(got == in, "the parts are the region")
}

func unchanged(ps []data.LayerPart, cs []*contour) {
	i := 0
	same := func(p data.Path) {
		sym.Assert(len(p) == 3, "operands stay unchanged")
		for j, q := range p {
			sym.Assert(sym.And(int64(q.X()) == cs[i].pts[j][0], int64(q.Y()) == cs[i].pts[j][1]), "operands stay unchanged")
		}
		i++
	}
	for _, p := range ps {
		same(p.Outline())
		for _, h := range p.Holes() {
			same(h)
		}
	}
	sym.Assert(i == len(cs), "operands stay unchanged")
}

func apply(op int, a, b []data.LayerPart) ([]data.LayerPart, bool) {
	c := clip.NewClipper()
	switch op {
	case 0:
		return c.Union(a, b)
	case 1:
		return c.Intersection(a, b)
	}
	return c.Difference(a, b)
}

// meaning is what the operation has to give for the point.
func meaning(op int, a, b bool) bool {
	switch op {
	case 0:
		return sym.Or(a, b)
	case 1:
		return sym.And(a, b)
	}
	return sym.And(a, !b)
}

// asked tells what the clipping was asked for.
func (a *area) asked() bool {
	s, c := odd(a.sub), odd(a.clp)
	switch a.op {
	case clipper.CtUnion:
		return sym.Or(s, c)
	case clipper.CtIntersection:
		return sym.And(s, c)
	case clipper.CtDifference:
		return sym.And(s, !c)
	}
	return s != c
}

// Every outline and hole of both operands takes part in the right role; failures are reported, operands stay as they are. Operands
// may be nil, empty, or have parts without area.
// sym: covers=asked,failed,nothing,holes
func H_operands() {
	a := &area{}
	clipper.Hook = a
	op := sym.Choose("op", 3)
	a.ok = sym.Choose("ok", 2) == 1
	holes := 1
	if sym.Thorough() {
		holes = 2
	}
	n, m := sym.Choose("parts", 4)-1, sym.Choose("others", 4)-1
	if n+m > 3 && !sym.Thorough() {
		holes = 0
	}
	ps, p, cs := a.operand("Part", n, holes)
	qs, q, ds := a.operand("Other", m, holes)
	want := meaning(op, p, q)
	// the answer is a part
	if a.ok {
		a.answers(1, 1, want)
	}
	r, ok := apply(op, ps, qs)
	unchanged(ps, cs)
	unchanged(qs, ds)
	if a.calls == 0 {
		sym.Cover("nothing")
		sym.Assert(ok, "clipping without any area does not fail")
		got := false
		for _, x := range r {
			o := a.findD(x.Outline()).in
			for _, h := range x.Holes() {
				o = sym.And(o, !a.findD(h).in)
			}
			got = sym.Or(got, o)
		}
		sym.Assert(got == want, "the parts are the region")
		return
	}
	sym.Assert(a.calls == 1, "one operation")
	sym.Assert(a.asked() == want, "the operation is applied to the regions")
	if len(cs)+len(ds) > 2 {
		sym.Cover("holes")
	}
	if !a.ok {
		sym.Cover("failed")
		sym.Assert(!ok, "failure is reported")
		return
	}
	sym.Cover("asked")
	sym.Assert(ok, "success is reported")
	a.check(r, want)
}

// Every tree of outlines, holes and islands becomes parts with their holes.
// sym: covers=deep
func H_results() {
	a := &area{ok: true}
	clipper.Hook = a
	op := sym.Choose("op", 3)
	ps, p, _ := a.operand("Part", 1, 0)
	qs, q, _ := a.operand("Other", 1, 0)
	want := meaning(op, p, q)
	n := 5
	if sym.Thorough() {
		n = 7
	}
	a.answers(sym.Choose("contours", n+1), 5, want)
	if len(a.root) == 1 && len(a.root[0].Childs()) == 1 && len(a.root[0].Childs()[0].Childs()) == 1 && len(a.root[0].Childs()[0].Childs()[0].Childs()) == 1 {
		sym.Cover("deep")
	}
	r, ok := apply(op, ps, qs)
	if a.calls == 0 { // both without area
		return
	}
	sym.Assert(ok, "success is reported")
	a.check(r, want)
}

// layer is a layer of contours.
type layer struct{ p data.Paths }

func (l layer) Polygons() data.Paths { return l.p }

// The parts of a layer are the region of all its contours, interpreted even-odd.
// sym: covers=parts,failed,empty
func H_layer() {
	a := &area{}
	clipper.Hook = a
	a.ok = sym.Choose("ok", 2) == 1
	n := sym.Choose("polygons", 5)
	var l layer
	var cs []*contour
	for i := 0; i < n; i++ {
		if sym.Choose("line", 4) == 3 { // no polygon at all
			l.p = append(l.p, data.Path{data.NewMicroPoint(0, 0), data.NewMicroPoint(5000, 0)}[:sym.Choose("points", 3)])
			continue
		}
		c := a.contour("Polygon", sym.Choose("flat", 2) == 1)
		cs = append(cs, c)
		l.p = append(l.p, c.path())
	}
	want := odd(cs)
	if a.ok {
		k := 2
		if sym.Thorough() {
			k = 4
		}
		a.answers(1+sym.Choose("contours", k), 4, want)
	}
	r, ok := clip.NewClipper().GenerateLayerParts(l)
	if a.calls == 0 {
		sym.Cover("empty")
		sym.Assert(ok, "a layer without any area does not fail")
		sym.Assert(r != nil && len(r.LayerParts()) == 0, "a layer without any area has no parts")
		for _, c := range cs {
			sym.Assert(c.flat, "the parts are the region")
		}
		return
	}
	sym.Assert(a.calls == 1 && len(a.clp) == 0 || a.op == clipper.CtUnion || a.op == clipper.CtXor, "one operation")
	sym.Assert(a.asked() == want, "all contours of the layer take part")
	if !a.ok {
		sym.Cover("failed")
		sym.Assert(!ok, "failure is reported")
		return
	}
	sym.Cover("parts")
	sym.Assert(ok && r != nil, "success is reported")
	a.check(r.LayerParts(), want)
}

// Top level outlines are those which are in no other one.
// sym: covers=nested,failed,none
func H_top() {
	a := &area{}
	clipper.Hook = a
	a.ok = sym.Choose("ok", 2) == 1
	n := sym.Choose("parts", 5)
	var ps []data.LayerPart
	var cs []*contour
	for i := 0; i < n; i++ {
		o := a.contour("Part", sym.Choose("flat", 2) == 1)
		cs = append(cs, o)
		var h data.Paths
		for j := sym.Choose("holes", 2); j > 0; j-- {
			c := a.contour("Hole", false)
			cs = append(cs, c)
			h = append(h, c.path())
		}
		ps = append(ps, data.NewBasicLayerPart(o.path(), h))
	}
	k := 3
	if sym.Thorough() {
		k = 5
	}
	if a.ok {
		a.answers(1+sym.Choose("contours", k), 4, sym.Bool("any"))
	}
	r, ok := clip.NewClipper().TopLevelPolygons(ps)
	unchanged(ps, cs)
	if a.calls == 0 {
		sym.Cover("none")
		sym.Assert(ok && len(r) == 0, "without outlines there is nothing at the top level")
		return
	}
	// only outlines, each once
	i, m := 0, 0
	for _, p := range ps {
		o := cs[i]
		i += 1 + len(p.Holes())
		if !o.flat {
			m++
		}
		u := 0
		for _, c := range append(append([]*contour{}, a.sub...), a.clp...) {
			if c == o {
				u++
			}
		}
		sym.Assert(u == 1 || o.flat, "every outline takes part once")
	}
	sym.Assert(len(a.sub)+len(a.clp) == m, "only outlines take part")
	sym.Assert(a.op == clipper.CtUnion || a.op == clipper.CtXor, "outlines are united")
	if !a.ok {
		sym.Cover("failed")
		sym.Assert(!ok, "failure is reported")
		return
	}
	sym.Assert(ok, "success is reported")
	if len(a.root) < len(a.tree) {
		sym.Cover("nested")
	}
	sym.Assert(len(r) == len(a.root), "exactly the top level outlines are returned")
	for i, t := range a.root {
		want := a.findC(t.Contour())
		found := false
		for _, p := range r {
			found = found || a.findD(p) == want
		}
		_ = i
		sym.Assert(found, "exactly the top level outlines are returned")
	}
}

func main() {
	sym.Main(map[string]func(){"H_operands": H_operands, "H_results": H_results, "H_layer": H_layer, "H_top": H_top})
}
