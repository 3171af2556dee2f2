package kit

import (
	clipper "github.com/aligator/go.clipper"
	"github.com/aligator/goslice/data"
	"verifharness/sym"
)

// Plane is a polygon clipper which knows of every contour only whether one arbitrary point of the plane lies inside of it. Clipping
// follows the even-odd rule for that point; growing and shrinking give contours which contain the point arbitrarily, as far as the
// distance allows it.
type Plane struct {
	toks  []tok
	Grown []Grown
	// Odd is the call (counted from 1) whose result has the given Shape: 1 nothing, 2 with a hole, 3 two parts.
	Odd, Shape int
	// Fail is the call which fails.
	Fail   int
	Calls  int
	Failed bool
}

type tok struct {
	in    bool
	owner int64     // the outline a hole belongs to
	atoms [][]int64 // the parts this is the union of
}

// Grown is an offset which was made of the contours.
type Grown struct {
	Ids   []int64
	Delta int64 // half micrometres
	In    bool
	Join  clipper.JoinType
	End   clipper.EndType
	Out   []int64
}

const pitch = 4096

// New adds a contour.
func (pl *Plane) New(in bool) int64 {
	pl.toks = append(pl.toks, tok{in: in})
	return int64(len(pl.toks))
}

// Path is the contour id as a path.
func (pl *Plane) Path(id int64) data.Path {
	x := data.Micrometer(id * pitch)
	return data.Path{data.NewMicroPoint(x, 0), data.NewMicroPoint(x+1000, 0), data.NewMicroPoint(x+500, 1000)}
}

func (pl *Plane) cpath(id int64) clipper.Path {
	x := clipper.CInt(id * pitch)
	return clipper.Path{{X: x, Y: 0}, {X: x + 1000, Y: 0}, {X: x + 500, Y: 1000}}
}

// Id is the contour a path stands for, 0 for paths which do not come from here.
func (pl *Plane) Id(p data.Path) int64 {
	if len(p) == 0 {
		return 0
	}
	return pl.id(int64(p[0].X()))
}

func (pl *Plane) id(x int64) int64 {
	if x < pitch || x%pitch != 0 || x/pitch > int64(len(pl.toks)) {
		sym.Assert(false, "contours are not made up")
	}
	return x / pitch
}

func (pl *Plane) own(outline, hole int64) { pl.toks[hole-1].owner = outline }

// Part is a part with the membership of its outline and holes.
func (pl *Plane) Part(outline bool, holes ...bool) data.LayerPart {
	o := pl.New(outline)
	var h data.Paths
	for _, in := range holes {
		id := pl.New(in)
		pl.own(o, id)
		h = append(h, pl.Path(id))
	}
	return data.NewBasicLayerPart(pl.Path(o), h)
}

// In tells whether the point is inside the contour.
func (pl *Plane) In(id int64) bool { return id > 0 && pl.toks[id-1].in }

// InPart tells whether the point is in the part.
func (pl *Plane) InPart(p data.LayerPart) bool {
	r := pl.In(pl.Id(p.Outline()))
	for _, h := range p.Holes() {
		r = sym.And(r, !pl.In(pl.Id(h)))
	}
	return r
}

// InAny tells whether the point is in one of the parts.
func (pl *Plane) InAny(ps []data.LayerPart) bool {
	r := false
	for _, p := range ps {
		r = sym.Or(r, pl.InPart(p))
	}
	return r
}

// Times counts the parts the point is in, up to "more than one".
func (pl *Plane) Twice(ps []data.LayerPart) bool {
	r := false
	for i, p := range ps {
		for _, q := range ps[:i] {
			r = sym.Or(r, sym.And(pl.InPart(p), pl.InPart(q)))
		}
	}
	return r
}

// IdsOf are the contours of the part.
func (pl *Plane) IdsOf(p data.LayerPart) []int64 {
	r := []int64{pl.Id(p.Outline())}
	for _, h := range p.Holes() {
		r = append(r, pl.Id(h))
	}
	return r
}

func (pl *Plane) xor(ids []int64) bool {
	r := false
	for _, id := range ids {
		r = r != pl.In(id)
	}
	return r
}

// parts groups contours into parts.
func (pl *Plane) parts(ids []int64) [][]int64 {
	var r [][]int64
	for _, id := range ids {
		if pl.toks[id-1].owner != 0 {
			continue
		}
		p := []int64{id}
		for _, h := range ids {
			if pl.toks[h-1].owner == id {
				p = append(p, h)
			}
		}
		r = append(r, p)
	}
	return r
}

// result is the outcome of a call.
func (pl *Plane) result(in bool, atoms [][]int64) (*clipper.PolyTree, []int64) {
	shape := 0
	if pl.Calls == pl.Odd {
		shape = pl.Shape
	}
	switch shape {
	case 1:
		sym.Assume(!in)
		return clipper.NewTree(), nil
	case 2:
		h := sym.Bool("inHole")
		o, i := pl.New(sym.Or(in, h)), pl.New(h)
		sym.Assume(sym.Or(!h, !in))
		pl.own(o, i)
		return clipper.NewTree(clipper.NewNode(pl.cpath(o), false, clipper.NewNode(pl.cpath(i), false))), []int64{o, i}
	case 3:
		f := sym.Bool("inFirst")
		sym.Assume(sym.Or(!f, in))
		a, b := pl.New(f), pl.New(sym.And(in, !f))
		return clipper.NewTree(clipper.NewNode(pl.cpath(a), false), clipper.NewNode(pl.cpath(b), false)), []int64{a, b}
	}
	o := pl.New(in)
	pl.toks[o-1].atoms = atoms
	return clipper.NewTree(clipper.NewNode(pl.cpath(o), false)), []int64{o}
}

// Clip implements clipper.Model.
func (pl *Plane) Clip(added []clipper.Added, op clipper.ClipType, sf, cf clipper.PolyFillType, rev bool) (*clipper.PolyTree, bool) {
	pl.Calls++
	if pl.Calls == pl.Fail {
		pl.Failed = true
		return nil, false
	}
	sym.Assert(!rev, "the result is not reversed")
	var s, c []int64
	for _, a := range added {
		sym.Assert(a.Closed, "contours are closed")
		if len(a.Path) == 0 {
			continue
		}
		id := pl.id(int64(a.Path[0].X))
		if a.Type == clipper.PtSubject {
			s = append(s, id)
		} else {
			c = append(c, id)
		}
	}
	if len(s) == 0 && (len(c) == 0 || op != clipper.CtUnion) {
		return clipper.NewTree(), true
	}
	x, y := pl.xor(s), pl.xor(c)
	var atoms [][]int64
	switch op {
	case clipper.CtUnion:
		x = sym.Or(x, y)
		for _, p := range append(pl.parts(s), pl.parts(c)...) {
			if a := pl.toks[p[0]-1].atoms; len(p) == 1 && a != nil {
				atoms = append(atoms, a...)
			} else {
				atoms = append(atoms, p)
			}
		}
	case clipper.CtIntersection:
		x = sym.And(x, y)
	case clipper.CtDifference:
		x = sym.And(x, !y)
	default:
		x = x != y
	}
	t, _ := pl.result(x, atoms)
	return t, true
}

func same(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		f := false
		for _, y := range b {
			f = f || x == y
		}
		if !f {
			return false
		}
	}
	return true
}

// Grow tells whether the point is in the region of the contours grown by delta half micrometres.
func (pl *Plane) Grow(ids []int64, delta int64) bool {
	i := pl.grow(ids, delta)
	return pl.Grown[i].In
}

// GrowAll grows each of the parts.
func (pl *Plane) GrowAll(ps []data.LayerPart, delta int64) bool {
	r := false
	for _, p := range ps {
		r = sym.Or(r, pl.Grow(pl.IdsOf(p), delta))
	}
	return r
}

func (pl *Plane) grow(ids []int64, delta int64) int {
	for i, g := range pl.Grown {
		if g.Delta == delta && same(g.Ids, ids) {
			return i
		}
	}
	in := pl.xor(ids)
	if delta > 0 {
		if ps := pl.parts(ids); len(ps) > 1 { // several parts at once
			in = false
			for _, p := range ps {
				in = sym.Or(in, pl.Grow(p, delta))
			}
		} else if a := pl.toks[ids[0]-1].atoms; len(ids) == 1 && a != nil {
			in = false
			for _, p := range a {
				in = sym.Or(in, pl.Grow(p, delta))
			}
		} else {
			g := sym.Bool("grown")
			sym.Assume(sym.Or(!in, g))
			in = g
		}
	} else if delta < 0 {
		g := sym.Bool("shrunk")
		sym.Assume(sym.Or(in, !g))
		in = g
	}
	for _, g := range pl.Grown {
		if same(g.Ids, ids) {
			if g.Delta < delta {
				sym.Assume(sym.Or(!g.In, in))
			} else {
				sym.Assume(sym.Or(g.In, !in))
			}
		}
	}
	pl.Grown = append(pl.Grown, Grown{Ids: ids, Delta: delta, In: in})
	return len(pl.Grown) - 1
}

// Offset implements clipper.Model.
func (pl *Plane) Offset(added []clipper.OffsetAdded, delta, miter float64) *clipper.PolyTree {
	pl.Calls++
	var ids []int64
	for _, a := range added {
		if len(a.Path) > 0 {
			ids = append(ids, pl.id(int64(a.Path[0].X)))
		}
	}
	if len(ids) == 0 {
		return clipper.NewTree()
	}
	i := pl.grow(ids, int64(delta*2))
	t, out := pl.result(pl.Grown[i].In, nil)
	pl.Grown[i].Out = out
	pl.Grown[i].Join, pl.Grown[i].End = added[0].Join, added[0].End
	return t
}
