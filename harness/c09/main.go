// C09: the k-th perimeter lies half a line plus k lines inside the contour.
package main

import (
	clipper "github.com/aligator/go.clipper"
	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/modifier"
	"verifharness/sym"
)

const pitch = 4096

// contour id is a triangle which is recognised by its first point.
func path(id int) data.Path {
	x := data.Micrometer(id * pitch)
	return data.Path{data.NewMicroPoint(x, 0), data.NewMicroPoint(x+1000, 0), data.NewMicroPoint(x+500, 1000)}
}

func cpath(id int) clipper.Path {
	x := clipper.CInt(id * pitch)
	return clipper.Path{{X: x, Y: 0}, {X: x + 1000, Y: 0}, {X: x + 500, Y: 1000}}
}

func id(p data.Path) int {
	sym.Assert(len(p) == 3, "contours keep their points")
	i := int(p[0].X()) / pitch
	for j, q := range path(i) {
		sym.Assert(p[j].X() == q.X() && p[j].Y() == q.Y(), "contours keep their points")
	}
	return i
}

// call is one offset: what was offset by how much and what it gave.
type call struct {
	in    []int
	delta float64
	out   [][]int // parts: outline and holes
}

// offsets is an offsetting which may give nothing, a part, one with a hole or two.
type offsets struct {
	n     int // contours so far
	calls []call
	// odd is the call which has the shape; all others give one part
	odd, shape int
}

func (o *offsets) next() int { o.n++; return o.n }

func (o *offsets) part(holes int) data.LayerPart {
	out := path(o.next())
	var h data.Paths
	for ; holes > 0; holes-- {
		h = append(h, path(o.next()))
	}
	return data.NewBasicLayerPart(out, h)
}

// Clip implements clipper.Model.
func (o *offsets) Clip(added []clipper.Added, op clipper.ClipType, sf, cf clipper.PolyFillType, rev bool) (*clipper.PolyTree, bool) {
	sym.Assert(false, "perimeters need no clipping")
	return nil, false
}

// Offset implements clipper.Model.
func (o *offsets) Offset(added []clipper.OffsetAdded, delta, miter float64) *clipper.PolyTree {
	c := call{delta: delta}
	for _, a := range added {
		sym.Assert(len(a.Path) == 3, "contours keep their points")
		i := int(a.Path[0].X) / pitch
		for j, q := range cpath(i) {
			sym.Assert(a.Path[j].X == q.X && a.Path[j].Y == q.Y, "contours keep their points")
		}
		sym.Assert(a.End == clipper.EtClosedPolygon, "regions are offset, not lines")
		c.in = append(c.in, i)
	}
	shape := 1
	if len(o.calls)+1 == o.odd {
		shape = o.shape
	}
	var roots []*clipper.PolyNode
	switch shape {
	case 1:
		a := o.next()
		c.out = [][]int{{a}}
		roots = append(roots, clipper.NewNode(cpath(a), false))
	case 2:
		a, b := o.next(), o.next()
		c.out = [][]int{{a, b}}
		roots = append(roots, clipper.NewNode(cpath(a), false, clipper.NewNode(cpath(b), false)))
	case 3:
		a, b := o.next(), o.next()
		c.out = [][]int{{a}, {b}}
		roots = append(roots, clipper.NewNode(cpath(a), false), clipper.NewNode(cpath(b), false))
	}
	o.calls = append(o.calls, c)
	return clipper.NewTree(roots...)
}

func ids(p data.LayerPart) []int {
	r := []int{id(p.Outline())}
	for _, h := range p.Holes() {
		r = append(r, id(h))
	}
	return r
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		n := 0
		for _, y := range b {
			if x == y {
				n++
			}
		}
		if n != 1 {
			return false
		}
	}
	return true
}

// madeBy finds the call which offset the part and gave the parts. If there are several (they all gave nothing) any matching delta will
// do.
func (o *offsets) madeBy(part data.LayerPart, parts []data.LayerPart, delta func(d float64) bool, what string) {
	found, ok := false, false
	for _, c := range o.calls {
		if !same(c.in, ids(part)) || len(c.out) != len(parts) {
			continue
		}
		all := true
		for _, want := range c.out {
			n := 0
			for _, p := range parts {
				if same(ids(p), want) {
					n++
				}
			}
			all = all && n == 1
		}
		if all {
			found = true
			ok = sym.Or(ok, delta(c.delta))
		}
	}
	sym.Assert(found, what+": the region is offset, outline and holes")
	sym.Assert(ok, what+": the distance")
}

func (o *offsets) chooseShape(calls int) {
	o.shape = sym.Choose("shape", 4)
	if o.shape != 1 {
		o.odd = 1 + sym.Choose("odd", calls)
	}
}

// The k-th inset uses the initial offset plus k steps, for each part.
// sym: covers=hole,empty
func H_inset() {
	o := &offsets{}
	clipper.Hook = o
	n, count := sym.Choose("parts", 3), sym.Choose("count", 5)
	step, first := sym.Int("step", -20000, 20000), sym.Int("first", -20000, 20000)
	if n*count > 0 {
		o.chooseShape(n * count)
	}
	var parts []data.LayerPart
	for i := 0; i < n; i++ {
		h := sym.Choose("holes", 3)
		if h == 2 {
			sym.Cover("hole")
		}
		parts = append(parts, o.part(h))
	}
	var before [][]int
	for _, p := range parts {
		before = append(before, ids(p))
	}
	var res clip.OffsetResult
	if n == 1 && sym.Choose("single", 2) == 1 {
		res = clip.OffsetResult{clip.NewClipper().Inset(parts[0], data.Micrometer(step), count, data.Micrometer(first))}
	} else {
		res = clip.NewClipper().InsetLayer(parts, data.Micrometer(step), count, data.Micrometer(first))
	}
	sym.Assert(len(res) == n, "results are grouped by part")
	total := 0
	for i, part := range res {
		sym.Assert(len(part) == count, "as many insets as asked for")
		for k, r := range part {
			if len(r) == 0 {
				sym.Cover("empty")
			}
			total += len(r)
			o.madeBy(parts[i], r, func(d float64) bool { return d == float64(first-int64(k)*step) }, "inset")
		}
	}
	for i, p := range parts {
		sym.Assert(same(ids(p), before[i]), "parts stay unchanged")
	}
	sym.Assert(len(res.ToOneDimension()) == total, "flattening keeps all")
	flat, seen := res.ToOneDimension(), 0
	res.ForEach(func(p data.LayerPart, a, b, c int) bool {
		sym.Assert(same(ids(p), ids(flat[seen])) && same(ids(p), ids(res[a][b][c])), "all are visited in order")
		seen++
		return false
	})
	sym.Assert(seen == total, "all are visited")
}

// Perimeters and the area handed on for infill.
// sym: merge=off covers=zero,none,same,grown
func H_perimeters() {
	o := &offsets{}
	clipper.Hook = o
	opts := data.DefaultOptions()
	w := sym.Int("width", 1, 5000)
	opts.Printer.ExtrusionWidth = data.Micrometer(w)
	count := sym.Choose("count", 5)
	opts.Print.InsetCount = count
	percents := []int{50, 0, 100, 33, 150, -100, 200, 99}
	percent := percents[0]
	layers := 1
	n := 1
	switch sym.Choose("vary", 3) {
	case 0:
		percent = percents[sym.Choose("percent", len(percents))]
	case 1:
		n = sym.Choose("parts", 3)
		if n*count > 0 {
			o.chooseShape(n * (count + 1))
		}
	case 2:
		layers = 2 + sym.Choose("layers", 2)
		n = 2
	}
	opts.Print.InfillOverlapPercent = percent

	var ls []data.PartitionedLayer
	var before [][]data.LayerPart
	var beforeIds [][][]int
	for l := 0; l < layers; l++ {
		var ps []data.LayerPart
		var is [][]int
		m := n
		if l == 1 {
			m = 0 // nothing here
		}
		for i := 0; i < m; i++ {
			p := o.part(i)
			ps, is = append(ps, p), append(is, ids(p))
		}
		before, beforeIds = append(before, ps), append(beforeIds, is)
		ls = append(ls, data.NewPartitionedLayer(append([]data.LayerPart{}, ps...)))
	}
	m := modifier.NewPerimeterModifier(&opts)
	m.Init(nil)
	err := m.Modify(ls)
	sym.Assert(err == nil && len(ls) == layers, "no failure")
	if count == 0 {
		sym.Cover("zero")
	}
	for l, layer := range ls {
		got := layer.LayerParts()
		sym.Assert(len(got) == len(before[l]), "parts stay unchanged")
		for i, p := range got {
			sym.Assert(same(ids(p), beforeIds[l][i]) && id(p.Outline()) == beforeIds[l][i][0], "parts stay unchanged")
		}
		per, err := modifier.Perimeters(layer)
		sym.Assert(err == nil && len(per) == len(got), "perimeters of each part")
		over, err2 := modifier.OverlapPerimeters(layer)
		sym.Assert(err2 == nil && (len(over) == len(got) || count == 0), "an area for each part")
		for i, part := range per {
			sym.Assert(len(part) == count, "as many perimeters as configured")
			for k, r := range part {
				// half a width may be rounded to micrometres
				o.madeBy(got[i], r, func(d float64) bool {
					return sym.And(2*d <= -float64(w*(2*int64(k)+1))+1, 2*d >= -float64(w*(2*int64(k)+1))-1)
				}, "perimeter")
			}
			if count == 0 {
				continue
			}
			inner := part[count-1]
			var want []data.LayerPart
			rest := over[i]
			if len(inner) == 0 {
				sym.Cover("none")
			}
			if percent == 100 {
				sym.Cover("same")
				want = inner
				sym.Assert(len(rest) == len(want), "the area is the innermost perimeter")
				for j := range want {
					sym.Assert(same(ids(want[j]), ids(rest[j])), "the area is the innermost perimeter")
				}
				continue
			}
			if percent > 100 {
				sym.Cover("grown")
			}
			for _, p := range inner {
				// how many of the parts come from this one
				k := 1
				for _, c := range o.calls {
					if same(c.in, ids(p)) {
						k = len(c.out)
					}
				}
				sym.Assert(k <= len(rest), "the area comes from the whole innermost perimeter")
				o.overlap(p, rest[:k], w, int64(percent))
				rest = rest[k:]
			}
			sym.Assert(len(rest) == 0, "nothing else is handed on")
		}
	}
}

// overlap asserts that the parts are p shrunk by half of the width reduced by the percentage, rounded to micrometres.
func (o *offsets) overlap(p data.LayerPart, parts []data.LayerPart, w, percent int64) {
	if w*sym.Abs(100-percent) < 100 && len(parts) == 1 && same(ids(p), ids(parts[0])) { // less than a micrometre
		return
	}
	o.madeBy(p, parts, func(d float64) bool {
		x := d*200 + float64(w*(100-percent))
		return sym.And(x < 300, x > -300)
	}, "area for infill")
}

func main() {
	sym.Main(map[string]func(){"H_inset": H_inset, "H_perimeters": H_perimeters})
}
