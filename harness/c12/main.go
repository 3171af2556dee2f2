// C12: brim and skirt surround everything on the first layer.
package main

import (
	clipper "github.com/aligator/go.clipper"
	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"github.com/aligator/goslice/gcode/renderer"
	"github.com/aligator/goslice/modifier"
	"verifharness/kit"
	"verifharness/sym"
)

// layer is a layer with attributes.
type layer struct {
	data.PartitionedLayer
	attr map[string]interface{}
}

func (l layer) Attributes() map[string]interface{} { return l.attr }

const pitch = 5000

func path(id int) data.Path {
	x := data.Micrometer(id * pitch)
	return data.Path{data.NewMicroPoint(x, 0), data.NewMicroPoint(x+1000, 0), data.NewMicroPoint(x+500, 1000)}
}

func cpath(id int) clipper.Path {
	x := clipper.CInt(id * pitch)
	return clipper.Path{{X: x, Y: 0}, {X: x + 1000, Y: 0}, {X: x + 500, Y: 1000}}
}

func id(p data.Path) int {
	sym.Assert(len(p) == 3, "contours keep their points")
	i := int(p[0].X()) / pitch
	for j, q := range path(i) {
		sym.Assert(p[j].X() == q.X() && p[j].Y() == q.Y(), "contours keep their points")
	}
	return i
}

func ids(p data.LayerPart) []int {
	r := []int{id(p.Outline())}
	for _, h := range p.Holes() {
		r = append(r, id(h))
	}
	return r
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		n := 0
		for _, y := range b {
			if x == y {
				n++
			}
		}
		if n != 1 {
			return false
		}
	}
	return true
}

// tok is a contour: a perimeter (in the contour over, or in none), or the result of an offset or a union.
type tok struct {
	perimeter bool
	over      int
	atoms     []int
}

type call struct {
	in    []int
	delta float64
	out   [][]int
	// hull is the contour which was offset if it is none of the known ones
	hull clipper.Path
}

type model struct {
	toks       []tok // from 1
	calls      []call
	odd, shape int
	fail       int
	clips      int
	failed     bool
	foreign    bool // contours which are not known are expected
}

func (m *model) tok(perimeter bool, over int) int {
	m.toks = append(m.toks, tok{perimeter: perimeter, over: over})
	i := len(m.toks)
	m.toks[i-1].atoms = []int{i}
	return i
}

func cid(p clipper.Path) int {
	sym.Assert(len(p) == 3, "contours keep their points")
	i := int(p[0].X) / pitch
	for j, q := range cpath(i) {
		sym.Assert(p[j].X == q.X && p[j].Y == q.Y, "contours keep their points")
	}
	return i
}

// Clip implements clipper.Model: unions of perimeters, which are nested, and of anything else, which flows together.
func (m *model) Clip(added []clipper.Added, op clipper.ClipType, sf, cf clipper.PolyFillType, rev bool) (*clipper.PolyTree, bool) {
	m.clips++
	if m.clips == m.fail {
		m.failed = true
		return nil, false
	}
	sym.Assert(op == clipper.CtUnion && !rev, "only unions are needed")
	var is []int
	perimeters := true
	for _, a := range added {
		sym.Assert(a.Closed, "contours are closed")
		i := cid(a.Path)
		is = append(is, i)
		perimeters = perimeters && m.toks[i-1].perimeter
	}
	if !perimeters {
		var atoms []int
		for _, i := range is {
			atoms = append(atoms, m.toks[i-1].atoms...)
		}
		i := m.tok(false, 0)
		m.toks[i-1].atoms = atoms
		return clipper.NewTree(clipper.NewNode(cpath(i), false)), true
	}
	// the tree of the given ones
	nodes := map[int]*clipper.PolyNode{}
	for _, i := range is {
		nodes[i] = clipper.NewNode(cpath(i), false)
	}
	var roots []*clipper.PolyNode
	for _, i := range is {
		over := m.toks[i-1].over
		for over > 0 && nodes[over] == nil {
			over = m.toks[over-1].over
		}
		if over == 0 {
			roots = append(roots, nodes[i])
		} else {
			nodes[over].AddChild(nodes[i])
		}
	}
	return clipper.NewTree(roots...), true
}

// Offset implements clipper.Model.
func (m *model) Offset(added []clipper.OffsetAdded, delta, miter float64) *clipper.PolyTree {
	c := call{delta: delta}
	for _, a := range added {
		sym.Assert(a.End == clipper.EtClosedPolygon, "regions are offset, not lines")
		if m.foreign {
			if len(a.Path) > 0 {
				sym.Assert(c.hull == nil, "one contour")
				c.hull = a.Path
			}
			continue
		}
		c.in = append(c.in, cid(a.Path))
	}
	shape := 1
	if len(m.calls)+1 == m.odd {
		shape = m.shape
	}
	if m.foreign && c.hull == nil {
		shape = 0
	}
	var roots []*clipper.PolyNode
	switch shape {
	case 1:
		a := m.tok(false, 0)
		c.out = [][]int{{a}}
		roots = append(roots, clipper.NewNode(cpath(a), false))
	case 2:
		a, b := m.tok(false, 0), m.tok(false, 0)
		c.out = [][]int{{a, b}}
		roots = append(roots, clipper.NewNode(cpath(a), false, clipper.NewNode(cpath(b), false)))
	case 3:
		a, b := m.tok(false, 0), m.tok(false, 0)
		c.out = [][]int{{a}, {b}}
		roots = append(roots, clipper.NewNode(cpath(a), false), clipper.NewNode(cpath(b), false))
	}
	m.calls = append(m.calls, c)
	return clipper.NewTree(roots...)
}

// perimeters makes the perimeters of n parts with the given count of insets. It returns them and the top level outlines among them.
func (m *model) perimeters(n, insets int) (clip.OffsetResult, []int) {
	var r clip.OffsetResult
	var top, holes []int
	for i := 0; i < n; i++ {
		var part [][]data.LayerPart
		kind := sym.Choose("islands", 4) // none, one, two, one with a hole
		var over []int
		for k := 0; k < insets; k++ {
			var wall []data.LayerPart
			count := []int{0, 1, 2, 1}[kind]
			if k > 0 && kind == 2 && i == 0 {
				count = 1 // one of them is too small for a second perimeter
			}
			for j := 0; j < count; j++ {
				in := 0
				if k > 0 {
					in = over[j]
				} else if len(holes) > 0 && sym.Choose("in hole", 2) == 1 {
					in = holes[0]
				}
				t := m.tok(true, in)
				if in == 0 {
					top = append(top, t)
				}
				var h data.Paths
				if kind == 3 {
					hole := m.tok(true, t)
					h = append(h, path(hole))
					if k == 0 {
						holes = append(holes, hole)
					}
				}
				if k == 0 {
					over = append(over, t)
				} else {
					over[j] = t
				}
				wall = append(wall, data.NewBasicLayerPart(path(t), h))
			}
			part = append(part, wall)
		}
		r = append(r, part)
	}
	return r, top
}

func flat(r clip.OffsetResult) [][]int {
	var f [][]int
	for _, p := range r.ToOneDimension() {
		f = append(f, ids(p))
	}
	return f
}

func contains(l [][]int, x []int) bool {
	n := 0
	for _, y := range l {
		if same(x, y) {
			n++
		}
	}
	return n == 1
}

// outcome chooses what one of the offsets gives.
func (m *model) outcome(calls int) {
	m.shape = sym.Choose("shape", 4)
	if m.shape != 1 {
		m.odd = 1 + sym.Choose("odd", calls)
	}
}

// The brim surrounds every top level perimeter; the outer dimension is half a line beyond.
// sym: covers=brim,none,nested,failed
func H_brim() {
	m := &model{}
	clipper.Hook = m
	o := kit.Options()
	w := sym.Int("width", 1, 5000)
	o.Printer.ExtrusionWidth = data.Micrometer(w)
	count := sym.Choose("brim", 4)
	o.Print.BrimSkirt.BrimCount = count
	n := sym.Choose("parts", 4)
	insets := sym.Choose("insets", 3)
	per, top := m.perimeters(n, insets)
	given := len(m.toks)
	attr := map[string]interface{}{"other": 1}
	if n > 0 || sym.Choose("present", 2) == 1 {
		attr["perimeters"] = per
	}
	before := flat(per)
	layers := []data.PartitionedLayer{layer{data.NewPartitionedLayer(nil), attr}, layer{data.NewPartitionedLayer(nil), map[string]interface{}{"perimeters": clip.OffsetResult{}}}}
	if n == 0 && sym.Choose("only", 2) == 1 {
		layers = layers[:1]
	}
	if n < 3 && sym.Choose("fails", 2) == 1 {
		m.fail = 1 + sym.Choose("fail", 4)
	} else if count > 0 && len(top) > 0 && (n < 3 || sym.Thorough() && len(top) < 4) {
		m.outcome(len(top)*count + 2)
	}
	mod := modifier.NewBrimModifier(o)
	mod.Init(nil)
	err := mod.Modify(layers)
	if m.failed {
		sym.Cover("failed")
		sym.Assert(err != nil, "a failing clipping is reported")
		return
	}
	sym.Assert(err == nil, "no error")
	after, _ := modifier.Perimeters(layers[0])
	got := flat(after)
	if attr["perimeters"] != nil {
		sym.Assert(len(got) == len(before), "perimeters stay unchanged")
		for i := range got {
			sym.Assert(same(got[i], before[i]), "perimeters stay unchanged")
		}
	}
	sym.Assert(layers[0].Attributes()["other"] == 1, "other attributes stay unchanged")
	for _, l := range layers[1:] {
		a, e1 := modifier.Brim(l)
		b, e2 := modifier.BrimOuterDimension(l)
		sym.Assert(e1 == nil && e2 == nil && len(a) == 0 && len(b) == 0, "brim only on the first layer")
	}
	brim, err := modifier.Brim(layers[0])
	sym.Assert(err == nil, "brim is readable")
	outer, err := modifier.BrimOuterDimension(layers[0])
	sym.Assert(err == nil, "outer dimension is readable")
	rest := flat(brim)
	if count == 0 || len(top) == 0 {
		sym.Cover("none")
		sym.Assert(len(rest) == 0 && len(outer) == 0, "no brim without lines or perimeters")
		return
	}
	sym.Cover("brim")
	if len(top) < given && n > 1 {
		sym.Cover("nested")
	}
	found := 0
	var border [][]int // the parts of the last loops
	for _, t := range top {
		for k := 1; k <= count; k++ {
			hit := false
			for _, c := range m.calls {
				if !same(c.in, []int{t}) || !sym.And(c.delta == float64(int64(k)*w)) {
					continue
				}
				all := true
				for _, p := range c.out {
					all = all && contains(rest, p)
				}
				if all && !hit {
					hit = true
					found += len(c.out)
					if k == count {
						border = append(border, c.out...)
					}
				}
			}
			sym.Assert(hit, "a loop around every top level perimeter, a whole line further out each")
		}
	}
	sym.Assert(found == len(rest), "no other loops")
	// the outer dimension
	var atoms []int
	for _, p := range outer {
		for _, i := range ids(p) {
			atoms = append(atoms, m.toks[i-1].atoms...)
		}
	}
	want := 0
	for _, b := range border {
		hit := false
		for _, c := range m.calls {
			if !same(c.in, b) || !sym.And(2*c.delta <= float64(w)+1, 2*c.delta >= float64(w)-1) {
				continue
			}
			all := true
			n := 0
			for _, p := range c.out {
				for _, i := range p {
					n++
					x := false
					for _, a := range atoms {
						x = x || a == i
					}
					all = all && x
				}
			}
			if all && !hit {
				hit = true
				want += n
			}
		}
		sym.Assert(hit, "the outer dimension is half a line beyond the last loops")
	}
	sym.Assert(want == len(atoms), "the outer dimension is nothing else")
	sym.Assert(len(outer) <= 1 || len(border) <= 1, "areas around several parts are united")
}

// loop is a closed line found in the G-code.
type loop struct {
	pts    [][2]int64
	z      int64
	closed bool
}

// loops reads the drawn loops.
func loops(b *gcode.Builder) []loop {
	var r []loop
	m := &kit.Machine{}
	for _, c := range kit.ParseAll(b.String()) {
		sym.Assert(!c.Bad, "well formed line")
		if c.Comment {
			continue
		}
		at := [2]int64{m.Pos[0] / 1000, m.Pos[1] / 1000}
		m.Step(c)
		to := [2]int64{m.Pos[0] / 1000, m.Pos[1] / 1000}
		if c.Op != "G1" {
			continue
		}
		if n := len(r); n > 0 && !r[n-1].closed && r[n-1].pts[len(r[n-1].pts)-1] == at {
			if r[n-1].pts[0] == to {
				r[n-1].closed = true
			} else {
				r[n-1].pts = append(r[n-1].pts, to)
			}
		} else {
			r = append(r, loop{pts: [][2]int64{at, to}, z: m.Pos[2] / 1000})
		}
	}
	return r
}

// is tells whether the loop is the contour.
func (l loop) is(i int) bool {
	if len(l.pts) != 3 || !l.closed {
		return false
	}
	n := 0
	for _, q := range path(i) {
		for _, p := range l.pts {
			if p[0] == int64(q.X()) && p[1] == int64(q.Y()) {
				n++
			}
		}
	}
	return n == 3
}

func builder(o *data.Options) *gcode.Builder {
	o.Filament.RetractionSpeed = 0
	o.Printer.StartGCode = data.NewGCodeHunk(nil)
	b := gcode.NewGCodeBuilder(o)
	renderer.PreLayer{}.Render(b, 0, 5, data.NewPartitionedLayer(nil), 200, o)
	return b
}

// Every loop of the brim is drawn once as a closed line, if there are any.
// sym: covers=drawn
func H_brimLines() {
	m := &model{}
	clipper.Hook = m
	o := kit.Options()
	b := builder(o)
	var r clip.OffsetResult
	attr := map[string]interface{}{}
	var want []int
	for i := sym.Choose("parts", 4) - 1; i > 0; i-- {
		var part [][]data.LayerPart
		for k := sym.Choose("loops", 4); k > 0; k-- {
			var wall []data.LayerPart
			for j := sym.Choose("islands", 3); j > 0; j-- {
				t := m.tok(false, 0)
				want = append(want, t)
				wall = append(wall, data.NewBasicLayerPart(path(t), nil))
			}
			part = append(part, wall)
		}
		r = append(r, part)
	}
	if r != nil || sym.Choose("present", 2) == 1 {
		attr["brim"] = r
	}
	nr := sym.Choose("layer", 2)
	err := renderer.Brim{}.Render(b, nr, 5, layer{data.NewPartitionedLayer(nil), attr}, 200, o)
	sym.Assert(err == nil, "no error")
	ls := loops(b)
	sym.Assert(len(ls) == len(want), "every loop is drawn once")
	for _, t := range want {
		sym.Cover("drawn")
		n := 0
		for _, l := range ls {
			if l.is(t) && l.z == 200 {
				n++
			}
		}
		sym.Assert(n == 1, "every loop is drawn once")
	}
}

// skirt renders the skirt of a layer.
func skirt(m *model, o *data.Options, nr int, per clip.OffsetResult, support []data.LayerPart) ([]loop, error) {
	attr := map[string]interface{}{}
	if per != nil {
		attr["perimeters"] = per
	}
	if support != nil {
		attr["fullSupport"] = support
	}
	clipper.Hook = m
	m.foreign = true
	b := builder(o)
	err := renderer.Skirt{}.Render(b, nr, 5, layer{data.NewPartitionedLayer(nil), attr}, 200, o)
	return loops(b), err
}

// All skirt lines are drawn, only on the first layer, at their distances.
// sym: covers=drawn,none,empty
func H_skirtLines() {
	m := &model{}
	o := kit.Options()
	w := sym.Int("width", 1, 5000)
	o.Printer.ExtrusionWidth = data.Micrometer(w)
	d := sym.Int("distance", 0, 100)
	o.Print.BrimSkirt.SkirtDistance = data.Millimeter(float32(d)) / 4
	brims, count := sym.Choose("brim", 4), sym.Choose("skirt", 4)
	o.Print.BrimSkirt.BrimCount, o.Print.BrimSkirt.SkirtCount = brims, count
	nr := sym.Choose("layer", 3)
	var per clip.OffsetResult
	var support []data.LayerPart
	t := func() data.LayerPart { return data.NewBasicLayerPart(path(m.tok(true, 0)), nil) }
	kind := sym.Choose("content", 5)
	switch kind {
	case 1:
		per = clip.OffsetResult{{{t()}}}
	case 2:
		support = []data.LayerPart{t()}
	case 3:
		per, support = clip.OffsetResult{{{t(), t()}, {t()}}, {{t()}}}, []data.LayerPart{t(), t()}
	case 4:
		per = clip.OffsetResult{{{}}}
	}
	given := len(m.toks)
	if count > 0 {
		m.outcome(count)
	}
	ls, err := skirt(m, o, nr, per, support)
	sym.Assert(err == nil, "no error")
	if nr > 0 || count == 0 || given == 0 {
		sym.Cover("none")
		if nr == 0 && count > 0 && kind == 4 {
			sym.Cover("empty")
		}
		sym.Assert(len(ls) == 0, "skirt only on the first layer, if there is anything to surround")
		return
	}
	sym.Cover("drawn")
	var want []int
	for k := 0; k < count; k++ {
		hit := false
		for _, c := range m.calls {
			x := float64(d*250 + int64(brims+1+k)*w)
			if c.hull == nil || hit || !sym.And(c.delta-x < 1, c.delta-x > -1) {
				continue
			}
			hit = true
			for _, p := range c.out {
				want = append(want, p[0])
			}
		}
		sym.Assert(hit, "the distances of the lines")
	}
	sym.Assert(len(ls) == len(want), "every line is drawn once")
	for _, i := range want {
		n := 0
		for _, l := range ls {
			if l.is(i) && l.z == 200 {
				n++
			}
		}
		sym.Assert(n == 1, "every line is drawn once")
	}
}

// The skirt is drawn around the convex hull of all perimeters and support: a triangle, a fixed point and an arbitrary one.
// sym: time=100 covers=outside,inside
func H_hull() {
	m := &model{}
	o := kit.Options()
	o.Print.BrimSkirt.SkirtCount = 1
	// fixed points on all sides
	fixed := [][2]int64{{0, 0}, {30000, 1000}, {28000, 20000}, {3000, 24000}}
	x, y := sym.Int("x", -40000, 80000), []int64{10000, -5000, 40000, 0}[sym.Choose("y", 4)]
	if sym.Choose("swap", 2) == 1 {
		x, y = y, x
	}
	pt := func(q [2]int64) data.MicroPoint {
		return data.NewMicroPoint(data.Micrometer(q[0]), data.Micrometer(q[1]))
	}
	all := append(append([][2]int64{}, fixed...), [2]int64{x, y})
	in := data.Path{pt(all[4]), pt([2]int64{9000, 9000}), pt([2]int64{9500, 12000})}
	all = append(all, [2]int64{9000, 9000}, [2]int64{9500, 12000})
	a, b := data.Path{pt(all[0]), pt(all[1]), pt(all[2])}, data.Path{pt(all[0]), pt(all[2]), pt(all[3])}
	part := func(p data.Path) data.LayerPart { return data.NewBasicLayerPart(p, nil) }
	var per clip.OffsetResult
	var support []data.LayerPart
	switch sym.Choose("where", 3) {
	case 0: // a second perimeter of a later part
		per = clip.OffsetResult{{{part(a)}}, {{part(b)}, {part(in)}}}
	case 1: // support
		per, support = clip.OffsetResult{{{part(b)}}}, []data.LayerPart{part(a), part(in)}
	case 2: // another island
		per, support = clip.OffsetResult{{{part(b), part(in)}}}, []data.LayerPart{part(a)}
	}
	_, err := skirt(m, o, 0, per, support)
	sym.Assert(err == nil, "no error")
	sym.Assert(len(m.calls) == 1 && m.calls[0].hull != nil, "one contour is surrounded")
	h := m.calls[0].hull
	sym.Assert(len(h) >= 3, "the contour has an area")
	used := false
	for i, p := range h {
		q := h[(i+1)%len(h)]
		known := false
		for _, k := range all {
			known = sym.Or(known, sym.And(int64(p.X) == k[0], int64(p.Y) == k[1]))
		}
		sym.Assert(known, "points of the hull are points of the contours")
		used = sym.Or(used, sym.And(int64(p.X) == x, int64(p.Y) == y))
		// everything is on the same side
		left, right := true, true
		for _, k := range all {
			c := int64(q.X-p.X)*(k[1]-int64(p.Y)) - int64(q.Y-p.Y)*(k[0]-int64(p.X))
			left, right = sym.And(left, c >= 0), sym.And(right, c <= 0)
		}
		sym.Assert(sym.Or(left, right), "everything is inside of the hull")
	}
	if used {
		sym.Cover("outside")
	} else {
		sym.Cover("inside")
	}
}

func main() {
	sym.Main(map[string]func(){"H_brim": H_brim, "H_brimLines": H_brimLines, "H_skirtLines": H_skirtLines, "H_hull": H_hull})
}
