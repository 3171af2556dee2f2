// C16: retraction happens exactly when a travel crosses a wall, and is undone.
package main

import (
	clipper "github.com/aligator/go.clipper"
	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"github.com/aligator/goslice/gcode/renderer"
	"verifharness/kit"
	"verifharness/sym"
)

type um = data.Micrometer

func rect(x0, y0, x1, y1 um) data.Path {
	return data.Path{data.NewMicroPoint(x0, y0), data.NewMicroPoint(x1, y0), data.NewMicroPoint(x1, y1), data.NewMicroPoint(x0, y1)}
}

// settings are the retraction settings in force.
type settings struct {
	amount, hop, speed int64 // um, um, mm/s
}

type printer struct {
	s    settings
	b    *gcode.Builder
	m    kit.Machine
	used int
}

// check interprets what was emitted for one drawn path: the travel to x,y at height z with or without retraction, and then the
// drawing moves, of which there have to be n.
func (p *printer) check(x, y, z um, crossing bool, first bool, n int) {
	cmds := kit.ParseAll(p.b.String())
	out, there, primed := false, false, false
	drawn := 0
	lifted := z
	if crossing && p.s.hop > 0 {
		lifted += um(p.s.hop)
	}
	moved := false
	for _, c := range cmds[p.used:] {
		if c.Comment {
			continue
		}
		sym.Assert(!c.Bad && (c.Op == "G0" || c.Op == "G1"), "well formed move")
		before := p.m
		d := p.m.Step(c)
		if !c.Has[kit.E] {
			sym.Assert(drawn == 0, "no travel within the path")
			sym.Assert(!primed, "no travel after the filament was fed back")
			if c.Has[kit.X] || c.Has[kit.Y] {
				sym.Assert(!there, "one travel only")
				there, moved = true, true
				sym.Assert(out == crossing, "the filament is retracted exactly if the travel crosses a wall")
				if crossing && p.s.hop > 0 {
					sym.Assert(kit.Near(before.Pos[2], lifted) && kit.Near(p.m.Pos[2], lifted), "the nozzle is raised during the whole travel")
				}
				sym.Assert(sym.And(kit.Near(p.m.Pos[0], x), kit.Near(p.m.Pos[1], y)), "the travel ends at the start of the path")
			} else if crossing {
				sym.Assert(out, "retracted before the nozzle is raised or lowered")
			}
			sym.Assert(sym.Or(kit.Near(p.m.Pos[2], lifted), kit.Near(p.m.Pos[2], z)), "the nozzle is at the layer height or raised")
			continue
		}
		if drawn == 0 && !crossing {
			sym.Assert(sym.And(kit.Near(before.Pos[0], x), kit.Near(before.Pos[1], y)), "drawing starts at the start of the path")
		}
		if crossing && !out {
			sym.Assert(!moved && !c.Has[kit.X] && !c.Has[kit.Y] && !c.Has[kit.Z], "retraction without moving")
			sym.Assert(sym.Abs(d+p.s.amount*1000) <= 115, "retracted amount")
			sym.Assert(p.m.F == p.s.speed*60*1000000, "retraction speed")
			out = true
			continue
		}
		if crossing && !primed {
			sym.Assert(moved && !c.Has[kit.X] && !c.Has[kit.Y] && !c.Has[kit.Z], "fed back at the destination without moving")
			sym.Assert(sym.Abs(d-p.s.amount*1000) <= 115, "the amount fed back is the retracted one")
			sym.Assert(p.m.F == p.s.speed*60*1000000, "speed of feeding back")
			sym.Assert(kit.Near(p.m.Pos[2], z), "fed back at the layer height")
			primed = true
			continue
		}
		sym.Assert(d > 0, "drawing extrudes")
		sym.Assert(kit.Near(before.Pos[2], z) && kit.Near(p.m.Pos[2], z), "drawn at the layer height")
		sym.Assert(p.m.F == 60*60*1000000, "drawn at the speed set for extrusion")
		drawn++
	}
	sym.Assert(out == crossing && primed == crossing, "retraction and feeding back pair up")
	sym.Assert(drawn == n, "all lines are drawn")
	p.used = len(cmds)
}

// answer is a polygon clipper which finds the travel crossing or not, or fails.
type answer struct {
	crossing, fail bool
	line           []clipper.Path
	asked          int
}

func (a *answer) Clip(added []clipper.Added, op clipper.ClipType, sf, cf clipper.PolyFillType, rev bool) (*clipper.PolyTree, bool) {
	a.asked++
	a.line = nil
	for _, x := range added {
		if !x.Closed {
			a.line = append(a.line, x.Path)
		}
	}
	if a.fail {
		return nil, false
	}
	if a.crossing {
		return clipper.NewTree(clipper.NewNode(clipper.Path{{X: 1, Y: 2}, {X: 3, Y: 4}}, true)), true
	}
	return clipper.NewTree(), true
}

func (a *answer) Offset(added []clipper.OffsetAdded, delta, miter float64) *clipper.PolyTree {
	return clipper.NewTree()
}

func (p *printer) setup(o *data.Options) {
	o.Filament.RetractionSpeed = data.Millimeter(p.s.speed)
	o.Filament.RetractionLength = data.Millimeter(p.s.amount) / 1000
	o.Filament.RetractionZHop = data.Millimeter(p.s.hop) / 1000
	o.Print.LayerSpeed, o.Print.IntialLayerSpeed, o.Print.MoveSpeed = 60, 60, 150
	o.Printer.StartGCode = data.NewGCodeHunk(nil)
	p.b = gcode.NewGCodeBuilder(o)
	renderer.PreLayer{}.Render(p.b, 0, 9, data.NewPartitionedLayer(nil), 200, o)
	p.used = len(kit.ParseAll(p.b.String()))
}

// H_sequence: 3 (thorough 4) paths of two points one after the other, arbitrary start points within +-1 m, each travel crossing, not
// crossing, on no layer or with a failing clipper, also going up a layer; arbitrary amount 1 um..20 mm, speed 1..500 mm/s and no or
// arbitrary z-hop 1 um..5 mm, or retraction switched off by amount or speed.
//
// sym: time=150 time@thorough=500 covers=crossing,plain,failed
func H_sequence() {
	p := &printer{}
	o := kit.Options()
	off := false
	switch sym.Choose("kind", 4) {
	case 0:
		p.s = settings{sym.Int("amount", 1, 20000), 0, sym.Int("speed", 1, 500)}
	case 1:
		p.s = settings{sym.Int("amount", 1, 20000), sym.Int("hop", 1, 5000), sym.Int("speed", 1, 500)}
	case 2:
		p.s, off = settings{0, 500, 30}, true
	case 3:
		p.s, off = settings{2000, 500, 0}, true
	}
	p.setup(o)
	a := &answer{}
	clipper.Hook = a
	layer := data.NewPartitionedLayer([]data.LayerPart{data.NewBasicLayerPart(rect(0, 0, 1000, 1000), nil)})
	n := 3
	if sym.Thorough() {
		n = 4
	}
	z := um(200)
	var last data.MicroPoint
	for i := 0; i < n; i++ {
		if i == 1 && sym.Choose("up", 2) == 1 {
			z += 300
		}
		x, y := um(sym.Int("x", -1000000, 1000000)), um(sym.Int("y", -1000000, 1000000))
		a.crossing, a.fail = false, false
		var l data.PartitionedLayer = layer
		switch sym.Choose("travel", 4) {
		case 1:
			a.crossing = true
		case 2:
			l = nil
		case 3:
			if off || i == 0 {
				return
			}
			a.fail = true
		}
		if a.crossing && i > 0 {
			sym.Assume(x != last.X()) // a travel of no length does not cross anything
		}
		a.asked = 0
		err := p.b.AddPolygon(l, data.Path{data.NewMicroPoint(x, y), data.NewMicroPoint(x+5000, y)}, z, true)
		if a.fail && a.asked > 0 {
			sym.Assert(err != nil, "a failing crossing test is reported")
			sym.Cover("failed")
			return
		}
		sym.Assert(err == nil, "no error")
		if a.asked > 0 && i > 0 {
			sym.Assert(len(a.line) == 1 && len(a.line[0]) == 2, "the travel is tested")
			f, t := a.line[0][0], a.line[0][1]
			sym.Assert(sym.And(um(f.X) == last.X(), um(f.Y) == last.Y(), um(t.X) == x, um(t.Y) == y), "the tested line is the travel")
		}
		if a.crossing && i > 0 && !off {
			sym.Cover("crossing")
		} else {
			sym.Cover("plain")
		}
		p.check(x, y, z, a.crossing && i > 0 && !off, i == 0, 1)
		last = data.NewMicroPoint(x+5000, y)
	}
	sym.Observe("lines", p.used)
}

// H_places: the real clipper on a layer with a square ring, an island within it and a second part: a horizontal travel at one of
// 5 heights from one of 4 places to any place within +-100 mm retracts exactly if it leaves the material.
//
// sym: time=150 covers=crossing,plain
func H_places() {
	p := &printer{s: settings{2000, 0, 30}}
	p.setup(kit.Options())
	layer := data.NewPartitionedLayer([]data.LayerPart{
		data.NewBasicLayerPart(rect(0, 0, 40000, 40000), data.Paths{rect(10000, 10000, 30000, 30000)}),
		data.NewBasicLayerPart(rect(15000, 15000, 25000, 25000), nil),
		data.NewBasicLayerPart(rect(60000, -100, 80000, 22000), nil),
	})
	h := sym.Choose("y", 5)
	y := []um{5000, 12000, 20000, 35000, 50000}[h]
	in := [][][2]int64{
		{{0, 40000}, {60000, 80000}},
		{{0, 10000}, {30000, 40000}, {60000, 80000}},
		{{0, 10000}, {15000, 25000}, {30000, 40000}, {60000, 80000}},
		{{0, 40000}},
		{},
	}[h]
	from := []int64{5000, 20000, 50000, 70000}[sym.Choose("from", 4)]
	to := sym.Int("to", -100000, 100000)
	sym.Assume(to != from)
	crossing := true
	for _, r := range in {
		sym.Assume(sym.And(to != r[0], to != r[1])) // what happens exactly on a wall is not defined
		crossing = sym.And(crossing, !sym.And(from >= r[0], from <= r[1], to >= r[0], to <= r[1]))
	}
	sym.Assert(p.b.AddPolygon(nil, data.Path{data.NewMicroPoint(um(from)-100, y), data.NewMicroPoint(um(from), y)}, 200, true) == nil, "no error")
	p.check(um(from)-100, y, 200, false, true, 1)
	sym.Assert(p.b.AddPolygon(layer, data.Path{data.NewMicroPoint(um(to), y), data.NewMicroPoint(um(to), y+1000)}, 200, true) == nil, "no error")
	if crossing {
		sym.Cover("crossing")
	} else {
		sym.Cover("plain")
	}
	p.check(um(to), y, 200, crossing, false, 1)
}

// point is the clipper seen from one point of the plane: in tells which token path contains it.
type point struct {
	in   map[clipper.CInt]bool // by the first coordinate of the path
	line bool                  // the point lies on the travel
}

func (q *point) material(parts int, holes int) bool {
	m := false
	for i := 0; i < parts; i++ {
		o := q.in[clipper.CInt(100*i+1)]
		for h := 0; h < holes; h++ {
			o = sym.And(o, !q.in[clipper.CInt(100*i+10*h+11)])
		}
		m = sym.Or(m, o)
	}
	return m
}

func newPoint(parts, holes int) *point {
	q := &point{in: map[clipper.CInt]bool{}, line: sym.Bool("line")}
	var outlines []bool
	for i := 0; i < parts; i++ {
		o := sym.Bool("outline")
		q.in[clipper.CInt(100*i+1)] = o
		outlines = append(outlines, o)
		var hs []bool
		for h := 0; h < holes; h++ {
			b := sym.Bool("hole")
			sym.Assume(sym.Implies(b, o)) // holes lie within their outline and apart from each other
			for _, x := range hs {
				sym.Assume(!sym.And(x, b))
			}
			hs = append(hs, b)
			q.in[clipper.CInt(100*i+10*h+11)] = b
		}
	}
	for i := 0; i < parts; i++ {
		for j := 0; j < parts; j++ {
			if i != j { // parts are apart, but one may lie in a hole of another
				hole := false
				for h := 0; h < holes; h++ {
					hole = sym.Or(hole, q.in[clipper.CInt(100*i+10*h+11)])
				}
				back := false
				for h := 0; h < holes; h++ {
					back = sym.Or(back, q.in[clipper.CInt(100*j+10*h+11)])
				}
				sym.Assume(sym.Implies(sym.And(outlines[i], outlines[j]), sym.Or(hole, back)))
			}
		}
	}
	return q
}

// region is a clipper for which every, or some, point of the plane is looked at.
type region struct {
	any, some *point
	empty     bool
	fail      bool
}

func odd(q *point, added []clipper.Added, t clipper.PolyType, fill clipper.PolyFillType) bool {
	sym.Assert(fill == clipper.PftEvenOdd, "outlines and holes are told apart by nesting")
	r := false
	for _, a := range added {
		if a.Closed && a.Type == t {
			r = r != q.in[a.Path[0].X]
		}
	}
	return r
}

func (g *region) left(q *point, added []clipper.Added, op clipper.ClipType, cf clipper.PolyFillType) bool {
	c := odd(q, added, clipper.PtClip, cf)
	line := false
	for _, a := range added {
		if !a.Closed {
			sym.Assert(a.Type == clipper.PtSubject, "the line is the subject")
			line = q.line
		}
	}
	switch op {
	case clipper.CtDifference:
		return sym.And(line, !c)
	case clipper.CtIntersection:
		return sym.And(line, c)
	}
	return line
}

func (g *region) Clip(added []clipper.Added, op clipper.ClipType, sf, cf clipper.PolyFillType, rev bool) (*clipper.PolyTree, bool) {
	if g.fail {
		return nil, false
	}
	if g.empty {
		sym.Assume(!g.left(g.any, added, op, cf))
		return clipper.NewTree(), true
	}
	sym.Assume(g.left(g.some, added, op, cf))
	n := clipper.NewNode(clipper.Path{{X: 1, Y: 2}, {X: 3, Y: 4}}, true)
	if sym.Choose("pieces", 2) == 1 {
		return clipper.NewTree(n, clipper.NewNode(clipper.Path{{X: 5, Y: 2}, {X: 7, Y: 4}}, true)), true
	}
	return clipper.NewTree(n), true
}

func (g *region) Offset(added []clipper.OffsetAdded, delta, miter float64) *clipper.PolyTree {
	return clipper.NewTree()
}

// H_region: IsCrossingPerimeter for 0..3 parts with 0..2 holes each, of 3..5 corners, and every answer of the clipper: no arbitrary point of the travel lies
// outside of the material if it reports no crossing, and some point does if it reports one.
//
// sym: time=100 covers=crossing,inside,failed
func H_region() {
	n, holes := sym.Choose("parts", 4), sym.Choose("holes", 3)
	corners := 3 + sym.Choose("corners", 3)
	token := func(i int) data.Path { return append(rect(um(i), 0, 5, 5), data.NewMicroPoint(-9, 3))[:corners] }
	var parts []data.LayerPart
	for i := 0; i < n; i++ {
		var hs data.Paths
		for h := 0; h < holes; h++ {
			hs = append(hs, token(100*i+10*h+11))
		}
		parts = append(parts, data.NewBasicLayerPart(token(100*i+1), hs))
	}
	g := &region{any: newPoint(n, holes), some: newPoint(n, holes), empty: sym.Choose("empty", 2) == 1, fail: sym.Choose("fail", 2) == 1}
	clipper.Hook = g
	crossing, ok := clip.NewClipper().IsCrossingPerimeter(parts, data.Path{data.NewMicroPoint(0, 0), data.NewMicroPoint(9, 9)})
	if g.fail {
		sym.Assert(!ok, "failure is reported")
		sym.Cover("failed")
		return
	}
	sym.Assert(ok, "no failure")
	if crossing {
		sym.Cover("crossing")
		sym.Assert(!g.empty, "crossing only if something is left of the line")
		sym.Assert(sym.And(g.some.line, !g.some.material(n, holes)), "some point of the travel is outside of the material")
	} else {
		sym.Cover("inside")
		sym.Assert(g.empty, "not crossing only if nothing is left of the line")
		sym.Assert(!sym.And(g.any.line, !g.any.material(n, holes)), "no point of the travel is outside of the material")
	}
}

type pattern struct{ paths data.Paths }

func (p pattern) Fill(layerNr int, part data.LayerPart) (data.Paths, error) { return p.paths, nil }

// H_render: the perimeter and infill renderers draw with retraction, for all of up to 5 paths, each travel crossing or not.
//
// sym: time=100
func H_render() {
	p := &printer{s: settings{2000, 300, 30}}
	o := kit.Options()
	p.setup(o)
	a := &answer{}
	clipper.Hook = a
	parts := []data.LayerPart{data.NewBasicLayerPart(rect(0, 0, 40000, 40000), nil)}
	sym.Assert(p.b.AddPolygon(nil, data.Path{data.NewMicroPoint(-500, 0), data.NewMicroPoint(-100, 0)}, 200, true) == nil, "no error")
	p.check(-500, 0, 200, false, true, 1)
	a.crossing = sym.Choose("crossing", 2) == 1
	n := 0
	if sym.Choose("renderer", 2) == 0 {
		l := attributed{data.NewPartitionedLayer(parts), map[string]interface{}{"perimeters": clip.OffsetResult{
			{{data.NewBasicLayerPart(rect(200, 200, 39800, 39800), data.Paths{rect(5000, 5000, 9000, 9000)})}, {data.NewBasicLayerPart(rect(600, 600, 39400, 39400), nil)}},
			{{data.NewBasicLayerPart(rect(50000, 200, 59800, 39800), nil)}},
		}}}
		n = 4
		sym.Assert(renderer.Perimeter{}.Render(p.b, 1, 5, l, 200, o) == nil, "no error")
	} else {
		l := attributed{data.NewPartitionedLayer(parts), map[string]interface{}{"bottom": parts}}
		n = 3
		r := &renderer.Infill{AttrName: "bottom", PatternSetup: func(min, max data.MicroPoint) clip.Pattern {
			return pattern{data.Paths{
				{data.NewMicroPoint(1000, 1000), data.NewMicroPoint(1000, 9000)},
				{data.NewMicroPoint(2000, 9000), data.NewMicroPoint(2000, 1000)},
				{data.NewMicroPoint(3000, 1000), data.NewMicroPoint(3000, 9000)},
			}}
		}}
		r.Init(model{})
		sym.Assert(r.Render(p.b, 1, 5, l, 200, o) == nil, "no error")
	}
	down, up := 0, 0
	for _, c := range kit.ParseAll(p.b.String())[p.used:] {
		if c.Comment {
			continue
		}
		move := c.Has[kit.X] || c.Has[kit.Y]
		d := p.m.Step(c)
		if c.Has[kit.E] && !move {
			if d < 0 {
				down++
			} else {
				up++
			}
		}
	}
	want := 0
	if a.crossing {
		want = n
	}
	sym.Assert(down == want && up == want, "every travel of the layer which crosses a wall is retracted")
}

type attributed struct {
	data.PartitionedLayer
	attr map[string]interface{}
}

func (l attributed) Attributes() map[string]interface{} { return l.attr }

type model struct{ data.OptimizedModel }

func (model) Min() data.MicroVec3 { return data.NewMicroVec3(0, 0, 0) }
func (model) Max() data.MicroVec3 { return data.NewMicroVec3(1000, 1000, 1000) }

func main() {
	sym.Main(map[string]func(){"H_sequence": H_sequence, "H_places": H_places, "H_region": H_region, "H_render": H_render})
}
