// C21: perimeter and infill rendering draws every path exactly once.
package main

import (
	"errors"

	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"github.com/aligator/goslice/gcode/renderer"
	"verifharness/kit"
	"verifharness/sym"
)

// layer is a layer with attributes.
type layer struct {
	data.PartitionedLayer
	attr map[string]interface{}
}

func (l layer) Attributes() map[string]interface{} { return l.attr }

// tokens hands out paths which are told apart by their first point.
type tokens struct{ n int }

func (t *tokens) triangle() data.Path {
	t.n++
	x := data.Micrometer(t.n * 3000)
	return data.Path{data.NewMicroPoint(x, 0), data.NewMicroPoint(x+2000, 0), data.NewMicroPoint(x, 1500)}
}

func (t *tokens) line(n int) data.Path {
	p := t.triangle()
	return p[:n]
}

// drawn is a path found in the G-code.
type drawn struct {
	id     int
	points []int64 // x, y in um (rounded to 10 um)
	speed  int64
	typ    string // last TYPE comment
	marks  string // all comments since the previous path
	bad    bool
}

// read splits the G-code into drawn paths.
func read(cmds []kit.Cmd, m *kit.Machine) []*drawn {
	var r []*drawn
	typ, marks := "", ""
	for _, c := range cmds {
		sym.Assert(!c.Bad, "well formed line")
		if c.Comment {
			marks += c.Text
			if len(c.Text) > 6 && c.Text[:6] == ";TYPE:" {
				typ = c.Text[6:]
			}
			continue
		}
		m.Step(c)
		switch c.Op {
		case "G0":
			d := &drawn{typ: typ, marks: marks, id: int(m.Pos[0]) / 3000000, points: []int64{m.Pos[0] / 1000, m.Pos[1] / 1000}}
			marks = ""
			r = append(r, d)
		case "G1":
			sym.Assert(len(r) > 0, "extrusion only after a travel")
			d := r[len(r)-1]
			if len(d.points) > 2 && d.speed != m.F {
				d.bad = true
			}
			d.speed = m.F
			d.points = append(d.points, m.Pos[0]/1000, m.Pos[1]/1000)
		default:
			sym.Assert(false, "unexpected command")
		}
	}
	return r
}

// is asserts that d draws p, back to its start if closed.
func (d *drawn) is(p data.Path, closed bool) {
	n := len(p)
	if closed {
		n++
	}
	sym.Assert(len(d.points) == 2*n, "all points of the path, and its closing line")
	for i := 0; i < n; i++ {
		q := p[i%len(p)]
		sym.Assert(d.points[2*i] == int64(q.X()) && d.points[2*i+1] == int64(q.Y()), "points in order")
	}
}

type setup struct {
	o     *data.Options
	b     *gcode.Builder
	first bool
	z     data.Micrometer
	nr    int
}

func begin() *setup {
	s := &setup{o: kit.Options()}
	s.o.Print.LayerSpeed = data.Millimeter(sym.Int("layerspeed", 1, 1000))
	s.o.Print.OuterPerimeterSpeed = data.Millimeter(sym.Int("outerspeed", 1, 1000))
	s.o.Print.IntialLayerSpeed = data.Millimeter(sym.Int("initialspeed", 1, 1000))
	s.o.Print.MoveSpeed = 150
	s.o.Filament.RetractionSpeed = 0
	s.o.Printer.StartGCode = data.NewGCodeHunk(nil)
	s.b = gcode.NewGCodeBuilder(s.o)
	s.z = 400
	s.nr = 1
	if sym.Choose("first", 2) == 1 {
		s.first, s.z, s.nr = true, 200, 0
	}
	// layer start as rendered in a print
	renderer.PreLayer{}.Render(s.b, 0, 5, data.NewPartitionedLayer(nil), 200, s.o)
	if !s.first {
		renderer.PreLayer{}.Render(s.b, 1, 5, data.NewPartitionedLayer(nil), 400, s.o)
	}
	return s
}

// wanted is the extrusion speed expected of a line printed normally at v.
func (s *setup) wanted(v data.Millimeter) int64 {
	if s.first {
		v = s.o.Print.IntialLayerSpeed
	}
	return int64(v) * 60000000
}

// out returns the commands emitted since the last call.
func (s *setup) out(n *int) []kit.Cmd {
	c := kit.ParseAll(s.b.String())
	r := c[*n:]
	*n = len(c)
	return r
}

// checkWalls asserts that the drawn paths are the given perimeters.
func (s *setup) checkWalls(got []*drawn, per clip.OffsetResult) {
	type want struct {
		path        data.Path
		part, inset int
	}
	wants := map[int]want{}
	total := 0
	for p, part := range per {
		for k, wall := range part {
			for _, island := range wall {
				for _, h := range append(data.Paths{island.Outline()}, island.Holes()...) {
					wants[int(h[0].X())/3000] = want{h, p, k}
					total++
				}
			}
		}
	}
	sym.Assert(len(got) == total, "every perimeter is drawn exactly once")
	last := map[int]int{}
	for _, d := range got {
		w, ok := wants[d.id]
		sym.Assert(ok, "only perimeters are drawn, each once")
		delete(wants, d.id)
		d.is(w.path, true)
		sym.Assert(!d.bad, "one speed per perimeter")
		// order within the part: 1, 2, ..., n-1, 0
		rank := w.inset
		if rank == 0 {
			rank = 1000
		}
		sym.Assert(last[w.part] <= rank, "inner perimeters in ascending order, the outermost last")
		last[w.part] = rank
		if w.inset == 0 {
			sym.Assert(d.speed == s.wanted(s.o.Print.OuterPerimeterSpeed), "the outermost perimeter is printed at its own speed")
			sym.Assert(d.typ == "WALL-OUTER", "outer perimeters are marked")
		} else {
			sym.Assert(d.speed == s.wanted(s.o.Print.LayerSpeed), "inner perimeters are printed at the layer speed")
			sym.Assert(d.typ == "WALL-INNER", "inner perimeters are marked")
		}
	}
}

// island is an outline with 0..h holes.
func island(t *tokens, h int) data.LayerPart {
	var holes data.Paths
	n := 0
	if h > 0 {
		n = sym.Choose("holes", h+1)
	}
	o := t.triangle()
	for i := 0; i < n; i++ {
		holes = append(holes, t.triangle())
	}
	return data.NewBasicLayerPart(o, holes)
}

// H_perimeters: one part with 0..3 perimeters of 0..2 islands with 0..1 holes each, and a second part which is absent or
// has 1..3 perimeters of one island; first or later layer; all speeds 1..1000 mm/s.
//
// sym: time=200 covers=outer,inner
func H_perimeters() {
	s := begin()
	t := &tokens{}
	var per clip.OffsetResult
	var part [][]data.LayerPart
	for k, n := 0, sym.Choose("insets", 4); k < n; k++ {
		var wall []data.LayerPart
		for i, m := 0, sym.Choose("islands", 3); i < m; i++ {
			wall = append(wall, island(t, 1))
		}
		part = append(part, wall)
	}
	per = append(per, part)
	if n := sym.Choose("second", 4); n > 0 {
		part = nil
		for k := 0; k < n; k++ {
			part = append(part, []data.LayerPart{island(t, 0)})
		}
		per = append(per, part)
	}
	if len(per[0]) == 1 {
		sym.Cover("outer")
	}
	if len(per[0]) == 3 {
		sym.Cover("inner")
	}
	n := 0
	var m kit.Machine
	s.out(&n)
	l := layer{data.NewPartitionedLayer(nil), map[string]interface{}{"perimeters": per}}
	err := renderer.Perimeter{}.Render(s.b, s.nr, 5, l, s.z, s.o)
	sym.Assert(err == nil, "no error")
	s.checkWalls(read(s.out(&n), &m), per)
	// the layer is unchanged
	sym.Assert(len(per[0]) == len(l.attr["perimeters"].(clip.OffsetResult)[0]), "the layer is unchanged")
}

type pattern struct {
	s      *setup
	t      *tokens
	calls  []data.LayerPart
	nrs    []int
	result data.Paths
	all    []int // number of paths per call
	fail   int
}

var errPattern = errors.New("pattern")

func (p *pattern) Fill(nr int, part data.LayerPart) (data.Paths, error) {
	p.calls = append(p.calls, part)
	p.nrs = append(p.nrs, nr)
	if len(p.calls) == p.fail {
		return nil, errPattern
	}
	var r data.Paths
	for i, n := 0, sym.Choose("paths", 3); i < n; i++ {
		r = append(r, p.t.line(2+sym.Choose("points", 2)))
	}
	p.result = append(p.result, r...)
	p.all = append(p.all, len(r))
	return r, nil
}

// H_infill: an optional perimeter and then 0..3 (thorough 4) fill areas, for each of which the pattern returns 0..2 lines of 2..3
// points or fails; 0..2 comments per area; first or later layer; all speeds.
//
// sym: time=200 covers=fail,two,after
func H_infill() {
	s := begin()
	t := &tokens{}
	attr := map[string]interface{}{}
	max := 4
	if sym.Thorough() {
		max = 5
	}
	na := sym.Choose("areas", max)
	var areas []data.LayerPart
	for i := 0; i < na; i++ {
		areas = append(areas, data.NewBasicLayerPart(t.triangle(), nil))
	}
	if na > 0 {
		attr["fill"] = areas
	}
	l := layer{data.NewPartitionedLayer(nil), attr}
	n := 0
	var m kit.Machine
	s.out(&n)
	if sym.Choose("perimeter", 2) == 1 {
		sym.Cover("after")
		attr["perimeters"] = clip.OffsetResult{{{island(t, 0)}, {island(t, 0)}}}
		sym.Assert(renderer.Perimeter{}.Render(s.b, s.nr, 5, l, s.z, s.o) == nil, "no error")
	}
	read(s.out(&n), &m)
	p := &pattern{s: s, t: t, fail: sym.Choose("fail", na+1)}
	var lo, hi data.MicroPoint
	setups := 0
	comments := []string{"ONE", "TWO"}[:sym.Choose("comments", 3)]
	r := &renderer.Infill{AttrName: "fill", Comments: comments, PatternSetup: func(a, b data.MicroPoint) clip.Pattern {
		setups++
		lo, hi = a, b
		return p
	}}
	r.Init(model{})
	sym.Assert(setups == 1 && lo.X() == 1 && lo.Y() == 2 && hi.X() == 4 && hi.Y() == 5, "the pattern is set up once with the bounds of the model")
	err := r.Render(s.b, s.nr, 5, l, s.z, s.o)
	got := read(s.out(&n), &m)
	if p.fail > 0 {
		sym.Cover("fail")
		sym.Assert(err == errPattern, "a failing pattern is reported")
		return
	}
	sym.Assert(err == nil, "no error")
	sym.Assert(len(p.calls) == na, "every area is filled once")
	for i, c := range p.calls {
		sym.Assert(c.Outline()[0].X() == areas[i].Outline()[0].X(), "areas in order")
		sym.Assert(p.nrs[i] == s.nr, "layer number")
	}
	sym.Assert(len(got) == len(p.result), "every line of the pattern is drawn once")
	if len(got) >= 2 {
		sym.Cover("two")
	}
	area, in := 0, 0
	for i, d := range got {
		d.is(p.result[i], false)
		sym.Assert(!d.bad && d.speed == s.wanted(s.o.Print.LayerSpeed), "fill lines are printed at the layer speed")
		want := ""
		for area < len(p.all) && in == p.all[area] {
			area, in = area+1, 0
		}
		if in == 0 {
			// the comments of this area, and those of empty ones before it
			k := area
			for k > 0 && p.all[k-1] == 0 {
				k--
			}
			for ; k <= area; k++ {
				for _, c := range comments {
					want += ";" + c
				}
			}
		}
		in++
		sym.Assert(d.marks == want, "every area is marked by its comments")
	}
}

type model struct{ data.OptimizedModel }

func (model) Min() data.MicroVec3 { return data.NewMicroVec3(1, 2, 3) }
func (model) Max() data.MicroVec3 { return data.NewMicroVec3(4, 5, 6) }

// H_missing: layers without or with wrong attributes, and an infill without a pattern.
//
// sym: time=60
func H_missing() {
	s := begin()
	n := 0
	s.out(&n)
	attr := map[string]interface{}{}
	var err error
	bad := false
	r := &renderer.Infill{AttrName: "fill", Comments: []string{"X"}, PatternSetup: func(a, b data.MicroPoint) clip.Pattern {
		return &pattern{s: s, t: &tokens{}}
	}}
	l := layer{data.NewPartitionedLayer(nil), attr}
	switch sym.Choose("attribute", 6) {
	case 0:
	case 1:
		attr["fill"] = 3
		bad = true
	case 2:
		attr["fill"] = []data.LayerPart{}
	case 3:
		attr["fill"] = nil
		bad = true
	case 4:
		attr["other"] = []data.LayerPart{data.NewBasicLayerPart(nil, nil)}
	case 5:
		l.attr = nil
	}
	if sym.Choose("renderer", 2) == 0 {
		r.Init(model{})
		err = r.Render(s.b, s.nr, 5, l, s.z, s.o)
	} else {
		if v, ok := attr["fill"]; ok {
			if _, good := v.([]data.LayerPart); good {
				v = clip.OffsetResult{}
			}
			attr["perimeters"] = v
		}
		err = renderer.Perimeter{}.Render(s.b, s.nr, 5, l, s.z, s.o)
	}
	sym.Assert((err != nil) == bad, "an attribute of the wrong type is an error, a missing one is not")
	sym.Assert(len(s.out(&n)) == 0, "nothing is drawn")
	// no pattern: nothing is filled
	r.PatternSetup = func(a, b data.MicroPoint) clip.Pattern { return nil }
	r.Init(model{})
	attr["fill"] = []data.LayerPart{data.NewBasicLayerPart((&tokens{}).triangle(), nil)}
	l.attr = attr
	sym.Assert(r.Render(s.b, s.nr, 5, l, s.z, s.o) == nil, "no error without a pattern")
	sym.Assert(len(s.out(&n)) == 0, "nothing is drawn without a pattern")
}

func main() {
	sym.Main(map[string]func(){"H_perimeters": H_perimeters, "H_infill": H_infill, "H_missing": H_missing})
}
