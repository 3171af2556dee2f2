// C15: the emitted G-code moves exactly along the requested paths.
package main

import (
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"verifharness/kit"
	"verifharness/sym"
)

const lim = 2000000

func mm(n string) data.Micrometer { return data.Micrometer(sym.Int(n, -lim, lim)) }

// H_moves: sequences of 3 (thorough 4) AddMove calls in all three axes, extruding or not, arbitrary positions within
// +-2 m, on a fresh builder.
//
// sym: time=150 time@thorough=600 covers=skipped,modal
func H_moves() {
	o := kit.Options()
	b := gcode.NewGCodeBuilder(o)
	n := 3
	if sym.Thorough() {
		n = 4
	}
	b.SetMoveSpeed(150)
	b.SetExtrudeSpeed(60)
	var m kit.Machine
	cur := data.NewMicroVec3(0, 0, 0)
	first := true
	done := 0
	for i := 0; i < n; i++ {
		p := data.NewMicroVec3(mm("x"), mm("y"), mm("z"))
		e := data.Millimeter(0)
		ex := sym.Bool("extruding")
		if ex {
			e = 1.5
		}
		b.AddMove(p, e)
		done, first = follow(b, &m, done, cur, p, ex, 1500000, first, 150, 60)
		cur = p
	}
	sym.Observe("lines", done)
}

// follow checks the line emitted by the last AddMove.
func follow(b *gcode.Builder, m *kit.Machine, done int, cur, p data.MicroVec3, ex bool, e int64, first bool, move, extr int64) (int, bool) {
	cmds := kit.ParseAll(b.String())
	if !ex && !first && p.X() == cur.X() && p.Y() == cur.Y() && p.Z() == cur.Z() {
		sym.Assert(len(cmds) == done, "a move that changes nothing is emitted")
		sym.Cover("skipped")
		return len(cmds), first
	}
	sym.Assert(len(cmds) == done+1, "one line per move")
	c := cmds[len(cmds)-1]
	sym.Assert(!c.Bad && !c.Comment, "well formed move")
	if ex {
		sym.Assert(c.Op == "G1" && c.Has[kit.E], "an extruding move is a G1 with E")
	} else {
		sym.Assert(c.Op == "G0" && !c.Has[kit.E], "a travel is a G0 without E")
	}
	d := m.Step(c)
	m.At(p.X(), p.Y(), p.Z(), "target of the move")
	want := move
	if ex {
		sym.Assert(sym.Abs(d-e) <= 100, "extruded length")
		want = extr
	}
	sym.Assert(m.F == want*60*1000000, "feed rate in force")
	if !c.Has[kit.X] {
		sym.Cover("modal")
	}
	return len(cmds), false
}

// H_speeds: 3 (thorough 5) moves along a fixed path, extruding or not, with the setters for travel, extrusion and
// override speed called in between in every order, all speeds 1..1000 mm/s; retraction-like moves with a speed of their own.
//
// sym: time=120 time@thorough=500 covers=override,own
func H_speeds() {
	o := kit.Options()
	b := gcode.NewGCodeBuilder(o)
	n := 3
	if sym.Thorough() {
		n = 5
	}
	move, extr, over := sym.Int("move", 1, 1000), sym.Int("extrude", 1, 1000), int64(0)
	b.SetMoveSpeed(data.Millimeter(move))
	b.SetExtrudeSpeed(data.Millimeter(extr))
	var m kit.Machine
	cur := data.NewMicroVec3(0, 0, 0)
	done := 0
	for i := 0; i < n; i++ {
		own := int64(0)
		switch sym.Choose("setter", 6) {
		case 1:
			extr = sym.Int("extrude", 1, 1000)
			b.SetExtrudeSpeed(data.Millimeter(extr))
		case 2:
			over = sym.Int("override", 1, 1000)
			b.SetExtrudeSpeedOverride(data.Millimeter(over))
		case 3:
			b.DisableExtrudeSpeedOverride()
			over = 0
		case 4:
			move = sym.Int("move", 1, 1000)
			b.SetMoveSpeed(data.Millimeter(move))
		case 5:
			own = sym.Int("own", 1, 1000)
		}
		p := data.NewMicroVec3(data.Micrometer(1000*(i+1)), data.Micrometer(500*i), 200)
		ex := sym.Choose("extruding", 2) == 1
		e := data.Millimeter(0)
		if ex {
			e = 0.25
		}
		wm, we := move, extr
		if over != 0 {
			we = over
			sym.Cover("override")
		}
		if own != 0 {
			wm, we = own, own
			b.AddMoveSpeed(p, e, int(own))
			sym.Cover("own")
		} else {
			b.AddMove(p, e)
		}
		done, _ = follow(b, &m, done, cur, p, ex, 250000, i == 0, wm, we)
		cur = p
	}
	sym.Observe("lines", done)
}

// shapes of paths, relative to their (symbolic) origin, in micrometres
var shapes = [][][2]int64{
	{},
	{{0, 0}},
	{{0, 0}, {5000, 0}},
	{{0, 0}, {0, 0}},
	{{0, 0}, {5000, 0}, {5000, 4000}},
	{{0, 0}, {3000, 0}, {3000, 7000}, {0, 7000}},
	{{0, 0}, {2000, 3}, {4000, 0}},
	{{0, 0}, {10000, 0}, {9000, 500}, {10000, 1000}, {0, 1000}},
}

// H_polygons: two paths drawn one after the other (8 shapes up to 5 points each, arbitrary origins within +-2 m,
// arbitrary heights, open or closed), no layer given.
//
// sym: time=150 covers=closed,open,empty,chained
func H_polygons() {
	o := kit.Options()
	b := gcode.NewGCodeBuilder(o)
	move := sym.Int("move", 1, 1000)
	extr := sym.Int("extrude", 1, 1000)
	b.SetMoveSpeed(data.Millimeter(move))
	b.SetExtrudeSpeed(data.Millimeter(extr))
	b.SetExtrusion(200, 400)
	var m kit.Machine
	used := 0
	started := false
	for k := 0; k < 2; k++ {
		n := len(shapes)
		if k > 0 && !sym.Thorough() {
			n = 4
		}
		sh := shapes[sym.Choose("shape", n)]
		ox, oy := mm("ox"), mm("oy")
		z := mm("z")
		path := data.Path{}
		for _, s := range sh {
			path = append(path, data.NewMicroPoint(ox+data.Micrometer(s[0]), oy+data.Micrometer(s[1])))
		}
		smooth := data.Path{}
		for _, s := range path {
			smooth = append(smooth, s.Copy())
		}
		smooth = data.DouglasPeucker(smooth, -1)
		open := sym.Choose("open", 2) == 1
		err := b.AddPolygon(nil, path, z, open)
		sym.Assert(err == nil, "drawing does not fail")
		cmds := kit.ParseAll(b.String())
		if len(sh) == 0 {
			sym.Assert(len(cmds) == used, "an empty path emits nothing")
			sym.Cover("empty")
			continue
		}
		i := used
		want := smooth
		if !open {
			want = append(append(data.Path{}, smooth...), smooth[0])
			sym.Cover("closed")
		} else {
			sym.Cover("open")
		}
		for j, p := range want {
			changes := true
			if started {
				// a zero length move may be left out
				changes = false
				if j > 0 {
					changes = want[j].X() != want[j-1].X() || want[j].Y() != want[j-1].Y()
				}
			}
			if i < len(cmds) {
				c := cmds[i]
				travel := c.Op == "G0"
				if j == 0 && !travel {
					// travel left out: allowed only if the machine stands there already
					sym.Assert(!changes, "the travel to the first point is missing")
					m.At(p.X(), p.Y(), z, "start of the path")
					sym.Cover("chained")
					continue
				}
				if j > 0 && !changes {
					// degenerate segment: not drawn, or drawn as an empty move
					continue
				}
				sym.Assert((j == 0) == travel, "travel to the first point, extrusion to the others")
				d := m.Step(c)
				m.At(p.X(), p.Y(), z, "points of the path in order")
				if j == 0 {
					sym.Assert(m.F == move*60000000, "travel speed")
					sym.Assert(!c.Has[kit.E], "travel without extrusion")
				} else {
					sym.Assert(m.F == extr*60000000, "extrusion speed")
					sym.Assert(c.Has[kit.E] && d > 0, "extrusion along the path")
				}
				started = true
				i++
			} else {
				sym.Assert(!changes, "a point of the path was not reached")
				m.At(p.X(), p.Y(), z, "end of the path")
			}
		}
		sym.Assert(i == len(cmds), "no further moves")
		used = len(cmds)
	}
	sym.Observe("cmds", used)
}

func main() {
	sym.Main(map[string]func(){"H_moves": H_moves, "H_speeds": H_speeds, "H_polygons": H_polygons})
}
