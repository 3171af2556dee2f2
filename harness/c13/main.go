// C13: linear infill covers the whole area at the requested spacing and angle.
package main

import (
	clipper "github.com/aligator/go.clipper"
	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
	"verifharness/sym"
)

type um = data.Micrometer

func pt(x, y int64) data.MicroPoint { return data.NewMicroPoint(um(x), um(y)) }

// rot rotates by a multiple of 90 degrees.
func rot(x, y int64, quarter int) (int64, int64) {
	switch (quarter%4 + 4) % 4 {
	case 1:
		return -y, x
	case 2:
		return -x, -y
	case 3:
		return y, -x
	}
	return x, y
}

// near tells if x,y rotated by the degrees is at rx,ry.
func near(x, y int64, degree int, rx, ry int64) bool {
	if degree%90 == 0 {
		x, y = rot(x, y, degree/90)
		return sym.And(x == rx, y == ry)
	}
	// x - y and x + y over the square root of 2, rounded
	var a, b int64
	switch (degree%360 + 360) % 360 {
	case 45:
		a, b = x-y, x+y
	case 135:
		a, b = -x-y, x-y
	case 225:
		a, b = y-x, -x-y
	case 315:
		a, b = x+y, y-x
	}
	return sym.And(root(a, rx), root(b, ry))
}

// root tells if r is a over the square root of 2 up to rounding (coordinates up to 2 m).
func root(a, r int64) bool {
	const half = 70710678
	d := sym.Abs(r*100000000 - a*half)
	return d <= 100000000*3/4
}

// seg is a clipped line: on which line from where to where.
type seg struct {
	line      int
	top, down int64
}

type line struct{ x, y0, y1 int64 }

type model struct {
	lines    []line
	contours []clipper.Path
	segs     []seg
	fail     int // the call which fails
	calls    int
	asked    [][]int64 // tested connections
	crossing []bool
}

func contour(p clipper.Path) [][2]int64 {
	var r [][2]int64
	for _, q := range p {
		r = append(r, [2]int64{int64(q.X), int64(q.Y)})
	}
	return r
}

// Clip implements clipper.Model.
func (m *model) Clip(added []clipper.Added, op clipper.ClipType, sf, cf clipper.PolyFillType, rev bool) (*clipper.PolyTree, bool) {
	m.calls++
	var open, closed []clipper.Path
	for _, a := range added {
		if a.Closed {
			sym.Assert(a.Type == clipper.PtClip, "the area is what clips")
			closed = append(closed, a.Path)
		} else {
			sym.Assert(a.Type == clipper.PtSubject, "lines are clipped")
			sym.Assert(len(a.Path) == 2, "lines have two points")
			open = append(open, a.Path)
		}
	}
	sym.Assert(cf == clipper.PftEvenOdd, "holes are not part of the area")
	if m.calls == 1 {
		sym.Assert(op == clipper.CtIntersection, "lines are clipped to the area")
		m.contours = closed
		for _, l := range open {
			sym.Assert(l[0].X == l[1].X, "lines are parallel")
			a, b := int64(l[0].Y), int64(l[1].Y)
			m.lines = append(m.lines, line{int64(l[0].X), sym.Ite(a < b, a, b), sym.Ite(a < b, b, a)})
		}
	} else {
		sym.Assert(op == clipper.CtDifference, "what remains of a connection outside of the area")
		sym.Assert(len(open) == 1, "one connection is tested")
		sym.Assert(len(closed) == len(m.contours), "connections are tested against the area")
		for _, c := range closed {
			n := 0
			for _, d := range m.contours {
				x, y := contour(c), contour(d)
				same := len(x) == len(y)
				for i := range x {
					same = same && x[i] == y[i]
				}
				if same {
					n++
				}
			}
			sym.Assert(n == 1, "connections are tested against the contours of the area")
		}
	}
	if m.calls == m.fail {
		return nil, false
	}
	t := clipper.NewTree()
	if m.calls == 1 {
		var ns []*clipper.PolyNode
		for _, s := range m.segs {
			sym.Assume(s.line < len(m.lines))
			l := m.lines[s.line]
			sym.Assume(sym.And(l.y0 <= s.down, s.down < s.top, s.top <= l.y1))
			ns = append(ns, clipper.NewNode(clipper.Path{{X: clipper.CInt(l.x), Y: clipper.CInt(s.top)}, {X: clipper.CInt(l.x), Y: clipper.CInt(s.down)}}, true))
		}
		return clipper.NewTree(ns...), true
	}
	q := open[0]
	m.asked = append(m.asked, []int64{int64(q[0].X), int64(q[0].Y), int64(q[1].X), int64(q[1].Y)})
	crossing := sym.Bool("crossing")
	m.crossing = append(m.crossing, crossing)
	if crossing {
		return clipper.NewTree(clipper.NewNode(q, true)), true
	}
	return t, true
}

// Offset implements clipper.Model.
func (m *model) Offset(added []clipper.OffsetAdded, delta, miter float64) *clipper.PolyTree {
	sym.Assert(false, "the area is not resized")
	return nil
}

func coords(p data.Path) [][2]int64 {
	var r [][2]int64
	for _, q := range p {
		r = append(r, [2]int64{int64(q.X()), int64(q.Y())})
	}
	return r
}

// area is an outline with a hole.
type area struct {
	outline, hole data.Path
	o, h          [][2]int64
}

func square(name string, x, y, size int64) data.Path {
	return data.Path{pt(x, y), pt(x+size, y), pt(x+size, y+size), pt(x, y+size)}
}

func newArea(x, y, size int64) *area {
	a := &area{outline: square("outline", x, y, size), hole: square("hole", x+100, y+200, 300)}
	a.o, a.h = coords(a.outline), coords(a.hole)
	return a
}

func (a *area) part() data.LayerPart { return data.NewBasicLayerPart(a.outline, data.Paths{a.hole}) }

func (a *area) unchanged() {
	for k, p := range []data.Path{a.outline, a.hole} {
		was := [][][2]int64{a.o, a.h}[k]
		now := coords(p)
		sym.Assert(len(now) == len(was), "the area is left unchanged")
		for i := range now {
			sym.Assert(sym.And(now[i][0] == was[i][0], now[i][1] == was[i][1]), "the area is left unchanged")
		}
	}
}

// clipped checks that the area rotated by the degrees is what the lines are clipped to.
func (a *area) clipped(m *model, degree int) {
	sym.Assert(len(m.contours) == 2, "the lines are clipped to the outline and the hole")
	for k, was := range [][][2]int64{a.o, a.h} {
		found := false
		for _, c := range m.contours {
			now := contour(c)
			if len(now) != len(was) {
				continue
			}
			same := true
			for i := range now {
				same = sym.And(same, near(was[i][0], was[i][1], degree, now[i][0], now[i][1]))
			}
			found = sym.Or(found, same)
		}
		sym.Assert(found, []string{"the outline is rotated as the lines", "the hole is rotated as the lines"}[k])
	}
}

// filled is an infill of an area of which nothing is left (straight: the lines are not to be turned).
type filled struct {
	m    *model
	d    int // the rotation in force
	dist int64
}

func fill(degree int, dist, minx, miny, maxx, maxy int64, straight, modes bool, a *area) *filled {
	zigzag, fail := false, 0
	if modes {
		zigzag, fail = sym.Choose("zigzag", 2) == 1, sym.Choose("fail", 2)
	}
	rect := sym.Choose("rectlinear", 2) == 1
	odd := 1
	if !straight || !rect {
		odd = sym.Choose("odd", 2)
	}
	layer := int(sym.Int("layer", 0, 50000))*2 + odd
	width := sym.Int("width", 50, 1000)
	// at most 6 lines in every direction
	sym.Assume((maxx-minx)+(maxy-miny) < 6*dist)
	m := &model{fail: fail}
	clipper.Hook = m
	part := a.part()
	paths, err := clip.NewLinearPattern(um(width), um(dist), pt(minx, miny), pt(maxx, maxy), degree, rect, zigzag).Fill(layer, part)
	sym.Assert(m.calls == 1, "the lines are clipped once")
	if m.fail == 1 {
		sym.Cover("failed")
		sym.Assert(err != nil, "a failing clipper is reported")
	} else {
		sym.Assert(err == nil, "no error without reason")
		sym.Assert(len(paths) == 0, "nothing if nothing is left of the lines")
	}
	a.unchanged()
	d := degree
	if rect && layer%2 == 0 {
		sym.Cover("turned")
		d += 90
	}
	a.clipped(m, d)
	n := len(m.lines)
	sym.Assert(n > 0, "there are lines")
	switch n {
	case 1:
		sym.Cover("line1")
	case 2:
		sym.Cover("line2")
	case 5:
		sym.Cover("line5")
	case 6:
		sym.Cover("line6")
	}
	for i := 1; i < n; i++ {
		sym.Assert(m.lines[i].x-m.lines[i-1].x == dist, "one line every line distance")
	}
	return &filled{m, d, dist}
}

// straight checks the lines for a rotation by a multiple of 90 degrees.
func (f *filled) straight(minx, miny, maxx, maxy int64) {
	x0, y0 := rot(minx, miny, f.d/90)
	x1, y1 := rot(maxx, maxy, f.d/90)
	if x0 > x1 {
		x0, x1 = x1, x0
	}
	if y0 > y1 {
		y0, y1 = y1, y0
	}
	n := len(f.m.lines)
	sym.Assert(f.m.lines[0].x == x0, "the lines start at one side")
	sym.Assert(sym.And(f.m.lines[n-1].x <= x1, f.m.lines[n-1].x+f.dist > x1), "the lines reach the other side")
	for _, l := range f.m.lines {
		sym.Assert(sym.And(l.y0 <= y0, l.y1 >= y1), "the lines span the box")
	}
}

// H_lines decides which lines are clipped by what without rotation: one every line distance (any of 50 um..5 mm) over the
// bounding box, which like the area is anywhere within 0.5 m, with at most 6 lines.
//
// sym: covers=line1,line2,line6,failed merge=off
func H_lines() {
	dist := sym.Int("distance", 50, 5000)
	minx, miny := sym.Int("min x", -500000, 500000), sym.Int("min y", -500000, 500000)
	maxx, maxy := sym.Int("max x", -500000, 500000), sym.Int("max y", -500000, 500000)
	sym.Assume(sym.And(minx <= maxx, miny <= maxy))
	a := newArea(sym.Int("area x", -500000, 500000), sym.Int("area y", -500000, 500000), sym.Int("size", 1000, 100000))
	f := fill(0, dist, minx, miny, maxx, maxy, true, true, a)
	f.straight(minx, miny, maxx, maxy)
}

// H_turned is the same for multiples of 45 degrees, each with and without the additional 90 degrees of even layers, and line
// distances of 0.43, 1 and 2.5 mm, where one of the sides of the box varies by
// 40 um from 3 (thorough: 12) places within 1.5 mm, or the area by 0.1 mm from 2 places within 10 cm.
//
// sym: time@thorough=600 covers=line1,line2,line5,turned,failed merge=off
func H_turned() {
	degree := []int{0, 45, 90, 135, 180, -45, -90, 225, 270}[sym.Choose("degree", 9)]
	dist := []int64{1000, 430, 2500}[sym.Choose("distance", 3)]
	box := [4]int64{-700, 1300, 900, 1700}
	place := [2]int64{-2000, 3000}
	k := sym.Choose("vary", 3)
	modes := k < 2
	if k == 2 {
		v := []int64{0, 420, 1400}[sym.Choose("from", 3)] + sym.Int("place", 0, 40)
		if sym.Thorough() {
			v += 100 * int64(sym.Choose("place/100", 4))
		}
		if side := sym.Choose("side", 4); side < 2 {
			box[side] -= v
		} else {
			box[side] += v
		}
	} else {
		place[k] = []int64{-100000, 70000}[sym.Choose("from", 2)] + sym.Int("area", 0, 100)
	}
	a := newArea(place[0], place[1], 5000)
	minx, miny, maxx, maxy := box[0], box[1], box[2], box[3]
	f := fill(degree, dist, minx, miny, maxx, maxy, false, modes, a)
	if f.d%90 == 0 {
		f.straight(minx, miny, maxx, maxy)
		return
	}
	var ax0, ax1, ay0, ay1 int64
	diff0, diff1 := minx-maxy, maxx-miny // x - y
	sum0, sum1 := minx+miny, maxx+maxy   // x + y
	switch (f.d%360 + 360) % 360 {
	case 45:
		ax0, ax1, ay0, ay1 = diff0, diff1, sum0, sum1
	case 135:
		ax0, ax1, ay0, ay1 = -sum1, -sum0, diff0, diff1
	case 225:
		ax0, ax1, ay0, ay1 = -diff1, -diff0, -sum1, -sum0
	case 315:
		ax0, ax1, ay0, ay1 = sum0, sum1, -diff1, -diff0
	}
	const half = 70710678
	const scale = 100000000
	n := len(f.m.lines)
	sym.Assert(root(ax0, f.m.lines[0].x), "the lines start at one side")
	sym.Assert(sym.And(f.m.lines[n-1].x*scale <= ax1*half+scale, (f.m.lines[n-1].x+dist)*scale > ax1*half-scale), "the lines reach the other side")
	for _, l := range f.m.lines {
		sym.Assert(sym.And(l.y0*scale <= ay0*half+scale, l.y1*scale >= ay1*half-scale), "the lines span the box")
	}
}

// H_one decides what becomes of one clipped line: rotation back and shortening.
// sym: covers=short,shortened,plain
func H_one() {
	degree := []int{0, 45, 90, -45, 135, 180}[sym.Choose("degree", 6)]
	zigzag := sym.Choose("zigzag", 2) == 1
	rect := sym.Choose("rectlinear", 2) == 1
	layer := sym.Choose("layer", 2)
	width := []int64{400, 355}[sym.Choose("width", 2)]
	a := newArea(-20000, -30000, 60000)
	m := &model{}
	s := seg{line: sym.Choose("line", 3), top: sym.Int("top", -200000, 200000), down: sym.Int("down", -200000, 200000)}
	m.segs = []seg{s}
	clipper.Hook = m
	paths, err := clip.NewLinearPattern(um(width), 30000, pt(-20000, -30000), pt(40000, 30000), degree, rect, zigzag).Fill(layer, a.part())
	sym.Assert(err == nil, "no error without reason")
	a.unchanged()
	sym.Assert(len(paths) == 1 && len(paths[0]) == 2, "the clipped line comes back once")
	d := degree
	if rect && layer == 0 {
		d += 90
	}
	x := m.lines[s.line].x
	p, q := coords(paths[0])[0], coords(paths[0])[1]
	is := func(top, down int64) bool {
		return sym.Or(
			sym.And(near(x, top, -d, p[0], p[1]), near(x, down, -d, q[0], q[1])),
			sym.And(near(x, down, -d, p[0], p[1]), near(x, top, -d, q[0], q[1])))
	}
	if !zigzag {
		sym.Cover("plain")
		sym.Assert(is(s.top, s.down), "the clipped line comes back rotated")
		return
	}
	cut := width / 2
	switch {
	case s.top-s.down > width:
		sym.Cover("shortened")
		sym.Assert(is(s.top-cut, s.down+cut), "the clipped line comes back shortened by half a line width at both ends")
	default:
		sym.Cover("short")
		sym.Assert(sym.Or(is(s.top, s.down), is(s.top-cut, s.down+cut)), "a short line stays within its place")
	}
}

func sq(x int64) int64 { return x * x }

// order checks what came back for the segments; cut is the amount the lines are shortened.
func order(m *model, paths data.Paths, cut, limit int64, zigzag bool, back func(x, y int64) (int64, int64)) {
	type end struct{ x, y int64 }
	var ends [][2]end
	for _, s := range m.segs {
		x := m.lines[s.line].x
		ends = append(ends, [2]end{{x, s.top - cut}, {x, s.down + cut}})
	}
	used := make([]bool, len(ends))
	var last end
	prev := -1    // the preceding line
	prevDir := -1 // 0: drawn from the top downwards
	asked := 0
	var connection []end
	nr := 0
	for _, p := range paths {
		sym.Assert(len(p) == 2, "lines have two points")
		var e [2]end
		for i, c := range coords(p) {
			x, y := back(c[0], c[1])
			e[i] = end{x, y}
		}
		at, dir := -1, 0
		for i := range ends {
			if used[i] || at >= 0 || e[0].x != ends[i][0].x || e[1].x != ends[i][0].x {
				continue
			}
			if e[0].y == ends[i][0].y && e[1].y == ends[i][1].y {
				at, dir = i, 0
			} else if e[1].y == ends[i][0].y && e[0].y == ends[i][1].y {
				at, dir = i, 1
			}
		}
		if at < 0 {
			sym.Assert(zigzag, "every line comes back once, without any other")
			sym.Assert(prev >= 0 && connection == nil, "a connection is between two lines")
			sym.Assert(e[0] == last, "a connection starts where the line before ends")
			connection = []end{e[0], e[1]}
			continue
		}
		used[at] = true
		nr++
		if prev >= 0 {
			if connection != nil {
				sym.Cover("connected")
				sym.Assert(connection[1] == e[0], "a connection ends where the next line starts")
			}
			if zigzag {
				dx, dy := e[0].x-last.x, e[0].y-last.y
				close := sq(dx)+sq(dy) <= limit*limit
				crossing := false
				for k, q := range m.asked {
					if q[0] == last.x && q[1] == last.y && q[2] == e[0].x && q[3] == e[0].y {
						crossing = m.crossing[k]
						asked++
						break
					}
				}
				sym.Assert((connection != nil) == (close && !crossing), "line ends are connected exactly if they are near and the connection does not leave the area")
				if connection != nil {
					sym.Assert(asked > 0, "connections are tested")
				}
			}
			// the nearest one on the side where the line before started, or where it ended
			sym.Assert(dir != prevDir, "lines are drawn in turns")
			ok := false
			for side := 0; side < 2; side++ {
				nearest := true
				a := ends[prev][side]
				b := ends[at][side]
				for i := range ends {
					if used[i] {
						continue
					}
					c := ends[i][side]
					// up to the rounding of distances
					nearest = sym.And(nearest, closer(b.x-a.x, b.y-a.y, c.x-a.x, c.y-a.y))
				}
				ok = sym.Or(ok, nearest)
			}
			sym.Assert(ok, "the nearest line is the next one")
		}
		connection = nil
		prev, prevDir, last = at, dir, e[1]
	}
	sym.Assert(connection == nil, "a connection is between two lines")
	sym.Assert(nr == len(ends), "every line comes back once, without any other")
}

// closer tells if the first vector is not longer than the second by more than 2 um.
func closer(ax, ay, bx, by int64) bool {
	// |a| <= |b| + 2, without a root: |a|^2 <= |b|^2 + 4|b| + 4, where |b| is estimated by its larger coordinate from below
	l := sym.Ite(sym.Abs(bx) > sym.Abs(by), sym.Abs(bx), sym.Abs(by))
	return sq(ax)+sq(ay) <= sq(bx)+sq(by)+4*l+4
}

// sorted fills an area with n segments, one of which is anywhere on its line.
func sorted(n int, zigzag bool) {
	const dist, width = 1000, 400
	a := newArea(0, 0, 4000)
	m := &model{}
	free := sym.Choose("free", n)
	for i := 0; i < n; i++ {
		s := seg{line: sym.Choose("line", 3)}
		if i == free {
			s.top, s.down = sym.Int("top", 0, 4000), sym.Int("down", 0, 4000)
			if sym.Choose("fixed end", 2) == 1 {
				sym.Assume(s.top == 3100)
				s.top = 3100
			} else {
				sym.Assume(s.down == 700)
				s.down = 700
			}
			sym.Assume(s.top-s.down > width)
		} else {
			y := [][2]int64{{4000, 0}, {1200, 0}, {4000, 1700}}[sym.Choose("heights", 3)]
			s.top, s.down = y[0], y[1]
		}
		for _, o := range m.segs {
			if o.line == s.line {
				sym.Assume(sym.Or(s.top < o.down, o.top < s.down))
			}
		}
		m.segs = append(m.segs, s)
	}
	clipper.Hook = m
	paths, err := clip.NewLinearPattern(width, dist, pt(0, 0), pt(4000, 4000), 0, false, zigzag).Fill(1, a.part())
	sym.Assert(err == nil, "no error without reason")
	cut := int64(0)
	if zigzag {
		cut = width / 2
	}
	order(m, paths, cut, width+2*dist, zigzag, func(x, y int64) (int64, int64) { return x, y })
	a.unchanged()
}

// H_sort2 decides the order and connections of two lines.
// sym: covers=connected merge=off
func H_sort2() { sorted(2, true) }

// H_sort3 decides the order and connections of three lines.
// sym: covers=connected merge=off
func H_sort3() { sorted(3, true) }

// H_plain decides the order of three lines without zig zag.
// sym: merge=off
func H_plain() { sorted(3, false) }

func main() {
	sym.Main(map[string]func(){"H_lines": H_lines, "H_turned": H_turned, "H_one": H_one, "H_sort2": H_sort2, "H_sort3": H_sort3, "H_plain": H_plain})
}
