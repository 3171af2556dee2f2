// C14: path simplification keeps the shape within tolerance.
package main

import (
	"github.com/aligator/goslice/data"
	"verifharness/sym"
)

type um = data.Micrometer

type pt struct{ x, y int64 }

func path(ps []pt) data.Path {
	var r data.Path
	for _, p := range ps {
		r = append(r, data.NewMicroPoint(um(p.x), um(p.y)))
	}
	return r
}

// kept returns which of the points in are in out, which has to be a subsequence of them.
func kept(in data.Path, ps []pt, out data.Path) []int {
	var r []int
	i := 0
	for _, o := range out {
		same := i
		for same < len(in) && in[same] != o {
			same++
		}
		if same < len(in) {
			i = same
		}
		for i < len(in) && in[i] != o && !(int64(o.X()) == ps[i].x && int64(o.Y()) == ps[i].y) {
			i++
		}
		sym.Assert(i < len(in), "the result is a subsequence of the points")
		r = append(r, i)
		i++
	}
	return r
}

func unchanged(in data.Path, orig data.Path, ps []pt) {
	sym.Assert(len(in) == len(ps), "the path keeps its length")
	for i, p := range ps {
		sym.Assert(sym.And(int64(in[i].X()) == p.x, int64(in[i].Y()) == p.y), "the input path is not modified")
	}
}

func cross(a, b, p pt) int64 { return (b.x-a.x)*(p.y-a.y) - (b.y-a.y)*(p.x-a.x) }
func dist2(a, b pt) int64    { return (b.x-a.x)*(b.x-a.x) + (b.y-a.y)*(b.y-a.y) }

// smooth checks DouglasPeucker on the given points.
func smooth(ps []pt, ep int64) {
	in := path(ps)
	orig := append(data.Path{}, in...)
	out := data.DouglasPeucker(in, um(ep))
	unchanged(in, orig, ps)
	if ep == -1 {
		ep = 70
	}
	k := kept(in, ps, out)
	sym.Observe("n", len(k))
	if len(ps) <= 2 {
		sym.Assert(len(k) == len(ps), "short paths stay")
		return
	}
	sym.Assert(len(k) >= 2 && k[0] == 0 && k[len(k)-1] == len(ps)-1, "first and last point are kept")
	for j := 0; j+1 < len(k); j++ {
		a, b := ps[k[j]], ps[k[j+1]]
		for i := k[j] + 1; i < k[j+1]; i++ {
			if j > 0 || len(k) > 2 {
				sym.Cover("some")
			}
			c, d := cross(a, b, ps[i]), dist2(a, b)
			sym.Assert(sym.Ite(d == 0, dist2(a, ps[i]), sym.Ite(c*c < ep*d, 0, ep)) < ep, "a dropped point is closer to the simplified path than the threshold")
		}
	}
}

// H_smooth: open paths of 0..4 (thorough 5) points at fixed x, 10 um, 0.5 mm or 20 mm apart, with arbitrary y of the inner
// points within +-100 (up to 3 points also +-60 mm), and the default threshold.
//
// sym: time=200 time@thorough=500 covers=some
func H_smooth() {
	n := sym.Choose("points", 5)
	if sym.Thorough() {
		n = sym.Choose("points", 6)
	}
	step := []int64{10, 500, 20000}[sym.Choose("step", 3)]
	lim := int64(100)
	if n <= 3 {
		lim = []int64{100, 3000, 60000}[sym.Choose("range", 3)]
	}
	var ps []pt
	for i := 0; i < n; i++ {
		y := int64(0)
		if i > 0 && i < n-1 {
			y = sym.Int("y", -lim, lim)
		}
		ps = append(ps, pt{int64(i) * step, y})
	}
	smooth(ps, -1)
}

// H_smoothAny: paths of 3 points with one arbitrary point within +-10 mm in the middle or of arbitrary y at an end of it, also closed ones and ones
// with equal points, with the default threshold, for two pairs of other points also an arbitrary one 1..10^6.
//
// sym: time=200 time@thorough=500
func H_smoothAny() {
	ep := int64(-1)
	all := [][2]pt{{{0, 0}, {1000, 0}}, {{-300, 50}, {-300, 50}}, {{-7000, 10}, {9000, 500}}, {{5, 5}, {5, 10000}}}
	which := sym.Choose("ends", 4)
	ends := all[which]
	if which < 2 && sym.Choose("threshold", 2) == 1 {
		ep = sym.Int("threshold", 1, 1000000)
	}
	where := sym.Choose("where", 3)
	any := pt{1003, sym.Int("y", -10000, 10000)}
	if where == 0 {
		any.x = sym.Int("x", -10000, 10000)
	}
	switch where {
	case 0:
		smooth([]pt{ends[0], any, ends[1]}, ep)
	case 1:
		smooth([]pt{any, ends[0], ends[1]}, ep)
	case 2:
		smooth([]pt{ends[0], ends[1], any}, ep)
	}
}

// simplify checks Simplify on the given closed path.
func simplify(ps []pt, small, allowed int64) {
	in := path(ps)
	orig := append(data.Path{}, in...)
	out := in.Simplify(um(small), um(allowed))
	unchanged(in, orig, ps)
	if small == -1 {
		small = 100
	}
	if allowed == -1 {
		allowed = 25
	}
	n := len(ps)
	if n <= 2 {
		sym.Assert(len(out) == 0, "a path without area vanishes")
		return
	}
	k := kept(in, ps, out)
	sym.Observe("n", len(k))
	if n == 3 {
		sym.Assert(len(k) == 3, "triangles stay")
		return
	}
	prev, j := n-1, 0
	area := ps[prev].x*ps[0].y - ps[prev].y*ps[0].x // twice the area between the origin and the path since prev
	for i := range ps {
		next := (i + 1) % n
		if i == n-1 && j > 1 {
			next = k[0]
		}
		p, c, q := ps[prev], ps[i], ps[next]
		edge := c.x*q.y - c.y*q.x
		area += edge
		if j < len(k) && k[j] == i {
			prev, area = i, edge
			j++
			continue
		}
		sym.Cover("dropped")
		l := area + q.x*p.y - q.y*p.x
		base := dist2(p, q)
		cr := cross(p, q, c)
		tiny := sym.And(dist2(p, c) < small, dist2(c, q) < small)
		straight := sym.And(l*l < 26*base, cr*cr < 26*base)
		sym.Assert(sym.Or(base == 0, tiny, straight), "a dropped point has two short segments or is nearly on the line between its neighbours")
		sym.Assert(sym.Or(base == 0, straight, l*l < (allowed+1)*base), "dropping a point cuts off less than the tolerance")
	}
}

// H_simplify: closed paths of 0..4 points, 3 at fixed places and one at 4 fixed x (or y) and arbitrary y (or x) within +-30 mm, the default tolerances or
// arbitrary ones up to 10^4.
//
// sym: time=200 time@thorough=500 covers=dropped
func H_simplify() {
	small, allowed := int64(-1), int64(-1)
	if sym.Choose("tolerance", 2) == 1 {
		small, allowed = sym.Int("small", 0, 10000), sym.Int("allowed", 0, 10000)
	}
	fixed := [][]pt{
		{{0, 0}, {20000, 0}, {20000, 20000}},
		{{0, 0}, {9, 0}, {9, 4}},
		{{-7, 3}, {0, 0}, {20000, 5}},
		{{1000, 1000}, {2000, 1000}, {2005, 1006}},
	}[sym.Choose("fixed", 4)]
	n := sym.Choose("points", 5)
	if n < 4 {
		simplify(fixed[:n], small, allowed)
		return
	}
	any := pt{[]int64{-3, 4, 1002, 20003}[sym.Choose("x", 4)], sym.Int("y", -30000, 30000)}
	if sym.Choose("turned", 2) == 1 {
		any.x, any.y = any.y, any.x
	}
	var ps []pt
	at := sym.Choose("where", 4)
	for i := 0; i < 4; i++ {
		if i == at {
			ps = append(ps, any)
		}
		if i < 3 {
			ps = append(ps, fixed[i])
		}
	}
	simplify(ps, small, allowed)
}

// H_chain: closed paths whose points are dropped one after the other: a big square with 2 (thorough 3) further points at fixed x and
// arbitrary y within +-12, 5, 8, 300 or 600 um apart on one side, going straight on or back.
//
// sym: time=200 time@thorough=500 covers=dropped
func H_chain() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	step := []int64{5, 8, 300, 600}[sym.Choose("step", 4)]
	ps := []pt{{0, 0}}
	for i := 1; i <= n; i++ {
		ps = append(ps, pt{int64(i) * step, sym.Int("y", -12, 12)})
	}
	switch sym.Choose("then", 3) {
	case 0: // straight on
		ps = append(ps, pt{int64(n+1) * step, 0})
	case 1: // and back
		ps = append(ps, pt{5, []int64{-9, -3, 0, 2, 5, 10}[sym.Choose("y", 6)]})
	}
	ps = append(ps, pt{5000, 2000}, pt{0, 2000})
	simplify(ps, -1, -1)
}

func main() {
	sym.Main(map[string]func(){"H_smooth": H_smooth, "H_smoothAny": H_smoothAny, "H_simplify": H_simplify, "H_chain": H_chain})
}
