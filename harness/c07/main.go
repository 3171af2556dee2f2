// C07: closed meshes give closed contours; loose pieces are joined and closed only across the snap distances.
package main

import (
	clipper "github.com/aligator/go.clipper"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/slicer"
	"verifharness/kit"
	"verifharness/sym"
)

// slice returns the contours of the mesh at z.
func slice(m kit.Mesh, z int64, o data.Options) []data.Path {
	lo, hi := kit.V{-90000, -90000, 0}, kit.V{90000, 90000, z + 100}
	o.Print.InitialLayerThickness, o.Print.LayerThickness = data.Micrometer(z), 1000000
	clipper.Hook = &kit.Contours{}
	layers, err := slicer.NewSlicer(&o).Slice(kit.NewOptimized(m, lo, hi))
	sym.Assert(err == nil && len(layers) == 1, "one layer")
	var r []data.Path
	for _, p := range layers[0].LayerParts() {
		r = append(r, p.Outline())
	}
	return r
}

type point [2]int64

func near(p data.MicroPoint, q point) bool {
	return sym.And(int64(p.X())-q[0] <= 2, q[0]-int64(p.X()) <= 2, int64(p.Y())-q[1] <= 2, q[1]-int64(p.Y()) <= 2)
}

// straight tells whether q is (nearly) on the line from a to b.
func straight(a, b data.MicroPoint, q point) bool {
	dx, dy := int64(b.X()-a.X()), int64(b.Y()-a.Y())
	l := sym.Abs(dx) + sym.Abs(dy)
	x := dx*(q[1]-int64(a.Y())) - dy*(q[0]-int64(a.X()))
	return sym.And(x <= 15*l, x >= -15*l)
}

// passes asserts that the contour passes exactly once through all the points in their order (or the reversed one), leaving out
// only points where it is straight.
func passes(c data.Path, want []point) {
	var at []int
	for _, p := range c {
		k := -1
		for j, q := range want {
			if (k < 0) && near(p, q) {
				k = j
			}
		}
		sym.Assert(k >= 0, "every point is a crossing of an edge")
		if len(at) == 0 || at[len(at)-1] != k {
			at = append(at, k)
		}
	}
	if len(at) > 1 && at[0] == at[len(at)-1] {
		at = at[:len(at)-1]
	}
	sym.Assert(len(at) >= 3, "the contour has an area")
	n := len(want)
	turns := 0
	for i := range at {
		turns += (at[(i+1)%len(at)] - at[i] + n) % n
	}
	backwards := turns != n
	sym.Assert(!backwards || turns == n*(len(at)-1), "the points are in the order of the faces")
	for i := range at {
		a, b := at[i], at[(i+1)%len(at)]
		if backwards {
			a, b = b, a
		}
		for j := (a + 1) % n; j != b; j = (j + 1) % n {
			sym.Assert(straight(data.NewMicroPoint(data.Micrometer(want[a][0]), data.Micrometer(want[a][1])), data.NewMicroPoint(data.Micrometer(want[b][0]), data.Micrometer(want[b][1])), want[j]), "no crossing is left out")
		}
	}
}

// antiprism has two rings of n vertices and its crossing points at half height all stick out.
func antiprism(n int, at, radius point, lo, hi int64) kit.Mesh {
	dirs := []point{{1000, 0}, {924, 383}, {707, 707}, {383, 924}, {0, 1000}, {-383, 924}, {-707, 707}, {-924, 383}, {-1000, 0}, {-924, -383}, {-707, -707}, {-383, -924}, {0, -1000}, {383, -924}, {707, -707}, {924, -383}}
	step := 16 / n
	var m kit.Mesh
	for k, z := range []int64{lo, hi} {
		for i := 0; i < n; i++ {
			d := dirs[i*step+k*step/2]
			m.V = append(m.V, kit.V{at[0] + d[0]*radius[k]/1000, at[1] + d[1]*radius[k]/1000, z})
		}
	}
	for i := 0; i < n; i++ {
		j := (i + 1) % n
		m.F = append(m.F, [3]int{i, j, n + i}, [3]int{j, n + j, n + i})
	}
	for i := 1; i+1 < n; i++ {
		m.F = append(m.F, [3]int{0, i + 1, i}, [3]int{n, n + i, n + i + 1})
	}
	return m
}

// ring are the crossings of the side faces of an antiprism at z.
func ring(m kit.Mesh, n int, z int64) []point {
	var r []point
	cross := func(a, b kit.V) {
		r = append(r, point{a[0] + (b[0]-a[0])*(z-a[2])/(b[2]-a[2]), a[1] + (b[1]-a[1])*(z-a[2])/(b[2]-a[2])})
	}
	for i := 0; i < n; i++ {
		cross(m.V[i], m.V[n+i])
		cross(m.V[(i+1)%n], m.V[n+i])
	}
	return r
}

// shuffled stores the faces in another order and starts them at other corners.
func shuffled(m kit.Mesh, k int) kit.Mesh {
	n := len(m.F)
	r := kit.Mesh{V: m.V, F: make([][3]int, n)}
	steps := []int{1, n - 1, 0, 0, 0, 0}
	for s, i := 2, 2; s < len(steps); i++ {
		if gcd(i, n) == 1 || i > n {
			steps[s] = i % n
			s++
		}
	}
	st := steps[k%6]
	if st == 0 {
		st = 1
	}
	for i := range r.F {
		f := m.F[(i*st+k*3)%n]
		t := (i*k + k) % 3
		r.F[i] = [3]int{f[t], f[(t+1)%3], f[(t+2)%3]}
	}
	return r
}

func gcd(a, b int) int {
	for b > 0 {
		a, b = b, a%b
	}
	return a
}

// H_orders: an antiprism with 8 side faces with the faces in 12 orders, a coordinate of a vertex of either ring arbitrary within +-400 um.
//
// sym: time=90
func H_orders() {
	m := antiprism(4, point{3000, -2000}, point{20000, 16000}, 0, 4000)
	v := sym.Choose("vertex", 8)
	m.V[v][sym.Choose("axis", 2)] += sym.Int("d", -400, 400)
	cs := slice(shuffled(m, sym.Choose("order", 12)), 1900, *kit.Options())
	sym.Assert(len(cs) == 1, "one contour")
	passes(cs[0], ring(m, 4, 1900))
}

// H_permuted: an antiprism with 6 side faces which are stored in each of the 720 orders.
//
// sym: time=90
func H_permuted() {
	m := antiprism(4, point{3000, -2000}, point{20000, 16000}, 0, 4000)
	side := append([][3]int(nil), m.F[:6]...)
	for i := range side {
		k := sym.Choose("next", len(side)-i) + i
		side[i], side[k] = side[k], side[i]
	}
	r := kit.Mesh{V: m.V, F: append(side, m.F[6:]...)}
	cs := slice(r, 1900, *kit.Options())
	sym.Assert(len(cs) == 1, "one contour")
	passes(cs[0], ring(m, 4, 1900))
}

// H_bodies: two bodies with an arbitrary distance of 1 um..1 mm, faces interleaved in 6 orders: two contours. The second body may also be
// a cavity of the first.
//
// sym: time=90
func H_bodies() {
	a := antiprism(4, point{0, 0}, point{20000, 20000}, 0, 4000)
	d := sym.Int("d", 1, 1000)
	var b kit.Mesh
	if sym.Choose("cavity", 2) == 0 {
		b = antiprism(4, point{30000 + d, 0}, point{10000, 10000}, 0, 4000)
	} else {
		b = antiprism(4, point{d, 0}, point{7000, 6000}, 0, 4000)
		for i, f := range b.F {
			b.F[i] = [3]int{f[0], f[2], f[1]}
		}
	}
	m := shuffled(a.Joined(b), sym.Choose("order", 6))
	cs := slice(m, 2000, *kit.Options())
	sym.Assert(len(cs) == 2, "two contours")
	i := 1
	for _, q := range ring(a, 4, 2000) {
		if near(cs[0][0], q) {
			i = 0
		}
	}
	passes(cs[i], ring(a, 4, 2000))
	passes(cs[1-i], ring(b, 4, 2000))
}

// prism is an upright body over the ring.
func prism(r []point, lo, hi int64) kit.Mesh {
	var m kit.Mesh
	n := len(r)
	for _, z := range []int64{lo, hi} {
		for _, p := range r {
			m.V = append(m.V, kit.V{p[0], p[1], z})
		}
	}
	for i := range r {
		j := (i + 1) % n
		m.F = append(m.F, [3]int{i, j, n + j}, [3]int{i, n + j, n + i})
	}
	for i := 1; i+1 < n; i++ {
		m.F = append(m.F, [3]int{0, i + 1, i}, [3]int{n, n + i, n + i + 1})
	}
	return m
}

// H_flush: a body with a rounded corner of 40 um long faces whose top is exactly at the layer or 1 um..1 mm above it, a far corner
// arbitrary within +-300 um, 6 orders of the faces.
//
// sym: time=120
func H_flush() {
	var r []point
	r = append(r, point{-20000, -15000}, point{0, -15000})
	// a quarter of a circle with a radius of about 1 mm in steps of about 50 um
	x, y := int64(0), int64(-15000)
	for i := int64(0); i < 30; i++ {
		x, y = x+(30-i)*50/30, y+(i+1)*50/30
		r = append(r, point{x, y})
	}
	r = append(r, point{x, 15000}, point{-20000, 15000 + sym.Int("d", -300, 300)})
	m := prism(r, 0, 1000+[]int64{0, 1, 300}[sym.Choose("above", 3)])
	cs := slice(shuffled(m, sym.Choose("order", 6)), 1000, *kit.Options())
	sym.Assert(len(cs) == 1, "one contour")
	passes(cs[0], with(cs[0], r))
}

// with adds the points of the contour which are not in the ring to it: crossings of the diagonals of upright faces, which have to be on the
// line between two neighbours of the ring, at most one on each.
func with(c data.Path, r []point) []point {
	more := map[int]point{}
	for _, p := range c {
		in := false
		for _, q := range r {
			in = in || near(p, q)
		}
		if in {
			continue
		}
		at := -1
		q := point{int64(p.X()), int64(p.Y())}
		for j, a := range r {
			b := r[(j+1)%len(r)]
			if at < 0 && sym.And(between(q[0], a[0], b[0]), between(q[1], a[1], b[1]), straight(micro(a), micro(b), q)) {
				at = j
			}
		}
		sym.Assert(at >= 0, "every point is a crossing of an edge")
		_, twice := more[at]
		sym.Assert(!twice, "every face is passed once")
		more[at] = q
	}
	var k []point
	for j, a := range r {
		k = append(k, a)
		if q, ok := more[j]; ok {
			k = append(k, q)
		}
	}
	return k
}

func micro(p point) data.MicroPoint {
	return data.NewMicroPoint(data.Micrometer(p[0]), data.Micrometer(p[1]))
}

func between(x, a, b int64) bool {
	return sym.Or(sym.And(x >= a-2, x <= b+2), sym.And(x >= b-2, x <= a+2))
}

// walls is an upright strip of faces along the points.
func walls(r []point) kit.Mesh {
	var m kit.Mesh
	n := len(r)
	for _, z := range []int64{0, 2000} {
		for _, p := range r {
			m.V = append(m.V, kit.V{p[0], p[1], z})
		}
	}
	for i := 0; i+1 < n; i++ {
		m.F = append(m.F, [3]int{i, i + 1, n + i + 1}, [3]int{i, n + i + 1, n + i})
	}
	return m
}

func distances() (data.Options, int64, int64) {
	o := *kit.Options()
	join, finish := int64(160), int64(1000)
	switch sym.Choose("distances", 4) {
	case 1:
		join, finish = 500, 300
	case 2:
		join, finish = 1, 2500
	case 3:
		join, finish = 700, 701
	}
	o.Slicing.JoinPolygonSnapDistance, o.Slicing.FinishPolygonSnapDistance = data.Micrometer(join), data.Micrometer(finish)
	return o, join, finish
}

func max(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func turned(m kit.Mesh, on bool) kit.Mesh {
	if on {
		for i, f := range m.F {
			m.F[i] = [3]int{f[0], f[2], f[1]}
		}
	}
	return m
}

// H_gap: a contour with one gap of any size of 15 um..3 mm, 4 pairs of snap distances, both orientations, 3 orders of the faces.
//
// sym: time=60 covers=closed,dropped
func H_gap() {
	o, join, finish := distances()
	d := sym.Int("d", 15, 3000)
	e := []int64{0, 40, -170, 800}[sym.Choose("aside", 4)]
	want := []point{{0, 0}, {20000, -3000}, {21000, 20000}, {1000, 21000}, {e, d}}
	m := turned(walls(want), sym.Choose("inside out", 2) == 1)
	cs := slice(shuffled(m, sym.Choose("order", 3)), 1000, o)
	gap := d*d + e*e
	if len(cs) == 0 {
		sym.Cover("dropped")
		sym.Assert(gap > finish*finish, "a gap within the finish distance is closed")
		return
	}
	sym.Cover("closed")
	sym.Assert(len(cs) == 1, "one contour")
	sym.Assert(gap <= max(join, finish)*max(join, finish), "only gaps within the snap distances are closed")
	passes(cs[0], with(cs[0], want))
}

// H_gaps: a contour in two pieces with gaps of any sizes up to 3 mm, 4 pairs of snap distances, both orientations, both orders of the pieces.
//
// sym: time=90 covers=closed,dropped
func H_gaps() {
	o, join, finish := distances()
	d, e := sym.Int("d", 20, 3000), sym.Int("e", 20, 3000)
	a := []point{{0, 0}, {20000, -3000}, {22000, 10000}}
	b := []point{{22000, 10000 + d}, {20500, 20000}, {1000, 21000}, {0, e}}
	in := sym.Choose("inside out", 2) == 1
	m := turned(walls(a).Joined(walls(b)), in)
	if sym.Choose("second first", 2) == 1 {
		m = turned(walls(b).Joined(walls(a)), in)
	}
	cs := slice(m, 1000, o)
	small, big := d, e
	if d > e {
		small, big = e, d
	}
	if len(cs) == 0 {
		sym.Cover("dropped")
		sym.Assert(sym.Or(small > join, big > max(join, finish)), "gaps within the snap distances are joined and closed")
		return
	}
	sym.Cover("closed")
	sym.Assert(len(cs) == 1, "one contour")
	sym.Assert(sym.And(small <= join, big <= max(join, finish)), "only gaps within the snap distances are joined and closed")
	want := append(append([]point(nil), a...), b...)
	passes(cs[0], with(cs[0], want))
}

// H_reversed: pieces of opposite orientation are not joined, whatever the gaps.
//
// sym: time=30
func H_reversed() {
	o, _, _ := distances()
	d, e := sym.Int("d", 0, 3000), sym.Int("e", 0, 3000)
	first := sym.Choose("first turned", 2) == 1
	a := turned(walls([]point{{0, 0}, {20000, -3000}, {22000, 10000}}), first)
	b := turned(walls([]point{{22000, 10000 + d}, {20500, 20000}, {1000, 21000}, {0, e}}), !first)
	cs := slice(a.Joined(b), 1000, o)
	sym.Assert(len(cs) == 0, "pieces of opposite orientation do not make a contour")
}

// H_nearest: of two pieces of the same number of points whose starts lie within the join distance the nearer one is joined.
//
// sym: time=30 covers=first,second
func H_nearest() {
	o := *kit.Options()
	d, e := sym.Int("d", 0, 160), sym.Int("e", 0, 160)
	sym.Assume(sym.Or(d > e, e > d))
	a := []point{{0, 0}, {20000, -3000}, {22000, 10000}}
	b := []point{{22000, 10000 + d}, {20500, 20000}, {1000, 21000}, {0, 50}}
	c := []point{{22000 + e, 10000}, {25000, 24000}, {-4000, 25000}, {-60, 0}}
	m := walls(a).Joined(walls(b)).Joined(walls(c))
	if sym.Choose("other first", 2) == 1 {
		m = walls(a).Joined(walls(c)).Joined(walls(b))
	}
	cs := slice(m, 1000, o)
	sym.Assert(len(cs) == 1, "one contour")
	has := false
	for _, p := range cs[0] {
		has = has || near(p, point{1000, 21000})
	}
	if has {
		sym.Cover("first")
	} else {
		sym.Cover("second")
	}
	sym.Assert(has == (d < e), "the nearer piece is joined")
}

// H_small: closed contours are retained if and only if they are longer than the finish distance (give or take the rounding of lengths).
//
// sym: time=60 covers=retained,dropped
func H_small() {
	o, _, finish := distances()
	s := finish/4 + sym.Int("d", -100, 100)
	if s < 60 {
		return
	}
	want := []point{{0, 0}, {s, 0}, {s, s}, {0, s}}
	cs := slice(shuffled(prism(want, 0, 2000), sym.Choose("order", 2)), 1000, o)
	if len(cs) == 0 {
		sym.Cover("dropped")
		sym.Assert(4*s <= finish+10, "contours longer than the finish distance are retained")
		return
	}
	sym.Cover("retained")
	sym.Assert(sym.And(len(cs) == 1, 4*s >= finish-10), "contours no longer than the finish distance are dropped")
	passes(cs[0], with(cs[0], want))
}

func main() {
	sym.Main(map[string]func(){"H_orders": H_orders, "H_permuted": H_permuted, "H_bodies": H_bodies, "H_flush": H_flush, "H_gap": H_gap, "H_gaps": H_gaps, "H_reversed": H_reversed, "H_nearest": H_nearest, "H_small": H_small})
}
