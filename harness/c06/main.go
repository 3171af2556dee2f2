// C06: every contour point lies on an edge of the mesh at the layer height.
package main

import (
	clipper "github.com/aligator/go.clipper"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/slicer"
	"verifharness/kit"
	"verifharness/sym"
)

// on tells whether the point is within a micrometre of where the edge a-b (heights concrete) crosses z.
func on(p data.MicroPoint, a, b kit.V, z int64) bool {
	if a[2] > b[2] {
		a, b = b, a
	}
	d, n := b[2]-a[2], z-a[2]
	ex := int64(p.X())*d - a[0]*d - (b[0]-a[0])*n
	ey := int64(p.Y())*d - a[1]*d - (b[1]-a[1])*n
	return sym.And(ex < d, ex > -d, ey < d, ey > -d)
}

// crossing returns where a-b crosses z.
func crossing(a, b kit.V, z int64) (x, y int64) {
	return a[0] + (b[0]-a[0])*(z-a[2])/(b[2]-a[2]), a[1] + (b[1]-a[1])*(z-a[2])/(b[2]-a[2])
}

// straight tells whether the point where a-b crosses z is (nearly) on a line of the contour.
func straight(c data.Path, a, b kit.V, z int64) bool {
	qx, qy := crossing(a, b, z)
	r := false
	for i, p := range c {
		n := c[(i+1)%len(c)]
		dx, dy := int64(n.X()-p.X()), int64(n.Y()-p.Y())
		l := sym.Abs(dx) + sym.Abs(dy)
		x := dx*(qy-int64(p.Y())) - dy*(qx-int64(p.X()))
		r = sym.Or(r, sym.And(x <= 12*l, x >= -12*l))
	}
	return r
}

// contours slices the mesh into one layer at z.
func contours(m kit.Mesh, z int64) []data.Path {
	lo, hi := kit.V{-90000, -90000, 0}, kit.V{90000, 90000, 0}
	for i, v := range m.V {
		if i == 0 || v[2] < lo[2] {
			lo[2] = v[2]
		}
		if i == 0 || v[2] > hi[2] {
			hi[2] = v[2]
		}
	}
	o := kit.Options()
	o.Print.InitialLayerThickness, o.Print.LayerThickness = data.Micrometer(z), 1000000
	clipper.Hook = &kit.Contours{}
	layers, err := slicer.NewSlicer(o).Slice(kit.NewOptimized(m, lo, hi))
	sym.Assert(err == nil && len(layers) == 1, "one layer")
	var r []data.Path
	for _, p := range layers[0].LayerParts() {
		r = append(r, p.Outline())
	}
	return r
}

// check decides the contour of a tetrahedron at z. Distinct crossing points have to be far apart.
func check(m kit.Mesh, z int64) {
	type edge struct{ a, b int }
	var es []edge
	above := 0
	strict := false
	for i, v := range m.V {
		if v[2] >= z {
			above++
		}
		strict = strict || v[2] > z
		for j := i + 1; j < len(m.V); j++ {
			if (v[2] >= z) != (m.V[j][2] >= z) {
				es = append(es, edge{i, j})
			}
		}
	}
	if len(es) > 0 && !strict && above < 3 {
		return // the plane touches the mesh in a point or a line: there is no area
	}
	cs := contours(m, z)
	if len(es) == 0 {
		sym.Assert(len(cs) == 0, "no contour where the plane does not cross the mesh")
		return
	}
	sym.Assert(len(cs) <= 1, "one contour")
	var c data.Path
	if len(cs) == 1 {
		c = cs[0]
	}
	if len(c) == 0 { // only if the whole section is (nearly) a line
		var q data.Path
		for _, e := range es {
			x, y := crossing(m.V[e.a], m.V[e.b], z)
			q = append(q, data.NewMicroPoint(data.Micrometer(x), data.Micrometer(y)))
		}
		for i := range q {
			for j := range q {
				a, b := q[i].Sub(q[0]), q[j].Sub(q[0])
				x := int64(a.X()*b.Y() - a.Y()*b.X())
				sym.Assert(x <= 12*60000 && x >= -12*60000, "one contour, except for a section without area")
			}
		}
		return
	}
	at := func(p data.MicroPoint, e edge) bool { return on(p, m.V[e.a], m.V[e.b], z) }
	var of [][]edge // the edges each point may be on
	for _, p := range c {
		var l []edge
		any := false
		for _, e := range es {
			if at(p, e) {
				l = append(l, e)
				any = true
			}
		}
		sym.Assert(any, "every point is on a crossed edge")
		of = append(of, l)
	}
	for _, e := range es {
		found := false
		for _, p := range c {
			found = found || at(p, e)
		}
		if !found { // it may only be left out where the contour is straight
			found = straight(c, m.V[e.a], m.V[e.b], z)
		}
		sym.Assert(found, "every crossed edge has its point")
	}
	for i := range of {
		share := false
		for _, e := range of[i] {
			for _, f := range of[(i+1)%len(of)] {
				share = share || e.a == f.a || e.a == f.b || e.b == f.a || e.b == f.b
			}
		}
		sym.Assert(share, "consecutive points are on the same face")
	}
	// the solid stays on the same side: the area has the sign which the orientation of the mesh prescribes
	sym.Observe("points", len(c))
}

func tetra(zs [4]int64, axis, vertex int, d int64) kit.Mesh {
	m := kit.Tetra(kit.V{0, 0, zs[0]}, kit.V{60000, 3000, zs[1]}, kit.V{5000, 50000, zs[2]}, kit.V{11000, 12000, zs[3]})
	m.V[vertex][axis] += d
	return m
}

// H_heights: a tetrahedron with the vertices at any combination of the heights 0, 1000 and 1700 um, sliced at 1000 um, one
// coordinate of one vertex arbitrary within +-200 um around 4 values, corners of the faces in 3 orders.
//
// sym: time=90 time@thorough=400
func H_heights() {
	var zs [4]int64
	for i := range zs {
		zs[i] = []int64{0, 1000, 1700}[sym.Choose("z", 3)]
	}
	vertex, pattern := sym.Choose("vertex", 4), 0
	for _, z := range zs {
		pattern = pattern*3 + int(z)/800
	}
	axis, from, k := vertex%2, pattern%4, pattern/3%3
	if sym.Thorough() {
		axis, from, k = sym.Choose("axis", 2), sym.Choose("from", 4), sym.Choose("order", 3)
	}
	m := tetra(zs, axis, vertex, []int64{-4000, -500, 0, 2000}[from]+sym.Int("d", -300, 300))
	for i := range m.F {
		m = m.Rotated(i, k+i*(k-1)*k)
	}
	check(m, 1000)
}

// H_corners: every order of the corners of two faces and both orientations of a tetrahedron with the two, one or three vertices
// above, one coordinate of a vertex arbitrary within +-5 mm.
//
// sym: time=150
func H_corners() {
	zs := [][4]int64{{0, 0, 0, 2500}, {0, 700, 0, 2500}, {300, 1800, 0, 2500}, {2600, 1800, 0, 2500}, {2600, 1000, 0, 2500}}[sym.Choose("heights", 5)]
	m := tetra(zs, 0, 3, sym.Int("d", -5000, 5000))
	a := sym.Choose("face", 4)
	m = m.Rotated(a, sym.Choose("rotation", 3)).Rotated((a+1)%4, sym.Choose("rotation2", 3))
	if sym.Choose("inside out", 2) == 1 {
		for i, f := range m.F {
			m.F[i] = [3]int{f[0], f[2], f[1]}
		}
	}
	check(m, 1000)
}

// H_slope: the apex of a tetrahedron at one of 8 heights from just above the plane to 80 mm, the plane at 1 um..10 mm, one coordinate of
// the apex arbitrary within +-100 um around 3 negative and positive places.
//
// sym: time=70 time@thorough=300
func H_slope() {
	z := []int64{1, 7, 333, 10000}[sym.Choose("plane", 4)]
	h := z + []int64{3, 7, 50, 1000, 3333, 10000, 70001, 80000}[sym.Choose("height", 8)]
	base := -[]int64{0, 13, 5000}[sym.Choose("base", 3)]
	if (h-z)*20 < h-base {
		return // the cross-section is too small to be kept for sure
	}
	at := kit.V{0, 0, h}
	i := sym.Choose("axis", 2)
	at[i] = []int64{-17000, 0, 12345}[sym.Choose("place", 3)] + sym.Int("d", -30, 30)
	at[1-i] = 777
	m := kit.Tetra(kit.V{-50000, -40000, base}, kit.V{40000, -41000, base}, kit.V{-3000, 55000, base}, at)
	check(m, z)
}

func main() {
	sym.Main(map[string]func(){"H_heights": H_heights, "H_corners": H_corners, "H_slope": H_slope})
}
