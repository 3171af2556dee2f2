// C03: touching faces of the optimized model are the edge neighbours.
package main

import (
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/optimizer"
	"verifharness/kit"
	"verifharness/sym"
)

func optimize(ts []kit.Tri, lo, hi kit.V, meld int64) data.OptimizedModel {
	o := kit.Options()
	o.Slicing.MeldDistance = data.Micrometer(meld)
	om, err := optimizer.NewOptimizer(o).Optimize(kit.NewModel(ts, lo, hi))
	sym.Assert(err == nil, "no error")
	return om
}

func same(a, b kit.V) bool { return sym.And(a[0] == b[0], a[1] == b[1], a[2] == b[2]) }

func has(t kit.Tri, p kit.V) bool { return sym.Or(same(t[0], p), same(t[1], p), same(t[2], p)) }

// check decides the touching relation of all faces from their points; closed tells that every edge has exactly two faces.
func check(om data.OptimizedModel, closed bool) {
	n := om.FaceCount()
	var ts []kit.Tri
	var touch [][3]int
	for i := 0; i < n; i++ {
		p := om.OptimizedFace(i).Points()
		ts = append(ts, kit.Tri{kit.Of(p[0]), kit.Of(p[1]), kit.Of(p[2])})
		touch = append(touch, om.OptimizedFace(i).TouchingFaceIndices())
	}
	for i := 0; i < n; i++ {
		for e := 0; e < 3; e++ {
			a, b := ts[i][e], ts[i][(e+1)%3]
			t := touch[i][e]
			sym.Assert(t >= -1 && t < n && t != i, "the index of another face or -1")
			if t == -1 {
				for j := 0; j < n; j++ {
					if j != i {
						sym.Assert(!sym.And(has(ts[j], a), has(ts[j], b)), "no touching face only if no other face has both ends of the edge")
					}
				}
				sym.Assert(!closed, "complete on a closed mesh")
				continue
			}
			sym.Assert(sym.And(has(ts[t], a), has(ts[t], b)), "the touching face has both ends of the edge")
			if closed {
				sym.Assert(touch[t][0] == i || touch[t][1] == i || touch[t][2] == i, "symmetric on a closed mesh")
			}
		}
	}
	for i := 0; i < n; i++ {
		sym.Assert(om.OptimizedFace(i).TouchingFaceIndices() == touch[i], "asking changes nothing")
	}
}

// turned rotates the corners of every face by an amount derived from k and optionally reverses or rotates the order of the faces.
func turned(m kit.Mesh, k int) kit.Mesh {
	for i := range m.F {
		m = m.Rotated(i, (k+i*k)%3)
	}
	switch k % 4 {
	case 1:
		for i := 0; i < len(m.F)/2; i++ {
			m = m.Swapped(i, len(m.F)-1-i)
		}
	case 2:
		for i := 1; i < len(m.F); i++ {
			m = m.Swapped(0, i)
		}
	case 3:
		for i := 0; i+2 < len(m.F); i += 2 {
			m = m.Swapped(i, i+2)
		}
	}
	return m
}

// H_closed: closed meshes (tetrahedron, box, two boxes, an octahedron) with faces and corners in 12 different orders, one of the
// vertices at an arbitrary place within +-10 mm along an axis.
//
// sym: time=150 covers=closed
func H_closed() {
	var m kit.Mesh
	shape := sym.Choose("shape", 4)
	switch shape {
	case 0:
		m = kit.Tetra(kit.V{0, 0, 0}, kit.V{50000, 0, 0}, kit.V{0, 50000, 0}, kit.V{20000, 20000, 50000})
	case 1:
		m = kit.Box(kit.V{0, 0, 0}, kit.V{50000, 60000, 70000})
	case 2:
		m = kit.Box(kit.V{0, 0, 0}, kit.V{50000, 60000, 70000})
		o := kit.Box(kit.V{90000, 0, 0}, kit.V{120000, 60000, 70000})
		for _, f := range o.F {
			m.F = append(m.F, [3]int{f[0] + 8, f[1] + 8, f[2] + 8})
		}
		m.V = append(m.V, o.V...)
	case 3:
		m = kit.Mesh{V: []kit.V{{30000, 0, 0}, {0, 30000, 0}, {-30000, 0, 0}, {0, -30000, 0}, {0, 0, 40000}, {0, 0, -40000}},
			F: [][3]int{{0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}, {1, 0, 5}, {2, 1, 5}, {3, 2, 5}, {0, 3, 5}}}
	}
	order := sym.Choose("order", 12)
	if order > 3 && shape != 0 && shape != 3 {
		order = order % 4
	}
	m = turned(m, order)
	lo, hi := kit.Bounds(m.Tris())
	v := []int{0, 3, 6}[sym.Choose("vertex", 3)]
	if v < len(m.V) {
		m.V[v][sym.Choose("axis", 3)] += sym.Int("d", -10000, 10000)
	}
	for i := range lo {
		lo[i], hi[i] = lo[i]-10000, hi[i]+10000
	}
	om := optimize(m.Tris(), lo, hi, []int64{30, 0}[sym.Choose("meld", 2)])
	sym.Assert(om.FaceCount() == len(m.F), "all faces stay")
	sym.Cover("closed")
	check(om, true)
}

// H_cracks: a tetrahedron or box where one corner of one face is displaced by up to 70 um along an axis, so that it is welded or not.
//
// sym: time=150 covers=closed,open
func H_cracks() {
	var m kit.Mesh
	if sym.Choose("shape", 2) == 0 {
		m = kit.Tetra(kit.V{0, 0, 0}, kit.V{50000, 0, 0}, kit.V{0, 50000, 0}, kit.V{20000, 20000, 50000})
	} else {
		m = kit.Box(kit.V{0, 0, 0}, kit.V{50000, 60000, 70000})
	}
	m = turned(m, sym.Choose("order", 4))
	ts := m.Tris()
	lo, hi := kit.Bounds(ts)
	for i := range lo {
		lo[i], hi[i] = lo[i]-100, hi[i]+100
	}
	f := []int{0, 1, 3, 7}[sym.Choose("face", 4)]
	if f >= len(ts) {
		return
	}
	ts[f][sym.Choose("corner", 3)][sym.Choose("axis", 3)] += sym.Int("d", -70, 70)
	om := optimize(ts, lo, hi, 30)
	sym.Assert(om.FaceCount() == len(ts), "all faces stay")
	open := false
	for i := range ts {
		for _, t := range om.OptimizedFace(i).TouchingFaceIndices() {
			open = open || t < 0
		}
	}
	if open {
		sym.Cover("open")
	} else {
		sym.Cover("closed")
	}
	check(om, false)
}

// H_open: open and non-manifold meshes: fans of 1..5 faces around an edge, strips with missing faces, faces which touch in a vertex
// only, faces dropped while optimizing before and after; one vertex at an arbitrary place.
//
// sym: time=150
func H_open() {
	var m kit.Mesh
	n := 1 + sym.Choose("faces", 5)
	switch sym.Choose("kind", 4) {
	case 0: // all share the edge 0-1
		m.V = []kit.V{{0, 0, 0}, {0, 0, 20000}}
		for i := 0; i < n; i++ {
			m.V = append(m.V, kit.V{30000, int64(i) * 7000, 10000})
			m.F = append(m.F, [3]int{i % 2, 1 - i%2, i + 2})
		}
	case 1: // all share the vertex 0 only
		m.V = []kit.V{{0, 0, 0}}
		for i := 0; i < n; i++ {
			m.V = append(m.V, kit.V{30000, int64(i) * 7000, 10000}, kit.V{30000, int64(i) * 7000, 20000})
			m.F = append(m.F, [3]int{0, 2*i + 1, 2*i + 2})
		}
	case 2: // a strip
		m.V = []kit.V{{0, 0, 0}, {0, 10000, 0}}
		for i := 0; i < n; i++ {
			m.V = append(m.V, kit.V{int64(i+1) * 10000, int64(i%2) * 10000, 0})
			m.F = append(m.F, [3]int{i, i + 1, i + 2})
		}
	case 3: // box with missing faces
		m = kit.Box(kit.V{0, 0, 0}, kit.V{50000, 60000, 70000})
		m.F = append(m.F[:n], m.F[2*n:]...)
	}
	m = turned(m, sym.Choose("order", 4))
	m.V[1][sym.Choose("axis", 3)] += sym.Int("d", -3000, 3000)
	drop := kit.Tri{m.V[0], m.V[0], m.V[1]}
	ts := m.Tris()
	switch sym.Choose("dropped", 3) {
	case 1:
		ts = append([]kit.Tri{drop}, ts...)
	case 2:
		ts = append([]kit.Tri{ts[0], ts[0], drop}, ts[1:]...)
	}
	om := optimize(ts, kit.V{-5000, -5000, -5000}, kit.V{90000, 90000, 90000}, 30)
	sym.Assert(om.FaceCount() == len(m.F), "only the superfluous faces are dropped")
	check(om, false)
}

// H_soup: a face and 2 further ones whose corners are any of 4 points in a row (3 points for the last face); thorough: any of 4 points.
//
// sym: time=150 time@thorough=700
func H_soup() {
	ts := []kit.Tri{{{0, 500, 500}, {1000, 500, 500}, {2000, 500, 500}}}
	for i := 0; i < 2; i++ {
		var t kit.Tri
		max := int64(3)
		if i == 1 && !sym.Thorough() {
			max = 2
		}
		for j := range t {
			t[j] = kit.V{1000 * sym.Int("p", 0, max), 500, 500}
		}
		ts = append(ts, t)
	}
	check(optimize(ts, kit.V{0, 500, 500}, kit.V{3000, 500, 500}, 30), false)
}

func main() {
	sym.Main(map[string]func(){"H_closed": H_closed, "H_cracks": H_cracks, "H_open": H_open, "H_soup": H_soup})
}
