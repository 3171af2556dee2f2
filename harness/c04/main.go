// C04: the model is placed centred on the bed point and keeps its shape.
package main

import (
	"github.com/aligator/goslice/optimizer"
	"verifharness/kit"
	"verifharness/sym"
)

func extreme(v []int64, x int64, max bool) bool {
	one, all := false, true
	for _, y := range v {
		one = sym.Or(one, x == y)
		if max {
			all = sym.And(all, x >= y)
		} else {
			all = sym.And(all, x <= y)
		}
	}
	return sym.And(one, all)
}

// check optimizes the triangles with exact bounds lo..hi, no vertices of which can be welded, for the given centre.
func check(ts []kit.Tri, lo, hi, center kit.V, bounds bool) {
	o := kit.Options()
	o.Printer.Center = center.Vec()
	o.Slicing.MeldDistance = 30
	m := kit.NewModel(ts, lo, hi)
	om, err := optimizer.NewOptimizer(o).Optimize(m)
	sym.Assert(err == nil && om.FaceCount() == len(ts), "all faces are placed")
	var shift kit.V
	var all [3][]int64
	for i := range ts {
		p := om.Face(i).Points()
		for j := range p {
			v := kit.Of(p[j])
			d := v.Sub(ts[i][j])
			if i == 0 && j == 0 {
				shift = d
			}
			sym.Assert(sym.And(d[0] == shift[0], d[1] == shift[1], d[2] == shift[2]), "all vertices are moved by the same translation")
			for a := range v {
				all[a] = append(all[a], v[a])
			}
		}
	}
	// twice the middle of the placed box is twice the centre, give or take the halving
	sym.Assert(sym.And(sym.Abs(lo[0]+hi[0]+2*shift[0]-2*center[0]) <= 1, sym.Abs(lo[1]+hi[1]+2*shift[1]-2*center[1]) <= 1), "centred in X and Y")
	sym.Assert(lo[2]+shift[2] == center[2], "the lowest point is at the height of the centre")
	s := kit.Of(om.Size())
	sym.Assert(sym.And(s[0] == hi[0]-lo[0], s[1] == hi[1]-lo[1], s[2] == hi[2]-lo[2]), "the size is the extent of the input")
	if bounds {
		l, h := kit.Of(om.Min()), kit.Of(om.Max())
		for a := range l {
			sym.Assert(extreme(all[a], l[a], false), "exact minimum")
			sym.Assert(extreme(all[a], h[a], true), "exact maximum")
		}
	}
	for i := range ts {
		f := om.OptimizedFace(i)
		z := []int64{int64(f.Points()[0].Z()), int64(f.Points()[1].Z()), int64(f.Points()[2].Z())}
		sym.Assert(extreme(z, int64(f.MinZ()), false) && extreme(z, int64(f.MaxZ()), true), "exact height of the faces")
	}
	c := kit.Of(o.Printer.Center)
	sym.Assert(sym.And(c[0] == center[0], c[1] == center[1], c[2] == center[2]), "the configured centre stays as it is")
	for i := range ts {
		for j, p := range m.Face(i).Points() {
			v := kit.Of(p)
			sym.Assert(sym.And(v[0] == ts[i][j][0], v[1] == ts[i][j][1], v[2] == ts[i][j][2]), "the input stays as it is")
		}
	}
}

const far = 2000000

// H_place: a model of two triangles with an arbitrary position within +-2 m and size of 1 mm..2 m in all axes at once, and an
// arbitrary centre within +-2 m.
//
// sym: time=150 covers=odd
func H_place() {
	var lo, hi, c kit.V
	for a := range lo {
		lo[a] = sym.Int("lo", -far, far)
		hi[a] = lo[a] + sym.Int("size", 1000, far)
		c[a] = sym.Int("center", -far, far)
	}
	if (lo[0]+hi[0])%2 != 0 {
		sym.Cover("odd")
	}
	var ts []kit.Tri
	switch sym.Choose("mesh", 3) {
	case 0:
		ts = []kit.Tri{{lo, hi, {lo[0], hi[1], lo[2]}}}
	case 1:
		ts = []kit.Tri{{{hi[0], lo[1], lo[2]}, {lo[0], hi[1], hi[2]}, hi}}
	case 2:
		ts = []kit.Tri{{lo, {lo[0], lo[1], hi[2]}, {hi[0], lo[1], lo[2]}}, {{lo[0], hi[1], lo[2]}, {hi[0], lo[1], lo[2]}, {lo[0], lo[1], hi[2]}}}
	}
	check(ts, lo, hi, c, false)
}

// H_bounds: two triangles whose coordinates along one axis are 4 arbitrary values within +-2 m, others fixed.
//
// sym: time=150
func H_bounds() {
	axis := sym.Choose("axis", 3)
	vs := []kit.V{{0, 0, 0}, {50000, 7000, 9000}, {-7000, 50000, 1000}, {30000, -20000, 50000}}
	lo, hi := kit.V{-7000, -20000, 0}, kit.V{50000, 50000, 50000}
	for i := range vs {
		vs[i][axis] = sym.Int("v", -far, far)
	}
	// any of them may be the lowest and highest
	l, h := sym.Choose("lowest", 4), sym.Choose("highest", 4)
	if l == h {
		return
	}
	lo[axis], hi[axis] = vs[l][axis], vs[h][axis]
	for i := range vs {
		sym.Assume(sym.And(vs[i][axis] >= lo[axis], vs[i][axis] <= hi[axis]))
	}
	check([]kit.Tri{{vs[0], vs[1], vs[2]}, {vs[3], vs[2], vs[1]}}, lo, hi, kit.V{100000, 100001, 0}, true)
}

// H_many: 2..40 triangles with one vertex coordinate arbitrary within +-2 m.
//
// sym: time=100
func H_many() {
	n := []int{2, 3, 7, 16, 40}[sym.Choose("faces", 5)]
	axis := sym.Choose("axis", 3)
	lo, hi := kit.V{-far, -far, -far}, kit.V{far, far, far}
	ts := []kit.Tri{{lo, hi, {far, -far, -far}}}
	for i := 1; i < n; i++ {
		k := int64(i) * 10000
		ts = append(ts, kit.Tri{{k, 2 * k, -k}, {k + 5000, k, k}, {-k, k, 3 * k}})
	}
	ts[n-1][1][axis] = sym.Int("v", -far, far)
	check(ts, lo, hi, kit.V{sym.Int("center", -far, far), 5, sym.Int("height", 0, 1000)}, true)
}

func main() {
	sym.Main(map[string]func(){"H_place": H_place, "H_bounds": H_bounds, "H_many": H_many})
}
