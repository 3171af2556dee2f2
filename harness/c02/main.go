// C02: vertex welding moves no vertex far and loses no real face.
package main

import (
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/optimizer"
	"verifharness/kit"
	"verifharness/sym"
)

// within is |a-b| <= meld.
func within(a, b kit.V, meld int64) bool {
	d := a.Sub(b)
	if meld == 0 {
		return sym.And(d[0] == 0, d[1] == 0, d[2] == 0)
	}
	// the first three are implied by the fourth and keep the numbers small
	return sym.And(sym.Abs(d[0]) <= meld, sym.Abs(d[1]) <= meld, sym.Abs(d[2]) <= meld, d[0]*d[0]+d[1]*d[1]+d[2]*d[2] <= meld*meld)
}

func same(a, b kit.V) bool { return sym.And(a[0] == b[0], a[1] == b[1], a[2] == b[2]) }

// check optimizes the triangles, which lie within lo..hi and reach all of these bounds, and checks everything about welding.
// It returns the retained faces (moved back to the place of the input) and which input face each of them is.
func check(ts []kit.Tri, lo, hi kit.V, meld int64) ([]kit.Tri, []int) {
	o := kit.Options()
	o.Slicing.MeldDistance = data.Micrometer(meld)
	c := kit.V{12345, -777, 31}
	o.Printer.Center = c.Vec()
	m := kit.NewModel(ts, lo, hi)
	om, err := optimizer.NewOptimizer(o).Optimize(m)
	if err != nil {
		// corners melded into one point are at most two meld distances apart
		for _, t := range ts {
			sym.Assert(sym.Or(within(t[0], t[1], 2*meld), within(t[1], t[2], 2*meld), within(t[0], t[2], 2*meld)), "only models of which nothing remains are an error")
		}
		return nil, nil
	}
	shift := c.Sub(kit.V{(lo[0] + hi[0]) / 2, (lo[1] + hi[1]) / 2, lo[2]})
	n := om.FaceCount()
	sym.Assert(n <= len(ts), "no face appears")
	var out []kit.Tri
	for i := 0; i < n; i++ {
		p, q := om.Face(i).Points(), om.OptimizedFace(i).Points()
		var t kit.Tri
		for j := range t {
			t[j] = kit.Of(p[j]).Sub(shift)
			sym.Assert(same(kit.Of(p[j]), kit.Of(q[j])), "one view of the faces")
		}
		out = append(out, t)
	}
	// retained faces are input faces in the same order
	var of []int
	next := 0
	kept := make([]bool, len(ts))
	for i := range out {
		for ; next < len(ts); next++ {
			if sym.And(within(out[i][0], ts[next][0], meld), within(out[i][1], ts[next][1], meld), within(out[i][2], ts[next][2], meld)) {
				break
			}
		}
		sym.Assert(next < len(ts), "every retained face has its corners within the meld distance of those of an input face, in order")
		of = append(of, next)
		kept[next] = true
		next++
	}
	// coinciding corners stay together
	for i := range out {
		a := out[i]
		sym.Assert(sym.And(!same(a[0], a[1]), !same(a[1], a[2]), !same(a[2], a[0])), "no retained face is degenerate")
		for j := 0; j <= i; j++ {
			b := out[j]
			for k := 0; k < 3; k++ {
				for l := 0; l < 3; l++ {
					in := same(ts[of[i]][k], ts[of[j]][l])
					if meld == 0 {
						sym.Assert(in == same(a[k], b[l]), "exactly the coinciding vertices are welded without meld distance")
					} else {
						sym.Assert(sym.Implies(in, same(a[k], b[l])), "coinciding vertices are welded")
					}
				}
			}
			if i != j {
				sym.Assert(!permuted(a, b, same), "no two retained faces have the same three points")
			}
		}
	}
	// faces disappear for a reason only
	near := func(a, b kit.V) bool { return within(a, b, meld) }
	for f := range ts {
		if kept[f] {
			continue
		}
		why := false
		for i := 0; i < 3; i++ {
			a, b := ts[f][i], ts[f][(i+1)%3]
			for g := 0; g <= f; g++ { // both are welded to a vertex which came before
				for k := 0; k < 3; k++ {
					why = sym.Or(why, sym.And(near(a, ts[g][k]), near(b, ts[g][k])))
				}
			}
		}
		for i := range out {
			if of[i] < f {
				why = sym.Or(why, permuted(ts[f], out[i], near))
			}
		}
		sym.Assert(why, "only degenerate and duplicate faces disappear")
	}
	for f := range ts { // and they always do
		for i := 0; i < 3; i++ {
			sym.Assert(sym.Implies(kept[f], !same(ts[f][i], ts[f][(i+1)%3])), "faces with coinciding corners disappear")
		}
		for i := 0; i < 3; i++ {
			sym.Assert(same(kit.Of(m.Face(f).Points()[i]), ts[f][i]), "the input stays as it is")
		}
	}
	return out, of
}

func permuted(a, b kit.Tri, eq func(a, b kit.V) bool) bool {
	r := false
	for _, p := range [][3]int{{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}} {
		r = sym.Or(r, sym.And(eq(a[0], b[p[0]]), eq(a[1], b[p[1]]), eq(a[2], b[p[2]])))
	}
	return r
}

var melds = []int64{0, 1, 29, 30, 100}

// bound is a face which reaches the bounds lo and hi.
func bound(lo, hi kit.V) kit.Tri {
	return kit.Tri{lo, hi, kit.V{lo[0], hi[1], (lo[2] + hi[2]) / 2}}
}

var lo, hi = kit.V{-20000, -30000, -5000}, kit.V{41000, 21001, 60000}

// H_pair: a vertex and a second one at an arbitrary place of +-250 um next to it along one axis (also with a fixed
// diagonal offset), at positive and negative places, in two faces, for meld distances 0, 1, 29, 30 and 100 um.
//
// sym: time=200 covers=welded,apart
func H_pair() {
	meld := melds[sym.Choose("meld", len(melds))]
	axis := sym.Choose("axis", 3)
	at := []kit.V{{0, 0, 0}, {-7015, 12345, -20}, {1000, -1, 30000}}[sym.Choose("at", 3)]
	b := at
	if sym.Choose("diagonal", 2) == 1 {
		b = b.Add(kit.V{9, -11, 13})
		if meld < 29 {
			return
		}
	}
	d := sym.Int("d", -250, 250)
	b[axis] += d
	i, j := sym.Choose("corner", 3), sym.Choose("corner2", 3)
	f, g := kit.Tri{{5000, 5000, 7}, {9000, 5000, 7}, {9000, 9000, 2000}}, kit.Tri{{-5000, 5000, 1000}, {-9000, 5000, 1000}, {-9000, 9000, 7000}}
	f[i], g[j] = at, b
	out, _ := check([]kit.Tri{bound(lo, hi), f, g}, lo, hi, meld)
	sym.Assert(len(out) == 3, "nothing disappears")
	if same(out[1][i], out[2][j]) {
		sym.Cover("welded")
	} else {
		sym.Cover("apart")
	}
}

// H_chain: three vertices in a row at arbitrary distances up to 80 um, meld distance 0 or 30 um.
//
// sym: time=150
func H_chain() {
	meld := []int64{0, 30}[sym.Choose("meld", 2)]
	axis := sym.Choose("axis", 3)
	a := kit.V{100, -100, 3000}
	b, c := a, a
	b[axis] += sym.Int("d1", -80, 80)
	c[axis] += sym.Int("d2", -80, 80)
	out, _ := check([]kit.Tri{
		bound(lo, hi),
		{a, {5000, 5000, 7}, {9000, 5000, 7}},
		{{-5000, 5000, 1000}, b, {-9000, 5000, 1000}},
		{{-5000, -5000, 1000}, {-9000, -5000, 1000}, c},
	}, lo, hi, meld)
	sym.Assert(len(out) == 4, "nothing disappears")
}

// H_small: a face with two or three corners close to each other, arbitrary distances up to 120 um.
//
// sym: time=150 covers=lost,kept
func H_small() {
	meld := melds[sym.Choose("meld", len(melds))]
	axis := sym.Choose("axis", 3)
	a := kit.V{-45, 17, 500}
	f := kit.Tri{a, a, {7000, 7000, 7000}}
	f[1][axis] += sym.Int("d", -120, 120)
	if sym.Choose("third", 2) == 1 {
		f[2] = a
		f[2][(axis+1)%3] += sym.Int("e", -120, 120)
	}
	r := sym.Choose("rotated", 3)
	f = kit.Tri{f[r], f[(r+1)%3], f[(r+2)%3]}
	out, _ := check([]kit.Tri{bound(lo, hi), f, {{1000, 0, 0}, {2000, 0, 0}, {2000, 2000, 0}}}, lo, hi, meld)
	if len(out) == 3 {
		sym.Cover("kept")
	} else {
		sym.Cover("lost")
	}
}

// H_duplicate: a face repeated with any order of its corners, one of them moved by up to 120 um along an axis, further
// faces at the same points in between.
//
// sym: time=200 covers=lost,kept
func H_duplicate() {
	meld := melds[sym.Choose("meld", len(melds))]
	axis := sym.Choose("axis", 3)
	p := [][3]int{{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}}[sym.Choose("order", 6)]
	f := kit.Tri{{0, 0, 0}, {4000, 0, 100}, {0, 4000, -100}}
	g := kit.Tri{f[p[0]], f[p[1]], f[p[2]]}
	g[sym.Choose("corner", 3)][axis] += sym.Int("d", -120, 120)
	ts := []kit.Tri{bound(lo, hi), f}
	if sym.Choose("between", 2) == 1 {
		ts = append(ts, kit.Tri{f[0], f[1], {0, 0, 9000}}, kit.Tri{f[2], f[1], {0, 0, 9000}}, kit.Tri{{0, 0, 9000}, f[0], f[2]})
	}
	out, _ := check(append(ts, g), lo, hi, meld)
	if len(out) == len(ts)+1 {
		sym.Cover("kept")
	} else {
		sym.Cover("lost")
	}
}

// H_soup: a face and 2 (thorough 3) further ones, every corner of these being any of 4 points in a row, 1 mm apart (3 points for the
// last face), with a meld distance of 30 um (thorough also without).
//
// sym: time=150 time@thorough=700
func H_soup() {
	meld, n := int64(30), 2
	if sym.Thorough() {
		n = 2 + sym.Choose("more", 2)
		meld = []int64{0, 30}[sym.Choose("meld", 2)]
	}
	ts := []kit.Tri{bound(lo, hi), {{0, 500, 500}, {1000, 500, 500}, {2000, 500, 500}}}
	for i := 0; i < n; i++ {
		var t kit.Tri
		max := int64(3)
		if i == n-1 {
			max = 2
		}
		for j := range t {
			t[j] = kit.V{1000 * sym.Int("p", 0, max), 500, 500}
		}
		ts = append(ts, t)
	}
	check(ts, lo, hi, meld)
}

// H_grid: meld distances much larger than the faces, or huge, never crash and keep the rules.
//
// sym: time=60
func H_grid() {
	meld := []int64{5000, 1000000, 1 << 30}[sym.Choose("meld", 3)]
	x := sym.Int("x", -3000, 3000)
	check([]kit.Tri{bound(lo, hi), {{x, 0, 0}, {1000, 0, 0}, {0, 1000, 0}}, {{1000, 0, 0}, {0, 1000, 5000}, {9000, 9000, 9000}}}, lo, hi, meld)
}

// H_nothing: a model of 1..3 faces, all of which collapse (their corners are an arbitrary distance of up to 9 um apart, or coincide),
// is reported as an error.
//
// sym: time=60
func H_nothing() {
	n := 1 + sym.Choose("faces", 3)
	d := sym.Int("d", 0, 9)
	a := kit.V{1000, 1000, 1000}
	b := a
	b[sym.Choose("axis", 3)] += d
	var ts []kit.Tri
	for i := 0; i < n; i++ {
		ts = append(ts, kit.Tri{a, b, {5000, 5000, 5000}})
	}
	o := kit.Options()
	o.Slicing.MeldDistance = 30
	om, err := optimizer.NewOptimizer(o).Optimize(kit.NewModel(ts, a, kit.V{5000, 5000, 5000}))
	if err != nil {
		return
	}
	sym.Assert(om.FaceCount() > 0, "a model of which nothing remains is an error")
}

func main() {
	sym.Main(map[string]func(){"H_pair": H_pair, "H_chain": H_chain, "H_small": H_small, "H_duplicate": H_duplicate, "H_soup": H_soup, "H_grid": H_grid, "H_nothing": H_nothing})
}
