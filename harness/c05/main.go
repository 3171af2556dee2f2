// C05: slicing yields every layer of the object, whatever its height and gaps.
package main

import (
	clipper "github.com/aligator/go.clipper"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/slicer"
	"verifharness/kit"
	"verifharness/sym"
)

// box is a part of the model with concrete X and Y.
type box struct{ lo, hi kit.V }

func (b box) onOutline(x, y int64) bool {
	in := sym.And(x >= b.lo[0]-1, x <= b.hi[0]+1, y >= b.lo[1]-1, y <= b.hi[1]+1)
	edge := sym.Or(sym.Abs(x-b.lo[0]) <= 1, sym.Abs(x-b.hi[0]) <= 1, sym.Abs(y-b.lo[1]) <= 1, sym.Abs(y-b.hi[1]) <= 1)
	return sym.And(in, edge)
}

// slice slices the boxes (and further faces which never cross a layer) and checks all layers.
func slice(init, thick int64, boxes []box, more []kit.Tri, lo, hi kit.V) int {
	o := kit.Options()
	o.Print.InitialLayerThickness, o.Print.LayerThickness = data.Micrometer(init), data.Micrometer(thick)
	var m kit.Mesh
	for _, b := range boxes {
		m = m.Joined(kit.Box(b.lo, b.hi))
	}
	for _, t := range more {
		m = m.Joined(kit.Mesh{V: t[:], F: [][3]int{{0, 1, 2}}})
	}
	clipper.Hook = &kit.Contours{}
	layers, err := slicer.NewSlicer(o).Slice(kit.NewOptimized(m, lo, hi))
	sym.Assert(err == nil, "no error")
	n := len(layers)
	sym.Assert(n >= 1, "at least one layer")
	// number of layers up to the highest point
	if hi[2] < init {
		sym.Assert(n == 1, "one layer for low models")
	} else {
		sym.Assert(sym.And(init+int64(n-1)*thick <= hi[2], init+int64(n)*thick > hi[2]), "as many layers as fit below the highest point")
	}
	for i, l := range layers {
		z := init + int64(i)*thick
		sym.Assert(l != nil && l.Attributes() == nil || len(l.Attributes()) == 0, "a plain layer")
		parts := l.LayerParts()
		used := make([]bool, len(parts))
		for _, b := range boxes {
			want := sym.And(b.lo[2] < z, z <= b.hi[2])
			found := false
			for k, p := range parts {
				if used[k] || !b.onOutline(int64(p.Outline()[0].X()), int64(p.Outline()[0].Y())) {
					continue
				}
				used[k], found = true, true
				for _, c := range [][2]int64{{b.lo[0], b.lo[1]}, {b.hi[0], b.lo[1]}, {b.hi[0], b.hi[1]}, {b.lo[0], b.hi[1]}} {
					at := false
					for _, q := range p.Outline() {
						at = sym.Or(at, sym.And(sym.Abs(int64(q.X())-c[0]) <= 10, sym.Abs(int64(q.Y())-c[1]) <= 10))
					}
					sym.Assert(at, "the cross-section has all corners, but for what simplifying tolerates")
				}
				for _, q := range p.Outline() {
					sym.Assert(b.onOutline(int64(q.X()), int64(q.Y())), "the cross-section is that of the model")
				}
				break
			}
			sym.Assert(want == found, "the part is on exactly the layers it crosses")
		}
		for k := range used {
			sym.Assert(used[k], "nothing else is on the layer")
		}
	}
	return n
}

var thicknesses = [][2]int64{{200, 200}, {300, 200}, {100, 300}, {250, 70}}

// H_elevated: a box of 1, 150 or 400 (thorough also 601, 700) um height, initial/normal thicknesses 200/200, 300/200, 100/300 (thorough also 250/70) um,
// whose bottom or top is within 12 um of the bed or of any of the first 5 layer heights (below and above the bed).
//
// sym: time=200 time@thorough=600 covers=sunk,elevated
func H_elevated() {
	heights := 3
	if sym.Thorough() {
		heights = 5
	}
	t := thicknesses[sym.Choose("thickness", 3+(heights-1)/4)]
	h := []int64{1, 150, 400, 601, 700}[sym.Choose("height", heights)]
	z := int64(0)
	if k := sym.Choose("at", 6); k > 0 {
		z = t[0] + int64(k-1)*t[1]
	}
	if sym.Choose("top", 2) == 1 {
		z -= h
	}
	if sym.Choose("below", 2) == 1 {
		z += sym.Int("z", -12, -1)
	} else {
		z += sym.Int("z", 0, 12)
	}
	b := box{kit.V{10000, 20000, z}, kit.V{40000, 30000, z + h}}
	if z > 0 {
		sym.Cover("elevated")
	} else if z < 0 {
		sym.Cover("sunk")
	}
	slice(t[0], t[1], []box{b}, nil, b.lo, b.hi)
}

// H_gap: a box on the bed, 150 or 450 um high, and one of 300 um height floating at any height up to 1.5 mm (thorough: 3 mm),
// in both orders.
//
// sym: time=250 time@thorough=600 covers=gap,overlap
func H_gap() {
	t := thicknesses[sym.Choose("thickness", 3)]
	top := int64(1500)
	if sym.Thorough() {
		top = 3000
	}
	h := []int64{150, 450}[sym.Choose("height", 2)]
	z := int64(sym.Choose("z/50", int(top/50)))*50 + sym.Int("z%50", 0, 49)
	a := box{kit.V{10000, 20000, 0}, kit.V{40000, 30000, h}}
	b := box{kit.V{60000, 20000, z}, kit.V{90000, 45000, z + 300}}
	lo, hi := kit.V{10000, 20000, 0}, kit.V{90000, 45000, z + 300}
	if z+300 < h {
		hi[2] = h
	}
	if z > h {
		sym.Cover("gap")
	} else {
		sym.Cover("overlap")
	}
	bs := []box{a, b}
	if sym.Choose("order", 2) == 1 {
		bs = []box{b, a}
	}
	slice(t[0], t[1], bs, nil, lo, hi)
}

// H_height: a box of 250 um height on the bed below a flat face at any height up to 2 mm: initial and normal thickness arbitrary of
// 150..350 um, or concrete ones and one of 100 layers in a row.
//
// sym: time=150
func H_height() {
	t := [2]int64{sym.Int("initial", 150, 350), sym.Int("normal", 150, 350)}
	max := int64(1500)
	if sym.Choose("kind", 2) == 1 {
		t, max = [2]int64{200, 20}, 2000
	} else {
		t[sym.Choose("which", 2)] = 200
	}
	h := sym.Int("height", 0, max)
	var bs []box
	lo, hi := kit.V{10000, 20000, 0}, kit.V{40000, 30000, h}
	more := []kit.Tri{{{10000, 20000, h}, {40000, 20000, h}, {10000, 30000, h}}, {{10000, 20000, 0}, {40000, 30000, 0}, {40000, 20000, 0}}}
	slice(t[0], t[1], bs, more, lo, hi)
}

// H_below: a model entirely below the first layer, or below the bed, still gives one empty layer.
//
// sym: time=60
func H_below() {
	t := thicknesses[sym.Choose("thickness", 4)]
	top := sym.Int("top", -5000, t[0]-1)
	b := box{kit.V{10000, 20000, top - 90}, kit.V{40000, 30000, top}}
	sym.Assert(slice(t[0], t[1], []box{b}, nil, b.lo, b.hi) == 1, "one layer")
}

// H_failure: 1..4 layers, polygon clipping failing on any of them.
//
// sym: time=60
func H_failure() {
	n := 1 + sym.Choose("layers", 4)
	f := 1 + sym.Choose("fail", 5)
	c := &kit.Contours{Fail: f}
	clipper.Hook = c
	o := kit.Options()
	o.Print.InitialLayerThickness, o.Print.LayerThickness = 200, 200
	lo, hi := kit.V{0, 0, 0}, kit.V{20000, 20000, int64(n) * 200}
	l, err := slicer.NewSlicer(o).Slice(kit.NewOptimized(kit.Box(lo, hi), lo, hi))
	if f <= n {
		sym.Assert(err != nil, "failure is reported")
	} else {
		sym.Assert(err == nil && len(l) == n, "no failure")
	}
}

func main() {
	sym.Main(map[string]func(){"H_elevated": H_elevated, "H_gap": H_gap, "H_height": H_height, "H_below": H_below, "H_failure": H_failure})
}
