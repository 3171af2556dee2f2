// C25: fixed-point vectors compute exactly and never change their operands.
package main

import (
	"github.com/aligator/goslice/data"
	"verifharness/sym"
)

type um = data.Micrometer

const lim = 4600000

func v(n string) um   { return um(sym.Int(n, -lim, lim)) }
func big(n string) um { return um(sym.Int(n, -1<<40, 1<<40)) }
func eq3(a data.MicroVec3, x, y, z um) bool {
	return sym.And(a.X() == x, a.Y() == y, a.Z() == z)
}
func eq2(a data.MicroPoint, x, y um) bool { return sym.And(a.X() == x, a.Y() == y) }

// H_vec3: every operation of MicroVec3 on arbitrary vectors: coordinates within +-2^40 for sums, +-4.6 m for products.
//
// sym: time=60
func H_vec3() {
	x, y, z := big("x"), big("y"), big("z")
	a, b, c := big("a"), big("b"), big("c")
	p, q := data.NewMicroVec3(x, y, z), data.NewMicroVec3(a, b, c)
	sym.Assert(eq3(p, x, y, z), "coordinates")
	s := p.Add(q)
	sym.Assert(eq3(s, x+a, y+b, z+c), "sum")
	d := p.Sub(q)
	sym.Assert(eq3(d, x-a, y-b, z-c), "difference")
	cp := p.Copy()
	sym.Assert(eq3(cp, x, y, z), "copy")
	xy := p.PointXY()
	sym.Assert(eq2(xy, x, y), "projection")
	m := p.Max()
	sym.Assert(m >= x && m >= y && m >= z && (m == x || m == y || m == z), "maximum component")
	self := p.Sub(p)
	sym.Assert(eq3(self, 0, 0, 0), "difference with itself")
	self = p.Add(p)
	sym.Assert(eq3(self, 2*x, 2*y, 2*z), "sum with itself")
	// results are new vectors: changing them leaves the operands alone
	for _, r := range []data.MicroVec3{s, d, cp} {
		r.SetX(7)
		r.SetY(8)
		r.SetZ(9)
		sym.Assert(eq3(r, 7, 8, 9), "setters")
	}
	xy.SetX(3)
	xy.SetY(4)
	sym.Assert(eq2(xy, 3, 4), "setters of the projection")
	sym.Assert(eq3(p, x, y, z), "left operand unchanged")
	sym.Assert(eq3(q, a, b, c), "right operand unchanged")
}

// H_vec3mul: scaling by and dividing by constants -3..1000 from a list; squared length and length comparison, coordinates within +-4.6 m.
//
// sym: time=60
func H_vec3mul() {
	x, y, z := v("x"), v("y"), v("z")
	p := data.NewMicroVec3(x, y, z)
	k := um([]int{-3, -1, 0, 1, 2, 7, 1000}[sym.Choose("k", 7)])
	r := p.Mul(k)
	sym.Assert(eq3(r, x*k, y*k, z*k), "scaling")
	r.SetX(1)
	sym.Assert(eq3(p, x, y, z), "scaling leaves the operand alone")
	if k != 0 {
		d := p.Div(k)
		sym.Assert(eq3(d, x/k, y/k, z/k), "division")
		d.SetZ(1)
		sym.Assert(eq3(p, x, y, z), "division leaves the operand alone")
	}
	s2 := p.Size2()
	sym.Assert(s2 == x*x+y*y+z*z, "squared length")
	l := um(sym.Int("len", 0, 3*lim))
	sym.Assert(p.ShorterThanOrEqual(l) == (x*x+y*y+z*z <= l*l), "length comparison")
	q := data.NewMicroPoint(x, y)
	sym.Assert(q.Size2() == x*x+y*y, "squared length of points")
	sym.Assert(q.ShorterThanOrEqual(l) == (x*x+y*y <= l*l), "length comparison of points")
	sym.Assert(eq3(p, x, y, z), "unchanged")
	sym.Assert(eq2(q, x, y), "point unchanged")
}

// H_size: the length is the integer part of the true one (exact up to 2^52 squared length), in mm within float32 precision.
//
// sym: time=100
func H_size() {
	x, y := v("x"), v("y")
	q := data.NewMicroPoint(x, y)
	s := q.Size()
	sym.Assert(s >= 0, "length is not negative")
	sym.Assert(s*s <= x*x+y*y+0, "length not too long")
	sym.Assert((s+1)*(s+1) > x*x+y*y, "length not too short")
	sym.Assert(eq2(q, x, y), "point unchanged")
}

// H_size3: as H_size for three dimensions.
//
// sym: time=100
func H_size3() {
	x, y, z := v("x"), v("y"), v("z")
	q := data.NewMicroVec3(x, y, z)
	s := q.Size()
	sym.Assert(s >= 0, "length is not negative")
	sym.Assert(s*s <= x*x+y*y+z*z, "length not too long")
	sym.Assert((s+1)*(s+1) > x*x+y*y+z*z, "length not too short")
	sym.Assert(eq3(q, x, y, z), "vector unchanged")
}

// H_sizemm: the length in mm, for axis-parallel vectors of arbitrary length and four 3-4-5 triangles.
//
// sym: time=60
func H_sizemm() {
	n := sym.Int("n", -lim/5, lim/5)
	var q data.MicroPoint
	f := int64(1)
	switch sym.Choose("dir", 3) {
	case 0:
		q = data.NewMicroPoint(um(n), 0)
	case 1:
		q = data.NewMicroPoint(0, um(n))
	case 2:
		n = []int64{1, 77, -1000, 654321}[sym.Choose("345", 4)]
		q = data.NewMicroPoint(um(3*n), um(-4*n))
		f = 5
	}
	s := float64(q.SizeMM())
	l := float64(sym.Abs(n)*f) / 1000
	sym.Assert(s >= l*0.9999995-0.000001 && s <= l*1.0000005+0.000001, "length in millimetres")
}

// H_point: every operation of MicroPoint.
//
// sym: time=60
func H_point() {
	x, y, a, b := big("x"), big("y"), big("a"), big("b")
	p, q := data.NewMicroPoint(x, y), data.NewMicroPoint(a, b)
	sym.Assert(eq2(p, x, y), "coordinates")
	s := p.Add(q)
	sym.Assert(eq2(s, x+a, y+b), "sum")
	d := p.Sub(q)
	sym.Assert(eq2(d, x-a, y-b), "difference")
	c := p.Copy()
	sym.Assert(eq2(c, x, y), "copy")
	k := um([]int{-3, -1, 1, 2, 7, 1000}[sym.Choose("k", 6)])
	m := p.Mul(k)
	sym.Assert(eq2(m, x*k, y*k), "scaling")
	dv := p.Div(k)
	sym.Assert(eq2(dv, x/k, y/k), "division")
	for _, r := range []data.MicroPoint{s, d, c, m, dv} {
		r.SetX(7)
		r.SetY(8)
		sym.Assert(eq2(r, 7, 8), "setters")
	}
	sym.Assert(eq2(p, x, y), "left operand unchanged")
	sym.Assert(eq2(q, a, b), "right operand unchanged")
	sym.Assert(data.Max(x, y) >= x && data.Max(x, y) >= y && (data.Max(x, y) == x || data.Max(x, y) == y), "Max")
	sym.Assert(data.Min(x, y) <= x && data.Min(x, y) <= y && (data.Min(x, y) == x || data.Min(x, y) == y), "Min")
}

// H_rotate: rotation by every multiple of 90 degrees from -360 to 360 of points within +-4.6 m, and of paths, with the way back.
//
// sym: time=100
func H_rotate() {
	x, y := v("x"), v("y")
	deg := []float64{-360, -270, -180, -90, 0, 90, 180, 270, 360}[sym.Choose("deg", 9)]
	turns := (int(deg)/90 + 8) % 4
	wx, wy := x, y
	for i := 0; i < turns; i++ {
		wx, wy = -wy, wx
	}
	p := data.NewMicroPoint(x, y)
	r := p.Rotate(deg)
	sym.Assert(eq2(r, wx, wy), "rotated point")
	sym.Assert(eq2(p, x, y), "rotating returns a new point")
	back := data.NewMicroPoint(wx, wy).Rotate(-deg)
	sym.Assert(eq2(back, x, y), "rotating back")
	path := data.Path{data.NewMicroPoint(x, y), data.NewMicroPoint(y, 5)}
	orig := path[0]
	path.Rotate(deg)
	sym.Assert(eq2(path[0], wx, wy), "rotated path")
	sym.Assert(eq2(orig, x, y), "points shared with other paths stay")
	ps := data.Paths{{data.NewMicroPoint(x, y)}, {}, {data.NewMicroPoint(x, y), data.NewMicroPoint(x, y)}}
	ps.Rotate(deg)
	sym.Assert(eq2(ps[0][0], wx, wy) && eq2(ps[2][0], wx, wy) && eq2(ps[2][1], wx, wy), "rotated paths")
}

// H_rotatefixed: rotation by 45 and 30 degrees turns counterclockwise, keeps the length, and rotating back restores within 1 um.
//
// sym: time=60
func H_rotatefixed() {
	x, y := v("x"), v("y")
	deg := []float64{45, 30, -45, 135, 60}[sym.Choose("deg", 5)]
	p := data.NewMicroPoint(x, y)
	b := p.Rotate(deg).Rotate(-deg)
	sym.Assert(b.X()-x <= 1 && x-b.X() <= 1 && b.Y()-y <= 1 && y-b.Y() <= 1, "rotating back restores the point")
	q := data.NewMicroPoint(x, 0).Rotate(deg)
	c := []um{707107, 866025, 707107, -707107, 500000}
	s := []um{707107, 500000, -707107, 707107, 866025}
	for i, d := range []float64{45, 30, -45, 135, 60} {
		if d == deg {
			ex, ey := q.X()*1000000-x*c[i], q.Y()*1000000-x*s[i]
			sym.Assert(ex <= 6000000 && ex >= -6000000 && ey <= 6000000 && ey >= -6000000, "direction of the rotation")
		}
	}
}

// H_bounds: bounding boxes of paths of 0..4 arbitrary points and of up to 3 paths.
//
// sym: time=100
func H_bounds() {
	n := sym.Choose("n", 5)
	var p data.Path
	var xs, ys []um
	for i := 0; i < n; i++ {
		x, y := big("x"), big("y")
		xs, ys = append(xs, x), append(ys, y)
		p = append(p, data.NewMicroPoint(x, y))
	}
	check := func(min, max data.MicroPoint) {
		if n == 0 {
			sym.Assert(eq2(min, 0, 0) && eq2(max, 0, 0), "bounds of nothing")
			return
		}
		var ax, ay, bx, by bool
		for i := range xs {
			sym.Assert(sym.And(min.X() <= xs[i], min.Y() <= ys[i], max.X() >= xs[i], max.Y() >= ys[i]), "every point is inside")
			ax = sym.Or(ax, min.X() == xs[i])
			ay = sym.Or(ay, min.Y() == ys[i])
			bx = sym.Or(bx, max.X() == xs[i])
			by = sym.Or(by, max.Y() == ys[i])
		}
		sym.Assert(sym.And(ax, ay, bx, by), "bounds are tight")
	}
	switch sym.Choose("kind", 4) {
	case 0:
		check(p.Bounds())
	case 1:
		check(data.Paths{p}.Bounds())
	case 2:
		k := n / 2
		check(data.Paths{p[:k], {}, p[k:]}.Bounds())
	case 3:
		// the layer's box covers the outlines of all its parts
		k := n / 2
		l := data.NewPartitionedLayer([]data.LayerPart{data.NewBasicLayerPart(p[:k], nil), data.NewBasicLayerPart(p[k:], nil)})
		check(l.Bounds())
	}
	for i := range p {
		sym.Assert(eq2(p[i], xs[i], ys[i]), "points unchanged")
	}
}

// H_units: conversions between micrometres and millimetres for every micrometre value within +-4 m.
//
// sym: time=60
func H_units() {
	x := um(sym.Int("x", -4000000, 4000000))
	m := x.ToMillimeter()
	sym.Assert(m.ToMicrometer() == x, "every whole micrometre survives the way to millimetres and back")
	k := sym.Int("k", -4000, 4000)
	sym.Assert(data.Millimeter(k).ToMicrometer() == um(k*1000), "whole millimetres")
	sym.Assert(float64(um(k*1000).ToMillimeter()) == float64(k), "whole millimetres back")
	f := float64(m)*1000 - float64(x)
	sym.Assert(f < 0.5 && f > -0.5, "the millimetre value is the micrometre value divided by 1000")
}

// H_dot: dot product and distance of a point to an axis-parallel line.
//
// sym: time=60
func H_dot() {
	x, y, a, b := v("x"), v("y"), v("a"), v("b")
	p, q := data.NewMicroPoint(x, y), data.NewMicroPoint(a, b)
	sym.Assert(data.DotProduct(p, q) == x*a+y*b, "dot product")
	sym.Assert(data.PerpendicularDistance2(p, p, q) == (a-x)*(a-x)+(b-y)*(b-y), "distance to a point")
}

func main() {
	sym.Main(map[string]func(){"H_vec3": H_vec3, "H_vec3mul": H_vec3mul, "H_size": H_size, "H_size3": H_size3, "H_sizemm": H_sizemm, "H_point": H_point,
		"H_rotate": H_rotate, "H_rotatefixed": H_rotatefixed, "H_bounds": H_bounds, "H_units": H_units, "H_dot": H_dot})
}
