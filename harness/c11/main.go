// C11: support stands under every overhang, keeps its gap and reaches down.
package main

import (
	clipper "github.com/aligator/go.clipper"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/handler"
	"github.com/aligator/goslice/modifier"
	"math"
	"verifharness/kit"
	"verifharness/sym"
)

type setup struct {
	o      *data.Options
	pl     *kit.Plane
	layers []data.PartitionedLayer
	parts  [][]data.LayerPart
	needs  []bool // the point is in the area recorded as needing support
}

// body has n layers of one part; layer empty has none, layer two has two and layer hole a hole.
func body(n, empty, two, hole int) *setup {
	s := &setup{o: kit.Options(), pl: &kit.Plane{}}
	s.o.Print.Support.Enabled = true
	s.o.Print.LayerThickness, s.o.Print.InitialLayerThickness = 250, 400
	s.o.Print.Support.ThresholdAngle, s.o.Print.Support.PatternSpacing, s.o.Print.Support.Gap = 50, 2.4, 0.7
	s.o.Print.Support.TopGapLayers, s.o.Print.Support.InterfaceLayers = 1, 1
	for i := 0; i < n; i++ {
		var ps []data.LayerPart
		if i != empty {
			in := sym.Bool("inside")
			if i == hole {
				h := sym.Bool("inside hole")
				sym.Assume(sym.Or(in, !h))
				ps = append(ps, s.pl.Part(in, h))
			} else {
				ps = append(ps, s.pl.Part(in))
			}
			if i == two {
				b := sym.Bool("inside second")
				sym.Assume(sym.Or(!in, !b))
				ps = append(ps, s.pl.Part(b))
			}
		}
		s.parts = append(s.parts, ps)
		s.layers = append(s.layers, data.NewPartitionedLayer(ps))
	}
	clipper.Hook = s.pl
	return s
}

func (s *setup) distance() int64 {
	return int64(math.Round(float64(s.o.Print.LayerThickness) * math.Tan(float64(s.o.Print.Support.ThresholdAngle)*math.Pi/180)))
}

// run detects and generates the support.
func (s *setup) run(before ...handler.LayerModifier) error {
	for _, m := range before {
		m.Init(nil)
		if err := m.Modify(s.layers); err != nil {
			return err
		}
	}
	from := len(s.pl.Grown)
	m := modifier.NewSupportDetectorModifier(s.o)
	m.Init(nil)
	if err := m.Modify(s.layers); err != nil {
		return err
	}
	d, wider := s.distance(), 3*int64(s.o.Print.Support.PatternSpacing.ToMicrometer())
	for _, g := range s.pl.Grown[from:] {
		sym.Assert(near(g.Delta, 2*d) || near(g.Delta, wider), "layers grow by the overhang distance, areas which need support by 1.5 spacings")
	}
	widened := false
	for _, g := range s.pl.Grown[from:] {
		if near(g.Delta, wider) {
			widened = sym.Or(widened, g.In)
		}
	}
	for l, layer := range s.layers {
		a, err := modifier.PartsAttribute(layer, "support")
		sym.Assert(err == nil, "areas which need support")
		s.needs = append(s.needs, s.pl.InAny(a))
		sym.Assert(sym.Implies(s.needs[l], widened), "support only around overhangs")
	}
	gap := s.o.Print.Support.TopGapLayers
	for l := gap; l+1 < len(s.layers); l++ {
		over := sym.And(s.pl.InAny(s.parts[l+1]), !s.pl.GrowAll(s.parts[l], 2*d))
		sym.Assert(sym.Implies(over, s.needs[l-gap]), "overhangs need support")
	}
	for l := len(s.layers) - 1 - gap; l < len(s.layers); l++ {
		if l >= 0 {
			sym.Assert(!s.needs[l], "no support within the gap layers")
		}
	}
	m = modifier.NewSupportGeneratorModifier(s.o)
	m.Init(nil)
	return m.Modify(s.layers)
}

func near(a, b int64) bool { return a-b <= 2 && b-a <= 2 }

func (s *setup) check() {
	n := len(s.layers)
	full := make([]bool, n+1)
	gap := 2 * int64(s.o.Print.Support.Gap.ToMicrometer())
	for l := n - 2; l >= 0; l-- {
		full[l] = sym.And(sym.Or(full[l+1], s.needs[l]), !s.pl.GrowAll(s.parts[l], gap))
	}
	brim, err := modifier.BrimOuterDimension(s.layers[0])
	sym.Assert(err == nil, "brim")
	for l, layer := range s.layers {
		normal, err := modifier.PartsAttribute(layer, "support")
		sym.Assert(err == nil, "support")
		inter, err := modifier.PartsAttribute(layer, "supportInterface")
		sym.Assert(err == nil, "interface")
		a, b := s.pl.InAny(normal), s.pl.InAny(inter)
		want := full[l]
		top := full[l]
		if k := l + s.o.Print.Support.InterfaceLayers; k < n {
			top = sym.And(top, !full[k])
		}
		if l == 0 {
			out := !s.pl.InAny(brim)
			want, top = sym.And(want, out), sym.And(top, out)
		}
		sym.Assert(sym.Implies(sym.Or(a, b), want), "support only below overhangs, beside the model")
		sym.Assert(sym.Implies(want, sym.Or(a, b)), "support reaches down to the bed")
		sym.Assert(!sym.And(a, b), "support and its interface do not overlap")
		sym.Assert(b == top, "the top support layers are the interface")
		sym.Assert(!s.pl.Twice(normal) && !s.pl.Twice(inter), "no area is supported twice")
		sym.Assert(len(layer.LayerParts()) == len(s.parts[l]), "the parts stay as they are")
	}
}

// H_layers: 1..5 layers, every count of gap and interface layers 0..3, any layer (or none) empty.
//
// sym: time=90
func H_layers() {
	n := 1 + sym.Choose("layers", 5)
	s := body(n, sym.Choose("empty", n+1)-1, -1, 1)
	s.o.Print.Support.TopGapLayers, s.o.Print.Support.InterfaceLayers = sym.Choose("gap", 4), sym.Choose("interface", 4)
	sym.Assert(s.run() == nil, "no error")
	s.check()
}

// H_distances: 4 layers, the second of two parts, 6 angles, 3 layer heights, 3 gaps, 3 spacings.
//
// sym: time=60
func H_distances() {
	s := body(4, -1, 1, 2)
	s.o.Print.Support.ThresholdAngle = []int{1, 20, 45, 60, 75, 89}[sym.Choose("angle", 6)]
	s.o.Print.LayerThickness = []data.Micrometer{30, 200, 401}[sym.Choose("height", 3)]
	s.o.Print.Support.Gap = []data.Millimeter{0, 0.6, 1.1}[sym.Choose("gap", 3)]
	s.o.Print.Support.PatternSpacing = []data.Millimeter{0.4, 2.5, 3.3}[sym.Choose("spacing", 3)]
	sym.Assert(s.run() == nil, "no error")
	s.check()
}

// H_shapes: 4 layers, the second of two parts; each single call of the clipper returns nothing, a part with a hole or two parts.
//
// sym: time=90
func H_shapes() {
	s := body(4, -1, 1, 2)
	s.o.Print.Support.InterfaceLayers = 1 + sym.Choose("interface", 2)
	s.pl.Odd, s.pl.Shape = 1+sym.Choose("odd", 60), 1+sym.Choose("shape", 3)
	sym.Assert(s.run() == nil, "no error")
	if s.pl.Calls < s.pl.Odd {
		return
	}
	s.check()
}

// H_brim: 3 layers with a brim on the first, which has one or two parts.
//
// sym: time=60
func H_brim() {
	s := body(3, -1, sym.Choose("two", 2)-1, sym.Choose("hole", 2))
	s.o.Print.BrimSkirt.BrimCount = 1 + sym.Choose("brim", 2)
	s.o.Print.Support.TopGapLayers = sym.Choose("gap", 2)
	sym.Assert(s.run(modifier.NewPerimeterModifier(s.o), modifier.NewBrimModifier(s.o)) == nil, "no error")
	s.check()
}

// H_off: without support there is none.
//
// sym: time=10
func H_off() {
	s := body(4, -1, 1, 2)
	s.o.Print.Support.Enabled = false
	for _, m := range []handler.LayerModifier{modifier.NewSupportDetectorModifier(s.o), modifier.NewSupportGeneratorModifier(s.o)} {
		m.Init(nil)
		sym.Assert(m.Modify(s.layers) == nil, "no error")
	}
	for _, l := range s.layers {
		a, _ := modifier.PartsAttribute(l, "support")
		b, _ := modifier.PartsAttribute(l, "supportInterface")
		c, _ := modifier.FullSupport(l)
		sym.Assert(len(a)+len(b)+len(c) == 0, "no support")
	}
}

// H_failures: each single call of the clipper fails.
//
// sym: time=30 covers=failed
func H_failures() {
	s := body(4, -1, 1, 2)
	s.o.Print.BrimSkirt.BrimCount = sym.Choose("brim", 2)
	s.pl.Fail = 1 + sym.Choose("fail", 60)
	err := s.run(modifier.NewPerimeterModifier(s.o), modifier.NewBrimModifier(s.o))
	sym.Assert((err != nil) == s.pl.Failed, "a failing clipper is reported")
	if s.pl.Failed {
		sym.Cover("failed")
	}
}

func main() {
	sym.Main(map[string]func(){"H_layers": H_layers, "H_distances": H_distances, "H_shapes": H_shapes, "H_brim": H_brim, "H_off": H_off, "H_failures": H_failures})
}
