// C10: exposed surfaces get skin, the rest infill, nothing both or neither.
package main

import (
	clipper "github.com/aligator/go.clipper"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/handler"
	"github.com/aligator/goslice/modifier"
	"verifharness/kit"
	"verifharness/sym"
)

type setup struct {
	o      *data.Options
	pl     *kit.Plane
	layers []data.PartitionedLayer
	skins  int // offsets made before the skins
	parts  [][]data.LayerPart
}

// body has n layers with one part each (two in layer two, which may be -1; a hole in layer hole), layer empty has none.
func body(n, empty, two, hole int) *setup {
	s := &setup{o: kit.Options(), pl: &kit.Plane{}}
	s.o.Print.InsetCount = 1
	for i := 0; i < n; i++ {
		var ps []data.LayerPart
		if i != empty {
			in := sym.Bool("inside")
			if i == hole {
				h := sym.Bool("inside hole")
				sym.Assume(sym.Or(in, !h))
				ps = append(ps, s.pl.Part(in, h))
			} else {
				ps = append(ps, s.pl.Part(in))
			}
			if i == two {
				b := sym.Bool("inside second")
				sym.Assume(sym.Or(!in, !b))
				ps = append(ps, s.pl.Part(b))
			}
		}
		s.parts = append(s.parts, ps)
		s.layers = append(s.layers, data.NewPartitionedLayer(ps))
	}
	return s
}

func (s *setup) run() error {
	clipper.Hook = s.pl
	for i, m := range []handler.LayerModifier{modifier.NewPerimeterModifier(s.o), modifier.NewInfillModifier(s.o), modifier.NewInternalInfillModifier(s.o)} {
		if i == 1 {
			s.skins = len(s.pl.Grown)
		}
		m.Init(nil)
		if err := m.Modify(s.layers); err != nil {
			return err
		}
	}
	return nil
}

// check decides the membership of the point in the regions of every layer. grow is twice the distance by which the skins grow.
func (s *setup) check(grow int64) {
	pl := s.pl
	for l, layer := range s.layers {
		border, err := modifier.OverlapPerimeters(layer)
		sym.Assert(err == nil, "borders")
		walls, err := modifier.Perimeters(layer)
		sym.Assert(err == nil, "walls")
		inBorder, inner := false, false
		for _, b := range border {
			inBorder = sym.Or(inBorder, pl.InAny(b))
		}
		for _, w := range walls {
			inner = sym.Or(inner, pl.InAny(w[len(w)-1]))
		}
		below, above := false, false
		for i := 1; i <= s.o.Print.NumberBottomLayers; i++ {
			below = sym.Or(below, l-i < 0 || !pl.InAny(s.parts[max(l-i, 0)]))
		}
		for i := 1; i <= s.o.Print.NumberTopLayers; i++ {
			above = sym.Or(above, l+i >= len(s.layers) || !pl.InAny(s.parts[min(l+i, len(s.layers)-1)]))
		}
		bottom, err := modifier.BottomInfill(layer)
		sym.Assert(err == nil, "bottom")
		top, err := modifier.TopInfill(layer)
		sym.Assert(err == nil, "top")
		fill, err := modifier.PartsAttribute(layer, "infill")
		sym.Assert(err == nil, "infill")
		b, t, f := pl.InAny(bottom), pl.InAny(top), pl.InAny(fill)

		sym.Assert(sym.Or(!b, inBorder), "bottom skin stays within the border")
		sym.Assert(sym.Or(!t, inBorder), "top skin stays within the border")
		sym.Assert(!sym.And(t, b), "no point in both skins")
		sym.Assert(!sym.And(f, sym.Or(t, b)), "no point in skin and infill")
		if grow >= 0 {
			sym.Assert(sym.Implies(sym.And(inner, inBorder, below), b), "surfaces exposed to below get bottom skin")
			sym.Assert(sym.Implies(sym.And(inner, inBorder, above, !b), t), "surfaces exposed to above get top skin")
		}
		if grow <= 0 {
			sym.Assert(sym.Implies(b, below), "bottom skin only where the surface is exposed to below")
			sym.Assert(sym.Implies(t, above), "top skin only where the surface is exposed to above")
		}
		if grow == 0 {
			sym.Assert(sym.Implies(sym.Or(b, t), inner), "skin only in the inner area")
		}
		if s.o.Print.NumberBottomLayers == 0 {
			sym.Assert(!b, "no bottom skin without bottom layers")
		}
		if s.o.Print.NumberTopLayers == 0 {
			sym.Assert(!t, "no top skin without top layers")
		}
		if s.o.Print.InfillPercent == 0 {
			sym.Assert(!f, "no infill with zero percent")
		} else {
			sym.Assert(f == sym.And(inBorder, !b, !t), "infill is the border without the skins")
		}
		sym.Assert(!pl.Twice(fill) && !pl.Twice(bottom) && !pl.Twice(top), "no area is filled twice")
	}
	for l, layer := range s.layers {
		sym.Assert(len(layer.LayerParts()) == len(s.parts[l]), "the parts stay as they are")
	}
}

// grown asserts that skins grow by the distance (in half micrometres).
func (s *setup) grown(d int64) {
	if d == 0 {
		return
	}
	in := false
	for _, g := range s.pl.Grown[s.skins:] {
		sym.Assert(sym.Abs(g.Delta-d) <= 2, "skins grow by the overlap")
		in = sym.Or(in, g.In)
	}
	if len(s.layers) > 1 {
		return
	}
	border, err := modifier.OverlapPerimeters(s.layers[0])
	sym.Assert(err == nil, "border")
	bottom, _ := modifier.BottomInfill(s.layers[0])
	top, _ := modifier.TopInfill(s.layers[0])
	skin := sym.Or(s.pl.InAny(bottom), s.pl.InAny(top))
	inBorder := false
	for _, b := range border {
		inBorder = sym.Or(inBorder, s.pl.InAny(b))
	}
	sym.Assert(skin == sym.And(in, inBorder), "the skin is the grown area within the border")
	sym.Cover("grown")
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// overlaps sets the overlap and returns twice the distance by which skins grow.
func (s *setup) overlaps(k int) int64 {
	w := int64(s.o.Printer.ExtrusionWidth)
	p, q := []int{50, 100, 30, 0}[k], []int{400, 0, 20, 100}[k]
	s.o.Print.InfillOverlapPercent, s.o.Print.AdditionalInternalInfillOverlapPercent = p, q
	return -w * int64(100-p-q) / 100
}

// H_counts: 1..4 layers, 0..3 bottom and top layers, growing, equal and shrinking skins, with and without infill, any layer (or none) empty, a
// hole in the second layer.
//
// sym: time=120 covers=grown
func H_counts() {
	n := 1 + sym.Choose("layers", 4)
	s := body(n, sym.Choose("empty", n+1)-1, -1, 1)
	g := s.overlaps(sym.Choose("overlap", 4))
	s.o.Print.NumberBottomLayers, s.o.Print.NumberTopLayers = sym.Choose("bottom", 4), sym.Choose("top", 4)
	s.o.Print.InfillPercent = []int{20, 0}[sym.Choose("percent", 2)]
	sym.Assert(s.run() == nil, "no error")
	s.check(g)
	s.grown(g)
}

// H_shapes: 3 layers, the second of two parts; each single call of the clipper returns nothing, a part with a hole or two parts.
//
// sym: time=120
func H_shapes() {
	s := body(3, -1, 1, 0)
	g := s.overlaps(sym.Choose("overlap", 2))
	s.o.Print.NumberBottomLayers, s.o.Print.NumberTopLayers = 2, 1
	s.o.Print.InfillPercent = 20
	s.pl.Odd, s.pl.Shape = 1+sym.Choose("odd", 90), 1+sym.Choose("shape", 3)
	sym.Assert(s.run() == nil, "no error")
	if s.pl.Calls < s.pl.Odd {
		return
	}
	s.check(g)
}

// H_failures: each single call of the clipper fails.
//
// sym: time=60 covers=failed
func H_failures() {
	s := body(3, -1, 1, 0)
	s.overlaps(0)
	s.o.Print.NumberBottomLayers, s.o.Print.NumberTopLayers, s.o.Print.InfillPercent = 2, 2, 20
	s.pl.Fail = 1 + sym.Choose("fail", 90)
	err := s.run()
	sym.Assert((err != nil) == s.pl.Failed, "a failing clipper is reported")
	if s.pl.Failed {
		sym.Cover("failed")
	}
}

func main() {
	sym.Main(map[string]func(){"H_counts": H_counts, "H_shapes": H_shapes, "H_failures": H_failures})
}
