// C20: the generator renders every layer once, in order, at its own height.
package main

import (
	"errors"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"verifharness/kit"
	"verifharness/sym"
)

type call struct {
	r, nr, max int
	z          data.Micrometer
	layer      data.PartitionedLayer
}

type rec struct {
	id    int
	log   *[]call
	inits *[]int
	model *data.OptimizedModel
	fail  *int // index of the call which fails
}

var errRender = errors.New("render")

func (r *rec) Init(m data.OptimizedModel) {
	*r.inits = append(*r.inits, r.id)
	*r.model = m
}

func (r *rec) Render(b *gcode.Builder, nr int, max int, layer data.PartitionedLayer, z data.Micrometer, o *data.Options) error {
	n := len(*r.log)
	*r.log = append(*r.log, call{r.id, nr, max, z, layer})
	b.AddComment("call %d of %d", n, r.id)
	if n == *r.fail {
		return errRender
	}
	return nil
}

type model struct{ data.OptimizedModel }

func (model) Min() data.MicroVec3 { return data.NewMicroVec3(0, 0, 0) }
func (model) Max() data.MicroVec3 { return data.NewMicroVec3(0, 0, 0) }

// H_generate: 0..4 layers, 0..3 renderers, all initial thicknesses and layer thicknesses up to 5 mm, no error or an error
// at any call, two generations in a row.
//
// sym: time=150 covers=error,empty
func H_generate() {
	o := kit.Options()
	init := data.Micrometer(sym.Int("initial", 1, 5000))
	th := data.Micrometer(sym.Int("thickness", 1, 5000))
	o.Print.InitialLayerThickness, o.Print.LayerThickness = init, th
	nl, nr := sym.Choose("layers", 5), sym.Choose("renderers", 4)
	var layers []data.PartitionedLayer
	for i := 0; i < nl; i++ {
		layers = append(layers, data.NewPartitionedLayer([]data.LayerPart{data.NewBasicLayerPart(data.Path{data.NewMicroPoint(data.Micrometer(i), 0)}, nil)}))
	}
	var log []call
	var inits []int
	var got data.OptimizedModel
	fail := -1
	g := gcode.NewGenerator(o)
	mk := func(i int) *rec { return &rec{i, &log, &inits, &got, &fail} }
	switch nr {
	case 1:
		g = gcode.NewGenerator(o, gcode.WithRenderer(mk(0)))
	case 2:
		g = gcode.NewGenerator(o, gcode.WithRenderer(mk(0)), gcode.WithRenderer(mk(1)))
	case 3:
		g = gcode.NewGenerator(o, gcode.WithRenderer(mk(0)), gcode.WithRenderer(mk(1)), gcode.WithRenderer(mk(2)))
	}
	m := &model{}
	g.Init(m)
	sym.Assert(len(inits) == nr, "every renderer is initialised once")
	for i, x := range inits {
		sym.Assert(x == i && got == data.OptimizedModel(m), "initialised with the model")
	}
	for round := 0; round < 2; round++ {
		log = log[:0]
		fail = sym.Choose("fail", nl*nr+1) - 1
		s, err := g.Generate(layers)
		want := nl * nr
		if fail >= 0 {
			want = fail + 1
			sym.Cover("error")
		}
		if want == 0 {
			sym.Cover("empty")
		}
		sym.Assert(len(log) == want, "number of render calls")
		exp := ""
		for k, c := range log {
			l := k / nr
			sym.Assert(c.nr == l && c.r == k%nr, "layers in order, renderers in order of registration")
			sym.Assert(c.max == nl-1, "number of the last layer")
			sym.Assert(c.z == init+data.Micrometer(l)*th, "height of the layer")
			sym.Assert(len(c.layer.LayerParts()) == 1 && c.layer.LayerParts()[0].Outline()[0].X() == data.Micrometer(l), "data of the layer")
			exp += ";call " + string(rune('0'+k/10)) + string(rune('0'+k%10)) + " of " + string(rune('0'+k%nr)) + "\n"
		}
		if fail >= 0 {
			sym.Assert(err == errRender, "the error of the renderer is returned")
			sym.Assert(s == "", "no G-code after an error")
			continue
		}
		sym.Assert(err == nil, "no error")
		// two digit numbers are compared without their leading zero
		j := 0
		for i := 0; i < len(exp); i++ {
			if exp[i] == '0' && i > 5 && exp[i-6:i] == ";call " {
				continue
			}
			sym.Assert(j < len(s) && s[j] == exp[i], "the result is what the renderers emitted, from scratch")
			j++
		}
		sym.Assert(j == len(s), "nothing else")
		sym.Assert(len(inits) == nr, "no further initialisation")
	}
}

func main() {
	sym.Main(map[string]func(){"H_generate": H_generate})
}
