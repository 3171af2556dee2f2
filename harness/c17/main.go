// C17: extruded filament matches the length and cross-section of every line.
package main

import (
	"math"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"github.com/aligator/goslice/gcode/renderer"
	"verifharness/kit"
	"verifharness/sym"
)

type printer struct {
	o    *data.Options
	b    *gcode.Builder
	m    kit.Machine
	used int
	x0   data.Micrometer
	y    data.Micrometer
}

func start(o *data.Options) *printer {
	o.Printer.StartGCode = data.NewGCodeHunk(nil)
	o.Filament.RetractionSpeed = 0
	return &printer{o: o, b: gcode.NewGCodeBuilder(o)}
}

// layer starts a layer the way the generator does.
func (p *printer) layer(nr int) {
	renderer.PreLayer{}.Render(p.b, nr, 9, data.NewPartitionedLayer(nil), p.z(nr), p.o)
	p.steps()
}

func (p *printer) z(nr int) data.Micrometer {
	return p.o.Print.InitialLayerThickness + data.Micrometer(nr)*p.o.Print.LayerThickness
}

// steps executes what was emitted since the last call and returns the extruded length of every extruding move.
func (p *printer) steps() []int64 {
	cmds := kit.ParseAll(p.b.String())
	var r []int64
	for _, c := range cmds[p.used:] {
		if c.Op == "G0" || c.Op == "G1" {
			d := p.m.Step(c)
			sym.Assert(c.Has[kit.E] == (c.Op == "G1"), "G1 extrudes, G0 does not")
			if c.Op == "G1" {
				r = append(r, d)
			}
		}
		if c.Op == "G92" {
			p.m.E = 0
		}
	}
	p.used = len(cmds)
	return r
}

// perUM is the extruded length in millionths of a millimetre per micrometre of line.
func perUM(thickness, width, diameter data.Micrometer, multiplier float64) float64 {
	d := float64(diameter)
	return float64(thickness) * float64(width) / (math.Pi * d * d / 4) * multiplier / 100 * 1000
}

// near: half of the last printed digit of both E values and the relative error of single precision numbers.
func near(d int64, want float64, msg string) {
	f := float64(d) - want
	tol := 101 + want*2e-6
	sym.Assert(sym.And(f <= tol, -f <= tol), msg)
}

type config struct{ init, thick, width, diameter, mult int64 }

var configs = []config{{200, 300, 400, 1750, 100}, {350, 120, 800, 2850, 93}, {100, 50, 150, 1000, 130}, {600, 250, 1200, 3000, 20}}

func (c config) options() *data.Options {
	o := kit.Options()
	o.Print.InitialLayerThickness = data.Micrometer(c.init)
	o.Print.LayerThickness = data.Micrometer(c.thick)
	o.Printer.ExtrusionWidth = data.Micrometer(c.width)
	o.Filament.FilamentDiameter = data.Micrometer(c.diameter)
	o.Filament.ExtrusionMultiplier = int(c.mult)
	return o
}

// line draws a path of two points and checks its extrusion.
func (p *printer) line(nr int, open bool, dx, dy, length int64, thickness data.Micrometer) {
	p.y += 1100000
	p.x0 += 1100000
	err := p.b.AddPolygon(nil, data.Path{data.NewMicroPoint(p.x0, p.y), data.NewMicroPoint(p.x0+data.Micrometer(dx), p.y+data.Micrometer(dy))}, p.z(nr), open)
	sym.Assert(err == nil, "no error")
	got := p.steps()
	n := 2
	if open {
		n = 1
	}
	sym.Assert(len(got) == n, "one extruding move per line")
	want := float64(length) * perUM(thickness, p.o.Printer.ExtrusionWidth, p.o.Filament.FilamentDiameter, float64(p.o.Filament.ExtrusionMultiplier))
	for _, d := range got {
		sym.Assert(d >= 0, "the extruder never goes back")
		near(d, want, "extruded length of a line")
	}
	sym.Observe("n", len(got))
}

// H_length: a line of any length 10 um .. 1 m along an axis, open or closed, on layer 0, 1 or 2 (thorough also 3), with lines
// of 1 mm before and after it on every layer, for 4 sets of thicknesses, width, filament diameter and multiplier.
//
// sym: time=150 time@thorough=400
func H_length() {
	c := configs[sym.Choose("config", len(configs))]
	p := start(c.options())
	n := 3
	if sym.Thorough() {
		n = 4
	}
	at := sym.Choose("layer", n)
	for nr := 0; nr < n; nr++ {
		p.layer(nr)
		t := p.o.Print.LayerThickness
		if nr == 0 {
			t = p.o.Print.InitialLayerThickness
		}
		p.line(nr, true, 1000, 0, 1000, t)
		if nr == at {
			open := sym.Choose("open", 2) == 1
			l := sym.Int("length", 10, 1000000)
			switch sym.Choose("direction", 4) {
			case 0:
				p.line(nr, open, l, 0, l, t)
			case 1:
				p.line(nr, open, -l, 0, l, t)
			case 2:
				p.line(nr, open, 0, l, l, t)
			case 3:
				p.line(nr, open, 0, -l, l, t)
			}
			p.line(nr, true, 0, 1000, 1000, t)
		}
	}
}

// H_config: diagonal and axis-parallel lines of fixed lengths on layers 0 and 1 with one of the settings arbitrary:
// thicknesses, widths and multipliers 1..2000, or one of 6 diameters 500..5000 um.
//
// sym: time=200 time@thorough=500
func H_config() {
	c := configs[sym.Choose("config", 2)]
	switch sym.Choose("setting", 5) {
	case 0:
		c.init = sym.Int("initial", 1, 2000)
	case 1:
		c.thick = sym.Int("thickness", 1, 2000)
	case 2:
		c.width = sym.Int("width", 1, 2000)
	case 3:
		c.mult = sym.Int("multiplier", 1, 2000)
	case 4:
		c.diameter = []int64{500, 999, 1700, 2850, 3001, 5000}[sym.Choose("diameter", 6)]
	}
	p := start(c.options())
	which, open := sym.Choose("line", 3), sym.Choose("open", 2) == 1
	for nr := 0; nr < 2; nr++ {
		p.layer(nr)
		t := p.o.Print.LayerThickness
		if nr == 0 {
			t = p.o.Print.InitialLayerThickness
		}
		switch which {
		case 0:
			p.line(nr, open, 30000, 40000, 50000, t)
		case 1:
			p.line(nr, open, -500, 1200, 1300, t)
		case 2:
			p.line(nr, open, 0, -100000, 100000, t)
		}
	}
}

// H_total: the increments are the same wherever the extruder stands: after 0..100 m of filament (any whole number of mm),
// 8 short lines still extrude what they should, on their own and in total.
//
// sym: time=120
func H_total() {
	c := configs[0]
	p := start(c.options())
	p.layer(0)
	z := p.z(0)
	p.b.AddMove(data.NewMicroVec3(0, 0, z), data.Millimeter(sym.Int("advanced", 1, 100000)))
	p.steps()
	e0 := p.m.E
	x := data.Micrometer(0)
	per := perUM(p.o.Print.InitialLayerThickness, p.o.Printer.ExtrusionWidth, p.o.Filament.FilamentDiameter, 100)
	length := []int64{30, 100, 1000}[sym.Choose("length", 3)]
	for i := 0; i < 8; i++ {
		err := p.b.AddPolygon(nil, data.Path{data.NewMicroPoint(x, 0), data.NewMicroPoint(x+data.Micrometer(length), 0)}, z, true)
		sym.Assert(err == nil, "no error")
		x += data.Micrometer(length)
		for _, d := range p.steps() {
			near(d, float64(length)*per, "extruded length of a short line")
		}
	}
	near(p.m.E-e0, 8*float64(length)*per, "extruded length of several short lines")
}

func main() {
	sym.Main(map[string]func(){"H_length": H_length, "H_config": H_config, "H_total": H_total})
}
