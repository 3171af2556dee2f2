// C18: every layer starts with the configured temperatures, fan speed and speeds.
package main

import (
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"github.com/aligator/goslice/gcode/renderer"
	"verifharness/kit"
	"verifharness/sym"
)

type state struct {
	m    kit.Machine
	used int
	step int64
}

// check looks at the lines PreLayer emitted for one layer.
func (s *state) check(b *gcode.Builder, o *data.Options, nr int, z data.Micrometer) {
	cmds := kit.ParseAll(b.String())
	ann, announced := 0, false
	hot, bed, fan := 0, 0, 0
	fanVal, inLut := o.Filament.FanSpeed.LayerToSpeedLUT[nr]
	start := false
	for _, c := range cmds[s.used:] {
		sym.Assert(!c.Bad, "well formed line")
		if c.Comment {
			if len(c.Text) > 7 && c.Text[:7] == ";LAYER:" {
				v, n, ok := sym.ParseNum(c.Text, 7)
				sym.Assert(ok && n == len(c.Text) && v == int64(nr)*1000000, "the layer is announced by its number")
				ann++
				announced = true
			}
			continue
		}
		switch c.Op {
		case "G92":
			start = true
			sym.Assert(nr == 0 && c.Has[kit.E] && c.Val[kit.E] == 0, "the extruder is reset at the start only")
		case "M104":
			sym.Assert(announced && c.Has[kit.S] && c.Val[kit.S] == int64(o.Filament.HotEndTemperature)*1000000, "normal hot end temperature")
			hot++
		case "M140":
			sym.Assert(announced && c.Has[kit.S] && c.Val[kit.S] == int64(o.Filament.BedTemperature)*1000000, "normal bed temperature")
			bed++
		case "M106":
			sym.Assert(inLut && fanVal != 0 && c.Has[kit.S] && c.Val[kit.S] == int64(fanVal)*1000000, "fan speed of the table")
			fan++
		case "M107":
			sym.Assert(inLut && fanVal == 0, "fan switched off")
			fan++
		default:
			sym.Assert(false, "unexpected command "+c.Op)
		}
	}
	sym.Assert(start == (nr == 0), "extruder reset")
	sym.Assert(ann == 1, "one announcement per layer")
	if nr == o.Filament.InitialTemperatureLayerCount {
		sym.Cover("temperature")
		sym.Assert(hot == 1, "the normal hot end temperature is set")
		if o.Printer.HasHeatedBed {
			sym.Assert(bed == 1, "the normal bed temperature is set")
		} else {
			sym.Assert(bed == 0, "no bed temperature without a heated bed")
		}
	} else {
		sym.Assert(hot == 0 && bed == 0, "temperatures change at no other layer")
	}
	if inLut {
		sym.Cover("fan")
		sym.Assert(fan == 1, "the fan is set once")
	} else {
		sym.Assert(fan == 0, "the fan is left alone")
	}
	// the speeds in force
	s.used = len(cmds)
	for _, e := range []data.Millimeter{0, 0.5} {
		s.step++
		b.AddMove(data.NewMicroVec3(data.Micrometer(1000*s.step), data.Micrometer(500*s.step), z), e)
		cmds = kit.ParseAll(b.String())
		sym.Assert(len(cmds) == s.used+1, "one move")
		s.m.Step(cmds[s.used])
		s.used++
		want := o.Print.LayerSpeed
		if nr == 0 {
			want = o.Print.IntialLayerSpeed
		}
		if e == 0 {
			want = o.Print.MoveSpeed
		}
		sym.Assert(s.m.F == int64(want)*60000000, "speed in force")
	}
}

func options() *data.Options {
	o := kit.Options()
	o.Printer.ForceSafeStartStopGCode = false
	o.Printer.StartGCode = data.NewGCodeHunk(nil)
	o.Filament.InitialBedTemperature = int(sym.Int("ibed", 0, 500))
	o.Filament.InitialHotEndTemperature = int(sym.Int("ihot", 0, 500))
	o.Filament.BedTemperature = int(sym.Int("bed", 0, 500))
	o.Filament.HotEndTemperature = int(sym.Int("hot", 0, 500))
	o.Filament.InitialTemperatureLayerCount = int(sym.Int("count", 0, 1000000))
	o.Printer.HasHeatedBed = sym.Bool("heated")
	o.Print.LayerSpeed = data.Millimeter(sym.Int("layerspeed", 1, 1000))
	o.Print.IntialLayerSpeed = data.Millimeter(sym.Int("initialspeed", 1, 1000))
	o.Print.MoveSpeed = data.Millimeter(sym.Int("movespeed", 1, 1000))
	o.Print.OuterPerimeterSpeed = data.Millimeter(sym.Int("outerspeed", 1, 1000))
	n := sym.Choose("fans", 4)
	lut := map[int]int{}
	for i := 0; i < n; i++ {
		lut[int(sym.Int("fanlayer", 0, 1000000))] = int(sym.Int("fanspeed", 0, 255))
	}
	o.Filament.FanSpeed.LayerToSpeedLUT = lut
	return o
}

// H_sequence: layers 0, 1, 2 (thorough up to 4) one after the other on one builder, as the generator renders them; in
// between another renderer leaves the extrusion speed at the outer perimeter speed. All temperatures 0..500, speeds
// 1..1000, initial layer counts 0..1000000, fan tables of 0..3 entries.
//
// sym: time=150 time@thorough=600 covers=temperature,fan
func H_sequence() {
	o := options()
	b := gcode.NewGCodeBuilder(o)
	n := 3
	if sym.Thorough() {
		n = 5
	}
	var s state
	for nr := 0; nr < n; nr++ {
		z := o.Print.InitialLayerThickness + data.Micrometer(nr)*o.Print.LayerThickness
		err := renderer.PreLayer{}.Render(b, nr, n-1, data.NewPartitionedLayer(nil), z, o)
		sym.Assert(err == nil, "no error")
		s.check(b, o, nr, z)
		b.SetExtrudeSpeed(o.Print.OuterPerimeterSpeed)
	}
}

// H_any: an arbitrary later layer 1..1000000 after the first one.
//
// sym: time=150 covers=temperature,fan
func H_any() {
	o := options()
	b := gcode.NewGCodeBuilder(o)
	var s state
	err := renderer.PreLayer{}.Render(b, 0, 1000000, data.NewPartitionedLayer(nil), 200, o)
	sym.Assert(err == nil, "no error")
	s.check(b, o, 0, 200)
	b.SetExtrudeSpeed(o.Print.OuterPerimeterSpeed)
	nr := int(sym.Int("layer", 1, 1000000))
	err = renderer.PreLayer{}.Render(b, nr, 1000000, data.NewPartitionedLayer(nil), 400, o)
	sym.Assert(err == nil, "no error")
	s.check(b, o, nr, 400)
}

func main() {
	sym.Main(map[string]func(){"H_sequence": H_sequence, "H_any": H_any})
}
