// C23: every command line option sets its own setting and nothing else.
package main

import (
	"io/ioutil"
	"os"
	"strconv"

	"github.com/aligator/goslice/data"
	flag "github.com/spf13/pflag"
	"verifharness/sym"
)

// opt is one option: its name and how a value is written and stored.
type opt struct {
	name string
	kind int // see the constants
	um   func(o *data.Options) *data.Micrometer
	mm   func(o *data.Options) *data.Millimeter
	i    func(o *data.Options) *int
	b    func(o *data.Options) *bool
}

const (
	kUm = iota
	kMm
	kInt
	kBool
	kOutput
	kCenter
	kFan
	kStart
	kEnd
)

func um(n string, f func(o *data.Options) *data.Micrometer) opt {
	return opt{name: n, kind: kUm, um: f}
}
func mm(n string, f func(o *data.Options) *data.Millimeter) opt {
	return opt{name: n, kind: kMm, mm: f}
}
func in(n string, f func(o *data.Options) *int) opt  { return opt{name: n, kind: kInt, i: f} }
func bl(n string, f func(o *data.Options) *bool) opt { return opt{name: n, kind: kBool, b: f} }

type o = data.Options

var opts = []opt{
	bl("version", func(o *o) *bool { return &o.GoSlice.PrintVersion }),
	{name: "output", kind: kOutput},
	um("meld-distance", func(o *o) *data.Micrometer { return &o.Slicing.MeldDistance }),
	um("join-polygon-snap-distance", func(o *o) *data.Micrometer { return &o.Slicing.JoinPolygonSnapDistance }),
	um("finish-polygon-snap-distance", func(o *o) *data.Micrometer { return &o.Slicing.FinishPolygonSnapDistance }),
	mm("initial-layer-speed", func(o *o) *data.Millimeter { return &o.Print.IntialLayerSpeed }),
	mm("layer-speed", func(o *o) *data.Millimeter { return &o.Print.LayerSpeed }),
	mm("outer-perimeter-speed", func(o *o) *data.Millimeter { return &o.Print.OuterPerimeterSpeed }),
	mm("move-speed", func(o *o) *data.Millimeter { return &o.Print.MoveSpeed }),
	um("initial-layer-thickness", func(o *o) *data.Micrometer { return &o.Print.InitialLayerThickness }),
	um("layer-thickness", func(o *o) *data.Micrometer { return &o.Print.LayerThickness }),
	in("inset-count", func(o *o) *int { return &o.Print.InsetCount }),
	in("infill-overlap-percent", func(o *o) *int { return &o.Print.InfillOverlapPercent }),
	in("additional-internal-infill-overlap-percent", func(o *o) *int { return &o.Print.AdditionalInternalInfillOverlapPercent }),
	in("infill-percent", func(o *o) *int { return &o.Print.InfillPercent }),
	in("infill-rotation-degree", func(o *o) *int { return &o.Print.InfillRotationDegree }),
	bl("infill-zig-zag", func(o *o) *bool { return &o.Print.InfillZigZag }),
	in("number-bottom-layers", func(o *o) *int { return &o.Print.NumberBottomLayers }),
	in("number-top-layers", func(o *o) *int { return &o.Print.NumberTopLayers }),
	bl("support-enabled", func(o *o) *bool { return &o.Print.Support.Enabled }),
	in("support-threshold-angle", func(o *o) *int { return &o.Print.Support.ThresholdAngle }),
	in("support-top-gap-layers", func(o *o) *int { return &o.Print.Support.TopGapLayers }),
	in("support-interface-layers", func(o *o) *int { return &o.Print.Support.InterfaceLayers }),
	mm("support-pattern-spacing", func(o *o) *data.Millimeter { return &o.Print.Support.PatternSpacing }),
	mm("support-gap", func(o *o) *data.Millimeter { return &o.Print.Support.Gap }),
	in("skirt-count", func(o *o) *int { return &o.Print.BrimSkirt.SkirtCount }),
	mm("skirt-distance", func(o *o) *data.Millimeter { return &o.Print.BrimSkirt.SkirtDistance }),
	in("brim-count", func(o *o) *int { return &o.Print.BrimSkirt.BrimCount }),
	um("filament-diameter", func(o *o) *data.Micrometer { return &o.Filament.FilamentDiameter }),
	in("initial-bed-temperature", func(o *o) *int { return &o.Filament.InitialBedTemperature }),
	in("initial-hot-end-temperature", func(o *o) *int { return &o.Filament.InitialHotEndTemperature }),
	in("bed-temperature", func(o *o) *int { return &o.Filament.BedTemperature }),
	in("hot-end-temperature", func(o *o) *int { return &o.Filament.HotEndTemperature }),
	in("initial-temperature-layer-count", func(o *o) *int { return &o.Filament.InitialTemperatureLayerCount }),
	mm("retraction-speed", func(o *o) *data.Millimeter { return &o.Filament.RetractionSpeed }),
	mm("retraction-length", func(o *o) *data.Millimeter { return &o.Filament.RetractionLength }),
	mm("retraction-z-hop", func(o *o) *data.Millimeter { return &o.Filament.RetractionZHop }),
	{name: "fan-speed", kind: kFan},
	in("extrusion-multiplier", func(o *o) *int { return &o.Filament.ExtrusionMultiplier }),
	um("extrusion-width", func(o *o) *data.Micrometer { return &o.Printer.ExtrusionWidth }),
	{name: "center", kind: kCenter},
	bl("force-safe-gcode", func(o *o) *bool { return &o.Printer.ForceSafeStartStopGCode }),
	bl("has-heated-bed", func(o *o) *bool { return &o.Printer.HasHeatedBed }),
	{name: "start-gcode", kind: kStart},
	{name: "end-gcode", kind: kEnd},
}

const lim = 1 << 40

// give returns the command line words setting the option to an arbitrary value, and stores the value in want.
func give(p opt, want *data.Options) []string {
	v := ""
	switch p.kind {
	case kUm:
		x := sym.Int("um", -lim, lim)
		v = strconv.FormatInt(x, 10)
		*p.um(want) = data.Micrometer(x)
	case kMm:
		// whole, half and quarter millimetres
		x := sym.Int("mm", 0, 100000)
		switch sym.Choose("part", 3) {
		case 0:
			v = strconv.FormatInt(x, 10)
			*p.mm(want) = data.Millimeter(x)
		case 1:
			v = strconv.FormatInt(x, 10)
			v = "-" + v
			*p.mm(want) = -data.Millimeter(x)
		case 2:
			v = "0.25"
			*p.mm(want) = 0.25
		}
	case kInt:
		x := sym.Int("int", -lim, lim)
		v = strconv.FormatInt(x, 10)
		*p.i(want) = int(x)
	case kBool:
		*p.b(want) = true
		switch sym.Choose("bool", 3) {
		case 0:
			return []string{"--" + p.name}
		case 1:
			return []string{"--" + p.name + "=true"}
		}
		*p.b(want) = false
		return []string{"--" + p.name + "=false"}
	case kOutput:
		v = sym.Str("path", 1+sym.Choose("len", 3), 33, 126)
		want.GoSlice.OutputFilePath = v
		if sym.Choose("short", 2) == 1 {
			return []string{"-o", v}
		}
	case kCenter:
		x, y, z := sym.Int("x", -lim, lim), sym.Int("y", -lim, lim), sym.Int("z", -lim, lim)
		v = strconv.FormatInt(x, 10) + "_" + strconv.FormatInt(y, 10) + "_" + strconv.FormatInt(z, 10)
		want.Printer.Center = data.NewMicroVec3(data.Micrometer(x), data.Micrometer(y), data.Micrometer(z))
	case kFan:
		l, s := sym.Int("layer", 0, 1000), sym.Int("fan", 0, 255)
		v = strconv.FormatInt(l, 10) + "=" + strconv.FormatInt(s, 10)
		want.Filament.FanSpeed.LayerToSpeedLUT = map[int]int{int(l): int(s)}
	case kStart:
		l := sym.Str("line", 2, 33, 126)
		v = l + "\nG28"
		want.Printer.StartGCode.GCodeLines = []string{l, "G28"}
	case kEnd:
		l := sym.Str("line", 2, 33, 126)
		v = "M84\n" + l
		want.Printer.EndGCode.GCodeLines = []string{"M84", l}
	}
	if sym.Choose("form", 2) == 1 {
		return []string{"--" + p.name, v}
	}
	return []string{"--" + p.name + "=" + v}
}

// same asserts that two option sets are equal in every field.
func same(got, want *data.Options) {
	for _, p := range opts {
		switch p.kind {
		case kUm:
			sym.Assert(*p.um(got) == *p.um(want), "value of "+p.name)
		case kMm:
			sym.Assert(*p.mm(got) == *p.mm(want), "value of "+p.name)
		case kInt:
			sym.Assert(*p.i(got) == *p.i(want), "value of "+p.name)
		case kBool:
			sym.Assert(*p.b(got) == *p.b(want), "value of "+p.name)
		}
	}
	sym.Assert(got.GoSlice.OutputFilePath == want.GoSlice.OutputFilePath, "output path")
	sym.Assert(got.GoSlice.InputFilePath == want.GoSlice.InputFilePath, "input path")
	sym.Assert(got.GoSlice.Logger != nil, "logger")
	c, d := got.Printer.Center, want.Printer.Center
	sym.Assert(c.X() == d.X() && c.Y() == d.Y() && c.Z() == d.Z(), "centre")
	f, g := got.Filament.FanSpeed.LayerToSpeedLUT, want.Filament.FanSpeed.LayerToSpeedLUT
	sym.Assert(len(f) == len(g), "fan table")
	for k, v := range g {
		w, ok := f[k]
		sym.Assert(ok && v == w, "fan table entry")
	}
	lines := func(a, b []string, msg string) {
		sym.Assert(len(a) == len(b), msg)
		for i := range a {
			sym.Assert(a[i] == b[i], msg)
		}
	}
	lines(got.Printer.StartGCode.GCodeLines, want.Printer.StartGCode.GCodeLines, "start code")
	lines(got.Printer.EndGCode.GCodeLines, want.Printer.EndGCode.GCodeLines, "end code")
}

// parse runs ParseFlags on the given command line; ok is false if it was rejected.
func parse(args []string) (r data.Options, ok bool) {
	flag.CommandLine = flag.NewFlagSet("goslice", flag.PanicOnError)
	flag.CommandLine.SetOutput(ioutil.Discard)
	old := os.Args
	os.Args = append([]string{"goslice"}, args...)
	defer func() {
		os.Args = old
		if e := recover(); e != nil {
			if _, isErr := e.(error); !isErr {
				panic(e)
			}
			if _, rt := e.(interface{ RuntimeError() }); rt {
				panic(e)
			}
		}
	}()
	return data.ParseFlags(), true
}

// H_single: every option alone with every value (numbers within +-2^40, whole numbers of millimetres up to 100 m, any
// vector, fan entry, path of 1..3 and G-code line of 2 printable bytes), in both notations, before or after the input path.
//
// sym: time=120
func H_single() {
	p := opts[sym.Choose("option", len(opts))]
	want := data.DefaultOptions()
	args := give(p, &want)
	switch sym.Choose("input", 3) {
	case 1:
		want.GoSlice.InputFilePath = "a.stl"
		args = append([]string{"a.stl"}, args...)
	case 2:
		want.GoSlice.InputFilePath = "b"
		args = append(append([]string{}, args...), "b", "c")
	}
	got, ok := parse(args)
	sym.Assert(ok, "the option "+p.name+" is accepted")
	same(&got, &want)
}

// H_none: no option at all gives the defaults.
//
// sym: time=30
func H_none() {
	want := data.DefaultOptions()
	got, ok := parse(nil)
	sym.Assert(ok, "an empty command line is accepted")
	same(&got, &want)
}

// H_pairs: every two different options in every order.
//
// sym: time=200 time@thorough=700
func H_pairs() {
	i := sym.Choose("first", len(opts))
	j := sym.Choose("second", len(opts))
	sym.Assume(i != j)
	want := data.DefaultOptions()
	args := short(opts[i], &want)
	args = append(args, short(opts[j], &want)...)
	got, ok := parse(args)
	sym.Assert(ok, "the options are accepted")
	same(&got, &want)
}

// short is give without the variants in notation.
func short(p opt, want *data.Options) []string {
	switch p.kind {
	case kMm:
		x := sym.Int("mm", 0, 100000)
		*p.mm(want) = data.Millimeter(x)
		return []string{"--" + p.name, strconv.FormatInt(x, 10)}
	case kBool:
		*p.b(want) = !*p.b(want)
		return []string{"--" + p.name + "=" + strconv.FormatBool(*p.b(want))}
	case kUm:
		x := sym.Int("um", -lim, lim)
		*p.um(want) = data.Micrometer(x)
		return []string{"--" + p.name, strconv.FormatInt(x, 10)}
	case kInt:
		x := sym.Int("int", -lim, lim)
		*p.i(want) = int(x)
		return []string{"--" + p.name, strconv.FormatInt(x, 10)}
	case kOutput:
		want.GoSlice.OutputFilePath = "x.gcode"
		return []string{"--output=x.gcode"}
	case kStart:
		want.Printer.StartGCode.GCodeLines = []string{"G1"}
		return []string{"--start-gcode=G1\n"}
	case kEnd:
		want.Printer.EndGCode.GCodeLines = []string{"G2", "G3"}
		return []string{"--end-gcode=G2\nG3"}
	case kFan:
		want.Filament.FanSpeed.LayerToSpeedLUT = map[int]int{7: 70, 8: 80}
		return []string{"--fan-speed=7=70,8=80"}
	}
	want.Printer.Center = data.NewMicroVec3(1, 2, 3)
	return []string{"--center=1_2_3"}
}

// H_malformed: every option with a value that is none of its kind, an unknown option (up to 3 arbitrary bytes behind
// the name of an existing one) and a missing value, alone or after other options.
//
// sym: time=120
func H_malformed() {
	p := opts[sym.Choose("option", len(opts))]
	bad := ""
	switch p.kind {
	case kUm, kInt:
		bad = []string{"", "x", "1.5", "1 ", "--"}[sym.Choose("bad", 5)]
	case kMm:
		bad = []string{"", "x", "1,5", "1 ", "--"}[sym.Choose("bad", 5)]
	case kBool:
		bad = []string{"", "x", "2", "yes", "tru"}[sym.Choose("bad", 5)]
	case kCenter:
		bad = []string{"", "1_2", "1_2_3_4", "1_2_x", "1,2,3"}[sym.Choose("bad", 5)]
	case kFan:
		bad = []string{"", "1", "1=256", "1=1=1", "-1=0"}[sym.Choose("bad", 5)]
	case kStart, kEnd:
		bad = []string{"", "G28"}[sym.Choose("bad", 2)]
	}
	args := []string{"--" + p.name + "=" + bad}
	switch sym.Choose("kind", 3) {
	case 0:
		if p.kind == kOutput {
			return
		}
	case 1:
		s := sym.Str("s", 1+sym.Choose("len", 2), 'a', 'z')
		args[0] = "--" + p.name + s
	case 2:
		if p.kind == kBool {
			return
		}
		args[0] = "--" + p.name
	}
	if sym.Choose("after", 2) == 1 {
		args = append([]string{"--inset-count=3", "in.stl"}, args...)
	}
	_, ok := parse(args)
	sym.Assert(!ok, "a malformed command line is rejected")
}

func main() {
	sym.Main(map[string]func(){"H_single": H_single, "H_none": H_none, "H_pairs": H_pairs, "H_malformed": H_malformed})
}
