// C19: custom start and end G-code is emitted verbatim and heaters are safe.
package main

import (
	"strconv"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"github.com/aligator/goslice/gcode/renderer"
	"verifharness/kit"
	"verifharness/sym"
)

var fixed = []string{
	"M104 S{print_temperature}",
	"M190 S{print_bed_temperature} ; heat",
	"  M140 S60",
	"M109",
	"M104S200",
	"M140;bed",
	"G28",
	";M104 S200",
	"; M190",
	"M1040 S1",
	"XM109 S1",
	"{print_temperature}{print_bed_temperature} {print_temperature} 100%",
	"M117 50% done %d %s",
	"{print_temperatur}",
}

// line returns an arbitrary custom line.
func line(kinds int) string {
	k := sym.Choose("kind", kinds)
	switch k {
	case 0:
		return sym.Str("l", 5, 32, 126)
	case 1:
		return "M1" + sym.Str("l", 3, 32, 126)
	case 2:
		return " M10" + sym.Str("l", 2, 32, 126) + "{print_temperature}"
	}
	return fixed[k-3]
}

// command tells whether the instruction word of the line is the given code (parameters may follow without a blank).
func command(l string, codes []string) bool {
	i := 0
	for i < len(l) && l[i] == ' ' {
		i++
	}
	l = l[i:]
	for _, c := range codes {
		if len(l) < len(c) || l[:len(c)] != c {
			continue
		}
		if len(l) == len(c) || l[len(c)] < '0' || l[len(c)] > '9' {
			return true
		}
	}
	return false
}

func any(ls []string, codes []string) bool {
	for _, l := range ls {
		if command(l, codes) {
			return true
		}
	}
	return false
}

func replace(s, from, to string) string {
	r := ""
	for i := 0; i < len(s); {
		if i+len(from) <= len(s) && s[i:i+len(from)] == from {
			r += to
			i += len(from)
		} else {
			r += s[i : i+1]
			i++
		}
	}
	return r
}

var hotCodes, bedCodes = []string{"M104", "M109"}, []string{"M140", "M190"}

// heaters checks the lines that are not custom.
func heaters(lines []string, hot, bed int64, wantHot, wantBed bool) {
	nh, nb := 0, 0
	for _, l := range lines {
		c := kit.Parse(l)
		if c.Comment {
			continue
		}
		sym.Assert(!c.Bad, "well formed line")
		switch c.Op {
		case "M104", "M109":
			nh++
			sym.Assert(c.Has[kit.S] && c.Val[kit.S] == hot*1000000, "temperature of the hot end")
		case "M140", "M190":
			nb++
			sym.Assert(c.Has[kit.S] && c.Val[kit.S] == bed*1000000, "temperature of the bed")
		default:
			sym.Assert(false, "unexpected command")
		}
	}
	b2i := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	sym.Assert(nh == b2i(wantHot), "hot end command exactly if the custom code has none")
	sym.Assert(nb == b2i(wantBed), "bed command exactly if the bed is heated and the custom code has none")
}

// start runs PreLayer of the first layer with the given lines.
func start(ls []string) {
	o := kit.Options()
	hot, bed := int64(205), int64(60)
	if len(ls) == 1 {
		hot, bed = sym.Int("hot", 100, 400), sym.Int("bed", 10, 99)
	}
	o.Filament.InitialHotEndTemperature, o.Filament.InitialBedTemperature = int(hot), int(bed)
	o.Printer.ForceSafeStartStopGCode = sym.Choose("safe", 2) == 1
	o.Printer.HasHeatedBed = sym.Choose("heated", 2) == 1
	o.Printer.StartGCode = data.NewGCodeHunk(ls)
	o.Printer.EndGCode = data.NewGCodeHunk([]string{"M104", "M140"})
	b := gcode.NewGCodeBuilder(o)
	sym.Assert(renderer.PreLayer{}.Render(b, 0, 3, data.NewPartitionedLayer(nil), 200, o) == nil, "no error")
	out := kit.Lines(b.String())
	g := -1
	for i, l := range out {
		if len(l) > 6 && l[:6] == "G92 E0" {
			g = i
		}
	}
	sym.Assert(g >= len(ls), "extruder reset after the start code")
	for i, l := range ls {
		want := replace(l, "{print_bed_temperature}", strconv.Itoa(int(bed)))
		want = replace(want, "{print_temperature}", strconv.Itoa(int(hot)))
		sym.Assert(out[g-len(ls)+i] == want, "start line byte for byte with the temperatures filled in")
	}
	h, bd := any(ls, hotCodes), any(ls, bedCodes)
	safe := o.Printer.ForceSafeStartStopGCode
	if safe && !h {
		sym.Cover("forced")
	}
	heaters(out[:g-len(ls)], hot, bed, safe && !h, safe && o.Printer.HasHeatedBed && !bd)
	for _, l := range out[g+1:] {
		sym.Assert(len(l) > 0 && l[0] == ';', "nothing but comments after the start code")
	}
	for i, l := range ls {
		sym.Assert(o.Printer.StartGCode.GCodeLines[i] == l, "the options stay unchanged")
	}
	// the second layer has none of it
	n := len(out)
	sym.Assert(renderer.PreLayer{}.Render(b, 1, 3, data.NewPartitionedLayer(nil), 400, o) == nil, "no error")
	for _, l := range kit.Lines(b.String())[n:] {
		sym.Assert(len(l) > 0 && l[0] == ';', "start code on the first layer only")
	}
}

// end runs PostLayer with the given lines.
func end(ls []string) {
	o := kit.Options()
	o.Printer.ForceSafeStartStopGCode = sym.Choose("safe", 2) == 1
	o.Printer.HasHeatedBed = sym.Choose("heated", 2) == 1
	o.Printer.EndGCode = data.NewGCodeHunk(ls)
	o.Printer.StartGCode = data.NewGCodeHunk([]string{"M104", "M140"})
	b := gcode.NewGCodeBuilder(o)
	max := sym.Choose("max", 2)
	for nr := 0; nr < max; nr++ {
		sym.Assert(renderer.PostLayer{}.Render(b, nr, max, data.NewPartitionedLayer(nil), 200, o) == nil, "no error")
		sym.Assert(b.String() == "", "end code on the last layer only")
	}
	sym.Assert(renderer.PostLayer{}.Render(b, max, max, data.NewPartitionedLayer(nil), 200, o) == nil, "no error")
	out := kit.Lines(b.String())
	g := len(out) - len(ls)
	sym.Assert(g >= 0, "all end lines")
	for i, l := range ls {
		sym.Assert(out[g+i] == l, "end line byte for byte")
	}
	h, bd := any(ls, hotCodes), any(ls, bedCodes)
	safe := o.Printer.ForceSafeStartStopGCode
	if safe && !h {
		sym.Cover("forced")
	}
	heaters(out[:g], 0, 0, safe && !h, safe && o.Printer.HasHeatedBed && !bd)
}

// H_start: no or one custom start line: 5 arbitrary printable bytes, M1 and 3 arbitrary bytes, blank M10 2 bytes and a
// placeholder, or one of 14 fixed lines; all temperatures 100..400 / 10..99.
//
// sym: time=150 covers=forced
func H_start() {
	if sym.Choose("none", 2) == 1 {
		start(nil)
		return
	}
	start([]string{line(len(fixed) + 3)})
}

// H_end: no or one custom end line, as H_start, last layer 0 or 1.
//
// sym: time=150 covers=forced
func H_end() {
	if sym.Choose("none", 2) == 1 {
		end(nil)
		return
	}
	end([]string{line(len(fixed) + 3)})
}

// H_several: 2 (thorough 3) custom lines out of the fixed ones in every order, at the start or the end.
//
// sym: time=150 covers=forced
func H_several() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	var ls []string
	for i := 0; i < n; i++ {
		ls = append(ls, fixed[sym.Choose("line", len(fixed))])
	}
	if sym.Choose("where", 2) == 0 {
		start(ls)
	} else {
		end(ls)
	}
}

// H_placeholders: a start line made of 3 (thorough 4) pieces, each a placeholder, a part of one or an arbitrary byte, in every order.
//
// sym: time=150
func H_placeholders() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	l := "M117 "
	for i := 0; i < n; i++ {
		switch sym.Choose("piece", 5) {
		case 0:
			l += "{print_bed_temperature}"
		case 1:
			l += "{print_temperature}"
		case 2:
			l += sym.Str("piece", 1, 32, 126)
		case 3:
			l += "{"
		case 4:
			l += "print_temperature}"
		}
	}
	start([]string{l})
}

func main() {
	sym.Main(map[string]func(){"H_placeholders": H_placeholders, "H_start": H_start, "H_end": H_end, "H_several": H_several})
}
