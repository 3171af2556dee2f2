// Package kit holds what several harnesses share: a G-code interpreter, a polygon region model and option builders.
package kit

import (
	"io/ioutil"
	"log"
	"strings"

	"github.com/aligator/goslice/data"
	"verifharness/sym"
)

// Options returns the default options with a silent logger.
func Options() *data.Options {
	o := data.DefaultOptions()
	o.GoSlice.Logger = log.New(ioutil.Discard, "", 0)
	return &o
}

// Axis indices of Cmd.
const (
	X = iota
	Y
	Z
	E
	F
	S
	NAxes
)

// Cmd is one line of G-code. Values are in millionths.
type Cmd struct {
	Text    string // whole line
	Op      string // G0, G1, M104 ... or "" for comments and unparsable lines
	Has     [NAxes]bool
	Val     [NAxes]int64
	Comment bool
	Bad     bool
}

const letters = "XYZEFS"

// Lines splits G-code into its lines (the final line break closes the last line).
func Lines(s string) []string {
	l := strings.Split(s, "\n")
	if len(l) > 0 && l[len(l)-1] == "" {
		l = l[:len(l)-1]
	}
	return l
}

// Parse interprets one line.
func Parse(line string) Cmd {
	c := Cmd{Text: line}
	if len(line) == 0 {
		c.Bad = true
		return c
	}
	if line[0] == ';' {
		c.Comment = true
		return c
	}
	i := strings.IndexByte(line, ' ')
	if i < 0 {
		c.Op = line
		return c
	}
	c.Op = line[:i]
	for i < len(line) {
		if line[i] == ' ' {
			i++
			continue
		}
		if line[i] == ';' {
			break
		}
		k := strings.IndexByte(letters, line[i])
		if k < 0 {
			c.Bad = true
			return c
		}
		v, n, ok := sym.ParseNum(line, i+1)
		if !ok || c.Has[k] {
			c.Bad = true
			return c
		}
		c.Has[k] = true
		c.Val[k] = v
		i = n
	}
	return c
}

// ParseAll interprets G-code line by line.
func ParseAll(s string) []Cmd {
	var r []Cmd
	for _, l := range Lines(s) {
		r = append(r, Parse(l))
	}
	return r
}

// Moves returns the G0/G1 commands only.
func Moves(s string) []Cmd {
	var r []Cmd
	for _, l := range Lines(s) {
		if len(l) > 0 && l[0] == 'G' {
			c := Parse(l)
			if c.Op == "G0" || c.Op == "G1" {
				r = append(r, c)
			}
		}
	}
	return r
}

// Machine is the modal state of a printer.
type Machine struct {
	Pos   [3]int64 // millionths of a millimetre
	Known [3]bool
	E     int64
	F     int64
}

// Step executes a move and returns the extruded length.
func (m *Machine) Step(c Cmd) int64 {
	for k := 0; k < 3; k++ {
		if c.Has[k] {
			m.Pos[k] = c.Val[k]
			m.Known[k] = true
		}
	}
	if c.Has[F] {
		m.F = c.Val[F]
	}
	d := int64(0)
	if c.Has[E] {
		d = c.Val[E] - m.E
		m.E = c.Val[E]
	}
	return d
}

// PosTol is the allowed deviation of a printed coordinate: half of the second decimal plus float32 rounding.
const PosTol = 5300

// Near tells whether the printed coordinate stands for the micrometre value.
func Near(printed int64, um data.Micrometer) bool {
	return sym.Abs(printed-int64(um)*1000) <= PosTol
}

// At asserts that the machine stands at the point.
func (m *Machine) At(x, y, z data.Micrometer, msg string) {
	sym.Assert(m.Known[0] && m.Known[1] && m.Known[2], msg+": some axis was never given")
	sym.Assert(Near(m.Pos[0], x), msg+": X")
	sym.Assert(Near(m.Pos[1], y), msg+": Y")
	sym.Assert(Near(m.Pos[2], z), msg+": Z")
}
