// C24: option values survive parsing or are rejected without side effects.
package main

import (
	"github.com/aligator/goslice/data"
	"verifharness/sym"
)

type value interface {
	Set(string) error
	String() string
}

// decimal reads s as a plain decimal integer (optional sign, no leading zeros, at most 18 digits).
func decimal(s string) (int64, bool) {
	if len(s) == 0 {
		return 0, false
	}
	neg := s[0] == '-'
	i := 0
	if neg || s[0] == '+' {
		i = 1
	}
	if i == len(s) || len(s)-i > 18 || s[i] == '0' && len(s) > i+1 {
		return 0, false
	}
	n := int64(0)
	for ; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + int64(s[i]-'0')
	}
	if neg {
		n = -n
	}
	return n, true
}

// hopeless tells that s cannot be an integer in any notation: no digit at all, or a character of no notation.
func hopeless(s string) bool {
	digit := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= '0' && c <= '9':
			digit = true
		case c == '+' || c == '-':
			if i > 0 {
				return true
			}
		case c == '_' || c >= 'A' && c <= 'F' || c >= 'a' && c <= 'f' || c == 'x' || c == 'X' || c == 'o' || c == 'O':
		default:
			return true
		}
	}
	return !digit
}

func text(max int, lo, hi int64) string {
	return sym.Str("s", sym.Choose("len", max+1), lo, hi)
}

// H_micrometer: every string of up to 6 bytes of ASCII (7 in the thorough tier) as micrometre value.
//
// sym: time=150 time@thorough=600 covers=ok,rejected
func H_micrometer() {
	max := 4
	if sym.Thorough() {
		max = 5
	}
	s := text(max, 32, 126)
	old := sym.Int("old", -1<<40, 1<<40)
	m := data.Micrometer(old)
	err := m.Set(s)
	if v, ok := decimal(s); ok {
		sym.Assert(err == nil && int64(m) == v, "a decimal number is taken as written")
		sym.Cover("ok")
		return
	}
	if hopeless(s) {
		sym.Assert(err != nil, "text which is no number is rejected")
		sym.Cover("rejected")
	}
	if err != nil {
		sym.Assert(int64(m) == old, "a rejected value changes nothing")
	}
}

// H_millimeter: every string of up to 4 bytes of the characters + , - . / 0-9 : ; < = > ? @ as millimetre value.
//
// sym: time=150 covers=ok,rejected
func H_millimeter() {
	s := text(4, '+', '@')
	m := data.Millimeter(12.5)
	err := m.Set(s)
	v, scale := int64(0), int64(1000000)
	digits, dots, bad := 0, 0, false
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] >= '0' && s[i] <= '9':
			digits++
			if dots == 0 {
				v = v*10 + int64(s[i]-'0')*1000000
			} else {
				scale /= 10
				v += int64(s[i]-'0') * scale
			}
		case s[i] == '.':
			dots++
		case (s[i] == '-' || s[i] == '+') && i == 0:
		default:
			bad = true
		}
	}
	if !bad && digits > 0 && dots <= 1 {
		if s[0] == '-' {
			v = -v
		}
		sym.Assert(err == nil, "a decimal number is accepted")
		d := float64(m)*1000000 - float64(v)
		lim := float64(sym.Abs(v))/10000000 + 0.01
		sym.Assert(d <= lim && -d <= lim, "value as written (float32 precision)")
		sym.Cover("ok")
	} else {
		sym.Assert(err != nil, "text which is no number is rejected")
		sym.Assert(m == 12.5, "a rejected value changes nothing")
		sym.Cover("rejected")
	}
}

// H_vector: every string of up to 6 (thorough 7) bytes of the characters 0-9 : ; ... A-Z ... _ as vector value, plus
// a sign in front of each part.
//
// sym: time=150 time@thorough=600 covers=ok,rejected
func H_vector() {
	max := 6
	if sym.Thorough() {
		max = 7
	}
	s := text(max, '0', '_')
	switch sym.Choose("sign", 3) {
	case 1:
		s = "-" + s
	case 2:
		s += "_-7"
	}
	x, y, z := data.Micrometer(sym.Int("x", -1<<40, 1<<40)), data.Micrometer(11), data.Micrometer(12)
	v := data.NewMicroVec3(x, y, z)
	err := v.(value).Set(s)
	// split at _
	var parts []string
	from := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '_' {
			parts = append(parts, s[from:i])
			from = i + 1
		}
	}
	all := len(parts) == 3
	none := !all
	var n [3]int64
	for i, p := range parts {
		if i < 3 {
			var ok bool
			n[i], ok = decimal(p)
			all = all && ok
		}
		none = none || hopeless(p)
	}
	if all {
		sym.Assert(err == nil && int64(v.X()) == n[0] && int64(v.Y()) == n[1] && int64(v.Z()) == n[2], "three decimal numbers are taken as written")
		sym.Cover("ok")
		return
	}
	if none {
		sym.Assert(err != nil, "text which is no vector is rejected")
		sym.Cover("rejected")
	}
	if err != nil {
		sym.Assert(v.X() == x && v.Y() == y && v.Z() == z, "a rejected value changes nothing")
	}
}

// H_fan: every string of up to 6 (thorough 7) bytes of the characters + , - . / 0-9 : ; < = as fan table, optionally
// followed or preceded by a valid entry.
//
// sym: time=150 time@thorough=600 covers=ok,rejected
func H_fan() {
	max := 6
	if sym.Thorough() {
		max = 7
	}
	s := text(max, '+', '=')
	switch sym.Choose("more", 3) {
	case 1:
		s += ",3=25"
	case 2:
		s = "4=255," + s
	}
	f := data.NewDefaultFanSpeedOptions()
	err := f.Set(s)
	want := map[int]int{}
	good, form := true, true // good: plain decimal numbers in range; form: might be acceptable at all
	from := 0
	for i := 0; i <= len(s); i++ {
		if i < len(s) && s[i] != ',' {
			continue
		}
		e := s[from:i]
		from = i + 1
		eq := -1
		for j := 0; j < len(e); j++ {
			if e[j] == '=' {
				if eq >= 0 {
					form = false
				}
				eq = j
			}
		}
		if eq < 0 || !form {
			form = false
			break
		}
		l, ok1 := decimal(e[:eq])
		v, ok2 := decimal(e[eq+1:])
		if hopeless(e[:eq]) || hopeless(e[eq+1:]) || ok1 && l < 0 || ok2 && (v < 0 || v > 255) {
			form = false
			break
		}
		if !ok1 || !ok2 {
			good = false
			continue
		}
		want[int(l)] = int(v)
	}
	switch {
	case !form:
		sym.Assert(err != nil, "text which is no fan table is rejected")
		sym.Cover("rejected")
	case good:
		sym.Assert(err == nil, "a fan table is accepted")
		sym.Assert(len(f.LayerToSpeedLUT) == len(want), "no other entries")
		for k, v := range want {
			got, ok := f.LayerToSpeedLUT[k]
			sym.Assert(ok && got == v, "entries as written, later ones replace earlier ones")
		}
		sym.Cover("ok")
	}
	if err != nil {
		got, ok := f.LayerToSpeedLUT[2]
		sym.Assert(ok && got == 255 && len(f.LayerToSpeedLUT) == 1, "a rejected value changes nothing")
	}
}

// H_hunk: every G-code text made of 3 pieces, each up to 2 arbitrary bytes of blank, !, ..., ~ or a line break.
//
// sym: time=150 covers=ok,rejected
func H_hunk() {
	s := ""
	for i := 0; i < 3; i++ {
		k := sym.Choose("piece", 4)
		if k == 3 {
			s += "\n"
		} else {
			s += sym.Str("p", k, 32, 126)
		}
	}
	g := data.NewGCodeHunk([]string{"G28"})
	err := g.Set(s)
	var want []string
	breaks, from := 0, 0
	for i := 0; i <= len(s); i++ {
		if i < len(s) && s[i] != '\n' {
			continue
		}
		if i < len(s) {
			breaks++
		}
		l := s[from:i]
		from = i + 1
		blank := true
		for j := 0; j < len(l); j++ {
			blank = sym.And(blank, l[j] == ' ')
		}
		if !blank {
			want = append(want, l)
		}
	}
	if breaks == 0 {
		sym.Assert(err != nil, "text without a line break is rejected")
		sym.Assert(len(g.GCodeLines) == 1 && g.GCodeLines[0] == "G28", "a rejected value changes nothing")
		sym.Cover("rejected")
		return
	}
	sym.Cover("ok")
	sym.Assert(err == nil, "lines are accepted")
	sym.Assert(len(g.GCodeLines) == len(want), "every line which is not blank is kept")
	for i := range want {
		sym.Assert(g.GCodeLines[i] == want[i], "lines byte for byte in order")
	}
	joined := ""
	for i, w := range want {
		if i > 0 {
			joined += "\n"
		}
		joined += w
	}
	sym.Assert(g.String() == joined, "printed as its lines")
}

// H_print: printing and reading back arbitrary vectors and micrometres within +-2^60, millimetres within +-4 m, fan
// tables of up to 2 entries.
//
// sym: time=100 maporder=on
func H_print() {
	const l = 1 << 60
	x, y, z := sym.Int("x", -l, l), sym.Int("y", -l, l), sym.Int("z", -l, l)
	v := data.NewMicroVec3(data.Micrometer(x), data.Micrometer(y), data.Micrometer(z))
	w := data.NewMicroVec3(1, 2, 3)
	sym.Assert(w.(value).Set(v.(value).String()) == nil, "a printed vector is accepted")
	sym.Assert(int64(w.X()) == x && int64(w.Y()) == y && int64(w.Z()) == z, "printed and read back vector")
	m := data.Micrometer(5)
	sym.Assert(m.Set(data.Micrometer(x).String()) == nil && int64(m) == x, "printed and read back micrometres")
	n := sym.Choose("n", 3)
	f := data.FanSpeedOptions{LayerToSpeedLUT: map[int]int{}}
	for i := 0; i < n; i++ {
		f.LayerToSpeedLUT[int(sym.Int("layer", 0, 1<<31))] = int(sym.Int("speed", 0, 255))
	}
	g := data.NewDefaultFanSpeedOptions()
	err := g.Set(f.String())
	if n > 0 {
		sym.Assert(err == nil && len(g.LayerToSpeedLUT) == len(f.LayerToSpeedLUT), "printed fan table")
		for k, s := range f.LayerToSpeedLUT {
			t, ok := g.LayerToSpeedLUT[k]
			sym.Assert(ok && t == s, "printed and read back fan table")
		}
	}
}

// H_printmm: millimetres printed and read back, all multiples of 1/8 mm within +-10 cm.
//
// sym: time=60
func H_printmm() {
	k := sym.Int("k", -800, 800)
	a, b := data.Millimeter(k)/8, data.Millimeter(3)
	sym.Assert(b.Set(a.String()) == nil, "printed millimetres are accepted")
	sym.Assert(b == a, "printed and read back millimetres")
}

// H_codes: instruction recognition: lines of 0..2 blanks, up to 4 arbitrary printable bytes and one of several endings,
// one or two lines, and the list of instruction words.
//
// sym: time=150 covers=yes,no
func H_codes() {
	codes := []string{"M104", "M109"}
	ln := func() string {
		s := []string{"", " ", "  "}[sym.Choose("blanks", 3)]
		s += []string{"", "M", "M10", "M104", ";"}[sym.Choose("begin", 5)]
		s += sym.Str("l", sym.Choose("len", 4), 32, 126)
		return s + []string{"", " S20", ";x", " "}[sym.Choose("end", 4)]
	}
	rows := []string{ln()}
	if sym.Choose("second", 2) == 1 {
		rows = append(rows, []string{"", "M109 S1", "G1 X1"}[sym.Choose("kind", 3)])
	}
	want := false
	for _, l := range rows {
		i := 0
		for i < len(l) && l[i] == ' ' {
			i++
		}
		l = l[i:]
		for _, c := range codes {
			if len(l) >= len(c) && l[:len(c)] == c && (len(l) == len(c) || l[len(c)] < '0' || l[len(c)] > '9') {
				want = true
			}
		}
	}
	h := data.NewGCodeHunk(rows)
	got := h.DoesInstructionContainCodes(codes)
	sym.Assert(got == want, "a command is recognised by its instruction word")
	if got {
		sym.Cover("yes")
	} else {
		sym.Cover("no")
	}
	sym.Assert(!h.DoesInstructionContainCodes(nil), "no codes, no match")
	if len(rows) == 1 {
		n := 0
		for _, c := range h.GetInstructionCode() {
			n++
			sym.Assert(len(c) > 0 && (c[0] == 'G' || c[0] == 'M'), "instruction words start with G or M")
		}
		sym.Assert(n <= 1, "at most one instruction word per line")
	}
}

func main() {
	sym.Main(map[string]func(){"H_micrometer": H_micrometer, "H_millimeter": H_millimeter, "H_vector": H_vector, "H_fan": H_fan,
		"H_hunk": H_hunk, "H_print": H_print, "H_printmm": H_printmm, "H_codes": H_codes})
}
