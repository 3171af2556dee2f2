// C01: importing a model keeps every triangle at its coordinates.
package main

import (
	"errors"
	"io/ioutil"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/reader"
	"github.com/hschendel/stl"
	"verifharness/kit"
	"verifharness/sym"
)

// coordinate is an arbitrary multiple of 1/1024 mm (which float32 represents exactly) and its 1024 fold value.
func coordinate(n string, lim int64) (float32, int64) {
	k := sym.Int(n, -lim*1024, lim*1024)
	return float32(k) / 1024, k
}

func near(got data.Micrometer, k int64) bool {
	d := int64(got)*1024 - k*1000
	return sym.And(d < 1024, d > -1024, sym.Implies(k >= 0, got >= 0), sym.Implies(k <= 0, got <= 0))
}

func extreme(v []data.Micrometer, x data.Micrometer, max bool) bool {
	one, all := false, true
	for _, y := range v {
		one = sym.Or(one, x == y)
		if max {
			all = sym.And(all, x >= y)
		} else {
			all = sym.And(all, x <= y)
		}
	}
	return sym.And(one, all)
}

func file(name string) string {
	f := sym.TempFile(name)
	if ioutil.WriteFile(f, []byte("solid x"), 0600) != nil {
		panic("cannot write scratch file")
	}
	return f
}

// H_triangles: reading 1..3 (thorough 4) triangles with all coordinates arbitrary multiples of 1/1024 mm within +-5 m, or one
// arbitrary coordinate and repeated or special values for the others.
//
// sym: time=120 time@thorough=500 covers=read
func H_triangles() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	n := 1 + sym.Choose("triangles", max)
	kind := sym.Choose("kind", 3)
	name := file("in.stl")
	var ks [][9]int64
	var ts []stl.Triangle
	for i := 0; i < n; i++ {
		var k [9]int64
		var t stl.Triangle
		t.Normal = stl.Vec3{float32(i), 1, 0}
		t.Attributes = uint16(i)
		for j := 0; j < 9; j++ {
			var f float32
			switch {
			case kind == 0:
				f, k[j] = coordinate("v", 5000)
			case kind == 1 && j == 3: // degenerate triangles
				f, k[j] = coordinate("v", 5000)
			case kind == 1:
				k[j] = int64(1024 * (j % 2))
				f = float32(k[j]) / 1024
			case kind == 2: // all the same triangle
				if i > 0 {
					k[j] = ks[0][j]
					f = ts[0].Vertices[j/3][j%3]
				} else {
					f, k[j] = coordinate("v", 50)
				}
			}
			t.Vertices[j/3][j%3] = f
		}
		ks = append(ks, k)
		ts = append(ts, t)
	}
	stl.Hook = func(f string, w stl.Writer) error {
		sym.Assert(f == name || f == "", "the given file is read")
		w.SetASCII(true)
		w.SetName("some name")
		w.SetBinaryHeader(nil)
		w.SetTriangleCount(uint32(n))
		for _, t := range ts {
			w.AppendTriangle(t)
		}
		return nil
	}
	m, err := reader.Reader(kit.Options()).Read(name)
	sym.Assert(err == nil, "the file is read without an error")
	sym.Assert(m.FaceCount() == n, "one face per triangle")
	var all [3][]data.Micrometer
	for i := 0; i < n; i++ {
		p := m.Face(i).Points()
		for j := 0; j < 3; j++ {
			sym.Assert(sym.And(near(p[j].X(), ks[i][3*j]), near(p[j].Y(), ks[i][3*j+1]), near(p[j].Z(), ks[i][3*j+2])),
				"every vertex is at the coordinates of the file")
			all[0], all[1], all[2] = append(all[0], p[j].X()), append(all[1], p[j].Y()), append(all[2], p[j].Z())
		}
	}
	sym.Cover("read")
	if kind == 0 && n > 1 {
		return
	}
	lo, hi := m.Min(), m.Max()
	sym.Assert(sym.And(extreme(all[0], lo.X(), false), extreme(all[1], lo.Y(), false), extreme(all[2], lo.Z(), false)), "exact minimum")
	sym.Assert(sym.And(extreme(all[0], hi.X(), true), extreme(all[1], hi.Y(), true), extreme(all[2], hi.Z(), true)), "exact maximum")
	for i := 0; i < n; i++ {
		p := m.Face(i).Points()
		for j := 0; j < 3; j++ {
			sym.Assert(sym.And(p[j].X() == all[0][3*i+j], p[j].Y() == all[1][3*i+j], p[j].Z() == all[2][3*i+j]), "asking for the bounds changes nothing")
		}
	}
}

// H_bounds: minimum and maximum of 1..3 (thorough 4) triangles where one arbitrary coordinate (of +-5 m) of every vertex varies and the
// others are fixed.
//
// sym: time=120 time@thorough=500
func H_bounds() {
	n := 1 + sym.Choose("triangles", 3)
	axis := sym.Choose("axis", 3)
	name := file("in.stl")
	stl.Hook = func(f string, w stl.Writer) error {
		for i := 0; i < n; i++ {
			var t stl.Triangle
			for j := 0; j < 3; j++ {
				for a := 0; a < 3; a++ {
					t.Vertices[j][a] = float32((i*7+j*5+a*3)%11) - 20
				}
				f, _ := coordinate("v", 5000)
				t.Vertices[j][axis] = f
			}
			w.AppendTriangle(t)
		}
		return nil
	}
	m, err := reader.Reader(kit.Options()).Read(name)
	sym.Assert(err == nil && m.FaceCount() == n, "the file is read")
	var all [3][]data.Micrometer
	for i := 0; i < n; i++ {
		for _, p := range m.Face(i).Points() {
			all[0], all[1], all[2] = append(all[0], p.X()), append(all[1], p.Y()), append(all[2], p.Z())
		}
	}
	lo, hi := m.Min(), m.Max()
	sym.Assert(sym.And(extreme(all[0], lo.X(), false), extreme(all[1], lo.Y(), false), extreme(all[2], lo.Z(), false)), "exact minimum")
	sym.Assert(sym.And(extreme(all[0], hi.X(), true), extreme(all[1], hi.Y(), true), extreme(all[2], hi.Z(), true)), "exact maximum")
}

// H_many: 1..40 triangles with one arbitrary coordinate (of +-5 m) at an arbitrary place.
//
// sym: time=60
func H_many() {
	n := []int{1, 2, 3, 5, 8, 16, 17, 33, 40}[sym.Choose("triangles", 9)]
	at := int(sym.Concretize(sym.Int("at", 0, int64(n)*9-1)))
	if at > 26 && at%13 != 0 && at/9 != n-1 {
		return
	}
	v, k := coordinate("v", 5000)
	name := file("in.stl")
	stl.Hook = func(f string, w stl.Writer) error {
		for i := 0; i < n; i++ {
			var t stl.Triangle
			for j := 0; j < 9; j++ {
				t.Vertices[j/3][j%3] = float32(i*9 + j)
				if i*9+j == at {
					t.Vertices[j/3][j%3] = v
				}
			}
			w.AppendTriangle(t)
		}
		return nil
	}
	m, err := reader.Reader(kit.Options()).Read(name)
	sym.Assert(err == nil && m.FaceCount() == n, "one face per triangle")
	for i := 0; i < n; i++ {
		p := m.Face(i).Points()
		for j := 0; j < 9; j++ {
			want := int64(i*9+j) * 1024
			if i*9+j == at {
				want = k
			}
			got := []data.Micrometer{p[j/3].X(), p[j/3].Y(), p[j/3].Z()}[j%3]
			sym.Assert(near(got, want), "every vertex is at the coordinates of the file, in order")
		}
	}
}

// H_errors: missing files, directories, files in missing directories, parse errors after 0..2 triangles and files without triangles.
//
// sym: time=60 covers=missing,parse,empty
func H_errors() {
	r := reader.Reader(kit.Options())
	n := sym.Choose("triangles", 3)
	fail := sym.Choose("fail", 2) == 1
	name := file("in.stl")
	stl.Hook = func(f string, w stl.Writer) error {
		for i := 0; i < n; i++ {
			w.AppendTriangle(stl.Triangle{Vertices: [3]stl.Vec3{{0, 0, 0}, {1, 0, 0}, {1, 1, 1}}})
		}
		if fail {
			return errors.New("parse error")
		}
		return nil
	}
	switch sym.Choose("file", 3) {
	case 0:
		_, err := r.Read(sym.TempFile("nothere.stl"))
		sym.Assert(err != nil, "a missing file is reported")
		sym.Cover("missing")
	case 1:
		_, err := r.Read(sym.TempFile("missing/in.stl"))
		sym.Assert(err != nil, "a missing directory is reported")
	case 2:
		m, err := r.Read(name)
		switch {
		case fail:
			sym.Assert(err != nil, "a file which cannot be parsed is reported")
			sym.Cover("parse")
		case n == 0:
			sym.Assert(err != nil, "a file without any triangle is reported")
			sym.Cover("empty")
		default:
			sym.Assert(err == nil && m.FaceCount() == n, "readable file")
		}
	}
}

func main() {
	sym.Main(map[string]func(){"H_triangles": H_triangles, "H_bounds": H_bounds, "H_many": H_many, "H_errors": H_errors})
}
