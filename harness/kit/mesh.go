package kit

import (
	clipper "github.com/aligator/go.clipper"
	"github.com/aligator/goslice/data"
	"verifharness/sym"
)

// V is a vertex in micrometres.
type V [3]int64

func (v V) Vec() data.MicroVec3 {
	return data.NewMicroVec3(data.Micrometer(v[0]), data.Micrometer(v[1]), data.Micrometer(v[2]))
}

// Of is the vertex at vec.
func Of(vec data.MicroVec3) V { return V{int64(vec.X()), int64(vec.Y()), int64(vec.Z())} }

// Add is v+w.
func (v V) Add(w V) V { return V{v[0] + w[0], v[1] + w[1], v[2] + w[2]} }

// Sub is v-w.
func (v V) Sub(w V) V { return V{v[0] - w[0], v[1] - w[1], v[2] - w[2]} }

// Tri is a triangle.
type Tri [3]V

type face [3]data.MicroVec3

func (f face) Points() [3]data.MicroVec3 { return f }

// Model is a model as a reader returns it.
type Model struct {
	faces  []data.Face
	lo, hi V
}

// NewModel builds a model with the given exact bounds.
func NewModel(ts []Tri, lo, hi V) *Model {
	m := &Model{lo: lo, hi: hi}
	for _, t := range ts {
		m.faces = append(m.faces, face{t[0].Vec(), t[1].Vec(), t[2].Vec()})
	}
	return m
}

func (m *Model) FaceCount() int       { return len(m.faces) }
func (m *Model) Face(i int) data.Face { return m.faces[i] }
func (m *Model) Min() data.MicroVec3  { return m.lo.Vec() }
func (m *Model) Max() data.MicroVec3  { return m.hi.Vec() }

// Mesh is a list of triangles over shared vertices.
type Mesh struct {
	V []V
	F [][3]int
}

// Tris are the triangles of the mesh.
func (m Mesh) Tris() []Tri {
	var r []Tri
	for _, f := range m.F {
		r = append(r, Tri{m.V[f[0]], m.V[f[1]], m.V[f[2]]})
	}
	return r
}

// Bounds are the extremes of the vertices (which have to be concrete).
func Bounds(ts []Tri) (V, V) {
	lo, hi := ts[0][0], ts[0][0]
	for _, t := range ts {
		for _, v := range t {
			for i := range v {
				if v[i] < lo[i] {
					lo[i] = v[i]
				}
				if v[i] > hi[i] {
					hi[i] = v[i]
				}
			}
		}
	}
	return lo, hi
}

// Box is a closed box, faces oriented outwards.
func Box(lo, hi V) Mesh {
	m := Mesh{F: [][3]int{{0, 2, 1}, {0, 3, 2}, {4, 5, 6}, {4, 6, 7}, {0, 1, 5}, {0, 5, 4}, {1, 2, 6}, {1, 6, 5}, {2, 3, 7}, {2, 7, 6}, {3, 0, 4}, {3, 4, 7}}}
	for _, z := range []int64{lo[2], hi[2]} {
		m.V = append(m.V, V{lo[0], lo[1], z}, V{hi[0], lo[1], z}, V{hi[0], hi[1], z}, V{lo[0], hi[1], z})
	}
	return m
}

// Tetra is a closed tetrahedron, faces oriented outwards if d is above (counter clockwise a, b, c).
func Tetra(a, b, c, d V) Mesh {
	return Mesh{V: []V{a, b, c, d}, F: [][3]int{{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}}}
}

// Rotated turns the corners of face i by r.
func (m Mesh) Rotated(i, r int) Mesh {
	f := append([][3]int(nil), m.F...)
	f[i] = [3]int{f[i][r%3], f[i][(r+1)%3], f[i][(r+2)%3]}
	return Mesh{m.V, f}
}

// Swapped exchanges two faces.
func (m Mesh) Swapped(i, j int) Mesh {
	f := append([][3]int(nil), m.F...)
	f[i], f[j] = f[j], f[i]
	return Mesh{m.V, f}
}

// Optimized is an optimized model whose touching faces are the edge neighbours by vertex index.
type Optimized struct {
	tris   []Tri
	touch  [][3]int
	lo, hi V
}

// NewOptimized builds an optimized model with the given exact bounds.
func NewOptimized(m Mesh, lo, hi V) *Optimized {
	o := &Optimized{tris: m.Tris(), lo: lo, hi: hi}
	for i, f := range m.F {
		var t [3]int
		for e := range t {
			t[e] = -1
			for j, g := range m.F {
				if j != i && t[e] < 0 && hasCorner(g, f[e]) && hasCorner(g, f[(e+1)%3]) {
					t[e] = j
				}
			}
		}
		o.touch = append(o.touch, t)
	}
	return o
}

func hasCorner(f [3]int, v int) bool { return f[0] == v || f[1] == v || f[2] == v }

type optFace struct {
	o *Optimized
	i int
}

func (f optFace) Points() [3]data.MicroVec3 {
	t := f.o.tris[f.i]
	return [3]data.MicroVec3{t[0].Vec(), t[1].Vec(), t[2].Vec()}
}
func (f optFace) TouchingFaceIndices() [3]int { return f.o.touch[f.i] }
func (f optFace) MinZ() data.Micrometer {
	t := f.o.tris[f.i]
	z := t[0][2]
	for _, v := range t {
		if v[2] < z {
			z = v[2]
		}
	}
	return data.Micrometer(z)
}
func (f optFace) MaxZ() data.Micrometer {
	t := f.o.tris[f.i]
	z := t[0][2]
	for _, v := range t {
		if v[2] > z {
			z = v[2]
		}
	}
	return data.Micrometer(z)
}

func (o *Optimized) FaceCount() int                         { return len(o.tris) }
func (o *Optimized) Face(i int) data.Face                   { return optFace{o, i} }
func (o *Optimized) OptimizedFace(i int) data.OptimizedFace { return optFace{o, i} }
func (o *Optimized) Min() data.MicroVec3                    { return o.lo.Vec() }
func (o *Optimized) Max() data.MicroVec3                    { return o.hi.Vec() }
func (o *Optimized) Size() data.MicroVec3                   { return o.hi.Sub(o.lo).Vec() }
func (o *Optimized) SaveDebugSTL(string) error              { return nil }

// Joined puts two meshes into one.
func (m Mesh) Joined(o Mesh) Mesh {
	n := len(m.V)
	r := Mesh{append(append([]V(nil), m.V...), o.V...), append([][3]int(nil), m.F...)}
	for _, f := range o.F {
		r.F = append(r.F, [3]int{f[0] + n, f[1] + n, f[2] + n})
	}
	return r
}

// Contours is a polygon clipper which hands out every contour of a layer as it is.
type Contours struct {
	Fail int // the call which fails, counted from 1
	Call int
}

func (c *Contours) Clip(added []clipper.Added, op clipper.ClipType, sf, cf clipper.PolyFillType, rev bool) (*clipper.PolyTree, bool) {
	c.Call++
	if c.Call == c.Fail {
		return nil, false
	}
	var nodes []*clipper.PolyNode
	for _, a := range added {
		sym.Assert(a.Closed, "contours are closed")
		nodes = append(nodes, clipper.NewNode(a.Path, false))
	}
	return clipper.NewTree(nodes...), true
}

func (c *Contours) Offset(added []clipper.OffsetAdded, delta, miter float64) *clipper.PolyTree {
	return clipper.NewTree()
}
