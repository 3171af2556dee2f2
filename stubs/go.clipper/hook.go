package clipper

// This file is the only addition of the verification machinery to the library: while Hook is nil
// everything below calls the unchanged library code.

// Added is a path given to a Clipper.
type Added struct {
	Path   Path
	Type   PolyType
	Closed bool
}

// OffsetAdded is a path given to a ClipperOffset.
type OffsetAdded struct {
	Path Path
	Join JoinType
	End  EndType
}

// Model replaces the polygon algorithms.
type Model interface {
	Clip(added []Added, op ClipType, subjFill, clipFill PolyFillType, reverse bool) (*PolyTree, bool)
	Offset(added []OffsetAdded, delta, miterLimit float64) *PolyTree
}

// Acceptor is a Model which decides itself which paths have an area (open paths: a length); the library does not take others.
type Acceptor interface {
	Accept(pg Path, closed bool) bool
}

// Hook is the model in use.
var Hook Model

func accept(pg Path, closed bool) bool {
	if a, ok := Hook.(Acceptor); ok {
		return a.Accept(pg, closed)
	}
	if closed {
		return len(pg) >= 3
	}
	return len(pg) >= 2
}

// NewTree builds a PolyTree; open marks open top level paths.
func NewTree(children ...*PolyNode) *PolyTree {
	t := NewPolyTree()
	for _, c := range children {
		t.AddChild(c)
		t.note(c)
	}
	return t
}

func (t *PolyTree) note(c *PolyNode) {
	t.m_AllPolys = append(t.m_AllPolys, c)
	for _, d := range c.m_Childs {
		t.note(d)
	}
}

// NewNode builds a PolyNode.
func NewNode(contour Path, open bool, children ...*PolyNode) *PolyNode {
	n := NewPolyNode()
	n.m_polygon = contour
	n.IsOpen = open
	for _, c := range children {
		n.AddChild(c)
	}
	return n
}

func (c *ClipperBase) AddPath(pg Path, polyType PolyType, Closed bool) bool {
	if Hook == nil {
		return c.realAddPath(pg, polyType, Closed)
	}
	if !accept(pg, Closed) {
		return false
	}
	c.hAdded = append(c.hAdded, Added{pg, polyType, Closed})
	return true
}

func (c *Clipper) Execute2(clipType ClipType, subjFillType, clipFillType PolyFillType) (*PolyTree, bool) {
	if Hook == nil {
		return c.realExecute2(clipType, subjFillType, clipFillType)
	}
	if len(c.hAdded) == 0 {
		return nil, false // as the library
	}
	return Hook.Clip(c.hAdded, clipType, subjFillType, clipFillType, c.ReverseSolution)
}

func flatten(n *PolyNode, to Paths) Paths {
	for _, c := range n.m_Childs {
		to = append(to, c.m_polygon)
		to = flatten(c, to)
	}
	return to
}

func (c *Clipper) Execute1(clipType ClipType, subjFillType, clipFillType PolyFillType) (Paths, bool) {
	if Hook == nil {
		return c.realExecute1(clipType, subjFillType, clipFillType)
	}
	if len(c.hAdded) == 0 {
		return nil, false
	}
	t, ok := Hook.Clip(c.hAdded, clipType, subjFillType, clipFillType, c.ReverseSolution)
	if !ok {
		return nil, false
	}
	return flatten(&t.PolyNode, nil), true
}

func (co *ClipperOffset) AddPath(path Path, joinType JoinType, endType EndType) {
	if Hook == nil {
		co.realAddPath(path, joinType, endType)
		return
	}
	co.hAdded = append(co.hAdded, OffsetAdded{path, joinType, endType})
}

func (co *ClipperOffset) Execute(delta float64) Paths {
	if Hook == nil {
		return co.realExecute(delta)
	}
	return flatten(&Hook.Offset(co.hAdded, delta, co.MiterLimit).PolyNode, nil)
}

func (co *ClipperOffset) Execute2(delta float64) *PolyTree {
	if Hook == nil {
		return co.realExecute2(delta)
	}
	return Hook.Offset(co.hAdded, delta, co.MiterLimit)
}
