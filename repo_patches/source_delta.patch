From dc40b35902c6bb9805dcadf0f4b11cf82d77ef83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:32 +0000
Subject: [PATCH 01/30] fix: do not set a bed temperature on printers without a
 heated bed

---
 gcode/renderer/layer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcode/renderer/layer.go b/gcode/renderer/layer.go
index 4c424ef..90e643c 100644
--- a/gcode/renderer/layer.go
+++ b/gcode/renderer/layer.go
@@ -89,7 +89,9 @@ func (PreLayer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.P
 		// set the normal temperature
 		// this is done without waiting
 		b.AddComment("SET_TEMP")
-		b.AddCommand("M140 S%d", options.Filament.BedTemperature)
+		if options.Printer.HasHeatedBed {
+			b.AddCommand("M140 S%d", options.Filament.BedTemperature)
+		}
 		b.AddCommand("M104 S%d", options.Filament.HotEndTemperature)
 	}
 
-- 
2.43.0


From 2fa0cc8b4a410538128058537fbf508bae6e0430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:26 +0000
Subject: [PATCH 02/30] fix: emit custom start and end G-code lines verbatim

---
 gcode/renderer/layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcode/renderer/layer.go b/gcode/renderer/layer.go
index 90e643c..1a205a4 100644
--- a/gcode/renderer/layer.go
+++ b/gcode/renderer/layer.go
@@ -48,7 +48,7 @@ func (PreLayer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.P
 			if strings.Contains(instruction, HotendTempTemplate) {
 				instruction = strings.Replace(instruction, HotendTempTemplate, fmt.Sprint(options.Filament.InitialHotEndTemperature), -1)
 			}
-			b.AddCommand(instruction)
+			b.AddCommand("%s", instruction)
 		}
 
 		b.AddCommand("G92 E0 ; reset extrusion distance")
@@ -120,7 +120,7 @@ func (PostLayer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.
 			}
 		}
 		for _, instruction := range options.Printer.EndGCode.GCodeLines {
-			b.AddCommand(instruction)
+			b.AddCommand("%s", instruction)
 		}
 
 	}
-- 
2.43.0


From de4d03b9b154006fcc84c84ec10860585cfcd7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:41 +0000
Subject: [PATCH 03/30] fix: recognise heater commands in custom G-code by the
 whole instruction word

---
 data/option.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data/option.go b/data/option.go
index bbce068..d7c2acc 100644
--- a/data/option.go
+++ b/data/option.go
@@ -155,7 +155,9 @@ func (gch GCodeHunk) DoesInstructionContainCodes(targetCodes []string) bool {
 	for _, instruction := range gch.GCodeLines {
 		code := strings.Split(strings.TrimSpace(instruction), " ")[0]
 		for _, targetCode := range targetCodes {
-			if strings.Contains(code, targetCode) {
+			// The parameters may follow without a space (e.g. "M104S200"), but another digit means a different code.
+			parameters := strings.TrimPrefix(code, targetCode)
+			if strings.HasPrefix(code, targetCode) && (parameters == "" || parameters[0] < '0' || parameters[0] > '9') {
 				contained = true
 				break
 			}
-- 
2.43.0


From b307c3f22823e40901331d5642062c19fde62297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:06 +0000
Subject: [PATCH 04/30] fix: do not panic on empty G-code lines

---
 data/option.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/option.go b/data/option.go
index d7c2acc..51a4301 100644
--- a/data/option.go
+++ b/data/option.go
@@ -141,7 +141,7 @@ func (gch GCodeHunk) GetInstructionCode() []string {
 	var codes []string
 	for _, instruction := range gch.GCodeLines {
 		code := strings.Split(strings.TrimSpace(instruction), " ")[0]
-		if code[0] == 'G' || code[0] == 'M' {
+		if strings.HasPrefix(code, "G") || strings.HasPrefix(code, "M") {
 			codes = append(codes, code)
 		}
 	}
-- 
2.43.0


From 05515a2e59f229da3246536d39a295b42798eb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:00 +0000
Subject: [PATCH 05/30] fix: keep micrometer and millimeter options unchanged
 if the given value is invalid

---
 data/option.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/data/option.go b/data/option.go
index 51a4301..58e2db1 100644
--- a/data/option.go
+++ b/data/option.go
@@ -21,8 +21,11 @@ func (m Micrometer) String() string {
 
 func (m *Micrometer) Set(s string) error {
 	v, err := strconv.ParseInt(s, 0, 64)
+	if err != nil {
+		return err
+	}
 	*m = Micrometer(v)
-	return err
+	return nil
 }
 
 func (m Micrometer) Type() string {
@@ -35,8 +38,11 @@ func (m Millimeter) String() string {
 
 func (m *Millimeter) Set(s string) error {
 	v, err := strconv.ParseFloat(s, 32)
+	if err != nil {
+		return err
+	}
 	*m = Millimeter(v)
-	return err
+	return nil
 }
 
 func (m Millimeter) Type() string {
-- 
2.43.0


From b85a5df32ab2bb2ed9de95e56d708c59ad6c91e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:11 +0000
Subject: [PATCH 06/30] fix: do not print everything after the outer perimeter
 at its speed

---
 gcode/renderer/perimeter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcode/renderer/perimeter.go b/gcode/renderer/perimeter.go
index 297308a..e23da1f 100644
--- a/gcode/renderer/perimeter.go
+++ b/gcode/renderer/perimeter.go
@@ -55,5 +55,8 @@ func (p Perimeter) Render(b *gcode.Builder, layerNr int, maxLayer int, layer dat
 		}
 	}
 
+	// The speed of the outer perimeter must not be used for anything else.
+	b.SetExtrudeSpeed(options.Print.LayerSpeed)
+
 	return nil
 }
-- 
2.43.0


From f091cb9c6cf9d3ffee4690d0ab56b0aa15695dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:10 +0000
Subject: [PATCH 07/30] fix: do not lose small extrusions after long prints

---
 gcode/builder.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gcode/builder.go b/gcode/builder.go
index 2b829fd..39dfade 100644
--- a/gcode/builder.go
+++ b/gcode/builder.go
@@ -15,7 +15,9 @@ import (
 type Builder struct {
 	buf *bytes.Buffer
 
-	extrusionAmount                                             data.Millimeter
+	// extrusionAmount is the sum of all extrusions in mm.
+	// It has to be more precise than data.Millimeter as it gets big compared to each single extrusion.
+	extrusionAmount                                             float64
 	extrusionPerMM                                              data.Millimeter
 	currentPosition                                             data.MicroVec3
 	notFirstMoveX                                               bool
@@ -121,7 +123,7 @@ func (g *Builder) AddMoveSpeed(p data.MicroVec3, extrusion data.Millimeter, spee
 		g.currentSpeed = speed
 	}
 
-	g.extrusionAmount += extrusion
+	g.extrusionAmount += float64(extrusion)
 	if extrusion != 0 {
 		g.buf.WriteString(fmt.Sprintf(" E%0.4f", g.extrusionAmount))
 	}
-- 
2.43.0


From e06180152e12ac799450fa93a79430ce03a1bdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:51 +0000
Subject: [PATCH 08/30] fix: compare distances correctly when searching the
 most distant point

---
 data/2d.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/2d.go b/data/2d.go
index 52994bc..586ed97 100644
--- a/data/2d.go
+++ b/data/2d.go
@@ -56,7 +56,7 @@ func seekMostDistantPoint(p1 MicroPoint, p2 MicroPoint, points Path) (idx int, m
 		// TODO: check usage of 'Shortest Distance' from a point to a line segment
 		//       suggested here https://karthaus.nl/rdp/ I think slic3r uses that
 		d := PerpendicularDistance2(p1, p2, points[i])
-		if d > maxDist*maxDist {
+		if d > maxDist {
 			maxDist = d
 			idx = i
 		}
-- 
2.43.0


From 99c5c79d787a5214657534cd35c700d5376f9975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:58 +0000
Subject: [PATCH 09/30] fix: do not modify the given path when smoothing it

---
 data/2d.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/data/2d.go b/data/2d.go
index 586ed97..478a670 100644
--- a/data/2d.go
+++ b/data/2d.go
@@ -43,7 +43,11 @@ func douglasPeucker(points Path, ep Micrometer, depth int) Path {
 		// TODO: check if implementation without recursion would be possible and if it is more performant
 		left := douglasPeucker(points[:idx+1], ep, depth+1)
 		right := douglasPeucker(points[idx:], ep, depth+1)
-		return append(left[:len(left)-1], right...)
+
+		// Create a new path as left may share its memory with the given points, which must not be changed.
+		result := make(Path, 0, len(left)-1+len(right))
+		result = append(result, left[:len(left)-1]...)
+		return append(result, right...)
 	}
 
 	// If the most distant point fails to pass the threshold test, then just return the two points
-- 
2.43.0


From c48b341e4a8ccab7d874d473d65c9d65b1b04f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:07 +0000
Subject: [PATCH 10/30] fix: measure the distance of the removed vertex when
 simplifying

---
 data/layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/layer.go b/data/layer.go
index 9d6f8e4..12856ca 100644
--- a/data/layer.go
+++ b/data/layer.go
@@ -120,7 +120,7 @@ func (p Path) Simplify(smallestLineSegmentSquared, allowedErrorDistanceSquared M
 		// h^2 = L^2 / b^2     [factor the divisor]
 		height2 := areaRemovedSoFar * areaRemovedSoFar / baseLength2
 		if (height2 <= 25 && //Almost exactly collinear (barring rounding errors).
-			PerpendicularDistance2(current, previous, next) <= 25) ||
+			PerpendicularDistance2(previous, next, current) <= 25) ||
 			(length2 < smallestLineSegmentSquared &&
 				nextLength2 < smallestLineSegmentSquared && // segments are small
 				height2 <= allowedErrorDistanceSquared) { // removing the vertex doesn't introduce too much error.
-- 
2.43.0


From 9b4e99d11d8d0d0fcb5423cf6833ad777361abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:45 +0000
Subject: [PATCH 11/30] fix: do not move to the origin before the first path

---
 gcode/builder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcode/builder.go b/gcode/builder.go
index 39dfade..c178f50 100644
--- a/gcode/builder.go
+++ b/gcode/builder.go
@@ -166,7 +166,9 @@ func (g *Builder) AddPolygon(currentLayer data.PartitionedLayer, polygon data.Pa
 			}
 
 			isCrossing := false
-			if currentLayer != nil && g.retractionSpeed != 0 && g.retractionAmount != 0 {
+			// Before the first move the position of the nozzle is unknown, so there is nothing which could be crossed.
+			isFirstMove := !g.notFirstMoveX && !g.notFirstMoveY && !g.notFirstMoveZ
+			if !isFirstMove && currentLayer != nil && g.retractionSpeed != 0 && g.retractionAmount != 0 {
 				c := clip.NewClipper()
 				var ok bool
 				isCrossing, ok = c.IsCrossingPerimeter(currentLayer.LayerParts(), move)
-- 
2.43.0


From db89734d62e0f2450ce1f5610048a32753b441ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:11 +0000
Subject: [PATCH 12/30] fix: report models which cannot be read or have no
 faces

---
 reader/reader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reader/reader.go b/reader/reader.go
index bd2ef49..cc114ee 100644
--- a/reader/reader.go
+++ b/reader/reader.go
@@ -116,7 +116,12 @@ func (r reader) Read(filename string) (data.Model, error) {
 	if _, err := os.Stat(filename); errors.Is(err, os.ErrNotExist) {
 		return model, os.ErrNotExist
 	}
-	stl.CopyFile(filename, model)
+	if err := stl.CopyFile(filename, model); err != nil {
+		return model, err
+	}
+	if len(model.faces) == 0 {
+		return model, errors.New("the model contains no faces")
+	}
 	return model, nil
 }
 
-- 
2.43.0


From bd8fa0a5d5e1a1690a89cec5757be9395e298cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:19 +0000
Subject: [PATCH 13/30] fix: do not divide by zero if the meld distance is zero

---
 optimizer/optimizer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optimizer/optimizer.go b/optimizer/optimizer.go
index a8ae8ef..7c3fed3 100644
--- a/optimizer/optimizer.go
+++ b/optimizer/optimizer.go
@@ -60,6 +60,10 @@ FacesLoop:
 			// create hash for the pos
 			// points which are within the meldDistance fall into the same category of the indices map
 			meldDistanceHash := pointHash(o.options.Slicing.MeldDistance)
+			if meldDistanceHash == 0 {
+				// without a meld distance only identical points fall into the same category
+				meldDistanceHash = 1
+			}
 			hash := ((pointHash(currentPoint.X()) + meldDistanceHash/2) / meldDistanceHash) ^
 				(((pointHash(currentPoint.Y()) + meldDistanceHash/2) / meldDistanceHash) << 10) ^
 				(((pointHash(currentPoint.Z()) + meldDistanceHash/2) / meldDistanceHash) << 20)
-- 
2.43.0


From 06a3bcb711858e2a06f4f9cc81badd615b01713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:48 +0000
Subject: [PATCH 14/30] fix: do not panic on layers without any face

---
 slicer/slicer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/slicer/slicer.go b/slicer/slicer.go
index e3cd091..a3cde92 100644
--- a/slicer/slicer.go
+++ b/slicer/slicer.go
@@ -34,6 +34,10 @@ func (s slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
 	layerCount := (m.Size().Z()-s.options.Print.InitialLayerThickness)/s.options.Print.LayerThickness + 1
 
 	layers := make([]*layer, layerCount)
+	// also layers without any face have to exist
+	for layerNr := range layers {
+		layers[layerNr] = newLayer(layerNr, s.options)
+	}
 
 	for i := 0; i < m.FaceCount(); i++ {
 		points := m.Face(i).Points()
@@ -64,10 +68,6 @@ func (s slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
 				continue
 			}
 
-			if layers[layerNr] == nil {
-				layers[layerNr] = newLayer(layerNr, s.options)
-			}
-
 			layer := layers[layerNr]
 
 			var seg *segment
-- 
2.43.0


From 4798464a2dfb67712fe08c8125ab25258358916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:05 +0000
Subject: [PATCH 15/30] fix: always slice at least one layer

---
 slicer/slicer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slicer/slicer.go b/slicer/slicer.go
index a3cde92..f95200e 100644
--- a/slicer/slicer.go
+++ b/slicer/slicer.go
@@ -32,6 +32,10 @@ func NewSlicer(options *data.Options) handler.ModelSlicer {
 
 func (s slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
 	layerCount := (m.Size().Z()-s.options.Print.InitialLayerThickness)/s.options.Print.LayerThickness + 1
+	if layerCount < 1 {
+		// models lower than the initial layer still have one layer
+		layerCount = 1
+	}
 
 	layers := make([]*layer, layerCount)
 	// also layers without any face have to exist
-- 
2.43.0


From 1be02f7c04af799357f79d45ce4d28aa5baf2566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:13 +0000
Subject: [PATCH 16/30] fix: slice all layers of models which do not start at
 the bed

---
 slicer/slicer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slicer/slicer.go b/slicer/slicer.go
index f95200e..222a89f 100644
--- a/slicer/slicer.go
+++ b/slicer/slicer.go
@@ -31,7 +31,8 @@ func NewSlicer(options *data.Options) handler.ModelSlicer {
 }
 
 func (s slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
-	layerCount := (m.Size().Z()-s.options.Print.InitialLayerThickness)/s.options.Print.LayerThickness + 1
+	// the model does not have to start at the bed
+	layerCount := (m.Max().Z()-s.options.Print.InitialLayerThickness)/s.options.Print.LayerThickness + 1
 	if layerCount < 1 {
 		// models lower than the initial layer still have one layer
 		layerCount = 1
-- 
2.43.0


From 8edb84ebcb8bcb88ac7dd8cb234e52d5acab9464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:28 +0000
Subject: [PATCH 17/30] fix: report an error if no face of the model remains

---
 optimizer/optimizer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/optimizer/optimizer.go b/optimizer/optimizer.go
index 7c3fed3..0674613 100644
--- a/optimizer/optimizer.go
+++ b/optimizer/optimizer.go
@@ -22,6 +22,8 @@
 package optimizer
 
 import (
+	"errors"
+
 	"github.com/aligator/goslice/data"
 	"github.com/aligator/goslice/handler"
 )
@@ -126,6 +128,10 @@ FacesLoop:
 		om.faces = append(om.faces, optimizedFace)
 	}
 
+	if len(om.faces) == 0 {
+		return nil, errors.New("no face of the model is bigger than the meld distance")
+	}
+
 	// count open faces
 	openFaces := 0
 	for i, face := range om.faces {
-- 
2.43.0


From 4f87bda8962b9325e9cb7eb2d90e77c8af5e4419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:37 +0000
Subject: [PATCH 18/30] fix: do not fail if there is nothing to clip

---
 clip/clip.go | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/clip/clip.go b/clip/clip.go
index 1b119fb..ae9e383 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -212,7 +212,10 @@ func (c clipperClipper) GenerateLayerParts(l data.Layer) (data.PartitionedLayer,
 	}
 
 	cl := clipper.NewClipper(clipper.IoNone)
-	cl.AddPaths(polyList, clipper.PtSubject, true)
+	if !cl.AddPaths(polyList, clipper.PtSubject, true) {
+		// No polygon has an area. The clipper would fail if it has nothing to clip.
+		return data.NewPartitionedLayer([]data.LayerPart{}), true
+	}
 	resultPolys, ok := cl.Execute2(clipper.CtUnion, clipper.PftEvenOdd, clipper.PftEvenOdd)
 	if !ok {
 		return nil, false
@@ -306,14 +309,28 @@ func (c clipperClipper) runClipper(clipType clipper.ClipType, parts []data.Layer
 	}
 
 	cl := clipper.NewClipper(clipper.IoNone)
+	hasArea := false
 	for _, part := range parts {
-		cl.AddPath(clipperPath(part.Outline()), clipper.PtSubject, true)
-		cl.AddPaths(clipperPaths(part.Holes()), clipper.PtSubject, true)
+		if cl.AddPath(clipperPath(part.Outline()), clipper.PtSubject, true) {
+			hasArea = true
+		}
+		if cl.AddPaths(clipperPaths(part.Holes()), clipper.PtSubject, true) {
+			hasArea = true
+		}
 	}
 
 	for _, intersect := range toClip {
-		cl.AddPath(clipperPath(intersect.Outline()), clipper.PtClip, true)
-		cl.AddPaths(clipperPaths(intersect.Holes()), clipper.PtClip, true)
+		if cl.AddPath(clipperPath(intersect.Outline()), clipper.PtClip, true) {
+			hasArea = true
+		}
+		if cl.AddPaths(clipperPaths(intersect.Holes()), clipper.PtClip, true) {
+			hasArea = true
+		}
+	}
+
+	// The clipper would fail if it has nothing to clip.
+	if !hasArea {
+		return nil, true
 	}
 
 	tree, ok := cl.Execute2(clipType, clipper.PftEvenOdd, clipper.PftEvenOdd)
@@ -333,7 +350,10 @@ func (c clipperClipper) IsCrossingPerimeter(parts []data.LayerPart, line data.Pa
 		cl.AddPath(clipperPath(part.Outline()), clipper.PtClip, true)
 	}
 
-	cl.AddPath(clipperPath(line), clipper.PtSubject, false)
+	// A line without any length cannot cross anything. The clipper would fail if it has nothing to clip.
+	if !cl.AddPath(clipperPath(line), clipper.PtSubject, false) {
+		return false, true
+	}
 
 	// calculate the difference of the parts and the line, then look if the (inverted) result contains any left path which would be a line not inside of the parts.
 	// If any part is left, the line crossed a perimeter.
@@ -363,9 +383,17 @@ func (c clipperClipper) Hull(parts []data.LayerPart) (hull data.Path, ok bool) {
 
 func (c clipperClipper) TopLevelPolygons(parts []data.LayerPart) (topLevel data.Paths, ok bool) {
 	cl := clipper.NewClipper(clipper.IoNone)
+	hasArea := false
 
 	for _, part := range parts {
-		cl.AddPath(clipperPath(part.Outline()), clipper.PtSubject, true)
+		if cl.AddPath(clipperPath(part.Outline()), clipper.PtSubject, true) {
+			hasArea = true
+		}
+	}
+
+	// The clipper would fail if it has nothing to clip.
+	if !hasArea {
+		return nil, true
 	}
 
 	// this is just a dummy-call to Execute2 as I found no other way to get a tree from clipper...
-- 
2.43.0


From b98fa0a8a60616a7954a3ffa5f8941476b936f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:21 +0000
Subject: [PATCH 19/30] fix: follow faces across their common edge and treat
 points on the layer as above

---
 slicer/layer.go   | 37 +++++++++++++++++--------------------
 slicer/segment.go |  5 ++++-
 slicer/slicer.go  | 17 ++++++++++++++---
 3 files changed, 35 insertions(+), 24 deletions(-)

diff --git a/slicer/layer.go b/slicer/layer.go
index c712849..4e43a41 100644
--- a/slicer/layer.go
+++ b/slicer/layer.go
@@ -27,8 +27,8 @@ func (l *layer) Polygons() data.Paths {
 
 // makePolygons is responsible for creating polygons out of the list of loose segments received through slicing the faces.
 // For this it loops through all segments (which are not already part of a polygon) and then tries to build the whole polygon
-// by iterating through all touching faces of the face the segment comes from. If a segment is found it is done again the same
-// for this segment also. This is done as long as the polygon could not be fully closed or all segments are checked.
+// by continuing with the face which touches the face of the segment where the segment ends. If a segment is found there it is done
+// again the same for this segment also. This is done as long as the polygon could not be fully closed or all segments are checked.
 // It takes care of the configured MeldDistance and just "snaps" very near segments together. This can fix small holes.
 //
 // After creating all polygons there are often still not closed ones.
@@ -62,28 +62,25 @@ func (l *layer) makePolygons(om data.OptimizedModel, joinPolygonSnapDistance, fi
 			// get the whole face for the index
 			face := om.OptimizedFace(l.segments[currentSegmentIndex].faceIndex)
 
-			// For each touching face of the current face
-			// check if touching face is in this layer.
+			// For the face touching at the edge on which the segment ends
+			// check if it is in this layer.
 			// Then calculate the difference between the current end-point (p0)
-			// and the starting points of the segments of the touching faces.
+			// and the starting point of the segment of the touching face.
 			// if it is below the threshold
 			// * check if it is the same segment as the starting segment of this round
 			//   -> close it as a slicePolygon is finished
-			// * if the segment is already added just continue
-			// then set the next index to the touching segment
-			for _, touchingFaceIndex := range face.TouchingFaceIndices() {
-				touchingSegmentIndex, ok := l.faceToSegmentIndex[touchingFaceIndex]
-				if touchingFaceIndex > -1 && ok {
-					p1 := l.segments[touchingSegmentIndex].start
-					diff := p0.Sub(p1)
-
-					if diff.ShorterThanOrEqual(l.options.Slicing.MeldDistance) {
-						if touchingSegmentIndex == startSegmentIndex {
-							canClose = true
-						}
-						if l.segments[touchingSegmentIndex].addedToPolygon {
-							continue
-						}
+			// * if the segment is not already added set the next index to the touching segment
+			touchingFaceIndex := face.TouchingFaceIndices()[l.segments[currentSegmentIndex].endEdge]
+			touchingSegmentIndex, ok := l.faceToSegmentIndex[touchingFaceIndex]
+			if touchingFaceIndex > -1 && ok {
+				p1 := l.segments[touchingSegmentIndex].start
+				diff := p0.Sub(p1)
+
+				if diff.ShorterThanOrEqual(l.options.Slicing.MeldDistance) {
+					if touchingSegmentIndex == startSegmentIndex {
+						canClose = true
+					}
+					if !l.segments[touchingSegmentIndex].addedToPolygon {
 						nextIndex = touchingSegmentIndex
 					}
 				}
diff --git a/slicer/segment.go b/slicer/segment.go
index 5ebf638..ec199ee 100644
--- a/slicer/segment.go
+++ b/slicer/segment.go
@@ -9,7 +9,10 @@ type segment struct {
 	start, end data.MicroPoint
 
 	// faceIndex is the face which this segment belongs to.
-	faceIndex      int
+	faceIndex int
+	// endEdge is the edge of the face on which the segment ends.
+	// It is the index of the face touching there in TouchingFaceIndices.
+	endEdge        int
 	addedToPolygon bool
 }
 
diff --git a/slicer/slicer.go b/slicer/slicer.go
index 222a89f..3cfcef4 100644
--- a/slicer/slicer.go
+++ b/slicer/slicer.go
@@ -75,29 +75,39 @@ func (s slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
 
 			layer := layers[layerNr]
 
+			// A point exactly on z counts as above, so that touching faces always agree
+			// if their common edge crosses z.
 			var seg *segment
+			// endEdge is the edge of the face on which the segment ends.
+			var endEdge int
 			switch {
 			// only p0 is below z
 			case points[0].Z() < z && points[1].Z() >= z && points[2].Z() >= z:
 				seg = SliceFace(z, points[0], points[2], points[1])
+				endEdge = 0
 			// only p1 and p2 are below z
-			case points[0].Z() > z && points[1].Z() < z && points[2].Z() < z:
+			case points[0].Z() >= z && points[1].Z() < z && points[2].Z() < z:
 				seg = SliceFace(z, points[0], points[1], points[2])
+				endEdge = 2
 
 			// only p1 is below z
 			case points[1].Z() < z && points[0].Z() >= z && points[2].Z() >= z:
 				seg = SliceFace(z, points[1], points[0], points[2])
+				endEdge = 1
 			// only p0 and p2 are below z
-			case points[1].Z() > z && points[0].Z() < z && points[2].Z() < z:
+			case points[1].Z() >= z && points[0].Z() < z && points[2].Z() < z:
 				seg = SliceFace(z, points[1], points[2], points[0])
+				endEdge = 0
 
 			// only p2 is below z
 			case points[2].Z() < z && points[1].Z() >= z && points[0].Z() >= z:
 				seg = SliceFace(z, points[2], points[1], points[0])
+				endEdge = 2
 
 			// only p1 and p0 are below z
-			case points[2].Z() > z && points[1].Z() < z && points[0].Z() < z:
+			case points[2].Z() >= z && points[1].Z() < z && points[0].Z() < z:
 				seg = SliceFace(z, points[2], points[0], points[1])
+				endEdge = 1
 			default:
 				// not all cases create a segment, because
 				// a point of a face could create just a dot
@@ -107,6 +117,7 @@ func (s slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
 
 			layer.faceToSegmentIndex[i] = len(layer.segments)
 			seg.faceIndex = i
+			seg.endEdge = endEdge
 			seg.addedToPolygon = false
 			layer.segments = append(layer.segments, seg)
 		}
-- 
2.43.0


From 24a9b906e7e4ed378e99b2f7d3b94c134b712c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:45 +0000
Subject: [PATCH 20/30] fix: support an inset count of zero

---
 modifier/infill.go    | 4 ++++
 modifier/perimeter.go | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/modifier/infill.go b/modifier/infill.go
index dbf51be..501c401 100644
--- a/modifier/infill.go
+++ b/modifier/infill.go
@@ -60,6 +60,10 @@ func (m infillModifier) Modify(layers []data.PartitionedLayer) error {
 		// Calculate the bottom/top parts for each inner perimeter part.
 		// It also takes into account the configured number of top/bottom layers.
 		for partNr, part := range perimeters {
+			if len(part) == 0 {
+				continue
+			}
+
 			// for the last (most inner) inset of each part
 			for _, insetPart := range part[len(part)-1] {
 				var bottomInfillParts, topInfillParts []data.LayerPart
diff --git a/modifier/perimeter.go b/modifier/perimeter.go
index ac13042..c93d307 100644
--- a/modifier/perimeter.go
+++ b/modifier/perimeter.go
@@ -76,6 +76,11 @@ func (m perimeterModifier) Modify(layers []data.PartitionedLayer) error {
 				overlapPerimeter = append(overlapPerimeter, nil)
 			}
 
+			// Without any perimeter there is no border for the infill.
+			if len(part) == 0 {
+				continue
+			}
+
 			// Use only the most inner perimeter.
 			for _, insetPart := range part[len(part)-1] {
 
-- 
2.43.0


From 5c81ac6f6d52ba5168d8d939b49ce09789d0250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:14 +0000
Subject: [PATCH 21/30] fix: generate infill for layers above a layer without
 perimeters

---
 modifier/infill.go          | 11 +++++++++--
 modifier/internal_infill.go |  6 +++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/modifier/infill.go b/modifier/infill.go
index 501c401..6895544 100644
--- a/modifier/infill.go
+++ b/modifier/infill.go
@@ -43,14 +43,21 @@ func TopInfill(layer data.PartitionedLayer) ([]data.LayerPart, error) {
 func (m infillModifier) Modify(layers []data.PartitionedLayer) error {
 	for layerNr := range layers {
 		overlappingPerimeters, err := OverlapPerimeters(layers[layerNr])
-		if err != nil || overlappingPerimeters == nil {
+		if err != nil {
 			return err
 		}
+		// Nothing to fill in this layer.
+		if overlappingPerimeters == nil {
+			continue
+		}
 
 		perimeters, err := Perimeters(layers[layerNr])
-		if err != nil || perimeters == nil {
+		if err != nil {
 			return err
 		}
+		if perimeters == nil {
+			continue
+		}
 
 		var bottomInfill []data.LayerPart
 		var topInfill []data.LayerPart
diff --git a/modifier/internal_infill.go b/modifier/internal_infill.go
index bf9ccbe..07213de 100644
--- a/modifier/internal_infill.go
+++ b/modifier/internal_infill.go
@@ -27,9 +27,13 @@ func NewInternalInfillModifier(options *data.Options) handler.LayerModifier {
 func (m internalInfillModifier) Modify(layers []data.PartitionedLayer) error {
 	for layerNr := range layers {
 		overlappingPerimeters, err := OverlapPerimeters(layers[layerNr])
-		if err != nil || overlappingPerimeters == nil {
+		if err != nil {
 			return err
 		}
+		// Nothing to fill in this layer.
+		if overlappingPerimeters == nil {
+			continue
+		}
 
 		bottomInfill, err := BottomInfill(layers[layerNr])
 		if err != nil {
-- 
2.43.0


From 76482a2d0fb7dec30bcdcea26fbe05234c413bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:54 +0000
Subject: [PATCH 22/30] fix: unite exset skin areas before clipping them

---
 modifier/infill.go   | 12 ++++++++++++
 modifier/modifier.go | 18 ++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/modifier/infill.go b/modifier/infill.go
index 6895544..ccfd3f5 100644
--- a/modifier/infill.go
+++ b/modifier/infill.go
@@ -158,6 +158,12 @@ func (m infillModifier) Modify(layers []data.PartitionedLayer) error {
 
 				// 3. Clip the resulting areas by the overlappingPerimeters.
 				if internalOverlappingBottomParts != nil {
+					// the exset parts may overlap now
+					internalOverlappingBottomParts, ok := unite(c, internalOverlappingBottomParts)
+					if !ok {
+						return errors.New("could not union the exset bottom parts")
+					}
+
 					clippedParts, ok := c.Intersection(internalOverlappingBottomParts, overlappingPerimeters[partNr])
 					if !ok {
 						return errors.New("error while intersecting infill areas by the overlapping border")
@@ -171,6 +177,12 @@ func (m infillModifier) Modify(layers []data.PartitionedLayer) error {
 				}
 
 				if internalOverlappingTopParts != nil {
+					// the exset parts may overlap now
+					internalOverlappingTopParts, ok := unite(c, internalOverlappingTopParts)
+					if !ok {
+						return errors.New("could not union the exset top parts")
+					}
+
 					clippedParts, ok := c.Intersection(internalOverlappingTopParts, overlappingPerimeters[partNr])
 					if !ok {
 						return errors.New("error while intersecting infill areas by the overlapping border")
diff --git a/modifier/modifier.go b/modifier/modifier.go
index c32d671..0206cf0 100644
--- a/modifier/modifier.go
+++ b/modifier/modifier.go
@@ -2,6 +2,7 @@ package modifier
 
 import (
 	"fmt"
+	"github.com/aligator/goslice/clip"
 	"github.com/aligator/goslice/data"
 )
 
@@ -55,3 +56,20 @@ func PartsAttribute(layer data.PartitionedLayer, typ string) ([]data.LayerPart,
 
 	return nil, nil
 }
+
+// unite merges parts which may overlap each other (for example after they were exset one by one).
+// This is needed as clipping interprets areas which are covered by two of the given parts as not covered at all.
+func unite(c clip.Clipper, parts []data.LayerPart) (united []data.LayerPart, ok bool) {
+	if len(parts) < 2 {
+		return parts, true
+	}
+
+	for _, part := range parts {
+		united, ok = c.Union(united, []data.LayerPart{part})
+		if !ok {
+			return nil, false
+		}
+	}
+
+	return united, true
+}
-- 
2.43.0


From d8ab2b9b99c161300554234da8476f8654f5176d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:37 +0000
Subject: [PATCH 23/30] fix: grow the layer below by the whole threshold
 distance when detecting overhangs

---
 modifier/support.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modifier/support.go b/modifier/support.go
index 89045b4..855e567 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -85,11 +85,11 @@ func (m supportDetectorModifier) Modify(layers []data.PartitionedLayer) error {
 		}
 
 		// calculate distance (d):
-		distance := float64(m.options.Print.LayerThickness) * math.Tan(data.ToRadians(float64(m.options.Print.Support.ThresholdAngle)))
+		distance := data.Micrometer(math.Round(float64(m.options.Print.LayerThickness) * math.Tan(data.ToRadians(float64(m.options.Print.Support.ThresholdAngle)))))
 
 		// offset layer by d
 		cl := clip.NewClipper()
-		offsetLayer := cl.InsetLayer(layers[layerNr].LayerParts(), data.Micrometer(-math.Round(distance)), 1, -data.Micrometer(-math.Round(distance))/2).ToOneDimension()
+		offsetLayer := cl.InsetLayer(layers[layerNr].LayerParts(), -distance, 1, distance).ToOneDimension()
 
 		// subtract result from the next layer
 		support, ok := cl.Difference(layers[layerNr+1].LayerParts(), offsetLayer)
-- 
2.43.0


From b295985d45811d15b2d9f9f52bcb7426475cba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:42 +0000
Subject: [PATCH 24/30] fix: keep the whole support gap

---
 modifier/support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modifier/support.go b/modifier/support.go
index 855e567..8b83560 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -169,7 +169,7 @@ func (m supportGeneratorModifier) Modify(layers []data.PartitionedLayer) error {
 		}
 
 		// make the layer a bit bigger to create a gap between the support and the model
-		biggerLayer := cl.InsetLayer(layers[layerNr-1].LayerParts(), -m.options.Print.Support.Gap.ToMicrometer(), 1, m.options.Print.Support.Gap.ToMicrometer()/2).ToOneDimension()
+		biggerLayer := cl.InsetLayer(layers[layerNr-1].LayerParts(), -m.options.Print.Support.Gap.ToMicrometer(), 1, m.options.Print.Support.Gap.ToMicrometer()).ToOneDimension()
 
 		// subtract the model from the result
 		actualSupport, ok := cl.Difference(result, biggerLayer)
-- 
2.43.0


From 8cb234bb56cfdf511fe2b857d2d19300f3e15662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:47 +0000
Subject: [PATCH 25/30] fix: generate support for the second top layer

---
 modifier/support.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modifier/support.go b/modifier/support.go
index 8b83560..f6bf804 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -134,8 +134,8 @@ func NewSupportGeneratorModifier(options *data.Options) handler.LayerModifier {
 func (m supportGeneratorModifier) Modify(layers []data.PartitionedLayer) error {
 	var lastSupport []data.LayerPart = nil
 
-	// for each layer starting at the 2nd top layer (the top layer won't need support)
-	for layerNr := len(layers) - 2; layerNr >= 0; layerNr-- {
+	// for each layer starting at the top layer (the support is always calculated for the layer below and the top layer won't need support)
+	for layerNr := len(layers) - 1; layerNr >= 0; layerNr-- {
 		if !m.options.Print.Support.Enabled || layerNr == 0 {
 			return nil
 		}
-- 
2.43.0


From 05aa9f0b5c550d56c83b47307e3a05d34f7f6c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:52 +0000
Subject: [PATCH 26/30] fix: generate no support interface if no interface
 layers are configured

---
 modifier/support.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/modifier/support.go b/modifier/support.go
index f6bf804..c9c1665 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -191,14 +191,17 @@ func (m supportGeneratorModifier) Modify(layers []data.PartitionedLayer) error {
 
 			c := clip.NewClipper()
 
-			supportAboveInterface, err := PartsAttribute(layers[layerNrAboveInterface], "fullSupport")
-			if err != nil {
-				return err
-			}
-
-			interfaceParts, ok = c.Difference(actualSupport, supportAboveInterface)
-			if !ok {
-				return errors.New("error while calculating interface parts")
+			// without interface layers everything is normal support
+			if m.options.Print.Support.InterfaceLayers > 0 {
+				supportAboveInterface, err := PartsAttribute(layers[layerNrAboveInterface], "fullSupport")
+				if err != nil {
+					return err
+				}
+
+				interfaceParts, ok = c.Difference(actualSupport, supportAboveInterface)
+				if !ok {
+					return errors.New("error while calculating interface parts")
+				}
 			}
 
 			actualWithoutInterfaceParts, ok = c.Difference(actualSupport, interfaceParts)
-- 
2.43.0


From afa2382a81516c87b37e0aa7ada7e6f47dd8753b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:58 +0000
Subject: [PATCH 27/30] fix: report an error if the brim cannot be removed from
 the support

---
 modifier/support.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modifier/support.go b/modifier/support.go
index c9c1665..2af9445 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -216,7 +216,13 @@ func (m supportGeneratorModifier) Modify(layers []data.PartitionedLayer) error {
 			}
 			if brimArea != nil {
 				interfaceParts, ok = c.Difference(interfaceParts, brimArea)
+				if !ok {
+					return errors.New("error while removing the brim from the interface parts")
+				}
 				actualWithoutInterfaceParts, ok = c.Difference(actualWithoutInterfaceParts, brimArea)
+				if !ok {
+					return errors.New("error while removing the brim from the support")
+				}
 			}
 		}
 
-- 
2.43.0


From a9e9b8fc095b19138bfd98340bcd1ba95ed2b056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:33 +0000
Subject: [PATCH 28/30] fix: unite exset parts before subtracting them for the
 support

---
 modifier/brim.go    |  7 ++++++-
 modifier/support.go | 15 ++++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/modifier/brim.go b/modifier/brim.go
index c775d1c..b5829d5 100644
--- a/modifier/brim.go
+++ b/modifier/brim.go
@@ -1,6 +1,7 @@
 package modifier
 
 import (
+	"errors"
 	"fmt"
 	"github.com/aligator/goslice/clip"
 	"github.com/aligator/goslice/data"
@@ -129,7 +130,11 @@ func (m brimModifier) Modify(layers []data.PartitionedLayer) error {
 	}
 
 	// Then the outer brim lines are exset so that the result matches the exact dimension taking into account the extrusion width.
-	outerBrim := cl.InsetLayer(outerBrimLines, -m.options.Printer.ExtrusionWidth, 1, m.options.Printer.ExtrusionWidth/2).ToOneDimension()
+	// The areas around several parts may overlap.
+	outerBrim, ok := unite(cl, cl.InsetLayer(outerBrimLines, -m.options.Printer.ExtrusionWidth, 1, m.options.Printer.ExtrusionWidth/2).ToOneDimension())
+	if !ok {
+		return errors.New("could not union the outer brim areas")
+	}
 
 	newLayer := newExtendedLayer(layers[0])
 	if len(brim) > 0 {
diff --git a/modifier/support.go b/modifier/support.go
index 2af9445..950f23f 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -89,7 +89,10 @@ func (m supportDetectorModifier) Modify(layers []data.PartitionedLayer) error {
 
 		// offset layer by d
 		cl := clip.NewClipper()
-		offsetLayer := cl.InsetLayer(layers[layerNr].LayerParts(), -distance, 1, distance).ToOneDimension()
+		offsetLayer, ok := unite(cl, cl.InsetLayer(layers[layerNr].LayerParts(), -distance, 1, distance).ToOneDimension())
+		if !ok {
+			return errors.New("could not union the offset layer parts")
+		}
 
 		// subtract result from the next layer
 		support, ok := cl.Difference(layers[layerNr+1].LayerParts(), offsetLayer)
@@ -98,7 +101,10 @@ func (m supportDetectorModifier) Modify(layers []data.PartitionedLayer) error {
 		}
 
 		// make the support a little bit bigger to provide at least two lines on most places
-		support = cl.InsetLayer(support, -m.options.Print.Support.PatternSpacing.ToMicrometer()*3, 1, m.options.Print.Support.PatternSpacing.ToMicrometer()*3/2).ToOneDimension()
+		support, ok = unite(cl, cl.InsetLayer(support, -m.options.Print.Support.PatternSpacing.ToMicrometer()*3, 1, m.options.Print.Support.PatternSpacing.ToMicrometer()*3/2).ToOneDimension())
+		if !ok {
+			return errors.New("could not union the support parts")
+		}
 
 		// Save the result at the current layer minus TopGapLayers to skip the amount of TopGapLayers
 		newLayer := newExtendedLayer(layers[layerNr-m.options.Print.Support.TopGapLayers])
@@ -169,7 +175,10 @@ func (m supportGeneratorModifier) Modify(layers []data.PartitionedLayer) error {
 		}
 
 		// make the layer a bit bigger to create a gap between the support and the model
-		biggerLayer := cl.InsetLayer(layers[layerNr-1].LayerParts(), -m.options.Print.Support.Gap.ToMicrometer(), 1, m.options.Print.Support.Gap.ToMicrometer()).ToOneDimension()
+		biggerLayer, ok := unite(cl, cl.InsetLayer(layers[layerNr-1].LayerParts(), -m.options.Print.Support.Gap.ToMicrometer(), 1, m.options.Print.Support.Gap.ToMicrometer()).ToOneDimension())
+		if !ok {
+			return fmt.Errorf("could not union the parts of layer %d to create the gap to the support", layerNr-1)
+		}
 
 		// subtract the model from the result
 		actualSupport, ok := cl.Difference(result, biggerLayer)
-- 
2.43.0


From ea5b1f49a35801675b9363adb77bee4dd2eb4304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:38 +0000
Subject: [PATCH 29/30] fix: report an error if the top level perimeters for
 the brim cannot be calculated

---
 modifier/brim.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modifier/brim.go b/modifier/brim.go
index b5829d5..8e00ae8 100644
--- a/modifier/brim.go
+++ b/modifier/brim.go
@@ -102,7 +102,10 @@ func (m brimModifier) Modify(layers []data.PartitionedLayer) error {
 	cl := clip.NewClipper()
 
 	// Get the top level polys e.g. the polygons which are not inside another.
-	topLevelPerimeters, _ := cl.TopLevelPolygons(allOuterPerimeters)
+	topLevelPerimeters, ok := cl.TopLevelPolygons(allOuterPerimeters)
+	if !ok {
+		return errors.New("could not get the top level perimeters to generate the brim")
+	}
 	allOuterPerimeters = nil
 	for _, p := range topLevelPerimeters {
 		allOuterPerimeters = append(allOuterPerimeters, data.NewBasicLayerPart(p, nil))
-- 
2.43.0


From 7a6d3370ddb908ec4a3a0cf8dd0f7052386ef7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:43 +0000
Subject: [PATCH 30/30] fix: generate the brim around all islands of a part

---
 modifier/brim.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/modifier/brim.go b/modifier/brim.go
index 8e00ae8..547873e 100644
--- a/modifier/brim.go
+++ b/modifier/brim.go
@@ -92,10 +92,8 @@ func (m brimModifier) Modify(layers []data.PartitionedLayer) error {
 
 	for _, part := range perimeters {
 		for _, wall := range part {
-			if len(wall) > 0 {
-				// wall[0] is the outer perimeter
-				allOuterPerimeters = append(allOuterPerimeters, wall[0])
-			}
+			// a wall consists of several perimeters if the part got split by insetting it
+			allOuterPerimeters = append(allOuterPerimeters, wall...)
 		}
 	}
 
-- 
2.43.0

