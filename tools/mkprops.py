#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Kept as a script so that statements stay readable.
import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","Importing a model keeps every triangle at its coordinates",
 "Reading a model file yields exactly one face per triangle in file order, each with its three vertices in order at the coordinates of the file converted from millimetres to whole micrometres (error below one micrometre per coordinate, same sign), and the reported minimum and maximum are the exact component-wise bounds of all vertices. A file that does not exist, cannot be parsed or contains no triangle is reported as an error instead of yielding a model; no input makes the import crash.",
 ["inputs","fault_sequences"],"all triangle soups of up to 4 triangles with every coordinate within +-2 m, all outcomes of the STL parser",
 "The repository has no reader test at all; the end-to-end tests import a few fixed files whose coordinates never hit rounding boundaries or parser errors.",
 ["reader/reader.go","data/data.go"],[("Model.AppendTriangle / stlTriangleToFace","reader/reader.go"),("Model.Min / Model.Max","reader/reader.go"),("Millimeter.ToMicrometer","data/data.go")],
 ["result of Reader(options).Read","Model.AppendTriangle"])

p("C02","Vertex welding moves no vertex far and loses no real face",
 "In the optimized model every retained face has its three corners, in the original order, each within the meld distance of the corresponding input vertex after placement; vertices that coincide exactly are always welded to the same point, and with a meld distance of zero exactly the coincident ones are. A face disappears only if two of its corners were welded together or another retained face has the same three welded points, retained faces keep the input order, and no meld distance makes optimizing crash; a model of which no face remains is reported as an error.",
 ["inputs","configurations"],"all meshes of up to 4 faces, all vertex positions within +-1 m (fully symbolic for up to 2 faces), all meld distances 0..200 um",
 "There is no optimizer test; the end-to-end models use one meld distance and well-behaved meshes.",
 ["optimizer/optimizer.go","optimizer/face.go","optimizer/model.go"],[("hash bucket + distance test","optimizer/optimizer.go Optimize"),("duplicate face scan","optimizer/optimizer.go FacesLoop")],
 ["OptimizedModel.FaceCount","OptimizedFace(i).Points()"])

p("C03","Touching faces of the optimized model are the edge neighbours",
 "For every face of the optimized model, the i-th touching face index is -1 exactly if no other face shares both welded end points of the face's i-th edge (first-second, second-third, third-first corner), and otherwise is the index of a different face that contains both of these points; on a mesh where every edge is shared by exactly two faces the relation is symmetric and complete.",
 ["inputs"],"all face/vertex incidence structures of up to 5 faces over up to 6 vertices (plus vertices that only coincide after welding)",
 "No test looks at the adjacency; a wrong neighbour only shows up as a missing or torn polygon on some model.",
 ["optimizer/optimizer.go","optimizer/model.go"],[("getFaceIdxWithPoints","optimizer/model.go"),("touching computation","optimizer/optimizer.go Optimize")],
 ["OptimizedFace(i).TouchingFaceIndices()"])

p("C04","The model is placed centred on the bed point and keeps its shape",
 "Optimizing moves all vertices by one common translation which puts the middle of the model's X/Y bounding box on the configured centre (to within the half micrometre of integer halving) and its lowest point exactly at the height of the centre; nothing is scaled, mirrored or moved differently. The reported size equals the input's maximum minus minimum, and the reported minimum and maximum are the exact bounds of the placed faces.",
 ["inputs","configurations"],"all models of up to 3 faces with coordinates within +-1 m and every centre point within +-1 m",
 "No test checks placement; models in the end-to-end tests are not compared with anything.",
 ["optimizer/optimizer.go","optimizer/model.go"],[("vectorOffset","optimizer/optimizer.go Optimize"),("Min / Max / Size","optimizer/model.go")],
 ["OptimizedModel.Min/Max/Size","Face(i).Points()"])

p("C05","Slicing yields every layer of the object, whatever its height and gaps",
 "Slicing a non-empty model always succeeds in producing at least one layer, and for a model standing on the bed exactly floor((height - initial layer thickness) / layer thickness) + 1 layers (one if it is lower than that); layer n holds precisely the cross-section of the model at height initial thickness + n * thickness, measured from the bed. Layers in which the model has no material are present but empty, and no combination of heights, thicknesses, gaps or elevated placement crashes the slicer or drops or shifts a layer.",
 ["inputs","configurations"],"all models of up to 2 boxes/tetrahedra with symbolic heights and elevations, all initial and layer thicknesses in range with at most 6 layers",
 "There is no slicer test; end-to-end tests use solid models without vertical gaps at default thickness.",
 ["slicer/slicer.go"],[("layerCount","slicer/slicer.go Slice"),("layer loop","slicer/slicer.go Slice")],
 ["layers returned by NewSlicer(options).Slice"])

p("C06","Every contour point lies on an edge of the mesh at the layer height",
 "Each point of a layer's contours, before any simplification, lies on the intersection of the slicing plane with an edge of some face to within one micrometre per axis, and each face crossing the plane contributes exactly one segment connecting the two crossed edges, directed so that the solid stays on the same side for consistently oriented faces. A vertex exactly on the plane counts as above it, so that no face is counted twice or lost, and slicing a face never fails.",
 ["inputs"],"all triangles with coordinates within +-1 m and every plane height",
 "No test slices a face; the rounding and the on-plane cases depend on exact coordinate coincidences that fixed models do not sample.",
 ["slicer/segment.go","slicer/slicer.go"],[("SliceFace","slicer/segment.go"),("below/above case analysis","slicer/slicer.go Slice")],
 ["SliceFace","contours of layers returned by Slice"])

p("C07","Closed meshes give closed contours; gaps are joined only within tolerance",
 "Slicing a watertight mesh gives, on every layer, closed contours which together pass exactly once through every face crossing the plane, in adjacency order, regardless of the order in which the faces are stored and also where the layer passes exactly through vertices. On a damaged mesh loose contour pieces are joined end-to-start, or closed, only across gaps of at most the configured snap distances, points are never invented, reordered or duplicated within a piece, and pieces which stay open or are no longer than the finish distance are dropped.",
 ["inputs","configurations"],"tetrahedra, boxes and pairs of bodies in every face order with symbolic geometry; open fans of up to 4 faces with symbolic gaps and symbolic snap distances",
 "No test assembles contours; face order, gap sizes near the tolerance and several bodies per layer are never varied.",
 ["slicer/layer.go","slicer/slicer.go"],[("makePolygons","slicer/layer.go"),("RerunConnectPolygons","slicer/layer.go")],
 ["LayerParts of layers returned by Slice"])

p("C08","Layer regions keep outlines, holes and islands in boolean operations",
 "Turning contours into layer parts and the union, intersection and difference of part lists describe exactly the point set that the even-odd interpretation of all their outlines and holes prescribes: every outline and hole of every operand takes part in the right role, islands inside holes become parts of their own at any nesting depth, and no contour is lost, duplicated or attached to the wrong part. Contours and operands which enclose no area give no parts instead of failing, failure of the underlying clipping is reported as failure, operands are left unchanged, and top level outlines are exactly those not inside another.",
 ["inputs","fault_sequences"],"all operand lists of up to 3 parts with up to 2 holes, all result trees up to nesting depth 5 with up to 7 contours, an arbitrary point of the plane, all failures",
 "There is no test of the clip package; nesting and hole bookkeeping depends on structures which the sample models do not contain.",
 ["clip/clip.go"],[("runClipper","clip/clip.go"),("polyTreeToLayerParts","clip/clip.go"),("GenerateLayerParts / TopLevelPolygons","clip/clip.go")],
 ["Clipper.Union/Difference/Intersection/GenerateLayerParts/TopLevelPolygons"])

p("C09","The k-th perimeter lies half a line plus k lines inside the contour",
 "For every layer and part, perimeter number k (0 = outermost, up to the configured count) is the part's region, outline and holes together, shrunk by extrusion width / 2 + k * extrusion width, with results grouped per part and per perimeter number; insetting in general uses the initial offset plus k times the step for the k-th result. The area handed on for infill is the innermost perimeter shrunk by half of the extrusion width reduced by the overlap percentage, empty perimeters and a count of zero are handled without failing, and the parts of the layer stay unchanged.",
 ["inputs","configurations"],"all extrusion widths 1..5000 um, inset counts 0..4, overlap percentages -100..200, up to 3 layers x 2 parts x 1 hole, every outcome (empty, one part, several parts) of each offset",
 "No test covers perimeters; off-by-one and sign slips in offsets still give plausible prints.",
 ["clip/clip.go","modifier/perimeter.go"],[("Inset / InsetLayer","clip/clip.go"),("Modify / calculateOverlapPerimeter","modifier/perimeter.go")],
 ["Clipper.Inset","modifier.Perimeters","modifier.OverlapPerimeters"])

p("C10","Exposed surfaces get skin, the rest infill, nothing both or neither",
 "On every layer a point of a part's inner area (within the innermost perimeter and the overlap border) lies in a bottom skin if some of the next configured-number-of-bottom-layers below does not contain it or lies below the bed, in a top skin if the same holds upwards and it is not bottom skin; skins grow by the overlap but never leave the part's overlap border. With a non-zero infill percentage, internal infill covers exactly the overlap border minus both skins, so that the three never overlap and together cover the border, with zero percent there is no internal infill, and every layer, including those after an empty one, is treated. A failing clipping is reported as an error.",
 ["inputs","configurations"],"an arbitrary point of the plane with arbitrary membership in each region of up to 4 layers with up to 2 parts, top/bottom counts 0..3, all percentages",
 "The result depends on the joint history of several layers; no modifier test exists.",
 ["modifier/infill.go","modifier/internal_infill.go"],[("bottom/top loops","modifier/infill.go Modify"),("difference with skins","modifier/internal_infill.go Modify")],
 ["modifier.BottomInfill","modifier.TopInfill","attribute infill"])

p("C11","Support stands under every overhang, keeps its gap and reaches down",
 "With support enabled, a point of a layer which lies beyond the layer below grown by layer thickness * tan(threshold angle) is, the configured number of gap layers further down, inside the area recorded as needing support, grown by one and a half pattern spacings. From there support continues on each layer downwards to the bed except where the model grown by the configured gap is, the top configured number of support layers are marked as interface and the rest as normal support without overlap, brim area is left out on the first layer, and with support disabled no support exists anywhere. A failing clipping is reported as an error.",
 ["inputs","configurations"],"an arbitrary point with arbitrary membership per region and layer, up to 5 layers, all gap/interface layer counts 0..3, angles 1..89 degrees, all outcomes of each clipping step",
 "Depends on histories across layers; no modifier test exists.",
 ["modifier/support.go"],[("support detection","modifier/support.go supportDetectorModifier.Modify"),("downward propagation","modifier/support.go supportGeneratorModifier.Modify")],
 ["attributes support, supportInterface","modifier.FullSupport"])

p("C12","Brim and skirt surround everything on the first layer",
 "With a brim count b > 0 the first layer (only) gets b closed brim loops around every top-level outer perimeter of every part, the k-th at k + 1 extrusion widths outside it, and a recorded outer dimension half an extrusion width beyond the last loop. With a skirt count s > 0, exactly on the first layer s loops are drawn around the convex hull of everything on that layer, support and perimeters of all parts, at skirt distance + (brim count + 1) extrusion widths and each further one an extrusion width outwards; with counts of zero nothing is drawn, and first layers without material do not fail.",
 ["inputs","configurations"],"all extrusion widths and skirt distances in range, brim counts 0..3, skirt counts 0..3, up to 3 parts each with up to 2 islands per perimeter, present or absent support, every clipping outcome",
 "No test renders skirt or brim; several islands or empty first layers never occur.",
 ["modifier/brim.go","gcode/renderer/skirt.go","gcode/renderer/brim.go"],[("brim offsets","modifier/brim.go Modify"),("skirt distance","gcode/renderer/skirt.go Render")],
 ["modifier.Brim","modifier.BrimOuterDimension","G-code of Skirt and Brim renderers"])

p("C13","Linear infill covers the whole area at the requested spacing and angle",
 "Filling an area clips parallel lines, one every line distance from one side to the other of the rotated bounding box and spanning its full extent, to exactly the outline and holes of the area; every clipped line comes back exactly once (in either direction, shortened only as the zig-zag mode prescribes) rotated by the configured angle, turned by 90 degrees on every other layer if asked, in nearest-neighbour order. Zig-zag connections appear only between consecutive line ends which are at most line width + 2 * line distance apart and do not leave the area, and the area itself is left unchanged.",
 ["inputs","configurations"],"all bounds, line distances and widths in range with at most 6 lines, rotations of multiples of 90 degrees plus the fixed defaults, both rectilinear and zig-zag modes, arbitrary clipped segments, all layer numbers",
 "No infill test exists; line counts and ordering depend on arithmetic boundary cases.",
 ["clip/linear.go","data/layer.go"],[("getInfill","clip/linear.go"),("sortInfill","clip/linear.go"),("Fill","clip/linear.go")],
 ["clip.NewLinearPattern(...).Fill"])

p("C14","Path simplification keeps the shape within tolerance",
 "Smoothing a path returns a subsequence of its points in order which keeps the first and last point, drops only points whose squared distance to the line through their kept neighbours of that step is below the threshold, and leaves the input path unmodified; contour simplification likewise returns a subsequence and drops no vertex which stands out from its neighbours by more than its tolerance or has a long adjacent segment, unless nearly collinear. Neither ever crashes, and paths of up to two points behave as documented.",
 ["inputs"],"all paths of up to 5 points (4 for the nonlinear distance clauses) with coordinates within +-1 m and all thresholds",
 "The tests sample two hand-made paths; the failing inputs need particular distances.",
 ["data/2d.go","data/layer.go"],[("douglasPeucker / seekMostDistantPoint","data/2d.go"),("Simplify","data/layer.go")],
 ["data.DouglasPeucker","Path.Simplify"])

p("C15","The emitted G-code moves exactly along the requested paths",
 "Interpreting the emitted G-code with modal coordinates, each drawn path becomes one travel to its first point at the layer height followed by extruding moves through all its further points in order, back to the first point if and only if it is closed, each axis within 0.006 mm of the requested position at every move; a drawn path is the requested one after smoothing. A move that extrudes is a G1 with an E value, one that does not is a G0 without, moves which change nothing are not emitted, the feed rate in force is always the one set for that kind of move (extrude, travel, first-layer override, retraction) in mm/min, and empty paths emit nothing.",
 ["inputs","histories"],"all sequences of up to 4 moves and of 2 paths with up to 3 points each, coordinates within +-2 m and all speeds, any of the speed setters interleaved",
 "The builder tests check a handful of literal lines; modal state goes wrong only for particular histories.",
 ["gcode/builder.go"],[("AddMoveSpeed","gcode/builder.go"),("AddPolygon","gcode/builder.go")],
 ["Builder.String()"])

p("C16","Retraction happens exactly when a travel crosses a wall, and is undone",
 "Before a travel, other than the very first, to a path which leaves the material of the current layer the filament is retracted by the configured amount at the retraction speed and, with z-hop configured, the nozzle is raised by it before travelling; at the destination the nozzle returns to the layer height and the same amount is fed back at the same speed, before any extrusion. Travels which stay inside, and layers or configurations without retraction, have none of this, so retractions and primes always pair up, and a failure of the crossing test is reported as an error.",
 ["inputs","configurations","histories"],"all retraction amounts, speeds and z-hops in range, crossing or not for each of up to 3 consecutive paths, all coordinates, failing clipper",
 "Builder tests never have a layer with material, so retraction never triggers in them.",
 ["gcode/builder.go","clip/clip.go"],[("crossing test and retraction","gcode/builder.go AddPolygon"),("IsCrossingPerimeter","clip/clip.go")],
 ["Builder.String()","Clipper.IsCrossingPerimeter"])

p("C17","Extruded filament matches the length and cross-section of every line",
 "The extruder position is absolute: after every extruding move it has grown by line length * layer thickness * line width / (pi * (filament diameter / 2)^2) * extrusion multiplier / 100, with the thickness in force (initial thickness on the first layer, normal from the second on), to within formatting precision, and it never shrinks except by a retraction. Small increments are not lost however far the extruder has already advanced.",
 ["inputs","configurations","histories"],"all thicknesses, widths, diameters, multipliers in range, segment lengths from axis-parallel moves up to 1 m, accumulated extrusion up to 100 m",
 "Tests use one set of numbers and tiny totals, so rounding, units and accumulation errors cannot show.",
 ["gcode/builder.go","gcode/renderer/layer.go"],[("SetExtrusion","gcode/builder.go"),("extrusionAmount","gcode/builder.go AddMoveSpeed"),("PreLayer","gcode/renderer/layer.go")],
 ["E values in Builder.String()"])

p("C18","Each layer starts with the configured temperatures, fan speed and speeds",
 "Exactly at the layer given as initial temperature layer count the normal hot end temperature is set, and the normal bed temperature if and only if the printer has a heated bed; exactly at the layers of the fan table the fan is set to the tabulated value, switched off for zero. Every layer is announced by its number before its moves; the first layer uses the initial layer speed for all extrusion, later layers the normal layer speed, and temperature, fan and speed settings of one layer never leak into other values.",
 ["inputs","configurations"],"every layer number, every initial temperature layer count, all temperatures, fan tables with up to 3 arbitrary entries, both bed kinds",
 "The tests render only a few fixed layers with default options.",
 ["gcode/renderer/layer.go","data/option.go"],[("PreLayer.Render","gcode/renderer/layer.go")],
 ["G-code of PreLayer"])

p("C19","Custom start and end G-code is emitted verbatim and heaters are safe",
 "All start lines are emitted once, in order, before the first move and all end lines once, in order, after everything of the last layer, byte for byte except that every occurrence of the temperature placeholders in start lines is replaced by the initial temperatures. With safe mode on, heating commands with the initial temperatures precede and heater-off commands precede/follow accordingly for the hot end, and for the bed if it is heated, exactly if the custom code of that end contains no command for that heater; with safe mode off nothing is added.",
 ["inputs","configurations"],"all custom lines up to 4 printable bytes plus lines built from all relevant commands and placeholders, up to 3 lines, all temperatures, all combinations of safe mode and heated bed",
 "The tests try a few fixed lines; arbitrary bytes such as % or unusual spacing are not sampled.",
 ["gcode/renderer/layer.go","data/option.go","gcode/builder.go"],[("PreLayer / PostLayer","gcode/renderer/layer.go"),("DoesInstructionContainCodes","data/option.go")],
 ["G-code of PreLayer and PostLayer"])

p("C20","The generator renders every layer once, in order, at its own height",
 "For any number of layers every renderer is initialised once with the model and then called exactly once per layer, layers from bottom to top and renderers in the order of registration within a layer, with the layer's own data, its number, the number of the last layer and the height initial thickness + number * thickness. The result is the concatenation of what they emitted; the first error stops rendering at once and is returned without any G-code, and generating again starts from scratch.",
 ["inputs","configurations","fault_sequences"],"0..4 layers, 0..3 renderers, all thicknesses, an error at any (layer, renderer) pair",
 "The test uses one renderer that never fails.",
 ["gcode/generator.go"],[("Generate","gcode/generator.go"),("Init","gcode/generator.go")],
 ["handler.GCodeGenerator"])

p("C21","Perimeter and infill rendering draws every path exactly once",
 "For every layer all perimeters are drawn, each outline and hole as a closed path exactly once, per part the inner ones in ascending order and the outermost last at the outer perimeter speed while all others use the layer speed; all areas of a fill attribute are filled once each, as open paths in pattern order, at the layer speed, and the outermost perimeter, other perimeters and fills are announced by their own TYPE comments. A layer without the attribute draws nothing, wrong attribute types and failing patterns are reported as errors, and nothing drawn by one renderer changes the speed of another.",
 ["inputs","configurations","fault_sequences"],"up to 2 parts x 3 perimeters x 2 islands x 1 hole, up to 3 fill areas with 2 paths, all speeds, failing patterns at each place",
 "No test renders perimeters or infill.",
 ["gcode/renderer/perimeter.go","gcode/renderer/infill.go","gcode/renderer/brim.go"],[("Perimeter.Render","gcode/renderer/perimeter.go"),("Infill.Render","gcode/renderer/infill.go")],
 ["G-code of Perimeter and Infill renderers"])

p("C22","Processing runs every stage once in order and writes only a complete result",
 "Processing reads the configured input, then optimizes, slices, applies every modifier (initialised with the optimized model, in order, on the same layers), generates and writes, each stage once and fed with the previous stage's result; the first failing stage's error is returned and nothing later runs, in particular no file is written. On success exactly the generated G-code is written to the configured output path, or to the input path plus .gcode if none is set, replacing earlier content, and a failure to create or write the file is returned.",
 ["fault_sequences","configurations"],"an error at any stage, 0..3 modifiers, arbitrary paths up to 3 bytes, all outcomes of file creation and writing",
 "The tests mock one happy path and cannot inject a fault into each stage.",
 ["goslice.go","writer/writer.go"],[("GoSlice.Process","goslice.go"),("writer.Write","writer/writer.go")],
 ["GoSlice.Process with instrumented handlers","writer.Write"])

p("C23","Every command line option sets its own setting and nothing else",
 "For every command line option and every value of its type, parsing a command line with that option changes exactly the setting its help text describes to exactly that value, whether or not other options are given and in any order; settings without an option on the command line keep their defaults. Unknown options and malformed values are rejected with an error and never silently ignored.",
 ["inputs","configurations"],"every option, every integer/boolean value, all micrometre/millimetre/vector/fan/G-code values of up to 3 characters, and all pairs of options",
 "No test parses flags; some 45 options are wired by hand to fields.",
 ["data/option.go"],[("ParseFlags","data/option.go")],
 ["data.ParseFlags"])

p("C24","Option values survive parsing or are rejected without side effects",
 "Micrometre, millimetre, vector and fan-table option values (decimal numbers without leading zeros) are parsed to exactly the value written, and text that does not have the documented form (wrong number of fields, non-numeric, out-of-range fan speeds) is rejected with an error and leaves the previous value untouched; printing a parsed vector or number and parsing it again gives the same value. A G-code option is the text of its lines separated by newlines: blank lines are dropped, all others kept byte for byte, and text without any newline is rejected. Custom G-code contains a command exactly if some line, without surrounding blanks, starts with its code not followed by a further digit; comments do not count, and no text makes any of this crash.",
 ["inputs"],"all strings up to 6 bytes over the relevant alphabet, all integers, all G-code lines up to 6 bytes",
 "The tests check selected strings.",
 ["data/option.go","data/data.go"],[("Set methods","data/option.go"),("GCodeHunk","data/option.go")],
 ["Set/String of option values","GCodeHunk.DoesInstructionContainCodes"])

p("C25","Fixed-point vectors compute exactly and never change their operands",
 "Vector addition, subtraction, scaling, division, copying and squared length of two- and three-dimensional vectors are exact component-wise, lengths are the integer part (or millimetre value) of the true length and length comparisons agree with them, bounds of paths are the exact component-wise extremes, and converting between micrometres and millimetres loses less than one micrometre and restores every whole micrometre. Rotation by multiples of 90 degrees permutes coordinates exactly and rotating back restores the point. No operation modifies its operands.",
 ["inputs"],"all coordinates within +-4.6 m (products exact in 64 bits), paths of up to 4 points",
 "Unit tests check sample vectors; overflow, sign, truncation and aliasing need particular values.",
 ["data/micrometer.go","data/data.go","data/layer.go"],[("microPoint / microVec3","data/micrometer.go"),("ToMicrometer / ToMillimeter","data/data.go"),("Bounds / Rotate","data/layer.go")],
 ["exported methods of MicroPoint, MicroVec3, Path, Paths"])

open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
