"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=[observe], hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=state, meaning="state explored", where=mech[0][1])]
    assert len(title) <= 80, title
    P.append(d)

p("P01", "Lengths obey exact unit arithmetic and late scaling",
  "A length built from numbers, strings and lengths of any unit kind by +, -, *, / and unary signs converts to every target unit as the linear combination of its true, user, visual, width and TeX parts, each scaled by the factor set for its kind at the time of conversion (true lengths are never scaled). Comparing and dividing two lengths agrees with comparing and dividing their converted values, and combining a length with something that is neither a number nor a length raises.",
  ["inputs", "histories"], "all length expression trees up to a depth over all unit kinds and names, interleaved with every order of changes to the global scales",
  "tests convert a handful of literals under one scale; they do not enumerate expression shapes, unit kinds and scale-change histories together",
  ["pyx/unit.py"], [("length arithmetic", "pyx/unit.py length"), ("conversion", "pyx/unit.py convert_to, set")],
  "unit.topt/tom/tomm/tocm/toinch/convert_to results and comparison results", "unit.scale")
p("P02", "Affine transformations form a group acting on points, paths and boxes",
  "For every chain of translations, rotations, scalings, slants, mirrors, user matrices and inverses, in units of pt or any length, applying the composed transformation to a point equals applying the factors one after the other, and applying the inverse undoes it; constructors given a fixed point leave that point fixed. Transforming a path or a canvas item and transforming its points agree, and inverting a singular matrix is rejected.",
  ["inputs"], "all transformation words up to a length over an alphabet of constructors and parameter values, applied to a grid of points, paths and boxes",
  "tests check a few products; composition order, fixed-point variants and unit handling interact only in longer words",
  ["pyx/trafo.py", "pyx/path.py", "pyx/normpath.py", "pyx/bbox.py"],
  [("trafo_pt composition and inverse", "pyx/trafo.py trafo_pt"), ("constructors about a fixed point", "pyx/trafo.py rotate, scale, slant, mirror")],
  "trafo.apply/apply_pt, normpath().transformed, bbox().transformed")
p("P03", "Bounding boxes are tight, enclosing and combine like intervals",
  "The bounding box of any path encloses its curve and touches the extreme points on all four sides; that of a canvas encloses every mark that nesting, transformations and clips leave visible there (line widths aside, as documented) and never more than the nested boxes allow. Adding, intersecting, enlarging, transforming and testing boxes agrees with interval arithmetic on the two axes, with the empty box as neutral element of addition.",
  ["inputs"], "all boxes on a grid under all operation pairs, and all curves with control points on a grid, including degenerate ones, and canvas trees with clips and transformations",
  "a too small box is only visible for particular curves (interior extrema on one axis) or nested transformations that tests do not draw or never compare",
  ["pyx/bbox.py", "pyx/path.py", "pyx/normpath.py", "pyx/canvas.py"],
  [("bbox algebra", "pyx/bbox.py bbox_pt"), ("Bezier extrema", "pyx/path.py _bezierpolyrange"), ("canvas bbox", "pyx/canvas.py canvas.bbox")],
  "bbox() of path, normpath and canvas; bbox operators and accessors")
p("P04", "A path means what the same PostScript path operators mean",
  "For every sequence of path constructors (move, line, relative forms, curves, arcs in both directions, tangent arcs, close, multi-segment forms, convenience shapes, path concatenation), the resulting geometry is the one a PostScript interpreter builds from the same operators: same subpaths, same points, same closedness, same start and end points. A sequence that PostScript rejects for lack of a current point raises, and append, extend, + and += agree with building the sequence at once.",
  ["inputs", "programs"], "all constructor sequences up to a length over an alphabet of operators and coordinates, including arcs of all angle quadrants",
  "tests draw fixed figures and do not compare them with anything; wrong current points after close, relative moves or arcs need particular operator sequences",
  ["pyx/path.py", "pyx/normpath.py"],
  [("path items updating the context", "pyx/path.py pathitem.createnormsubpath etc."), ("normpath construction", "pyx/path.py path.normpath"), ("arc to Bezier", "pyx/path.py _arctobezierpath, arc_pt, arct_pt")],
  "path.normpath() points, atbegin/atend, len, bbox, PostScript/PDF text of the path")
p("P05", "PostScript, PDF and SVG output describe the same marks",
  "For every canvas tree of strokes, fills, combined stroke/fill, decorated paths, nested canvases with transformations, clips, canvas attributes, executing the emitted PostScript, PDF and SVG programs yields the same ordered list of painted paths in page coordinates with the same colour, line width, cap, join, miter limit, dash pattern, fill rule and clip region as the tree prescribes. Attributes given to one item or one canvas never leak to siblings that follow it.",
  ["programs"], "all canvas programs up to a size over an alphabet of drawing commands, attribute lists and nesting constructs",
  "functional tests write files that nothing reads back; leaking or dropped graphics state needs particular nesting and sibling orders",
  ["pyx/canvas.py", "pyx/deco.py", "pyx/style.py", "pyx/pswriter.py", "pyx/pdfwriter.py", "pyx/svgwriter.py", "pyx/path.py", "pyx/normpath.py", "pyx/trafo.py"],
  [("graphics state save/restore", "pyx/canvas.py processPS/processPDF/processSVG"), ("stroke/fill emission", "pyx/deco.py decoratedpath"), ("style state", "pyx/style.py")],
  "bytes written by writeEPSfile/writePDFfile/writeSVGfile, interpreted")
p("P06", "Curve parameters, arc lengths and local geometry agree",
  "On every path, at() of the parameter for an arc length lies that far along the path, arclen and param-at-length are inverse and monotone (also for negative lengths, lists and lengths beyond the end as documented), and begin/end parameters address the ends. Tangent direction, rotation, transformation frame and curvature at a parameter equal those of the drawn curve there, in pt as well as unit variants, for a path and for its normalized form alike.",
  ["inputs"], "all paths over a catalogue of lines, curves, arcs and closed or multi-part shapes, all parameter positions on a grid incl. part boundaries, and lists of them",
  "tests check one path at few parameters; boundary parameters, multi-subpath addressing and unit variants are untested",
  ["pyx/normpath.py", "pyx/path.py"],
  [("parameter addressing", "pyx/normpath.py normpathparam, normsubpath._distributeparams"), ("arclen inversion", "pyx/normpath.py normcurve_pt._arclentoparam_pt")],
  "path/normpath arclen, arclentoparam, paramtoarclen, at, atbegin, atend, tangent, rotation, trafo, curvature, curveradius")
p("P07", "Cutting, reversing, joining and transforming paths preserve the curve",
  "Splitting a path at any list of parameters yields pieces whose concatenation traces exactly the original point set in order with lengths adding up, reversing yields the same points in opposite order, joining and concatenation append subpaths without moving points, and transforming commutes with all of them. Closed subpaths stay closed unless cut, and none of these operations changes its operands.",
  ["inputs", "histories"], "all operation sequences up to a depth from {split, reverse, join, append, transform, normalize} applied to a catalogue of open, closed, degenerate and multi-part paths",
  "tests split one path; aliasing, order and closedness errors need specific combinations of operations",
  ["pyx/normpath.py", "pyx/path.py"],
  [("segments and split", "pyx/normpath.py normsubpath.split, segments"), ("reverse/join", "pyx/normpath.py normpath.reversed, joined")],
  "normpath split/reversed/joined/+/<</transformed results, sampled and by item")
p("P08", "Intersections are complete and consistent on both paths",
  "For every pair of paths the two returned parameter lists have equal length, and equal positions address the same point on both paths within the accuracy. Every transversal crossing is reported exactly once, also at part boundaries and at the joint of closed paths (in order along the first path for paths of one part), and paths that stay apart report none.",
  ["inputs"], "all pairs from grids of lines, curves, circles, polygons and multi-part paths in general and touching position",
  "tests intersect one or two pairs; missing or doubled crossings depend on where subdivision boundaries fall",
  ["pyx/normpath.py", "pyx/path.py", "pyx/mathutils.py"],
  [("recursive bisection", "pyx/normpath.py normsubpathitem.intersect, normcurve_pt, normline_pt"), ("deduplication and order", "pyx/normpath.py normsubpath.intersect, normpath.intersect")],
  "path.intersect / normpath.intersect return values")
p("P09", "Attribute lists merge, clear and cycle by fixed rules",
  "Merging any attribute list keeps, for each exclusive class, only the last given instance in its position, removes what a clear attribute names, and moves sort-before attributes ahead of their classes; the input list is not modified. Changeable attributes select by index out of the total by the documented rule, apply to plain attributes unchanged, and a list where any choice is None yields None.",
  ["inputs", "programs"], "all attribute lists up to a length over all attribute kinds and class hierarchies, and all (index, total) pairs",
  "tests use one or two lists; wrong class matching or ordering needs particular combinations of kinds",
  ["pyx/attr.py", "pyx/style.py", "pyx/deco.py"], [("mergeattrs", "pyx/attr.py mergeattrs, exclusiveattr, sortbeforeattr, clearclass"), ("selection", "pyx/attr.py changelist, selectattrs")],
  "attr.mergeattrs, checkattrs, getattrs, selectattr(s), change* select results")
p("P10", "Canvas layers draw in the declared order",
  "After every history of layer creation, repositioning (above, below, dotted sublayers) and inserts, items inside a layer paint in insertion order and layers paint in the order that the accepted creation and repositioning calls define, each exactly once. A rejected layer call raises and leaves the canvas as it was, and asking again for an existing layer without position gives the same layer.",
  ["histories"], "all sequences of layer and insert calls up to a depth over a small set of layer names, positions and nested names",
  "tests use one fixed layer program; order corruption needs a sequence of repositionings or an invalid call in between",
  ["pyx/canvas.py"], [("layer bookkeeping", "pyx/canvas.py canvas.layer, insert")],
  "order of painted items in written output; items visible in the canvas after errors", "canvas.items, canvas.layers")
p("P11", "Pages place their content by the documented geometry",
  "For every combination of canvas extent, paper format, margin, centering, rotation, fit-to-size, bbox enlargement and explicit page box, the written page maps the canvas by a single rotation, uniform scaling and translation such that centred content is centred, fitted content fills the printable area exactly in one direction and fits in the other, and unscaled content keeps its size. The page size and bounding box written to PostScript, PDF and SVG agree and enclose the content, for one page or many.",
  ["configurations"], "the product of all page options over grids of canvas extents and papers, and documents of up to three pages",
  "tests write two documents and look at nothing; the options interact multiplicatively",
  ["pyx/document.py", "pyx/canvas.py", "pyx/bbox.py", "pyx/pswriter.py", "pyx/pdfwriter.py", "pyx/svgwriter.py"],
  [("page transformation", "pyx/document.py page._process, page.processPS/PDF/SVG"), ("paper formats", "pyx/document.py paperformat")],
  "MediaBox/BoundingBox/viewBox and the marks' page coordinates in the written files")
p("P12", "Every PDF written is a well-formed object graph",
  "Every PDF file written has a correct header, cross reference table with exact byte offsets, trailer and startxref, every indirect reference resolves, every stream has its declared length and decodes, pages appear in the page tree in order with the right count, and every resource name used in a content stream is defined in that page's resources. Document information strings read back as given, and shared resources are written once.",
  ["programs", "configurations"], "all documents up to three pages over an alphabet of content kinds needing resources (fonts, images, patterns, shadings, transparency, forms, annotations) with all writer options",
  "a viewer's tolerance or a single sample file hides wrong offsets, lengths and missing resources",
  ["pyx/pdfwriter.py", "pyx/canvas.py", "pyx/document.py", "pyx/color.py", "pyx/bitmap.py", "pyx/font/font.py", "pyx/pdfextra.py"],
  [("registry and xref", "pyx/pdfwriter.py PDFregistry.write"), ("resource collection", "pyx/pdfwriter.py PDFregistry.addresource, mergeresources")],
  "bytes of written PDF files parsed by an independent reader")
p("P13", "Every PostScript file written is conforming and self-contained",
  "Every EPS or multi-page PS file declares integer and high-resolution bounding boxes that enclose the marks with the integer box the tight outward rounding, names each page once in order with the right total, balances save/restore and dictionary nesting per page, and defines every procedure, font and encoding before its first use and only once. An EPS file leaves the operand, dictionary and graphics-state stacks as it found them.",
  ["programs", "configurations"], "all documents up to three pages over an alphabet of content kinds needing prolog resources, in EPS and PS form",
  "tests never interpret the files; missing or doubled resources depend on which kinds of content come together",
  ["pyx/pswriter.py", "pyx/canvas.py", "pyx/document.py", "pyx/font/font.py", "pyx/color.py", "pyx/bitmap.py"],
  [("resource registry", "pyx/pswriter.py PSregistry"), ("DSC writing", "pyx/pswriter.py PSwriter, EPSwriter")],
  "bytes of written PS/EPS files: DSC scan and execution by a PostScript interpreter model and Ghostscript")
p("P14", "Included EPS files are bounded and placed by their header",
  "For every DSC-conforming EPS file the bounding box read is the one the top-level header comment gives, or the trailer's if deferred by (atend), regardless of line endings, line lengths, nested documents, binary sections and other comments, and a file without one raises. Width, height, scale and alignment arguments place that box as documented with its aspect ratio kept unless both sizes are given, clipped if asked, and the file's bytes are embedded unchanged.",
  ["inputs", "configurations"], "all comment-structured files up to a number of lines over an alphabet of DSC lines with all line-ending styles and buffer alignments, times the product of placement options",
  "tests include one file; the parser's states are reached only by particular section sequences",
  ["pyx/epsfile.py"], [("line reader and DSC parser", "pyx/epsfile.py linefilereader, _readbbox"), ("placement", "pyx/epsfile.py epsfile.__init__, trafo")],
  "epsfile.epsfile(...).bbox() and written output")
p("P15", "Colours convert between models and reach the output unchanged",
  "A colour in any model is validated against the range of its components, converts to every other model by the documented formulas so that converting within the grey, RGB, HSB and back keeps the visible colour, and is emitted with the same component values in PostScript, PDF and SVG for both stroke and fill. Gradients and palettes return for every position, and for index and total, the colour on the declared line between end colours, and transparency applies to exactly what it is declared for.",
  ["inputs"], "all colours on a component grid in all models under all conversion chains, and all gradient positions on a grid",
  "tests draw a few colour bars that nothing compares",
  ["pyx/color.py"], [("conversions", "pyx/color.py rgb.cmyk, rgb.hsb, hsb.rgb etc."), ("gradients", "pyx/color.py lineargradient, functiongradient")],
  "colour component values, conversion results, emitted operators")
p("P16", "Bitmaps keep every pixel through encoding, palette and alpha",
  "For every image mode, size, data and compression or ASCII-encoding option, decoding the image in the written PostScript and PDF gives exactly the input pixels with the right size, colour space, palette and transparency, and the image covers exactly the requested rectangle with the requested orientation. Encoded lines respect the length limit and terminators, whatever the data length.",
  ["inputs", "configurations"], "all small images over pixel values for all modes times encoding options, and all byte strings around encoding block and line boundaries",
  "tests write one picture and do not decode it; errors sit at block and line boundaries and in rare modes",
  ["pyx/bitmap.py"], [("stream encoders", "pyx/bitmap.py ascii85stream, asciihexstream, ascii85lines, asciihexlines"), ("image dictionaries", "pyx/bitmap.py bitmap_trafo, PDFimage, PSimagedata")],
  "image dictionaries and decoded data in written PS and PDF")
p("P17", "Boxes align, stack and keep distance exactly as asked",
  "Aligning a convex box to a line or circle at a given distance in any direction moves it by a pure translation such that it touches the line or circle at exactly that distance from the correct side, equal alignment moves all boxes of a group by the same amount sufficient for every one, and tiling puts the boxes into a row whose common spacing is the largest extent of a box in that direction plus the given distance. The distance of two boxes is the Euclidean distance of the polygons, and overlap is reported as such.",
  ["inputs"], "all convex polygons with corners on a grid up to six corners, all directions in an angle set including edge normals, all distances on a grid",
  "tests align a few rectangles; the touched feature (corner or edge) changes with direction and shape",
  ["pyx/box.py"], [("alignment vectors", "pyx/box.py circlealignvector_pt, linealignvector_pt"), ("distance", "pyx/box.py boxdistance_pt, tile_pt")],
  "corner coordinates after align, returned vectors and distances")
p("P18", "Connectors run from box edge to box edge with the given distance",
  "Every connector (line, arc, curve, two-lines) between two disjoint boxes starts on the boundary of the first and ends on the boundary of the second box, or the given straight distances away from those points, and follows in between the centre-to-centre curve prescribed by its angle, bulge or length arguments. No part of it lies inside either box, and swapping the boxes with mirrored arguments gives the mirrored curve.",
  ["inputs", "configurations"], "all pairs of boxes from a grid of positions and sizes, all angle and bulge values from a set, all distance options",
  "tests draw a picture that nothing measures",
  ["pyx/connector.py", "pyx/box.py", "pyx/normpath.py"], [("shortening at boxes", "pyx/connector.py _connector"), ("angles and bulges", "pyx/connector.py arc, curve, twolines")],
  "path() geometry of the connector")
p("P19", "DVI programs place every glyph, rule and special where TeX says",
  "For every valid DVI program, with any nesting of push/pop, any operand sizes and signs, font definitions, virtual fonts, rules, extensible moves and specials, interpreting it yields exactly the glyphs, rules, colours and specials of the DVI standard at the standard's positions, and page ends and stack misuse are detected. Font metric files read back their width, height, depth and italic values scaled exactly as TeX scales them.",
  ["programs"], "all DVI operation sequences up to a length over all opcodes with boundary operands, executed against a reference DVI machine, and all metric files over a word grid",
  "tests read two TeX-produced files that use few opcodes and compare logs only",
  ["pyx/dvi/dvifile.py", "pyx/dvi/vffile.py", "pyx/dvi/tfmfile.py", "pyx/dvi/texfont.py", "pyx/reader.py"],
  [("DVI interpreter", "pyx/dvi/dvifile.py DVIfile"), ("virtual fonts", "pyx/dvi/vffile.py"), ("metrics", "pyx/dvi/tfmfile.py")],
  "canvas content and bbox of readpage(); logged positions", "DVI register stack")
p("P20", "Type 1 fonts survive reading, subsetting and encoding",
  "For every Type 1 font program in binary or text container form, reading, decrypting and executing a glyph's outline operators yields the outline the Type 1 specification prescribes, including subroutines, flex, hint replacement and accented composites. A stripped subset contains every requested glyph and all glyphs and subroutines it needs, drawn identically to the full font, and encryption followed by decryption is the identity, equally in the Python and C implementations.",
  ["inputs", "programs"], "all charstring programs up to a length over all operators and operand encodings, all glyph subsets of small fonts, all byte strings up to a length for the ciphers",
  "tests embed one font and nothing reads it back",
  ["pyx/font/t1file.py", "pyx/font/t1code.py", "pyx/font/_t1code.c"],
  [("charstring interpreter", "pyx/font/t1file.py T1cmd classes, T1context"), ("subsetting", "pyx/font/t1file.py getstrippedfont"), ("ciphers", "pyx/font/t1code.py")],
  "glyph paths, stripped font programs, cipher outputs")
p("P21", "TeX output scanning removes exactly what it recognises",
  "For every TeX output text, each message parser removes exactly the substrings it documents (file loads with nested brackets and line breaks, package and font warnings, over- and underfull boxes, patterns, answers) and keeps everything else byte for byte, raising exactly when a required message is missing. Chaining parsers leaves unrecognised text to be reported, so no unknown TeX message is silently dropped.",
  ["inputs"], "all strings up to a length over an alphabet of brackets, quotes, line breaks, file names and message fragments, and all parser chains up to a depth",
  "tests use some sample messages; unbalanced, nested and wrapped forms are infinitely many",
  ["pyx/text.py"], [("bracket matching and patterns", "pyx/text.py remove_nested_brackets, remove_pattern, remove_string, index_all"), ("texmessage parsers", "pyx/text.py texmessage")],
  "return value and exceptions of each text.texmessage parser")
p("P22", "The TeX dialogue gives each text its own result or an error",
  "For every order of TeX answers and every fault of the TeX process (unexpected or missing output, error prompts, early exit, hang, closed pipe), each text request returns the box of its own expression with that request's extents or raises an error naming the problem, in bounded time. After any such history closing the engine ends the process and removes its temporary directory, and no thread is left waiting.",
  ["schedules", "fault_sequences", "histories"], "all fault positions in the dialogue and all histories of text, preamble, restart and close calls up to a depth, under all interleavings of the reading thread with the caller",
  "tests run a healthy TeX; timing, faults and restart histories never occur there",
  ["pyx/text.py", "pyx/config.py"],
  [("output monitor thread", "pyx/text.py MonitorOutput"), ("engine state machine", "pyx/text.py _SingleEngine instance states"), ("cleanup", "pyx/text.py Tee, _cleanup")],
  "return values and exceptions of text(), process and directory state", "SingleEngine.state, MonitorOutput.expect/received queue")
p("P23", "Ticks are exact, ordered and cover the axis as partitioned",
  "Every partition yields ticks that are exact rational multiples of the declared distances with the declared levels, in increasing order, without duplicates, complete between the ends of the axis, and none outside the range; automatic partitions offer only such candidates and, when asked to extend, end in a tick on both sides. Rational arithmetic and comparison are exact for all signs, numbers, strings and sequences, and merging tick lists keeps the best level and the label of equal ticks.",
  ["inputs"], "all rationals on a grid under all operations, all partition parameters on a grid of ranges, all pairs of tick lists over a grid of positions and levels",
  "tests check two partitions; rounding at range ends and equal ticks with different denominators need particular values",
  ["pyx/graph/axis/tick.py", "pyx/graph/axis/parter.py", "pyx/graph/axis/rater.py"],
  [("rational", "pyx/graph/axis/tick.py rational, tick, mergeticklists"), ("partitioning", "pyx/graph/axis/parter.py linear, autolinear, logarithmic, autologarithmic")],
  "tick values, levels and order returned by the partition and merge functions")
p("P24", "Tick labels name the exact tick value",
  "For every tick value and every label formatter and option (decimal, exponential, rational, default, prefix, infix, suffix, period marks, equal precision), the label text read back as a number equals the tick value exactly, with repeating decimals marked over exactly the period. Labels within one axis follow one common style where asked for, and a label set by hand is kept.",
  ["inputs"], "all rational tick values on a grid of numerators, denominators, signs and decades, in all tick lists up to a size, times all formatter options",
  "tests format a dozen values; period detection, carries and sign handling depend on the value",
  ["pyx/graph/axis/texter.py"], [("decimal expansion", "pyx/graph/axis/texter.py decimal"), ("exponential", "pyx/graph/axis/texter.py exponential"), ("rational", "pyx/graph/axis/texter.py rational")],
  "label strings of ticks after labels()")
p("P25", "Axes map values monotonically onto the unit interval",
  "Every linear, logarithmic, bar, split, nested and linked axis maps its range ends to 0 and 1 (or reversed), maps values in between strictly monotonically by the declared law, and its tick and data positions agree with that map; data and fixed limits never fall outside an automatically determined range. Axis options given later override earlier ones and keep the rest, and sub-axes of split and bar axes occupy disjoint intervals of the declared relative sizes in the declared order.",
  ["configurations", "histories"], "all axis kinds with all combinations of min, max, reverse, divisor, sub-axes sizes and data sets from a grid, and all orders of data adjustment",
  "tests draw some axes; range rules depend on the order of data, limits, ticks and reversal",
  ["pyx/graph/axis/axis.py", "pyx/graph/axis/positioner.py", "pyx/graph/axis/timeaxis.py"],
  [("range and convert", "pyx/graph/axis/axis.py linear, logarithmic, _regularaxis"), ("sub-axes", "pyx/graph/axis/axis.py bar, split, subaxis positioner")],
  "axis convert results, tick positions of created axes")
p("P26", "Graphs give the same picture for every order of layout calls",
  "For every order of plot, layout, axis, key, background and position-query calls that is accepted, the finished graph draws the same marks, plots added after layout raise, and vpos, pos, tick points, grid paths and caps all use one consistent mapping between data and canvas, also for flipped, horizontal, vertical and three-dimensional graphs and for axes placed at values or linked. Graph size, ratio and position arguments are met exactly by the axes box.",
  ["histories", "configurations"], "all sequences of public graph calls up to a depth, over graph kinds and size options",
  "tests use one call order per figure; the lazily executed steps depend on order",
  ["pyx/graph/graph.py", "pyx/graph/key.py", "pyx/graph/axis/painter.py"],
  [("once-only steps", "pyx/graph/graph.py did, doranges, doaxiscreate, dolayout, dostyles, doplot, finish"), ("coordinates", "pyx/graph/graph.py graphxy.vpos_pt, axistrafo, graphxyz.vpos_pt")],
  "marks of the finished graph, returned positions and paths", "graph.calls / didmethods")
p("P27", "Data sources deliver exactly the rows and columns asked for",
  "For every text of rows with any mix of numbers, quoted strings, comments, blanks and unequal lengths, and every choice of skip, every, title and column options, the data delivered is exactly the selected rows with numbers as numbers and missing entries as None, columns addressed by number from either end, by title or by expression yield their own values, and reading again or through the cache gives the same. Functions and parametric functions are evaluated at exactly the requested equidistant positions with both ends included.",
  ["inputs", "configurations"], "all small files over an alphabet of cells, separators and comment lines times all option combinations; all column specifications over all data kinds",
  "tests read one file with one or two options; option interplay and ragged rows are not sampled",
  ["pyx/graph/data.py", "pyx/mathutils.py", "pyx/utils.py"],
  [("file parser", "pyx/graph/data.py file, splitstring"), ("column access", "pyx/graph/data.py _data, values, points, data"), ("functions", "pyx/graph/data.py function, paramfunction")],
  "columns, columnnames, plotted points")
p("P28", "Plot styles draw each datum at its position and nothing else",
  "For every data set including missing, out-of-range and boundary values, and every combination of styles, each drawable datum is drawn exactly once at the position its axes give, missing or out-of-range data leave no mark, and connecting lines join exactly consecutive valid points and are cut exactly at the graph border. Error bars, bars, histograms, arrows, rectangles and texts span exactly the data's intervals, and cycling attributes follow the plot's index among all plots.",
  ["inputs", "configurations"], "all data sequences up to a length over {valid, missing, out of range on each side, boundary} per column, times all styles and orders of plots",
  "figures in tests are not compared with anything; clipping and gaps depend on the order of valid and invalid points",
  ["pyx/graph/style.py", "pyx/graph/graph.py", "pyx/graph/data.py"],
  [("position styles", "pyx/graph/style.py pos, range, barpos"), ("line and symbol styles", "pyx/graph/style.py line, symbol, errorbar, histogram"), ("style resolution", "pyx/graph/graph.py plotitem")],
  "marks in the written graph")
p("P29", "SVG files read as the geometry the SVG standard defines",
  "For every SVG path description, in every legal spelling of numbers, separators, relative, absolute, implicit and repeated commands, shorthand curves and elliptical arcs, parsing gives the geometry of the SVG standard, and malformed data raises or stops at the error. Basic shapes, groups, viewBox, units and transform lists of included files are placed as the standard composes them, and styles inherit and override as declared.",
  ["inputs"], "all path data strings up to a number of commands over all command letters and number spellings; all transform lists up to a length; small element trees",
  "tests include one file; spellings and command sequences combine without bound",
  ["pyx/svgfile.py", "pyx/path.py"], [("path data parser", "pyx/svgfile.py svgBasePath, svgPath"), ("transforms and groups", "pyx/svgfile.py svgBaseTrafo")],
  "parsed path geometry and written output of svgfile")
p("P30", "File lookup finds the first match in the configured order, once",
  "For every configuration of locators, directory contents, file-list databases, environment and requested name with its format's suffixes, opening a resource returns the first existing candidate in the configured locator order with the bytes of that file, absolute and relative names follow the documented rule, and a missing resource raises an error that names it. Repeated lookups give the same answer as a fresh one, and unavailable helper programs degrade to the next locator.",
  ["configurations", "fault_sequences"], "all subsets of existing files across locators, all locator orders, all helper answers (found, missing, failing) up to two lookups",
  "tests run in one installed environment with one order",
  ["pyx/config.py", "pyx/pykpathsea.c"], [("locators", "pyx/config.py locator_classes, open"), ("formats", "pyx/config.py format"), ("options", "pyx/config.py get")],
  "content and errors of config.open, config.get* results")
p("P31", "Output depends only on the drawing, not on history or hashing",
  "Writing the same drawing again, to another format in between, after other drawings or under another hash seed yields the same bytes apart from the declared date and identifier fields, and reading positions, boxes or lengths before writing changes nothing. Objects passed in (attribute lists, paths, canvases, lengths, default styles) are unchanged afterwards, so reusing them in a second drawing gives the same as fresh ones.",
  ["histories"], "all sequences of queries and writes up to a depth over a catalogue of drawings covering every kind of item",
  "a test run has one history; aliasing and cache effects appear only when the same object is used again",
  ["pyx/canvas.py", "pyx/graph/graph.py", "pyx/deco.py", "pyx/path.py", "pyx/style.py", "pyx/font/font.py", "pyx/pdfwriter.py", "pyx/pswriter.py", "pyx/svgwriter.py", "pyx/document.py", "pyx/text.py"],
  [("lazy caches", "pyx/path.py path.normpath; pyx/graph/graph.py did"), ("shared defaults", "pyx/deco.py, pyx/graph/style.py class attributes"), ("registries", "pyx/pdfwriter.py PDFregistry, pyx/pswriter.py PSregistry")],
  "bytes of written files, values of arguments before and after", "path.normpath cache, graph.didmethods, module-level default attributes")
p("P32", "Decorators decorate the path at the stated place and keep the rest",
  "Arrows at the beginning, end or any position point along the curve there with the stated size and opening, and the path is shortened only as far as the arrow requires; texts on curves, parallel text, braces and repeated symbols sit at the stated arc length positions. Whatever several decorators exclude from stroking, everything else of the path is still stroked exactly once, and combining decorators in any order of independent ones gives the same marks.",
  ["inputs", "configurations"], "all decorator lists up to a length over all decorator kinds, positions and sizes, on a catalogue of open, closed and multi-part paths",
  "tests draw arrows that nothing measures; overlapping exclusions and closed paths need particular combinations",
  ["pyx/deco.py", "pyx/normpath.py"],
  [("exclude ranges", "pyx/deco.py decoratedpath.excluderange, strokepath"), ("arrows", "pyx/deco.py arrow, _arrowhead"), ("text on path", "pyx/deco.py curvedtext, text")],
  "stroked and filled paths in the written output")
p("P33", "MetaPost-style paths satisfy the MetaPost curve equations",
  "For every list of knots with any combination of given directions, curls, tensions, explicit controls, straight and curved connectors, open or closed, the resulting path passes through the knots in order with the given directions and tensions, and unspecified directions satisfy the mock-curvature equations of MetaPost. Inconsistent knot lists raise.",
  ["inputs"], "all knot lists up to a length over all knot and connector kinds with parameters from a grid",
  "the test draws three paths that nothing compares",
  ["pyx/metapost/path.py", "pyx/metapost/mp_path.py"],
  [("curl and mock curvature solver", "pyx/metapost/mp_path.py mp_solve_choices etc."), ("knot translation", "pyx/metapost/path.py")],
  "control points of the resulting path")
p("P34", "Path deformers keep their defining geometric relation",
  "A parallel of a path runs at the given distance (within the stated relative error) on the given side, around outer corners in arcs or sharply as requested, and nothing of it is missing where the path is less curved than the distance and no other part of the path is nearer. A smoothed path follows the original outside of the smoothing radius around corners and has a continuous tangent; a cycloid starts and ends on the path, keeps the skipped parts and oscillates with the stated radius, side and number of half loops; linesmoothed runs smoothly through all points as METAPOST would do. Deforming does not change the argument, keeps the number of subpaths, closed subpaths of parallels and smoothed paths stay closed, calling a deformer modifies the given parameters only, and deformers used as attributes apply in sequence.",
  ["inputs", "configurations"], "all deformer options on a grid applied to a catalogue of polylines, curves, closed and multi-part paths",
  "tests draw examples only; sidedness, corner cases and closed paths vary with geometry",
  ["pyx/deformer.py"], [("parallel", "pyx/deformer.py parallel"), ("smoothed", "pyx/deformer.py smoothed"), ("cycloid", "pyx/deformer.py cycloid")],
  "deformed path geometry")
p("P35", "Writing a file puts a complete result under the right name or fails",
  "Every write call chooses the documented file name, suffix and format from its arguments or the running script's name, writes to open file objects without closing them and to standard output on request, and returns a complete file. Page-, pipe- and string-producing variants give the same content as the corresponding file, and an unknown suffix or a failing write raises instead of reporting success.",
  ["configurations", "fault_sequences"], "all write methods times all file arguments (none, name with and without suffix, path object, stream, dash) and a write failure at every output call",
  "tests write to default names on a healthy disk only",
  ["pyx/canvas.py", "pyx/document.py", "pyx/writer.py", "pyx/pswriter.py", "pyx/pdfwriter.py", "pyx/svgwriter.py"],
  [("output file handling", "pyx/canvas.py _wrappedcanvas, outputfile in pyx/document.py"), ("writer", "pyx/writer.py")],
  "names and bytes of created files, exceptions")
p("P36", "Patterns and triangle meshes reach the output as declared",
  "A path filled by a pattern is filled by tiles showing exactly what was drawn into the pattern, clipped at the pattern's box, repeated at its steps (by default the extent of its content) and transformed by its transformation, at the same position relative to the page in PostScript and PDF, and in SVG for fills outside of transformed canvases. Calling a pattern gives a pattern with the given parameters replaced and its content kept, independent of the original afterwards; hatches have lines of the requested width, distance and angle without gaps. In any nesting of canvases and fills the pattern or colour set last and innermost is used. A mesh carries all its triangles with their corner positions and colours, occupies their hull, and malformed meshes are rejected.",
  ["inputs", "configurations", "histories"], "all short pattern contents times steps, boxes, transformations, enlargements and canvas attributes; all nestings of colours and patterns up to a depth; all triangles and pairs of triangles over a set of nodes",
  "the functional tests draw two patterns which nothing compares, and colours interact with patterns only in nested canvases",
  ["pyx/pattern.py", "pyx/mesh.py", "pyx/color.py"],
  [("tile and its parameters", "pyx/pattern.py pattern.processPS/processPDF, SVGpattern"), ("modified copies", "pyx/pattern.py pattern.__call__, hatched, crosshatched"), ("colour space bookkeeping", "pyx/pattern.py processPDF, pyx/color.py processPDF"), ("mesh data", "pyx/mesh.py mesh.data")],
  "tiles, paint colours and shading data in the written files")
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
