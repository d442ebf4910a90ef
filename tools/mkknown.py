"""Writes known_findings.json: recorded findings and the repairs committed in the repository."""
import json, os, subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYX_REPO", "/repo")

FIXED = {   # subject of the fix commit -> (property, what failed)
 "automatic axis range of bars stacked on top of each other": ("P28", "stacked bars reaching higher than any single value were cut off, as the automatic range was computed from the single values"),
 "calling a pattern to get a modified copy of it": ("P36", "pattern(...)(xstep=...) raised ValueError, given parameters were ignored and the content lost"),
 "position of pattern tiles in SVG": ("P36", "the tiles were shifted by the lower left corner of the pattern's box compared with PostScript and PDF"),
 "fill patterns after colors within a canvas filled by a pattern in PDF": ("P36", "a pattern following a colour within a canvas having a pattern was selected in the colour space of the colour"),
 "list the glyphs included in PS fonts in a reproducible order": ("P31", "the comments naming the included glyphs depended on the hash seed"),
 "set up font encodings in a reproducible order": ("P31", "the encoding and thereby the character codes in the output depended on the hash seed"),
 "parallels of curves forming a loop": ("P34", "the parallel of a curve returning to its start was empty"),
 "data which are not finite numbers in graphs": ("P28", "NaN and infinite data wrote nan coordinates into the output and a NaN as first value spoiled the automatic range"),
 "error bars on reversed axes": ("P28", "error bars crossing the border of a reversed axis were dropped or not clipped"),
 "rectangles at the graph border and on reversed axes": ("P28", "rectangles with both limits outside of the graph were not clipped and those on reversed axes left out"),
 "color column of the rect style": ("P28", "the color column name was ignored and missing colors crashed"),
 "fillable histograms without fromvalue": ("P28", "fillable=True with fromvalue None raised AttributeError"),
 "validity of stacked bar positions outside of the graph": ("P28", "stacked bars on top of a bar outside of the graph were marked valid or invalid wrongly"),
 "colors of data without position in surface and density plots": ("P28", "a datum without position overwrote the color of the previous datum"),
 "last color of gradients in color keys": ("P28", "the key of a color style left out the last color of the gradient"),
 "missing colors in surface plots": ("P28", "a missing color value raised TypeError"),
 "impulses and histograms of data columns not named like the axis": ("P28", "a pos style with usenames followed by impulses or histogram raised KeyError"),
 "parallels at tiny concave corners (inside of circles)": ("P34", "the parallel inside of a circle at more than about half of its radius was empty"),
 "smoothing subpaths consisting of a single item": ("P34", "the first radius of an open subpath consisting of a single item was cut away"),
 "smoothing subpaths which are too short": ("P34", "a path containing a subpath too short to be smoothed raised IndexError or ValueError"),
 "parallels at distance zero": ("P34", "the parallel at distance zero was empty, and an empty path raised IndexError"),
 "lines next to smooth knots and controlcurves in MetaPost paths": ("P33", "lists with lines or control curves next to smooth knots"),
 "closed MetaPost paths containing lines and knots used in several MetaPost paths": ("P33", "closed lists with lines; knots used again"),
 "MetaPost curves leaving and arriving opposite to the direction between the knots": ("P33", "directions of 180 degrees at both ends"),
 "all filename extensions when locating files in the current directory": ("P30", "second extension of a format"),
 "filename extension of PostScript header files when locating files": ("P30", "header files with extension .pro"),
 "order and unavailable directories of the recursivedir file locator": ("P30", "several directories, missing ones"),
 "directories, missing files and missing indices of the ls-R file locator": ("P30", "several indices, stale entries"),
 "file locator using the locate program": ("P30", "any lookup by locate"),
 "locating files again, which were removed in the meantime": ("P30", "open, remove, open again"),
 "writing PDF and SVG to pipes and other files without positions": ("P35", "writePDFfile(\"-\") and writeSVGfile(\"-\") into a pipe"),
 "failing Ghostscript runs being reported as success": ("P35", "pipeGS/writeGSfile with Ghostscript returning an error"),
 "numbers ending with a decimal point in SVG files": ("P29", "\"1.\" in path data"),
 "rotation angle, missing extent and placement after closed subpaths of elliptical arcs in SVG files": ("P29", "arcs with x-axis-rotation at 96 dpi, arcs to the current point, arcs after z"),
 "smooth curves following other kinds of path segments in SVG files": ("P29", "S after Q or A, T after C or A"),
 "path data following errors in SVG files": ("P29", "commands following an error are drawn"),
 "matrices, order and spelling of transformation lists in SVG files": ("P29", "matrix(...), skewX/skewY within lists, white space before the parenthesis"),
 "default values, zero radii and white space in basic shapes of SVG files": ("P29", "line without x1, rect with rx=\"0\", points with leading white space"),
 "dash arrays and miter limits in SVG files": ("P29", "stroke-dasharray lost at the second output, \"none\", stroke-miterlimit scaled"),
 "default stroke width and clipping to the view box in SVG files": ("P29", "stroke without stroke-width; content outside of the viewBox"),
 "fill and stroke attributes of the svg element in SVG files": ("P29", "svg element with fill=\"none\""),
 "SVG files without size": ("P29", "svg element without width and viewBox"),
 "transformations of strokes in SVG files": ("P29", "path with transform and stroke"),
 "aspect ratio of the view box in SVG files": ("P29", "viewBox of other aspect ratio than width and height"),
 "elements not being rendered directly in SVG files": ("P29", "paths within defs"),
 "explicitly inherited styles in SVG files": ("P29", "stroke-linecap=\"inherit\""),
 "numbers ending with a decimal point followed by other numbers in SVG files": ("P29", "\"4.L1 1\" in path data"),
 "closing subpaths without extent in SVG files": ("P29", "\"M 1 1 z\" and \"zz\""),
 "white space around colors in SVG files": ("P29", "fill=\" red \""),
 "arrows at closed subpaths of paths with several subpaths": ("P32", "arrows at closed subpaths of paths with several subpaths contained other parts of the path"),
 "clear attributes of arrows when changing other parameters of the arrow": ("P32", "arrows defined with filled.clear were filled again after changing e.g. their size"),
 "arc lengths of curve params outside of the path": ("P06", "the arc length of params before the begin of a path starting with a curve was positive"),
 "number of data lines of hexadecimal encoded bitmaps in PostScript": ("P16", "the number of data lines of hexadecimal encoded bitmaps in the DSC comments was wrong"),
 "merging of SVG registries": ("P12", "merging of two SVG registries failed"),
 "titles and page names with line breaks, spaces and characters beyond ASCII in PostScript comments": ("P13", "titles and page names with line breaks ended the PostScript comment, such that the remainder was executed"),
 "bounding box in the trailer of EPS files": ("P14", "EPS files with the bounding box in the trailer were not included"),
 "end of the header of EPS files at lines with a blank as second character": ("P14", "the header of EPS files was not ended by lines starting with % and a blank"),
 "inclusion of EPS files with spaces and characters beyond ASCII in the filename": ("P14", "EPS files with spaces and characters beyond ASCII in the filename"),
 "inclusion of EPS files not ending by a newline": ("P14", "the last line of EPS files not ending by a newline was continued by %%EndDocument"),
 "bitmaps in patterns in PostScript": ("P13", "bitmaps in patterns painted nothing or failed in PostScript"),
 "PostScript titles starting like an UTF-16 byte order mark": ("P13", "PostScript titles starting like an UTF-16 byte order mark"),
 "clear attributes in the attributes of a canvas": ("P15", "clear attributes in the attributes of a canvas raised a TypeError"),
 "stroking of paths shortened by several decorators when subpaths are closed": ("P32", "the stroke of paths with closed subpaths, shortened by several decorators, was wrong"),
 "color gradients along closed paths": ("P32", "color gradients along closed paths"),
 "short braces": ("P32", "bars of short braces were crossing"),
 "distance of reversed braces from curved paths": ("P32", "the distance of reversed braces from curved paths had the wrong sign"),
 "sign and daylight saving of the time zone in the PDF creation date": ("P12", "the creation date of a PDF file had the wrong sign of the time zone (and ignored daylight saving time)"),
 "characters beyond Latin 1 in PDF document information": ("P12", "document information with characters beyond Latin 1 could not be written"),
 "parentheses, backslashes and special characters in the strings of PDF form fields": ("P12", "names and values of form fields with parentheses or backslashes damaged the PDF file"),
 "fill styles for PDF text fields": ("P12", "a fill style in the attributes of a text field raised an exception"),
 "PDF text fields with a default value of blank lines only": ("P12", "a text field whose default value has blank lines only raised an exception"),
 "initial value of PDF radio buttons": ("P12", "radio buttons had no valid initial value"),
 "fill styles leaking into PDF text fields outside of the canvas": ("P12", "the appearance of a text field depended on styles outside of it"),
 "compresslevel ignored in PDF output": ("P12", "the compresslevel argument had no effect"),
 "annotations of all pages assigned to each page in PDF output": ("P12", "every page listed the annotations of all pages"),
 "deprecated arguments of the writers": ("P12", "deprecated arguments raised NameError"),
 "meshes as bitmaps in PostScript output": ("P13", "meshasbitmap in PostScript output raised an exception"),
 "PDF document information starting like an UTF-16 byte order mark": ("P12", "information starting with the characters of a byte order mark was read as UTF-16"),
 "different images with the same data merged into one": ("P16", "images with the same data but different size, mode, palette or alpha channel were written once only"),
 "optimize and progression options for DCT compression of bitmaps": ("P16", "dctoptimize and dctprogression were exchanged"),
 "number of data lines for stored bitmaps in PostScript": ("P16", "%%BeginData of stored bitmaps announced the wrong number of lines"),
 "hexadecimal encoding of bitmaps in PostScript": ("P16", "PSbinexpand=2 raised an exception or wrote a wrong number of lines"),
 "number of entries of gray and cmyk palettes": ("P16", "Indexed colour spaces on gray and cmyk had a wrong highest index"),
 "resource comments of stored bitmaps in PostScript": ("P16", "resource comments of stored bitmaps were malformed"),
 "vertical resolution of JPEG files in dots per cm": ("P16", "the vertical resolution in dots per cm was taken from the horizontal one"),
 "bitmaps with a palette and an alpha channel in PostScript": ("P16", "bitmaps with a palette and an alpha channel raised an exception in PostScript output"),
 "JPEG files with markers within comments, thumbnails and other segments": ("P16", "markers inside of comments, thumbnails and metadata of a JPEG file were taken for the image structure"),
 "deprecated arguments of the PostScript writers and merging of PostScript registries": ("P12", "deprecated arguments of the PostScript writers raised NameError"),
 "accent position and width of composite characters in Type 1 fonts": ("P20", "seac composites were drawn with the accent at a wrong place or with a wrong width"),
 "div in Type 1 fonts is not an integer division": ("P20", "charstrings using div were executed with an integer division"),
 "smallest number in Type 1 charstrings": ("P20", "the most negative numbers could not be encoded"),
 "flex after counter control hints in Type 1 fonts": ("P20", "flex after counter hints failed"),
 "reading Type 1 fonts in PFA format": ("P20", "PFA fonts could not be read"),
 "writing Type 1 fonts in PFB format": ("P20", "the written PFB had wrong segments"),
 "encoding of Type 1 charstrings with lenIV larger than four": ("P20", "charstrings were written with a wrong number of random bytes"),
 "size of slanted builtin fonts in PostScript output": ("P20", "slanted builtin fonts had a wrong size in PostScript"),
 "comments in the encrypted part of Type 1 fonts": ("P20", "a comment confused the reader"),
 "Type 1 fonts with an empty encoding": ("P20", "an empty encoding vector failed"),
 "Type 1 fonts without subroutines": ("P20", "fonts without Subrs could not be read"),
 "Type 1 fonts with noaccess def after the glyphs": ("P20", "glyph procedures defined by another name failed"),
 "subroutines used by .notdef in stripped Type 1 fonts": ("P20", "stripped fonts lacked subroutines called by .notdef"),
 "glyph widths of Type 1 fonts with an offset in the font matrix": ("P20", "widths were shifted by the matrix offset"),
 "Type 1 fonts with a skewed font matrix": ("P20", "the font matrix was applied wrongly to outlines"),
 "slanted text in textpath and text as path": ("P20", "the slant was ignored"),
 "slanted text in SVG output": ("P20", "slanted text crashed or was slanted about the wrong line"),
 "completely transparent text in SVG output": ("P20", "failed with an exception"),
 "tile for directions not being normalized": ("P17", "tile used a direction vector which was not normalized"),
 "distance of a box being inside of another box": ("P17", "no overlap was reported"),
 "two-line connectors with a right angle and end distances without intersection": ("P18", "rounding made the square root of a negative number for a right angle"),
 "no operation command within a page of a DVI file": ("P19", "a NOP opcode within a page raised DVIError"),
 "font definitions between the pages of a DVI file": ("P19", "fnt_def between eop and bop raised DVIError"),
 "advance after rules in characters of virtual fonts was scaled twice": ("P19", "set_rule in a virtual font character advanced by width*scale**2"),
 "initial font and movement registers of characters of virtual fonts": ("P19", "virtual fonts whose first font is not number 0 raised KeyError or used the wrong font; w, x, y, z of the page leaked into the character"),
 "stack of a DVI file is empty at the beginning of a page": ("P19", "a push left over at the end of a page could be popped on the next page"),
 "font size in magnified DVI files": ("P19", "mag different from 1000 moved but did not scale glyphs"),
 "reading font metrics with additional header words printed them": ("P19", "TFM files with more than 18 header words print bytes to standard output"),
 "graph shortcuts xvtickpoint and zvtickpoint_pt take graph coordinates": ("P26", "xvtickpoint used data coordinates or raised"),
 "grid paths of flipped and vertical one dimensional graphs": ("P26", "grid paths of 1d graphs were wrong or raised"),
 "arguments of vgeodesic_el of one dimensional graphs": ("P26", "vgeodesic_el of 1d graphs raised TypeError"),
 "plotting data from an iterator": ("P26", "graph.plot(iterator) raised or plotted nothing"),
 "data plotted after dokey of an empty graph were lost in the key": ("P26", "dokey on an empty graph swallowed later plots"),
 "tick direction of xyz graph axes moved by xy12axesat": ("P26", "ticks of axes moved by xy12axesat pointed along a wrong direction"),
 "painting a key emptied the list of plot items passed": ("P26", "key.paint consumed the caller's list"),
 "further graph axes without the axis next to the graph": ("P26", "graphs with x3 but without x raised KeyError"),
 "an empty comment line in front of the data hid the column names": ("P27", "data.file columns by name failed after an empty comment line"),
 "skiptail of data files counts lines like skiphead also together with every": ("P27", "skiptail with every dropped the wrong number of lines"),
 "last column name lost for data files without data lines": ("P27", "last column name of an empty data file was missing"),
 "config file data with options first occurring in later sections": ("P27", "data.conffile mixed up columns of options first found in later sections"),
 "reading cbd files": ("P27", "data.cbdfile raised"),
 "comparisons in the expression of a parametric function": ("P27", "paramfunction mistook == in expressions for the assignment"),
 "manual ticks are not changed by the creation of an axis": ("P25", "manual ticks of an axis with divisor were multiplied again for every partition tried and every use of the axis"),
 "no endless loop for axes with nothing to be painted": ("P25", "an axis with painter.regular(basepathattrs=None, tickattrs=None, labelattrs=None) never returned"),
 "logarithmic axes can be called to modify their parameters": ("P25", "axis.log()(max=100) raised ValueError"),
 "pass painter and parter arguments through bar and autosized axes": ("P25", "axis.bar(painter_...), axis.bar(linkpainter_...) and axis.autosizedlin(parter_...) raised AttributeError"),
 "vtickpoint of axes": ("P25", "vtickpoint raised TypeError"),
 "bar axes keep their parameters when called to modify some of them": ("P25", "bar(dist=2)(reverse=1) lost dist, title, subaxes etc."),
 "label attributes might turn off the labels of a level": ("P25", "labelattrs=[attr.changelist([..., None])] raised AttributeError"),
 "text_pt of a canvas takes the keyword arguments of the text engine": ("P10", "canvas.text_pt raised TypeError for texmessages=... etc."),
 "take integers and fractions exactly when initializing a rational from them": ("P24", "exponential labels rounded mantissas to 10 digits: 1/3*10^5 and 100000000001 got wrong labels"),
 "pass arguments for the exponent texter": ("P24", "texter.default(exponenttexter_...) options were ignored"),
 "rational texters can be called to modify their parameters": ("P24", "texter.rational()(...) raised AttributeError"),
 "ignore ticks without a label for the common denominator": ("P24", "texter.rational(equaldenom=1) raised AttributeError when there are subticks without labels"),
 "proper position of the separators in zeros added for equal precision": ("P24", "texter.decimal(equalprecision=1, thousandthpartsep=...) misplaced the separators"),
 "mark the period properly when separators are used": ("P24", "texter.decimal(thousandthpartsep=...) marked the wrong digits as the period"),
 "take rationals exactly when initializing a rational from them": ("P23", "rational(rational((1, 3))) went through a float of 10 digits, likewise tick distances given as rationals"),
 "partitioners can be called to modify their parameters": ("P23", "parter.linear()(...) and logarithmic()(...) raised NameError or AttributeError"),
 "extend the proper end of the range of a negative logarithmic axis": ("P23", "logarithmic partitions of negative ranges extended the wrong end"),
 "rational numbers compare properly for negative denominators and reject zero denominators": ("P23", "rationals with negative denominators compared the wrong way round, 1/0 was accepted"),
 "ignore several graphics file loading messages in one output": ("P21", "load_graphics removed only the first <file.eps> and instead removed file loads"),
 "remove the temporary directory when TeX cannot be started": ("P22", "each failing start of TeX left a temporary directory, of which only the last one was removed at exit"),
 "quit TeX in the cleanup when it does not respond anymore": ("P22", "a TeX process which hangs was never terminated: the cleanup raised, or waited for it forever"),
 "texts following a failed text read their own dvi page": ("P22", "after a text failed (TexResultError caught by the caller) later texts showed the page of the failed one, or could not be used at all in texipc mode"),
 "a TeX request following a timeout is not blocked by the outdated expectation": ("P22", "after a timeout every later request and the cleanup failed with an empty queue.Full"),
 "a rejected canvas layer call leaves the canvas unchanged": ("P10", "layer(name, above=missing) removed the layer from the canvas or left it half created; positioning relative to itself likewise"),
 "mirror at the line with the given direction, not with its negative": ("P02", "trafo.mirror(angle) mirrored at the line of angle -angle"),
 "do not convert the vector of a slant around a point to points twice": ("P02", "trafo.slant(a, angle, x, y) scaled its centre by the unit twice"),
 "slant in the direction of the given angle, not of its negative": ("P02", "trafo.slant(a, angle) slanted along -angle"),
 "the intersection of disjoint bounding boxes is empty": ("P03", "bbox * of disjoint boxes returned an inverted box"),
 "write PDF pages without any content": ("P12", "writePDFfile of an empty canvas raised"),
 "slant around the given point, not around the origin": ("P02", "trafo.slant with x, y moved the given point"),
 "an arc of a multiple of 360 degrees against its direction is empty": ("P04", "arc(0, -360) drew a full circle in normpath and box, but nothing in PostScript"),
 "arct with collinear tangents is a line": ("P04", "arct with tangents in line raised instead of drawing a line"),
 "continue a path after closepath with a new subpath": ("P04", "lineto after closepath raised or was appended to the closed subpath"),
 "append a path item to an empty normpath": ("P07", "normpath().append(moveto) did not work"),
 "direction of arcs and current point in the SVG data of paths": ("P04", "SVG arcs ran in the wrong direction, relative operators after them started at a wrong point"),
 "no graphics state operators within a PDF path object": ("P05", "stroke+fill with decorators wrote w/J/j/d between path construction and painting"),
 "respect the fill rule given to the filled decorator": ("P05", "deco.filled([fillrule.even_odd]) filled with the nonzero rule"),
 "fill before stroke in SVG output, each with its own opacity": ("P05", "SVG painted stroke and fill in one element with one opacity"),
 "do not apply stroke and fill styles to ornaments in SVG output": ("P05", "arrows of a path inherited its fill and stroke in SVG"),
 "division of path parameters": ("P06", "normpathparam / number raised TypeError"),
 "lengths in pts for rotation_pt and trafo_pt of paths": ("P06", "path.rotation_pt and path.trafo_pt took lengths in user units"),
 "arc lengths for a list of params in any order": ("P06", "paramtoarclen of params on a curve in descending order returned too large lengths"),
 "subtract a path parameter from a length within the path": ("P06", "length - param went through a negative parameter, wrong on curves"),
 "do not share subpaths between joined or split normpaths and their operands": ("P07", "appending to a piece of a split or to a joined normpath changed the operand"),
 "middle of a short line in intersections": ("P08", "a line shorter than epsilon did not meet a nearly parallel line through it"),
}

FINDINGS = []


def known(prop, space, cases, what):
    for c in cases:
        FINDINGS.append(dict(property=prop, space=space, case=c, what=what))


known("P07", "normpath-shared", [[n, w] for n in ("zigzag", "closedopen") for w in range(3)],
      "path.normpath() hands out its cached normpath, so that changing this in place (append, +=, join) changes the path's own lengths, points and intersections; params have to belong to that very object, so it cannot simply be copied")
known("P08", "grid", [["closedcurve", "triangle", "rot", -1.7, -1.7]],
      "a crossing within epsilon of a subdivision boundary of a curve is reported twice, 0.998 epsilon apart (closepoints() keeps curve pieces longer than half of epsilon)")

known("P36", "uncoloured", [[f, c] for f in ("EPS", "PDF") for c in ("red", "grey", "cmyk")],
      "patterns of painttype 2 are selected without the components of the underlying colour (stackunderflow in setpattern, scn without components); neither writer tracks the current colour")

try:
    exec(open(os.path.join(VERIF, "tools", "findings_more.py")).read())
except FileNotFoundError:
    pass

log = subprocess.run(["git", "-C", REPO, "log", "--format=%h %s", "--reverse"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        s = s[5:]
        if s not in FIXED:
            print("MISSING", s)
            continue
        fixed.append("fixed: property=%s %s %s" % (FIXED[s][0], h, FIXED[s][1]))
with open(os.path.join(VERIF, "known_findings.json"), "w") as f:
    json.dump(dict(findings=FINDINGS, fixed=fixed), f, indent=1)
print(len(FINDINGS), "findings", len(fixed), "fixed")
