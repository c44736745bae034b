NOTES = ("Every check runs 'pysym' (in /verif/pysym): the PyX modules are loaded from /repo with an instrumenting import hook, the real functions "
         "run on symbolic numbers/bytes/strings, all feasible paths are explored and an SMT solver decides every obligation for all values "
         "within the stated bounds; counterexamples and path models are replayed on the un-instrumented code.")
NOTE = ("bounded symbolic model checking of the real Python code: all values within the stated bounds; floats are modelled as exact reals with a "
        "numeric tolerance, structure (number of elements, choice of classes) is enumerated; trusts z3/cvc5 and the instrumentation, which is "
        "cross-checked by replaying path models on the plain code")
PROPS = []


def P(id, title, statement, quant, tests, files, mech, over=("inputs",), note=NOTE, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=quant),
                      why_tests_cant=tests, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), note=note, **kw))


P("P01", "Affine transformations compose, invert and map points as documented",
  "Applying a product of two transformations to a point equals applying the right factor and then the left one, and a transformation times its "
  "inverse is the identity. Translations, rotations (counterclockwise, in degrees), scalings, slants and mirrors, given in points or as lengths and "
  "optionally about a given point, map every point as documented, also when chained onto another transformation with the corresponding method. "
  "Transforming a path transforms every point of it, and the matrix written to PostScript, PDF and SVG describes the same mapping.",
  "all matrices, vectors, angles, scale factors, fixed points and points",
  "the tests draw a few rotated and scaled paths and look at nothing but that it runs",
  ["pyx/trafo.py"], [("trafo product, inverse and application", "pyx/trafo.py trafo_pt"), ("elementary transformations", "pyx/trafo.py mirror, rotate, scale, slant, translate")])

P("P02", "Lengths add, scale and convert consistently in all units and types",
  "Converting a length (a number, a string or a sum of user, true, visual, width and tex lengths in m, cm, mm, inch and pt) to any unit gives the sum of "
  "its components times their unit and the scale factor of their type at the time of the conversion. Sums, differences, negation, multiplication and "
  "division of lengths, and comparisons and ratios of them, agree with the same operation on the converted values, and plain numbers are user lengths in the default unit.",
  "all component values, all scale factors, all units, types and default units",
  "the tests convert half a dozen constants with default scale factors",
  ["pyx/unit.py"], [("conversion", "pyx/unit.py convert_to, convert_to_pt"), ("length arithmetic and comparison", "pyx/unit.py length")])

P("P03", "Bounding box algebra: union, intersection, transformation and enlarging",
  "Joining bounding boxes gives the smallest box containing both, intersecting them gives exactly the common points (an empty box if there are none), and empty "
  "boxes are neutral for the union and absorbing for the intersection. The box of a transformed box contains the images of all its points and touches them, "
  "enlarging moves every side outwards by the given amounts, and the edges, center, width, height and outline path describe the same rectangle. In-place variants have the same result.",
  "all boxes (including empty ones), points, matrices and enlargements",
  "the tests build no bounding box expression at all; they only write files",
  ["pyx/bbox.py"], [("bounding box", "pyx/bbox.py bbox_pt")])

P("P05", "Path operators describe the same geometry in PostScript, PDF, SVG and normalized",
  "Every path construction operator (absolute and relative moves, lines and curves, closepath, arcs in both directions, tangent arcs, multi-line and multi-curve "
  "items, given in points or as lengths) adds the segments defined by the PostScript language, and the PostScript, PDF and SVG output as well as the normalized path "
  "show the same points. An arc starts at its first angle, runs in its direction to its second angle on the given circle, is joined by a straight line, and is followed "
  "from its end; lines, rectangles, circles and ellipses have the documented corners, center, axes and orientation, and joined paths consist of the items of both.",
  "all coordinates, radii, angles (including several turns) and all short sequences of operators",
  "the tests write files for a few fixed paths and never compare the geometry of the backends",
  ["pyx/path.py"], [("path items", "pyx/path.py moveto_pt .. multicurveto_pt"), ("arc to Bezier conversion", "pyx/path.py _arctobezierpath"), ("output", "pyx/path.py path.outputPS, outputPDF, returnSVGdata")])

P("P06", "Lines and Bezier curves: points, tangents, curvature, subcurves, boxes and lengths",
  "For every straight line and cubic Bezier curve of a normalized path, points, tangents, curvature and curve radius at any parameter follow from the Bernstein "
  "polynomial, and splitting or cutting it into segments gives pieces which trace exactly the same points with the right ends. Its bounding box contains all of its points and touches the extreme "
  "ones. Arc lengths are within the required precision, and parameters of given arc lengths are their inverse.",
  "all control points and parameters (bounding box and length: families of control points)",
  "the tests call these for a handful of fixed curves, with geometry checked at single parameters",
  ["pyx/normpath.py"], [("line and curve items", "pyx/normpath.py normline_pt, normcurve_pt"), ("extrema", "pyx/bbox.py / pyx/path.py _bezierpolyrange")])

P("P07", "Arc lengths, parameters, splitting, joining and reversing of paths",
  "Along a path of several subpaths, positions, tangents, rotations, transformations and curvature taken at an arc length or at the parameter belonging to it are those of the point "
  "at that distance from the begin, single values and lists (in any order) alike, and arc lengths and parameters are inverse to each other; parameters add, subtract, scale and compare like their arc lengths. "
  "Splitting yields the pieces between the given positions (a closed subpath is cut open there) which together trace the path, and reversing, adding, joining, appending and copying paths "
  "keep all segments, in the right order and connected as documented, and leave the operands alone.",
  "all segment lengths and positions for a set of path shapes with open and closed subpaths",
  "the tests split, join and measure a few fixed paths at fixed positions",
  ["pyx/normpath.py", "pyx/path.py"], [("normalized paths", "pyx/normpath.py normpath, normsubpath, normpathparam"), ("path methods", "pyx/path.py path")])

P("P04", "Bounding boxes of paths are exact for lines, curves and arcs",
  "The bounding box of a path contains all of its lines, Bezier curves and circular arcs (in both directions, for any pair of angles) and touches its extreme points. Relative operators and "
  "operators following an arc, a curve or a closed subpath are placed at the right current point, lengths and points give the same box, and an empty path has an empty box.",
  "all coordinates, radii and angles for a set of path structures and curve shapes",
  "the tests never look at a bounding box of an arc or a relative operator",
  ["pyx/path.py", "pyx/normpath.py", "pyx/bbox.py"], [("arc extent", "pyx/path.py _arcbboxdata"), ("curve extent", "pyx/path.py _bezierpolyrange"), ("item boxes", "pyx/path.py updatebbox")])

P("P08", "Intersections of paths are found, are common points, and are reported once and in order",
  "Intersecting two paths returns parameters of the respective paths whose points coincide within the precision. Lines crossing, touching or overlapping are found "
  "and lines apart are not, a crossing at a corner or at the start of a closed path is reported once, and straight and curved Bezier segments are intersected likewise. Several intersections "
  "are ordered along the first path, belong to the right subpaths and can be used to split the paths there.",
  "all positions and lengths for a set of line directions, path shapes and curves",
  "the tests plot intersections of fixed paths and never check their number or position",
  ["pyx/normpath.py"], [("line intersection", "pyx/normpath.py normline_pt.intersect"), ("curve subdivision", "pyx/normpath.py normcurve_pt.intersect, _split"), ("merging", "pyx/normpath.py normsubpath.intersect")])

P("P10", "Canvases nest: transformations, clipping, order, layers, bounding boxes",
  "Everything inserted into a canvas is painted in order of insertion, with the attributes of the canvas applied from left to right to its content: transformations are composed with those "
  "of the canvases around it, the clip path is placed by the transformations following it, and line widths and other styles are in force inside this canvas only, in PostScript, PDF and SVG alike. "
  "The bounding box of a canvas and of the written files is the transformed and clipped one of the content including line widths, and layers are created on top of their group or next to the layer given by above or below, found again by name, and removed by clearing.",
  "all matrices, coordinates, line widths, nested structures of the listed kinds and histories of layer requests",
  "the tests write a few canvases and check no coordinates, order, clip or box",
  ["pyx/canvas.py", "pyx/document.py"], [("canvas attributes and output", "pyx/canvas.py canvas.__init__, processPS, processPDF, processSVG"), ("layers", "pyx/canvas.py canvas.layer"), ("bounding box", "pyx/canvas.py canvas.bbox")])

P("P11", "Styles: which stroke and fill each attribute applies to, and its value",
  "In an attribute list a later attribute replaces an earlier one of its kind, clear attributes remove earlier ones, and relative dash lengths scale with the line width in force. Attributes of a canvas "
  "or drawing command apply to strokes and fills inside it, attributes of the stroked and filled decorators only to the stroke and the fill of the path (which is filled first, with the fill rule given) and not to ornaments or later paths; "
  "line widths, dashes, caps, joins, miter limits, colors and transparencies have the requested values in PostScript, PDF and SVG, and changeable attributes select the entry of their list by index.",
  "all attribute lists of the listed kinds on up to three nested levels, with all values of widths, dashes, limits and colors",
  "the tests use styles in drawings and never look at the state written",
  ["pyx/attr.py", "pyx/style.py", "pyx/deco.py", "pyx/color.py"], [("attribute merging", "pyx/attr.py mergeattrs and merge methods"), ("stroke and fill", "pyx/deco.py decoratedpath.processPS, processPDF, processSVG"), ("style output", "pyx/style.py")])

P("P12", "Pages: placement on the paper, fitting, page order and file bounding boxes",
  "The content of a page is placed on its paper as requested: centered or at the origin, turned by 90 degrees when rotated, and when fitted as large as possible inside the margins without distortion. "
  "The bounding box written to EPS, PDF and SVG files is that of the enlarged content (or the one given) moved along with it, its integer version is the smallest one containing it, and writing again "
  "gives the same. Documents have their pages in order, each with its own paper, orientation and content; named paper formats have their standard sizes.",
  "all content boxes, paper sizes, margins and enlargements (fitting: four aspect ratios of the content)",
  "the tests write pages and never look at boxes or positions",
  ["pyx/document.py", "pyx/pswriter.py", "pyx/pdfwriter.py", "pyx/svgwriter.py"], [("page transformation", "pyx/document.py page._process"), ("paper formats", "pyx/document.py paperformat"), ("file boxes", "pyx/pswriter.py _PSwriter, pyx/pdfwriter.py PDFpage, pyx/svgwriter.py SVGwriter")])
P("P13", "PDF files: valid objects, references, streams, resources and operators",
  "Every PDF file written is well formed: the cross-reference table has the exact offset of each object, every reference leads to an object of the expected kind, stream lengths are right, and the page tree contains the "
  "pages in order. Page and form contents are sequences of valid operators with operands of the right number and kind, balanced graphics and text states, and only resources that are declared and have the declared kind. "
  "This is so for all combinations of content (paths, styles, transparency, patterns, images, text, form fields, links) and for compressed and uncompressed files.",
  "all values of the coordinates, widths and transparencies, for combinations of the kinds of content listed in the check",
  "the tests write PDF files and never read them",
  ["pyx/pdfwriter.py", "pyx/canvas.py", "pyx/pdfextra.py", "pyx/pattern.py", "pyx/bitmap.py", "pyx/font/font.py"], [("objects and xref", "pyx/pdfwriter.py PDFwriter, PDFregistry"), ("streams", "pyx/pdfwriter.py PDFcontent"), ("forms", "pyx/pdfextra.py"), ("resources", "pyx/pdfwriter.py PDFregistry.mergeresources")])
P("P14", "Strings and text: readers get the characters, glyphs and places that were given",
  "Document information and the names, values and choices of form fields are encoded so that a PDF reader gets back exactly the given characters, whatever they are. "
  "A text shown with a Type 1 font selects the right glyph for each character (with ligatures and kerning when asked for) at the position given by the metric, size, spacing and slant, in PostScript and in PDF, "
  "also when several texts share a font or use more glyphs than an encoding has codes; as a path, it has the outlines of the same glyphs at the same places.",
  "all strings of up to three characters and all sizes, positions, spacings and slants for a list of texts",
  "the tests compare no text output",
  ["pyx/pdfwriter.py", "pyx/pdfextra.py", "pyx/font/font.py", "pyx/font/afmfile.py", "pyx/pswriter.py"], [("PDF strings", "pyx/pdfwriter.py pdfstring"), ("text", "pyx/font/font.py T1text_pt"), ("kerning and ligatures", "pyx/font/afmfile.py"), ("encodings", "pyx/pdfwriter.py, pyx/pswriter.py PSreencodefont")])
P("P16", "Bitmaps: pixels, palettes, alpha and placement survive in PostScript, PDF and SVG",
  "A reader of a written file gets exactly the pixels, palette and alpha values of each image, at the place and with the size requested (from width, height, ratio or resolution), for all modes, for compressed, hexadecimal and stored "
  "data, and also when several images in a file have the same data but differ in size, mode, palette or alpha. JPEG files are embedded unchanged with the size, mode and resolution given in them. "
  "ASCII85 and hexadecimal data decode to the original bytes, in as many lines as announced.",
  "all pixel values, palettes, placements and JPEG sizes for images up to 3x2 pixels, encoders on data up to 125 bytes",
  "the tests write bitmaps and never decode them",
  ["pyx/bitmap.py", "pyx/pdfwriter.py", "pyx/pswriter.py"], [("encoders", "pyx/bitmap.py ascii85stream, asciihexstream"), ("image data", "pyx/bitmap.py bitmap_trafo.imagedata"), ("PDF, PS, SVG", "pyx/bitmap.py PDFimage, processPS, image.save"), ("JPEG header", "pyx/bitmap.py jpegimage")])
P("P15", "Colors: conversions, hexadecimal notation, valid ranges and gradients",
  "Colors convert between gray, RGB, HSB and CMYK by the rules of PostScript (with the black generation and under color removal set by the user), and converting to a space able to express the color and back gives the same color. "
  "Components are accepted just when they are in [0, 1], hexadecimal notations and 8 bit values are exact to one unit. Gradients give a valid color for every parameter, have the named colors at their ends, "
  "interpolate linearly between two colors, spread evenly over an index, and reversed ones are the mirrored ones.",
  "all color components, parameters and hexadecimal digits (HSB to and from files and CMYK round trips: a set of hues and saturations)",
  "the tests draw with a few named colors and compare none of the values",
  ["pyx/color.py"], [("conversions", "pyx/color.py gray, rgb, hsb, cmyk"), ("hexadecimal", "pyx/color.py rgbfromhexstring, tohexstring, to8bitbytes"), ("gradients", "pyx/color.py functiongradient_*, lineargradient_*, gradient")])
P("P25", "Axis ticks: exact positions, at all multiples in the range, levels, merging",
  "Ticks are at exactly the positions requested: rational numbers are read exactly from numbers, fractions and all decimal notations, and compare and multiply exactly. Merging lists of ticks keeps each position once, in order, with the most important level and the label of each. "
  "Linear and logarithmic partitions have ticks at all multiples (or powers and their multiples) inside the range and no others, with levels as requested and the range extended just where this is allowed, and automatic partitions go through 1, 2 and 5 times powers of ten in either direction.",
  "all numerators for a set of denominators, all positions of up to 3+3 ticks, all ranges within the bounds for a set of distances and exponents",
  "the tests cover a few fixed partitions and fractions only",
  ["pyx/graph/axis/tick.py", "pyx/graph/axis/parter.py"], [("rationals", "pyx/graph/axis/tick.py rational"), ("merging", "pyx/graph/axis/tick.py mergeticklists"), ("partitions", "pyx/graph/axis/parter.py linear, autolinear, logarithmic, autologarithmic")])
P("P27", "Tick labels: the number written is the position of the tick",
  "Labels in decimal, exponential and rational notation denote exactly the value of their tick, with periods written where the decimal expansion is infinite, fractions in lowest terms (or with a common denominator), "
  "and mantissa and exponent within the limits set. All options (signs, separators, prefixes and suffixes, equal precision, unities left out) have just the effect described, and ticks which have a label or need none are left alone.",
  "all numerators within the bounds, for a set of denominators and all listed options, one or two labelled ticks",
  "the tests draw axes and never check a label",
  ["pyx/graph/axis/texter.py"], [("decimal", "pyx/graph/axis/texter.py decimal"), ("exponential", "pyx/graph/axis/texter.py default"), ("rational", "pyx/graph/axis/texter.py rational")])
P("P24", "Axes: values, ranges, ticks, labels, subaxes and linked axes are where they belong",
  "Linear and logarithmic axes take their range from the data or the bounds given, and map values linearly (logarithmically) onto it, in reverse if requested. Every tick is painted at the position of its value, with the lengths of its level, its label at the label distance and the title beyond, "
  "along straight lines as well as along paths; with automatic partitions labels do not overlap. Bar, nested and split axes place their subaxes in order with the sizes and distances requested, values are found inside the subaxis they belong to, linked axes have the ticks of the axis they are linked to, and modified copies keep all settings.",
  "all ranges, values, positions, tick lengths, distances and sizes within the bounds for the listed kinds of axes and options",
  "the tests draw axes and never check a position",
  ["pyx/graph/axis/axis.py", "pyx/graph/axis/painter.py", "pyx/graph/axis/positioner.py", "pyx/graph/axis/rater.py"], [("conversion", "pyx/graph/axis/axis.py linear.convert, logarithmic.convert, bar.convert"), ("ranges and partitions", "pyx/graph/axis/axis.py _regularaxis"), ("painting", "pyx/graph/axis/painter.py regular.paint, bar.paint, split.paint"), ("paths", "pyx/graph/axis/positioner.py pathpositioner")])
