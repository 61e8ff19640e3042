"""The property table (source of properties.jsonl and MANIFEST.json)."""

PROPS = []
NA = {}


def prop(**k):
    PROPS.append(k)


AI = 'abstract interpretation of the source (polynomial/Herbrand domain, heap abstraction)'

prop(id='C02', title='Unit conversion of drawing primitives is exact and complete',
     statement='Converting any drawing primitive between inch and metric multiplies or divides by 25.4, exactly once, every length it publishes '
               '(positions, sizes, hole sizes, and those of the apertures and sub-shapes it contains), sets its unit tag and theirs to the target '
               'unit, and leaves angles, counts, modes, polarity and names alone. Converting to the unit already in force changes nothing, and '
               'converting there and back restores the original values.',
     over=['inputs', 'histories'], quant='every primitive class, every value of its lengths, both directions, repeated and reversed conversion',
     why='tests convert one sample object per class with one set of numbers; they never vary nesting, list length, missing holes or repetition together',
     files=['gerber/primitives.py', 'gerber/am_statements.py', 'gerber/utils.py'],
     mech=[('Primitive.to_inch/to_metric over the _to_convert list', 'gerber/primitives.py Primitive'), ('AMGroup.to_inch/to_metric', 'gerber/primitives.py AMGroup'),
           ('unit tags given to macro sub-shapes', 'gerber/am_statements.py to_primitive')],
     observe=['public attributes after to_inch()/to_metric()'], tech=AI,
     note='All values of the labelled lengths at once; primitive lists of length 1-3 stand for all lengths; trusts the interpreter in sa/.')

prop(id='C05', title='Translating a primitive moves every coordinate and nothing else',
     statement='Offsetting any drawing primitive by (dx, dy) adds dx to every x coordinate and dy to every y coordinate it publishes, including those of '
               'the shapes it is made of, and leaves sizes, angles, modes and apertures unchanged. An omitted offset counts as zero, and two '
               'translations in a row add up.',
     over=['inputs', 'histories'], quant='every primitive class, all coordinates and offsets (any sign, zero), positional or keyword arguments',
     why='tests offset a few objects by sample amounts; swapped axes, skipped sub-shapes and dropped defaults need values they do not use',
     files=['gerber/primitives.py'], mech=[('offset methods', 'gerber/primitives.py')], observe=['public coordinates after offset()'], tech=AI,
     note='Exact for all coordinates and offsets; primitive lists of length 1-3 stand for all lengths.')

prop(id='C06', title='Derived geometry is never stale after a change',
     statement='After any published attribute of a drawing primitive is assigned, or the primitive is moved or converted, its derived geometry (bounding '
               'box, vertices, segments, radii, axis-aligned sizes, sub-shapes, angles) is that of the new state, exactly as if it had never been '
               'read before the change.',
     over=['histories', 'inputs'], quant='every primitive class, every published attribute and mutator, read-mutate-read histories (pairs of mutations in the thorough tier)',
     why='tests read derived geometry once per object, or once after one setter; the cache is only wrong on read-change-read histories',
     files=['gerber/primitives.py'], mech=[('_changed() invalidation in property setters', 'gerber/primitives.py'), ('memo fields _bounding_box, _vertices, _segments', 'gerber/primitives.py Primitive')],
     observe=['derived properties before and after a mutation'], tech=AI + '; cache-staleness analysis by twin comparison',
     note='Compares the read-mutate-read history with the mutate-read history symbolically; in-place edits of nested objects are out of scope.')

prop(id='C07', title='Bounding boxes, vertices and arc sweeps match the shape',
     statement='The bounding box of a primitive is ((min x, max x), (min y, max y)) of the shape it describes, with min <= max for every rotation: '
               'strokes and arcs extended by half the aperture, arcs by every axis direction they sweep through, rotated shapes by the rotated '
               'bounding rectangle (ellipses exactly), regular polygons by their circumscribed circle, composites by the union of their parts; the '
               'no-aperture variant leaves the aperture out. Vertices are the corners of the shape rotated about its own center, and the sweep of an '
               'arc is the angle travelled in its direction.',
     over=['inputs'], quant='every primitive class, all positions and sizes, rotations in every quadrant, all start/end directions and both turning directions of arcs',
     why='tests use a handful of positions, mostly at the origin and unrotated; sign and quadrant cases are not covered',
     files=['gerber/primitives.py'], mech=[('bounding_box, vertices, axis_aligned_*, sweep_angle properties', 'gerber/primitives.py')],
     observe=['bounding_box', 'bounding_box_no_aperture', 'vertices', 'sweep_angle', 'subshapes'], tech=AI + ', rotation and arc directions partitioned',
     note='Sizes and positions symbolic; rotations and arc directions enumerated on a grid covering all quadrants and axis cases.')

prop(id='C01', title='Unit conversion of file statements, tools and drill hits is exact',
     statement='Converting any Gerber or Excellon statement, drill tool, drill hit or slot between inch and metric multiplies or divides by 25.4, exactly '
               'once, every length it carries (coordinates, offsets, aperture dimensions but not vertex counts or rotations, tool diameters, feeds of '
               'lengths and retract distances) and sets its unit tag to the target. Fields that are absent stay absent; names, codes, counts, '
               'repetition numbers and formats are untouched. Converting to the unit in force changes nothing; converting there and back restores the '
               'values.',
     over=['inputs', 'histories'], quant='every statement class, every subset of its optional fields, all values, both directions, repeated and reversed conversion',
     why='tests convert one object per class with every field present; missing fields, zero values and repetition are combinations they do not visit',
     files=['gerber/gerber_statements.py', 'gerber/excellon_statements.py', 'gerber/excellon.py', 'gerber/utils.py'],
     mech=[('to_inch/to_metric of the statement classes', 'gerber/gerber_statements.py, gerber/excellon_statements.py'), ('DrillHit/DrillSlot conversion', 'gerber/excellon.py')],
     observe=['statement attributes after to_inch()/to_metric()'], tech=AI + ', all subsets of optional fields enumerated',
     note='Exact for all values; scale factors (SF) are known findings because a test pins their conversion. Trusts the interpreter in sa/.')

prop(id='C03', title='Aperture macro primitives convert correctly and become the right shapes',
     statement='Converting an aperture macro primitive between units scales each of its lengths once and leaves angles, counts, code and exposure alone; '
               'a built macro statement converts all its primitives once. The drawable shape of a primitive has the position, size, closed contour '
               '(rotated as the modifiers say), units and polarity (dark for exposure on, clear for off) that the modifiers describe; thermals become '
               'four closed parts whose corners lie half a gap from the rotated axes on the inner and outer circle. A macro group holds the shapes '
               'of all its primitives in order. A macro primitive made from a drawing primitive keeps its geometry.',
     over=['inputs'], quant='every macro primitive class except the drawable form of moire and lower-left lines, all modifier values, both exposures, both units, outlines of any length',
     why='tests use one set of modifiers per primitive, mostly unrotated and exposed; contour closure and rotation are not visible in them',
     files=['gerber/am_statements.py', 'gerber/primitives.py', 'gerber/gerber_statements.py'],
     mech=[('to_inch/to_metric/to_primitive/from_primitive', 'gerber/am_statements.py'), ('AMGroup', 'gerber/primitives.py')],
     observe=['attributes of the macro primitive and of the shapes of to_primitive()'], tech=AI,
     note='Exact for all modifier values; outlines of 1-4 points stand for all; arcs of thermals are checked at their corners and radii.')

prop(id='C19', title='Aperture macro expressions and variables are evaluated correctly',
     statement='Reading and evaluating an aperture macro yields, per primitive block and in order, its code and the values of its modifiers: arithmetic '
               'with + - x X / and parentheses under the usual precedence, left to right; decimal numerals with optional leading or trailing '
               'digits; a minus sign at the start of a modifier, parenthesis or assignment; $n standing for the nth modifier, or 0 if absent; '
               '$n=expression setting a variable for the blocks after it. Blanks and line breaks are ignored and comments kept apart. Evaluations '
               'do not influence one another or the modifiers passed in.',
     over=['inputs', 'histories'], quant='every expression of up to three (thorough: four) operators in every grouping, all modifier values, repeated evaluation',
     why='tests evaluate a few fixed macros; operator combinations, nesting and variable scope need values and sequences they never use',
     files=['gerber/am_read.py', 'gerber/am_eval.py'], mech=[('read_macro', 'gerber/am_read.py'), ('eval_macro', 'gerber/am_eval.py')],
     observe=['text yielded by eval_macro(read_macro(macro), modifiers)'], tech=AI + ' over an exhaustive expression grammar with symbolic modifiers',
     note='Each expression is decided for all modifier values; expressions of more operators are not covered.')

prop(id='C20', title='Aperture macro primitives read and write every modifier in its place',
     statement='Reading an aperture macro primitive from text assigns each modifier to the attribute the file format gives its position, with counts as '
               'integers (also when written as decimals) and exposure 1 as on, 0 as off; writing puts every modifier back at its position, with at '
               'least six digits, closed by *; reading what was written gives an equal primitive. A macro statement builds the class of each '
               'primitive code, in order, afresh on every build.',
     over=['inputs'], quant='every macro primitive class and code, all modifier values, both exposures, outlines of any length, counts written 6 or 6.0, with or without the final *',
     why='tests read and write one sample text per class with few distinct numbers',
     files=['gerber/am_statements.py', 'gerber/gerber_statements.py'], mech=[('from_gerber/to_gerber', 'gerber/am_statements.py'), ('AMParamStmt.build', 'gerber/gerber_statements.py')],
     observe=['attributes after from_gerber()', 'text of to_gerber()'], tech=AI + ' with text shapes (numbers as labelled holes)',
     note='Exact for all modifier values up to rounding to six digits; outlines of 1-4 points stand for all.')

prop(id='C04', title='Converting or translating a file treats each of its parts exactly once',
     statement='Converting a Gerber file between inch and metric converts each statement, each drawn primitive and each aperture exactly once, also '
               'apertures shared by several primitives or used by none, and tags the file, its settings and its parts with the target unit; '
               'converting an Excellon file does so for its statements, tools and hits. Converting to the unit in force changes nothing and '
               'converting there and back restores every value. Translating a file moves each coordinate statement, primitive, hit and slot once by '
               'the offset and leaves sizes, tools and settings alone.',
     over=['inputs', 'histories'], quant='files with one statement, primitive, tool and hit of every kind, shared and unused apertures, all values, both directions, repeated and reversed conversion',
     why='tests convert sample files and look at a few totals; an aperture scaled twice because two lines share it, or a part left in the old unit, does not show in them',
     files=['gerber/rs274x.py', 'gerber/excellon.py', 'gerber/cam.py'],
     mech=[('GerberFile.to_inch/to_metric/offset', 'gerber/rs274x.py'), ('ExcellonFile.to_inch/to_metric/offset', 'gerber/excellon.py'), ('CamFile.units property and settings', 'gerber/cam.py')],
     observe=['statements, primitives, apertures, tools, hits and settings of the file after the operation'], tech=AI,
     note='Exact for all values; known findings: positions of drill hits are not converted (a test pins this), CoordStmt.offset moves i and j (pinned).')

prop(id='C08', title='Operations on copies and read-only queries leave their source alone',
     statement='The functions of the operations module (to_inch, to_metric, offset) return a new file of the same class whose parts are those the method of '
               'the same name would produce in place; they leave the file they are given exactly as it was and share no mutable object with it. Asking a '
               'file for its bounds, size, bounding box, comments, settings, primitives or hit counts, and writing it, changes nothing and gives the '
               'same answer when asked again.',
     over=['inputs', 'histories'], quant='Gerber and Excellon files with every kind of part, built or parsed, in both units; each operation and query, asked repeatedly',
     why='tests compare the result of an operation with its source by a few attributes; aliasing between copy and source shows only when one of them changes later',
     files=['gerber/operations.py', 'gerber/rs274x.py', 'gerber/excellon.py', 'gerber/cam.py'],
     mech=[('copy.deepcopy in to_inch/to_metric/offset', 'gerber/operations.py'), ('bounds, bounding_box, size, report, write', 'gerber/rs274x.py, gerber/excellon.py, gerber/cam.py')],
     observe=['everything reachable from source and result'], tech='effect and ownership analysis by abstract interpretation (heap digests, reachability intersection)',
     note='Decided on files with one part of each class and on parsed sample files; scale and rotate are unimplemented stubs and not covered.')

prop(id='C12', title='Excellon programs are interpreted line by line as the format says',
     statement='Reading an Excellon program yields, in order, a hit for every coordinate line, R repeat and routed or G85 slot, at the position and with the '
               'tool its lines prescribe: G90 absolute or ICI,ON incremental motion (G85 in absolute only), omitted coordinates keeping the '
               'current position, drill, route (G00) and linear (G01) modes, spindle down and up (M15, M16, M17), tool selections. Each tool counts '
               'its hits; coordinates and tool fields are decoded with the number format and zero suppression in force at their line, the '
               'final settings are those last declared, undeclared, commented and external tools are resolved, and every nonblank line is kept as a '
               'statement of its kind.',
     over=['inputs', 'histories'], quant='all sequences of one or two (thorough: three) lines of every kind after six mode prefixes, all coordinate texts, all sets of tool fields',
     why='tests read a few sample files, none with incremental motion, repeats or mode changes in unusual order; modal state needs sequences',
     files=['gerber/excellon.py', 'gerber/excellon_statements.py', 'gerber/excellon_tool.py'],
     mech=[('ExcellonParser._parse_line', 'gerber/excellon.py'), ('ExcellonTool.from_excellon', 'gerber/excellon_statements.py')],
     state=[('pos, active_tool, notation, state, drill_down', 'modal state of the program', 'gerber/excellon.py ExcellonParser')],
     observe=['hits', 'tools and their hit_count', 'settings', 'statements of the file read'],
     tech=AI + ' against a transition table over an exhaustive line alphabet',
     note='Exact for all coordinate texts; sequences longer than three lines are covered only as compositions.')

prop(id='C14', title='Coordinate numbers are written and read digit for digit',
     statement='For every number format with at most six integer and seven decimal digits and either zero suppression or none, writing a number '
               'representable in the format gives exactly its digits with the suppressed zeros left out, a minus sign if negative, and 0 for zero; '
               'reading any such text, with or without a sign or with the zeros kept, gives the sum of its digits times the powers of ten '
               'the format assigns to them, so reading undoes writing; an explicit decimal point overrides the format. Formats beyond these limits are '
               'rejected with ValueError. The decimal string of a number keeps its integer digits and at most the given number of decimals, padded with '
               'zeros on request.',
     over=['inputs'], quant='every format up to 6:7 (quick: sixteen formats), all digit values, both signs, every position of the first and last nonzero digit',
     why='tests write and read some eighty sample pairs in two formats; digits shifted only for certain formats, lengths or signs are not among them',
     files=['gerber/utils.py'], mech=[('parse_gerber_value', 'gerber/utils.py'), ('write_gerber_value', 'gerber/utils.py'), ('decimal_string', 'gerber/utils.py')],
     observe=['results of the three functions'], tech=AI + ' with labelled decimal digits',
     note='Exact up to binary rounding; decimal strings for numbers of at most nine digits.')

prop(id='C09', title='Gerber programs draw what their blocks say',
     statement='Reading a Gerber program in absolute notation yields, in order, one primitive per draw (D01) outside regions and per flash (D03), and one '
               'region per contour, closed by G37 or D02, with start and end from the current and the given position (omitted coordinates keep '
               'the current one) and the interpolation, arc direction, quadrant mode, aperture, polarity and units in force. Arc centers are start plus '
               'offsets in multi-quadrant mode; in single-quadrant mode the candidate around which the arc turns at most a quarter in its direction. '
               'A block without operation repeats the last one, a block with only a function code draws nothing, in regions an arc is followed by '
               'linear interpolation. Flashes are independent copies of their aperture placed at the point; aperture definitions take sizes, vertex '
               'count, rotation, holes and macro variables from the modifier positions.',
     over=['inputs', 'histories'], quant='all sequences of two (thorough: three) blocks of every kind from every modal state, all coordinate values, all quadrants of arc centers, every standard aperture with and without hole',
     why='tests read a few sample files and compare primitive counts; modal state needs sequences of blocks no sample contains',
     files=['gerber/rs274x.py', 'gerber/gerber_statements.py'],
     mech=[('GerberParser._evaluate_coord', 'gerber/rs274x.py'), ('GerberParser._find_center', 'gerber/rs274x.py'), ('GerberParser._define_aperture', 'gerber/rs274x.py')],
     state=[('x, y, op, aperture, interpolation, direction, region_mode, quadrant_mode, level_polarity', 'modal state of the program', 'gerber/rs274x.py GerberParser')],
     observe=['primitives of the file read'], tech=AI + ' against a transition table over a block alphabet',
     note='Exact for all coordinate values; sequences longer than those enumerated are covered only as compositions. Known limits stated: incremental notation and image polarity.')

prop(id='C10', title='Every block of a Gerber program is kept',
     statement='Reading a Gerber program keeps every block (coordinate, aperture selection, mode, comment, parameter, deprecated code, unknown code, end of '
               'file) as one statement of its kind, in order, with the fields the block gives, whatever the layout: line ends, several blocks on a line, '
               'several parameters in one % pair (macros alone), parameters split over lines, blanks, a missing final line end. Coordinates are decoded '
               'with the number format in force and all statements are tagged with the units of the file. Included files are read in place, relative to '
               'the including file, and an include loop ends in IOError.',
     over=['inputs', 'histories'], quant='every pair of consecutive blocks from an alphabet of sixty blocks of all kinds in nine layouts; programs without parameters',
     why='tests read files of one layout each; a block lost only after a certain other one, or only when it shares a line, is not among them',
     files=['gerber/rs274x.py', 'gerber/gerber_statements.py'],
     mech=[('GerberParser._parse and its regular expressions', 'gerber/rs274x.py'), ('GerberParser._split_commands', 'gerber/rs274x.py'), ('from_dict of the statements', 'gerber/gerber_statements.py')],
     observe=['statements of the file read'], tech=AI + ' including the regular expressions, over a block alphabet and layouts',
     note='Decided for the texts of the alphabet; comments with % are excluded.')

prop(id='C11', title='A written Gerber file reads back as the same statements',
     statement='Writing a Gerber file, read or built from statements, and reading the result gives the same statements in the same order: every '
               'parameter, coordinate, aperture selection, mode, comment, deprecated, unknown and end of file statement with equal fields, '
               'the file with equal units, also after converting or translating it. Coordinates and the format statement are written in the format of the '
               'settings passed, or else of the file, so they decode to the written values. Aperture definitions, also those of the factories with '
               'round, rectangular or no holes, carry every modifier at its position with six digits, offsets and scale factors five decimals; '
               'aperture macros carry the values of their primitives. Writing twice gives the same text.',
     over=['inputs'], quant='every pair of consecutive statements of all kinds, all coordinate values, every number format and suppression via an uninterpreted codec, five combinations of conversion, translation and settings',
     why='tests compare the text of single statements; a field dropped only in some combination, or written in another format than declared, needs the round trip over all of them',
     files=['gerber/gerber_statements.py', 'gerber/rs274x.py', 'gerber/am_statements.py'],
     mech=[('GerberFile.write', 'gerber/rs274x.py'), ('to_gerber of every statement', 'gerber/gerber_statements.py'), ('from_dict and factories', 'gerber/gerber_statements.py')],
     observe=['text written by GerberFile.write', 'statements read back from it'], tech=AI + ' of writer and reader composed, with an uninterpreted number codec',
     note='Coordinate digits themselves are C14. Known finding: macros are written with the values of their last use, so macros with variables used with different modifiers, and unused macros, do not survive.')

prop(id='C13', title='A written Excellon file reads back as the same holes',
     statement='Writing a drill file that has a header declaring its units and number format before its tools, as read or after translating it, and reading '
               'the result gives the same tools with number, diameter (to the decimals of the format), feed and retract rate, speed, maximum hit count, depth '
               'offset, plating and hit count, for every tool the same holes and slots in order at the same places, and the same units, zero '
               'suppression and format. This holds for absolute and incremental files, repeated and routed holes, holes before the first tool selection, and tools not '
               'declared in the header. Every header statement, comment and unknown line is kept, M30 comes once and last, and each statement '
               'read from its own written text has equal fields.',
     over=['inputs'], quant='every pairing of sixty headers with sequences of hits, slots, repeats, routes, tool changes and mode statements (all pairs of them for one header), every statement kind with each combination of fields',
     why='tests compare the text of single statements and one sample file; a header statement that changes how later numbers decode needs writer and reader composed over all headers',
     files=['gerber/excellon.py', 'gerber/excellon_statements.py'],
     mech=[('ExcellonFile.write', 'gerber/excellon.py'), ('to_excellon and from_excellon of every statement', 'gerber/excellon_statements.py')],
     observe=['text written by ExcellonFile.write', 'holes and tools read back from it'], tech=AI + ' of writer and reader composed, with an uninterpreted number codec',
     note='Coordinate digits themselves are C14. Excluded: files without header, statements changing units or format after the header, G85 in incremental mode, unit conversion of holes (known finding of C04); slots are compared by place, not by the code they are written with.')

prop(id='C15', title='Number settings stay consistent',
     statement='FileSettings keeps zeros and zero_suppression opposite whatever sequence of assignments by attribute or key is made, the last one winning, and '
               'every other setting as last assigned. Constructor and key assignment refuse invalid notation, units, zeros, angle units and formats of other than two numbers '
               'with ValueError and unknown keys with KeyError, leaving the settings unchanged; an unknown zero_suppression in the constructor means '
               'leading. Reading by key and attribute agree, two settings are equal exactly if all are, and files (Gerber, Excellon, netlist) take over the settings they are '
               'made with and give them back, also after their units changed.',
     over=['inputs', 'histories'], quant='all constructor combinations, all sequences of two assignments and of three (thorough: four) suppression assignments, all pairs of settings differing in each setting',
     why='tests assign one setting at a time; a setter forgetting its counterpart shows only after the next one',
     files=['gerber/cam.py', 'gerber/ipc356.py'],
     mech=[('FileSettings setters, __setitem__, __eq__', 'gerber/cam.py'), ('CamFile.settings', 'gerber/cam.py')],
     state=[('_zeros, _zero_suppression', 'opposite zero suppression conventions', 'gerber/cam.py FileSettings')],
     observe=['settings read by key and attribute'], tech=AI + ' over assignment histories',
     note='Complete for the enumerated values; longer histories by the independence of settings.')

prop(id='C16', title='Rendering asks the context for each primitive once, in order',
     statement='GerberContext.render calls, for each primitive it is given, the hook before, exactly one drawing method (that of the kind of the primitive: line, arc, region, '
               'circle, rectangle, obround, polygon, drill, slot, macro group, test point; outlines are drawn as regions, other kinds not at all) with that primitive '
               'and the color of the context, and the hook after; nothing for None. CamFile.render sets the bounds to the bounding box of the file, paints the background, '
               'starts a layer with the given inversion, renders all primitives in file order, flattens once, and dumps to the file name exactly if one is given. '
               'Context colors must have three channels (TypeError) from 0 to 1, alpha lie from 0 to 1 and units be inch or metric (ValueError); refused values change nothing.',
     over=['inputs', 'histories'], quant='every kind of primitive and every pair of kinds, at symbolic places; files of up to eighteen primitives; setter values inside, on and outside the limits',
     why='tests of contexts check single setters; a kind of primitive that is silently skipped or drawn twice shows only in pictures',
     files=['gerber/render/render.py', 'gerber/cam.py'],
     mech=[('GerberContext.render', 'gerber/render/render.py'), ('CamFile.render', 'gerber/cam.py')],
     observe=['sequence of calls to the drawing methods of a context'], tech=AI + ' with a recording context',
     note='Complete for the kinds of primitives in the package; sequences longer than the enumerated ones by the absence of state in render.')

prop(id='C17', title='Rendered images show what the primitives cover',
     statement='On the cairo context, the area a primitive paints on its layer, in pixels, is the area it covers scaled and placed relative to the lower left of '
               'the bounds with y upwards: lines with circular or rectangular apertures, arcs with circular apertures, regions, outlines, circles, rectangles, obrounds, polygons '
               '(with round or rectangular holes left unpainted), drills, slots and macros '
               '(whose erasing shapes erase only the macro). Dark primitives add, clear ones erase; an inverted layer starts full and swaps both; a mirrored layer is '
               'flipped left to right within the bounds; the clip region never cuts a primitive; a test point is a dot and its net name. '
               'Each layer is put once, in its color and alpha, on one image as large as the bounds first set (render_layers: all layers together, '
               'scaled by the largest integer that fits the maximum size; nothing for no layers), over a background painted once; settings missing are those of the theme. dump writes SVG '
               'to names ending in .svg and PNG otherwise; dump_str gives the PNG and dump_svg_str the SVG, all of the whole image; clear starts over.',
     over=['inputs', 'histories'], quant='all places, sizes, scales and bounds as symbols; every kind of primitive and hole in both polarities, inverted or not, mirrored or not; arcs between eight directions; pairs of primitives; sequences of layers',
     why='tests compare two pictures; a wrong operator, offset or hole shows only for a combination of polarity, inversion, mirroring and origin',
     files=['gerber/render/cairo_backend.py', 'gerber/render/render.py', 'gerber/cam.py'],
     mech=[('GerberCairoContext._render_*', 'gerber/render/cairo_backend.py'), ('_clip_primitive, _new_mask, new_render_layer, flatten', 'gerber/render/cairo_backend.py'), ('render_layer, render_layers, dump', 'gerber/render/cairo_backend.py')],
     state=[('ctx, active_layer, invert', 'the layer being drawn', 'gerber/render/cairo_backend.py'), ('origin_in_inch, size_in_inch', 'bounds of the image', 'gerber/render/cairo_backend.py')],
     observe=['painting operations reaching the cairo surfaces'], tech=AI + ' with a recording model of the cairo library',
     note='Areas are compared structurally (all symbol values); if drawn another way, by membership at sampled values. Antialiasing and pixel rounding are cairo\'s. Excluded: lines with obround or polygon apertures, rotated obrounds, arcs over 90 degrees in single quadrant mode, caps of arcs with rectangular apertures.')

prop(id='C21', title="Reading picks the parser of the file's kind",
     statement='loads hands its data and file name unchanged to the parser that the first line with a mark calls for: %FS Gerber, M48 Excellon, P JOB netlist; data without a mark '
               'raises ParseError. read opens exactly the named file as text, closes it, records its name and gives what loads gives of its content, whatever '
               'its line ends. Drill files read with settings use them; without, the number format and zeros they declare are '
               'used, and an undeclared format is one of 2.4, 2.5 and 3.3 with leading or trailing zeros.',
     over=['inputs'], quant='every mark at every position among unmarked lines and lines with other marks; every kind of file, entry point and line end; declared formats and zeros of drill files',
     why='tests read one file of each kind from start to end',
     files=['gerber/common.py', 'gerber/utils.py', 'gerber/excellon.py', 'gerber/rs274x.py', 'gerber/ipc356.py'],
     mech=[('loads, read', 'gerber/common.py'), ('detect_file_format', 'gerber/utils.py'), ('detect_excellon_format', 'gerber/excellon.py')],
     observe=['class, filename and settings of the object read'], tech=AI + ' with a recorded file table',
     note='Which undeclared format fits best is a heuristic and not decided.')

prop(id='C22', title='Layers get their class and boards their layer order',
     statement='The class of a layer is guessed from its file name, whatever its directory and letter case: the one whose list of known extensions or names (hints in layers.py, as '
               'in the current tree) holds the extension, or the part of the base name between separators; user hints added to the list apply in order, those with content to the text of the file first; without '
               'a match it is unknown. Excellon files become drill layers of top and bottom, internal layers take as order the first number of their base name '
               '(0 without), and layers carry the file name, primitives and bounds of their file. sort_layers keeps the layers outline, top paste, silk, mask, copper, internal by '
               'order, bottom copper, mask, silk, paste (reversed from the bottom), then drills and drawings, equal ones in given order, and drops other classes. A board gives '
               'its layers so sorted; top_layers (copper, mask, silk) and bottom_layers from copper outward with the drills of that side after the first; drill_layers; '
               'copper_layers from the bottom up; outline_layer; layer_count of copper; board_bounds of the outline, else top copper. from_directory loads each visible '
               'readable board file once, skips others, and names the board as told, else by the one base name its files share (less a known class suffix), else by the directory; '
               'it raises TypeError for no directory.',
     over=['inputs'], quant='every known extension and name in many surroundings; all pairs of layer classes (thorough: triples), all orders of four internal layers, long mixed lists; directories of every kind of file',
     why='tests guess a few names and sort one board; a layer that is dropped or misplaced shows only for some combinations and orders',
     files=['gerber/layers.py', 'gerber/pcb.py', 'gerber/utils.py'],
     mech=[('guess_layer_class, sort_layers', 'gerber/layers.py'), ('PCBLayer.from_cam', 'gerber/layers.py'), ('PCB', 'gerber/pcb.py')],
     observe=['layer_class and order of layers', 'lists of layers of a PCB'], tech=AI + ' with recorded directories against the table of layer names',
     note='Which names belong to which class is taken over from the package as a table, so new names may be added but those known must stay. Longer lists of layers follow from stability, which is enumerated.')

prop(id='C24', title='Themes give settings for every layer',
     statement='A theme gives, by get and by key, for background, silk, mask, copper, drill and netlist exactly the settings it was made with and the default '
               'theme\'s for those not given, every time it is asked; get gives the fallback for other classes and only for those. Internal layers take the theme\'s internal '
               'settings in turn, from the first, starting over after the last, however many are asked for and whatever is asked for in between. The themes of the package have settings '
               'for every class, colors and alpha from 0 to 1; the default, OSH Park and Blue themes mirror exactly the bottom classes and invert exactly the masks.',
     over=['inputs', 'histories'], quant='all pairs of given settings, all classes, requests for three rounds of internal layers by both ways, all packaged themes',
     why='no test asks a theme for more internal layers than it has settings, or mixes ways of asking',
     files=['gerber/render/theme.py', 'gerber/render/render.py'],
     mech=[('Theme', 'gerber/render/theme.py'), ('THEMES', 'gerber/render/theme.py')],
     state=[('_internal_gen', 'next settings of internal layers', 'gerber/render/theme.py')],
     observe=['color, alpha, invert, mirror of the settings'], tech=AI + ' over request histories',
     note='The colors themselves are a matter of taste and not decided.')

prop(id='C23', title='Netlists are read field by field and give their nets',
     statement='Reading an IPC-D-356 netlist keeps its comments (text after the code, trimmed), parameters (name, value with single blanks), test records (317, 327, 367), conductors (378), adjacencies '
               '(379), outlines (389) and end of file in order; other lines are skipped and lines beginning with 0 continue the line before. UNITS CUST, CUST 0 (inch), CUST 1 (metric) '
               'and CUST 2 (inch, radians) hold for what follows. A test record has the fields its columns hold (feature type, net name, component, pin, M for middle, hole '
               'diameter after D, P for plated, access, x, y, width, height, rotation, solder mask, optional text), blank sizes and those after the end of the line missing; a component name longer than six '
               'characters, ended by -, shifts the rest. Numbers are ten thousandths of an inch or thousandths of a millimeter, rotation is in degrees. NNAMEn as net name stands for the name last given to it before. '
               'Outline points and the shapes of conductors (separated by *) keep coordinates left out. The file lists its records by kind, the different components but VIA, one entry for each '
               'via, each net of its test records once with all nets adjacent to it in either direction, its final units, and one test point per test record; render draws those of both sides or of one '
               'side, with those of access both, in order, and dumps exactly if given a file name.',
     over=['inputs'], quant='all digits of all fields at every width and padding, every field blank or last of its line, access codes up to eight, all pairs of related fields (thorough: all pairs) and units; twelve whole netlists with every kind of line',
     why='tests read four records; a field read from the wrong columns shows only for some widths, ends of line or long names',
     files=['gerber/ipc356.py'],
     mech=[('IPC356_TestRecord.from_line', 'gerber/ipc356.py'), ('IPCNetlistParser._parse_line', 'gerber/ipc356.py'), ('IPCNetlist.nets, render', 'gerber/ipc356.py')],
     state=[('nnames, units, angle_units', 'parameters in force', 'gerber/ipc356.py IPCNetlistParser')],
     observe=['attributes of records', 'nets, components, primitives of the netlist'], tech=AI + ' over lines of symbolic digits',
     note='Complete for the digits of every layout enumerated. Excluded: records that end before their access code, more than eight layers, blanks inside numbers.')

prop(id='C27', title='Tool tables, reports and settings files are read field by field',
     statement='excellon_tool.loads gives one tool, by number, for each Allegro hole line (Holesize N., with or without T before it, in MILS or MM) or table row (size, P or N, TNN, tolerances) '
               'wherever it stands: its diameter converted to the given units (inch by default), and its plating (plated, nonplated, optional). loads_rep gives one tool for each row of six fields after '
               'the ruled head: number, diameter as written, plating (x plated, - not, else unknown), feed rate and spindle speed. Other lines give nothing, other attributes stay unset. '
               'excellon_settings.loads gives units (ENGLISH inch, METRIC), notation (ABSOLUTE, INCREMENTAL) and number format (INTEGER-PLACES, DECIMAL-PLACES) as stated in the file in any order, '
               'amid other lines and blanks.',
     over=['inputs'], quant='symbolic sizes; every notation, plating and unit; rows amid other lines; all combinations of settings',
     why='no test reads any of these files; a wrong factor or plating spoils drilling silently',
     files=['gerber/excellon_tool.py', 'gerber/excellon_settings.py'],
     mech=[('ExcellonToolDefinitionParser', 'gerber/excellon_tool.py'), ('ExcellonReportParser', 'gerber/excellon_tool.py'), ('ExcellonSettingsParser', 'gerber/excellon_settings.py')],
     observe=['dict of tools', 'FileSettings'], tech=AI + ' over lines with symbolic numbers',
     note='Complete for the notations enumerated. Excluded: settings files that leave one of the four settings out; rows of six words that are no numbers.')

prop(id='C18', title='Primitives rendered to Gerber text read back as the same primitives',
     statement='Lines, arcs (single and multi quadrant), flashes of circles, rectangles, obrounds, polygons (with their holes) and macro groups, regions and outlines, rendered in any order with '
               'Rs274xContext and dumped, give Gerber text which rs274x.loads reads as the same primitives in the same order: start, end, center, direction, quadrant mode, position, aperture '
               'shape, sizes and hole, macro parts with their exposure, contour, and polarity (unset is dark; segments of a region without one take that of the region). The text has the format, zero '
               'suppression and units of the settings. Every aperture is defined once, with its own number from 10 on, before it is used; standard apertures of equal values share a definition. Comments of '
               'primitives are written. CamFile.render with a file name writes the same text to that file. The rendered primitives stay as they were, whatever the settings condensed_flash and '
               'explicit_region_move_end. Lines of no length, rotated rectangles, and primitives in other units than the settings are not covered.',
     over=['histories', 'inputs'], quant='every pair of consecutive primitives of an alphabet of kinds, apertures and polarities, with uninterpreted coordinates; files read and rendered',
     why='the renderer omits what its current position, function, aperture, polarity and quadrant mode make redundant: an error shows only after particular neighbours; its tests are disabled but one',
     files=['gerber/render/rs274x_backend.py', 'gerber/am_statements.py', 'gerber/primitives.py', 'gerber/gerber_statements.py', 'gerber/cam.py'],
     mech=[('Rs274xContext', 'gerber/render/rs274x_backend.py'), ('AMGroupContext.render', 'gerber/render/rs274x_backend.py'), ('AMGroup.equivalent', 'gerber/primitives.py')],
     observe=['text of Rs274xContext.dump', 'primitives read from it'], tech=AI + ' over sequences of primitives, and of the reader on the text',
     note='Coordinates are uninterpreted (C14); sizes of apertures and macro parts are the ones enumerated. Pairs are covered completely; longer interactions only as they occur in the sequences.')

prop(id='C26', title='Extents, counts, path lengths and drill reports cover every part once',
     statement='GerberFile.bounds gives the smallest and largest x and y that the coordinate blocks of the file state (blocks without an x or a y do not count for it), size their differences; '
               'bounding_box of Gerber and Excellon files is the union of the boxes of all their primitives, holes and slots (diameters included), in any order and on any side of zero. '
               'ExcellonFile.primitives has one Drill or Slot per hit in order, with its position or ends, diameter and units. path_length of a tool is the way from the origin through its '
               'holes and along its slots in file order, of all tools a dict, None for a tool without hits; hit_count likewise gives the count of each tool. update_tool changes exactly the given parameters '
               'of that tool, for all its hits. report states file name, data mode, units, and for each tool its number, diameter in the decimals of the format, hits and path length with the unit, and writes the '
               'same text to a file if named.',
     over=['inputs'], quant='every order of up to three coordinates; symbolic positions and diameters of up to 14 holes and slots of three tools; all units, notations and report options',
     why='tests ask for one board: a wrong seed value, a skipped part or a mixed-up tool shows only for boards on the other side of zero, with slots, or with several tools',
     files=['gerber/rs274x.py', 'gerber/excellon.py'],
     mech=[('GerberFile.bounds', 'gerber/rs274x.py'), ('ExcellonFile.path_length', 'gerber/excellon.py'), ('ExcellonFile.report', 'gerber/excellon.py')],
     observe=['values of the properties', 'text of the report'], tech=AI + ' over files built from parts; order types of coordinates',
     note='Extents compare coordinates only; coordinates are below a million. Bounding boxes of single primitives are C07.')

prop(id='C25', title='References resolve and calls fit',
     statement='In every module of the package, also on paths no test takes: each name read is a local, a global of its module or a builtin; no local is read where no assignment can have reached it; each '
               'imported name, and each attribute taken from a module of the package or of the standard library, exists there; each attribute read from self, or from a value evidently of one class (made '
               'by calling the class, or a list, dict, set, tuple or text), is one that class, its bases or subclasses have; any other attribute name is one some object of the package or the standard library has '
               '(modules using libraries outside it excepted). Each call of a function or class of the package, of a method of self, of super() or of a class fits the parameters, as do calls of methods whose '
               'name only the package has, and of standard library functions; % and format texts have as many fields as values.',
     over=['inputs', 'histories'], quant='every reference and call of every function of every module',
     why='a wrong name, attribute or argument on a path no test takes compiles and passes all tests, and fails when a user first gets there',
     files=['gerber/*.py', 'gerber/render/*.py'],
     mech=[('all references and calls', 'gerber/'), ('GerberParser', 'gerber/rs274x.py'), ('ExcellonContext', 'gerber/render/excellon_backend.py')],
     observe=['NameError, AttributeError, ImportError, TypeError of calls'], tech='name resolution, reaching definitions, class hierarchy and call-compatibility analysis over syntax trees',
     note='No types are inferred beyond those evident; calls with * or ** arguments are checked for what is given openly only.')

prop(id='C28', title='The command line renders what it is given',
     statement='gerber-render given one directory writes, with the cairo backend, OUT.top.png, OUT.bottom.png and OUT.copper.png (OUT is --outfile, out by default), each that has any layers, once: of the outline first and then the '
               'top layers of the board, the bottom layers, or the copper layers followed by the drill layers (drawn last, over the copper), in the order the board gives; top and bottom in the theme asked for (--theme, default), copper in '
               'Transparent Multilayer, each within --width (1920) and --height (1080). Given files it draws every one in the order given on one picture, in the settings the theme has for its class, and writes OUT.png. '
               'Unknown options, themes and backends and missing file names are refused before anything is drawn.',
     over=['inputs'], quant='seven boards with and without outline, drills, inner layers and either side; eight lists of files of mixed classes; every theme and combinations of the options before and after the names',
     why='no test runs the command; a swapped size, theme or layer list passes everything and spoils the pictures',
     files=['gerber/__main__.py', 'gerber/pcb.py', 'gerber/layers.py', 'gerber/render/theme.py'],
     mech=[('main', 'gerber/__main__.py'), ('PCB.top_layers, bottom_layers, copper_layers, drill_layers, outline_layer', 'gerber/pcb.py')],
     observe=['images written', 'layers in each'], tech=AI + ' with a model of argparse and a recording renderer',
     note='What the renderer does with the layers is C16 and C17. Whether a board without an outline has its holes in the copper picture is left open.')

prop(id='C29', title='Values compare and describe themselves by what they hold',
     statement='Two Gerber statements are equal (==) exactly if they are of one kind and hold the same values and units. ExcellonTool.equivalent holds exactly for tools of the same diameter, rates, speed, depth, hit limit, plating and '
               'units, whatever their numbers, ids and hit counts; from_tool and from_dict take over each of these and the number. Circles, rectangles, polygons and lines are equivalent to another primitive at an offset exactly if that is of the same '
               'kind, sizes, rotation and round hole (polygons: sides, radius, rotation; lines: their ends only) and lies, moved by the offset, at the same place to six decimals; outlines and macro groups if they have as many parts and all parts are '
               '(groups: of the same polarity too). Lines, arcs, regions, drills and slots are not flashed, other primitives are. str() of a statement shows each value it holds; '
               'GerberParser.dump_str gives it for every statement on a line of its own, in order, and dump_json an object of all values for each.',
     over=['inputs'], quant='all pairs of statements of all kinds; each value of a tool or primitive changed alone, symbolic sizes and places; every kind of statement in summaries',
     why='tests compare a few equal statements; a value left out of a comparison shows only for two that differ in it alone',
     files=['gerber/gerber_statements.py', 'gerber/excellon_statements.py', 'gerber/primitives.py', 'gerber/rs274x.py'],
     mech=[('Statement.__eq__, __str__', 'gerber/gerber_statements.py'), ('ExcellonTool.equivalent, from_tool, from_dict', 'gerber/excellon_statements.py'), ('equivalent, flashed', 'gerber/primitives.py'), ('GerberParser.dump_str, dump_json', 'gerber/rs274x.py')],
     observe=['results of ==, equivalent, flashed, str, dump_str, dump_json'], tech=AI,
     note='Excluded: equality of primitives (compares cached values too), polarity of single primitives, rectangular holes, summaries of tools.')

prop(id='C30', title='Strokes sweep the convex hull of their ends',
     statement='The vertices of a straight line drawn with a rectangle or a regular polygon are the corners of the convex hull of the aperture at its start and at its end, each once and in order around it, '
               'whatever the direction and length of the line (of a rectangle also without length), from whichever end it is drawn, and whatever the sizes, number of sides and rotation of the polygon. '
               'utils.convex_hull gives the corners of the hull of any three or more points not all on one line, given as tuples in any sequence, each once and in order around it, no point within the hull or within one of its edges, '
               'whatever their order and also if points are repeated.',
     over=['inputs'], quant='every set of points of a 3 by 3 lattice in several orders and with repetitions; regular figures with points inside; strokes of 41 directions and lengths with rectangles of five shapes and polygons of five kinds in three rotations',
     why='the one test of the hull compares a set of corners of one point set; an error shows only for particular directions, collinear or repeated points',
     files=['gerber/primitives.py', 'gerber/utils.py'],
     mech=[('convex_hull', 'gerber/utils.py'), ('Line.vertices', 'gerber/primitives.py')],
     observe=['vertices of Line', 'result of convex_hull'], tech=AI + ' over enumerated order types of points',
     note='Exactness up to rounding for points off the lattice. Turned rectangles and lines of no length drawn with polygons are not covered.')

prop(id='C31', title='Reading ends',
     statement='Reading any text as a Gerber file, drill file, netlist, aperture macro, tool table, tool report or settings file ends, with a result or an exception; Gerber files that include themselves or each other end in IOError. '
               'The work grows at most with the square of the length of the text (repeat counts and included files apart), and no regular expression of the package, those of the layer hints included, can take time exponential in the length of the text matched.',
     over=['inputs'], quant='every sequence of up to two to four tokens of each format after the usual beginnings, every character sequence of macros up to three, included files; pieces repeated 12, 24 and 48 times; every regular expression of the package, for all texts',
     why='tests read well-formed files; a loop that does not move on or an ambiguous pattern shows only for a particular malformed text, and then as a hang',
     files=['gerber/rs274x.py', 'gerber/am_read.py', 'gerber/excellon.py', 'gerber/excellon_tool.py', 'gerber/ipc356.py', 'gerber/layers.py'],
     mech=[('GerberParser._split_commands, _parse', 'gerber/rs274x.py'), ('Scanner, read_macro', 'gerber/am_read.py'), ('guess_layer_class', 'gerber/layers.py')],
     observe=['end of reading'], tech=AI + ' with bounded loops; ambiguity of the position automata of all patterns',
     note='Two parts: the patterns are decided for all texts, the readers on short texts and on repetitions.')
