"""
Single source of properties.jsonl and MANIFEST.json:  python3 tools/make.py
"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

P = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                  _technique=technique, _note=note))


NOTEST = ("The suite only covers array swizzling and matrix allocation; nothing there "
          "touches this, and a handful of examples could not cover ")

CMD, OBJ, CONV = "gsp/io/command.py", "gsp/object.py", "gsp/io/convert.py"
JSON = "gsp/io/json.py"
MINIT = "gsp_matplotlib/__init__.py"

prop("P01", "Every protocol call is recorded completely, once and in call order",
     "While recording is on and the active queue is writable, each call of a protocol "
     "constructor or method appends exactly one command to the active queue, in call order, "
     "naming the object's class, the method, the object's id and every parameter of the "
     "method with the value it received (explicit, keyword or default; objects by id). "
     "When recording is off or the queue is read-only nothing is appended, and the call "
     "itself behaves the same. Command ids strictly increase and timestamps never go back.",
     ["histories", "inputs"],
     "all histories of constructor and method calls, argument passing styles (positional, "
     "keyword, default, object references) and recording on/off/read-only switches",
     NOTEST + "calling styles and histories.",
     [CMD, "gsp/core/*.py", "gsp/visual/*.py", "gsp/transform/*.py"],
     [("instrumentation", CMD + ":command"), ("queue push", CMD + ":CommandQueue.push")],
     "model-based property testing: generated call histories on a synthetic protocol and on "
     "the real classes, against an independent binding of the arguments",
     "Random histories of at most ~15 calls; a synthetic protocol class family exercises every "
     "calling shape, the real classes are sampled with one parameter family each.")

prop("P02", "Arguments are type-checked when recorded, and converted only when needed",
     "A recorded call with a plain (non protocol object) argument succeeds exactly when the "
     "argument is None, has one of the declared types, or a converter is registered from one "
     "of its classes to a declared type; otherwise it raises ValueError and nothing is "
     "recorded. A value that already has a declared type is never converted. Conversion does "
     "not happen at call time but each time the command is executed or dumped, on the "
     "argument as it is then.",
     ["inputs", "histories"],
     "all argument types, declared types (simple or union), sets of registered converters and "
     "modifications of the argument between the call and its use",
     NOTEST + "combinations of value type, declared type and registered converters.",
     [CMD, CONV], [("type check", CMD + ":command"), ("delayed conversion", CONV + ":Converter")],
     "property testing against a reference decision table; conversion counters",
     "Converters are drawn from a fixed family of source types; union types of up to three "
     "alternatives.")

prop("P03", "Running a queue replays the recorded calls faithfully and repeatably",
     "Running a queue against a backend performs the recorded calls in order with the same "
     "arguments, object ids being resolved to the backend's own objects, and registers each "
     "created object under its recorded id. The queue is unchanged by a run and can be run "
     "again with the same result. Its read-only flag is restored whether the run succeeds or "
     "a command fails.",
     ["histories", "fault_sequences"],
     "all recorded histories, number of runs, and position of a failing command",
     NOTEST + "histories, references between objects and failing positions.",
     [CMD, OBJ], [("run", CMD + ":CommandQueue.run"), ("execute", CMD + ":Command.execute")],
     "model-based property testing with fault injection at a generated position",
     "Replay on a measuring backend; histories of at most ~15 calls.")

prop("P04", "Saving and loading a queue preserves its meaning",
     "Saving a queue to JSON and loading it, any number of times, yields a queue with the same "
     "commands that replays the same calls with the same arguments on the same object ids, whatever the text they hold and the locale of the process. "
     "The file lists every command in order with method, object id, timestamp and parameters, "
     "objects that a just-in-time conversion creates coming before their user. Saving "
     "modifies no queue, saves the requested queue even when empty, and loading replaces the "
     "content of the requested queue only.",
     ["histories", "inputs"],
     "all recorded histories, numbers of save/load cycles, queues and entry points",
     NOTEST + "histories and repeated cycles.",
     [JSON, "gsp/__init__.py", CMD],
     [("dump", JSON + ":dump"), ("load", JSON + ":load"), ("gsp.save/gsp.load", "gsp/__init__.py")],
     "round-trip property testing (record, save, load, replay) against the recorded history",
     "JSON representable parameters, plus the library's own binary types; in process.")

prop("P05", "A recorded scene replays to the same image in another process",
     "Any scene built with the matplotlib implementation (canvases, viewports, visuals, "
     "buffers from arrays or lists, transforms, matrices, later modifications of tracked "
     "arrays), saved to JSON and replayed in a fresh process with the matplotlib backend, "
     "renders exactly the image of the original scene.",
     ["programs", "histories"],
     "all scenes composed of the public visuals, transforms, buffer sources and edits made "
     "before saving",
     NOTEST + "programs: expected-output scripts compare one image of each example and "
     "need a display run, and none goes through save and load.",
     [JSON, CMD, MINIT, "gsp_matplotlib/core/buffer.py", "gsp_matplotlib/core/list.py",
      "gsp/core/types.py"],
     [("buffers of arrays", MINIT + ":Tracker"), ("serialisation", JSON + ":default"),
      ("replay", CMD + ":Command.execute")],
     "differential property testing: direct rendering versus replay in a fresh process, "
     "compared pixel by pixel",
     "Scenes of up to 2 canvases, 3 visuals and 4 edits; Agg rasters.")

prop("P06", "Object ids are unique and resolve to their object",
     "Every object created while objects are registered has an id no other registered object "
     "has, including objects that were loaded, replayed or given an explicit id, and the "
     "registry maps that id to that very object. Changing an object's id moves its "
     "registration, and no other object is displaced by the creation of a new one. An object "
     "created while objects are not registered never enters the registry nor displaces another "
     "object, whatever id it is given.",
     ["histories"],
     "all histories of object creation, id changes, replays of foreign commands",
     NOTEST + "interleavings of creation and replay.",
     [OBJ, CMD], [("id allocation", OBJ + ":Object.__init__"), ("id change", OBJ + ":Object.id")],
     "stateful model-based testing against a dictionary model",
     "Histories of up to 25 operations.")

prop("P07", "Named queues are unique and commands go to the active queue only",
     "Asking for a queue by name always gives the same queue, creating it, empty and active, "
     "the first time only; 'active' (or None) gives the active queue. Commands are appended to "
     "the active queue only, and never while it is read-only or recording is off. Emptying, "
     "pushing to or running a queue affects no other queue.",
     ["histories"],
     "all histories of queue creation, selection, emptying, read-only and recording switches "
     "and calls",
     NOTEST + "histories over several queues.",
     [CMD], [("named singletons", CMD + ":NamedSingleton"), ("queues", CMD + ":CommandQueue")],
     "stateful model-based testing against a dictionary-of-lists model",
     "Up to 30 operations over up to 5 queues. Running a queue that is not the active one is "
     "not explored.")

prop("P08", "Conversions use the registered converter, most direct first",
     "A value converts to a destination type with the converter registered for its own type "
     "(for a string, for its text first), else with the wildcard converter, else with one "
     "registered for the nearest of its base classes; when there is none, or it fails, ValueError is "
     "raised. Registering a second converter for the same pair raises TypeError, and "
     "unregistering removes exactly the given pairs. The converters provided by the library "
     "keep values: colors, lists, tuples, markers, base64 data.",
     ["histories", "inputs"],
     "all histories of registrations, removals and conversions",
     NOTEST + "registry histories.",
     [CONV, "gsp/__init__.py", MINIT],
     [("registry", CONV + ":register"), ("lookup", CONV + ":get_converter")],
     "stateful model-based testing against a dictionary model; round-trip testing of built-ins",
     "Nine source types, four destination types; base classes are tried in method resolution order.")

prop("P09", "Data types and buffer contents survive serialisation",
     "Any packed dtype made of scalar or one-dimensional fields (whose names hold no ':' nor ',') converts to its text form and back to "
     "an equal dtype. A buffer built from bytes, memory or an array, saved to JSON and "
     "replayed, holds the same items: same count, item type and shape, and values. Writing "
     "bytes at an offset of a buffer changes exactly those bytes.",
     ["inputs", "histories"],
     "all dtypes, contents and sequences of partial updates",
     NOTEST + "data types and byte patterns.",
     [CONV, JSON, "gsp_matplotlib/core/buffer.py", MINIT],
     [("dtype text form", CONV + ":numpy_dtype_to_str"),
      ("buffer", "gsp_matplotlib/core/buffer.py:Buffer")],
     "round-trip property testing of dtypes and buffers; byte-level reference model for updates",
     "Little and big endian numeric, boolean, string and void-free structured dtypes, packed (without alignment padding).")

prop("P10", "Text dumps list every command and change nothing",
     "The plain and ansi text dumps of any queue, recorded or loaded from a file, list every "
     "command in order with its id, method, timestamp, object id and each parameter by name, "
     "objects being given by id (also when the argument was turned into an object) and other "
     "simple values verbatim, with every type the parameter is declared with. Written to a file, a "
     "dump replaces what it held. The two formats differ only "
     "by colour codes and type notation. Dumping records no command and alters neither queue, "
     "objects nor active queue.",
     ["histories"],
     "all recorded or loaded histories",
     NOTEST + "histories.",
     ["gsp/io/text.py", "gsp/io/ansi.py"],
     [("text dump", "gsp/io/text.py:dump"), ("ansi dump", "gsp/io/ansi.py:dump")],
     "property testing: dumps are parsed back and compared to the recorded history",
     "Single-line parameter texts (the format has no escaping).")

prop("P11", "Every object, command and queue can be shown, without side effect",
     "str() and repr() of any object of the library never fail and name its class: buffers, "
     "lists, colors, canvases, viewports, visuals and transforms, whether free, chained, "
     "composed or bound to buffers, arrays or numbers. A transform shows its id and the one of "
     "the transform or buffer it is applied to, or the number it is bound to. A command shows "
     "its number, class, object id and method; its dump() on the console also lists every "
     "parameter in order with the type of its value (before conversion); a queue lists its "
     "commands in order. Showing converts nothing, records nothing and changes nothing.",
     ["histories", "programs"],
     "all recorded histories, kinds of objects, transform expressions and bindings",
     NOTEST + "kinds of bindings and histories.",
     [CMD, "gsp/transform/transform.py", "gsp/transform/operator.py",
      "gsp_matplotlib/core/buffer.py", "gsp_matplotlib/core/list.py"],
     [("transform text", "gsp/transform/transform.py:Transform.__repr__"),
      ("command dump", CMD + ":Command.dump"), ("queue text", CMD + ":CommandQueue.__str__")],
     "property testing: texts of generated histories, objects and transform programs are "
     "searched for what they must tell; state is compared before and after",
     "The layout of the texts is not judged, only what they contain.")

prop("P12", "A List is the sequence of consecutive parts of its data",
     "A List built from a sequence of sublists (lists, tuples or arrays, of numbers or "
     "vectors), from a data buffer and a buffer of sizes of any integer type, or from a data "
     "buffer and one common size, has as many items as sublists or sizes (or as whole items "
     "fit in the data); enumerating it, any number of times, yields the consecutive parts of "
     "the data with exactly these sizes, empty ones included, and as an array it is the whole "
     "data. Integers stay exact. Items follow later modifications of the tracked array the data comes from, or of the "
     "content of the data buffer, and a "
     "list that is saved, loaded and replayed has the same items.",
     ["inputs", "histories"],
     "all partitions, element types and shapes, size types, later edits and replays",
     NOTEST + "partitions.",
     ["gsp/core/list.py", "gsp_matplotlib/core/list.py", MINIT],
     [("enumeration", "gsp_matplotlib/core/list.py:List.__iter__"),
      ("conversion of sublists", MINIT + ":list_to_List")],
     "property testing against python lists, with a save, load and replay round trip",
     "Up to six items of up to five elements; when one common size does not divide the data, "
     "the remainder is not judged.")

prop("P13", "A documentation block prints its own source and exactly the commands it issues",
     "Wherever a mkdocs() block stands (module, function, method or condition, any indentation), "
     "and whatever it holds (comments, blank lines, calls over several lines, nested blocks), "
     "leaving it, also by an exception, prints its title, its source (verbatim) brought back to the left margin, and, for the "
     "formats asked for, the text and JSON dumps of exactly the commands it issued, in order. "
     "Commands issued before are not shown, object ids start at 1, and running the same block "
     "again prints the same thing but for dates.",
     ["programs"],
     "all scripts, positions of the block, bodies and format selections",
     NOTEST + "scripts and positions of blocks.",
     ["gsp/io/mkdocs.py", "gsp/io/ansi.py", JSON],
     [("source extraction", "gsp/io/mkdocs.py:mkdocs.__exit__"),
      ("numbering", "gsp/io/mkdocs.py:mkdocs.__enter__")],
     "property testing: generated scripts are executed and what they print is parsed back and "
     "compared to the generated block",
     "Blocks whose lines are all indented at least as the first one; lines that are blank are "
     "not counted.")

TR = "gsp/transform/transform.py"
OP = "gsp/transform/operator.py"
ME = "gsp/transform/measure.py"

prop("T01", "Arithmetic on transforms evaluates like arithmetic on arrays",
     "Any expression combining transforms, measures, buffers, arrays, lists, tuples and numbers "
     "with +, -, *, / and unary minus evaluates to what numpy gives on the operands' evaluated "
     "values. Building an expression never modifies its operands, which can be reused, "
     "copied, or evaluated again with the same result.",
     ["programs", "inputs"],
     "all expression trees and operand kinds, in both operand orders",
     NOTEST + "expression trees.",
     [OP, TR, ME], [("operators", OP), ("operator overloading", TR + ":Transform.__add__")],
     "differential property testing of generated expression trees against numpy",
     "Trees of up to ~8 nodes.")

prop("T02", "Measures convert physical units to normalized or pixel units exactly",
     "A measure of any unit (pixel, point, inch, millimeter, centimeter, meter, kilometer) "
     "evaluates to its value times the unit's pixel length (1, dpi/72, dpi, dpi/25.4, dpi/2.54, "
     "dpi*100/2.54, dpi*100000/2.54), divided by the size of the canvas, or by the size of the "
     "viewport and multiplied by its axis range, per component. With only a dpi the result is a number of "
     "pixels. The same length expressed in any unit gives the same result.",
     ["inputs", "configurations"],
     "all values, shapes, units, dpi, canvas and viewport sizes",
     NOTEST + "units, sizes and dpi.",
     [ME], [("normalisation", ME + ":Measure.evaluate"), ("dpi", ME + ":Measure.dpi")],
     "property testing against an analytic reference; metamorphic unit equivalences",
     "Values with 1 to 3 components; the z component of a measure is 0 and not judged by dpi only.")

prop("T03", "Transforms chain, bind, copy and access fields consistently",
     "Chaining A(B) applies B first and then A, whatever the depth, and equals applying them "
     "one after the other; binding to a buffer, array, list or number evaluates on its current "
     "content. Accessors give the named component or field. Calling a transform or copying it "
     "never alters the original, copies evaluate the same, and binding a bound transform "
     "raises ValueError. Modifying a transform afterwards (operands, data, colormap) affects "
     "neither its copies nor the transforms built from it.",
     ["programs", "inputs"],
     "all chains of transforms, binding targets and access keys",
     NOTEST + "chains.",
     [TR, "gsp/transform/accessor.py", "gsp/transform/colormap.py"],
     [("chaining", TR + ":Transform.__call__"), ("copies", TR + ":Transform.copy"),
      ("accessors", "gsp/transform/accessor.py")],
     "model-based property testing of generated chains against function composition",
     "Chains of depth at most 4 of accessors, measures, colormaps.")

prop("T04", "Colormaps map values to matplotlib colours over their limits",
     "A colormap evaluates every value to the colour of the named matplotlib colormap at the "
     "value's relative position between its limits (zero being a valid limit), a missing limit "
     "being the minimum or maximum of the evaluated data; values outside saturate. Changing "
     "the colormap's name changes the next evaluation, and copies keep name and limits.",
     ["inputs"], "all data, limits and colormap names",
     NOTEST + "data and limits.",
     ["gsp/transform/colormap.py"], [("evaluate", "gsp/transform/colormap.py:Colormap.evaluate")],
     "property testing against an independent reference (table lookup)",
     "Finite float data; eight colormaps.")

prop("T05", "Just-in-time variables give the values of the current rendering",
     "A transform that designates an output variable of a visual (possibly with component "
     "letters, in any order) evaluates, during a rendering, to the values produced by that very rendering for "
     "that visual; used as (part of) an attribute, each item gets the attribute computed from "
     "its own output. An unknown variable raises ValueError, unknown components IndexError, "
     "and such a transform cannot be chained to another.",
     ["inputs", "histories"], "all variable names, component keys, and sequences of renderings",
     NOTEST + "renderings and keys.",
     ["gsp/transform/out.py", "gsp/visual/visual.py", "gsp_matplotlib/visual/*.py"],
     [("evaluation", "gsp/transform/out.py:Out.evaluate"),
      ("variables", "gsp/visual/visual.py:Visual.eval_variable")],
     "property testing against numpy indexing and against an independent projection",
     "Points, pixels, markers and segments with up to 12 items.")

V = "gsp_matplotlib/visual/"
VS = [V + n for n in ("pixels.py", "points.py", "markers.py", "segments.py", "paths.py",
                      "polygons.py")]

prop("R01", "Items are painted from the farthest to the nearest",
     "Each visual paints its items (pixels, points, markers, segments, paths, polygons) by "
     "decreasing depth after projection, the depth of a segment, path or polygon being the "
     "mean of its vertices: where items overlap, the nearest is on top.",
     ["inputs"], "all positions, view matrices and item orders",
     NOTEST + "positions and matrices.", VS,
     [("depth sort", f) for f in VS],
     "property testing: order of painted items compared to an independent projection and "
     "sort; pixel probes",
     "Up to 12 items with distinct depths.")

prop("R02", "Attributes follow the item they belong to",
     "Whatever the depth order, each item is drawn with its own colour, size, width, type and "
     "angle when the attribute is given per item, and with the shared one when a single value "
     "is given, for any number of items and whichever form (buffer, array, list, transform, "
     "colour) provides it. Permuting items together with their attributes changes nothing.",
     ["inputs"], "all item counts (including those equal to the number of colour channels), "
     "attribute forms and depth orders",
     NOTEST + "forms and permutations.", VS + ["gsp/visual/visual.py"],
     [("sorted attributes", f) for f in VS],
     "property testing of the drawn artists against the expected item attributes; "
     "metamorphic permutation",
     "Up to 8 items.")

prop("R03", "Positions are projected by projection × view × model",
     "Items are drawn at the perspective division of proj × view × model applied to their "
     "homogeneous positions (3D arrays, buffers or transforms, and 2D ones for pixels), and the matching screen variable of the "
     "visual holds the same coordinates. Matrices omitted in a rendering are those last given "
     "for that visual, initially the identity; the given positions are never modified.",
     ["inputs", "histories"], "all positions, matrices and sequences of renderings with some "
     "matrices omitted",
     NOTEST + "matrices and histories.", VS + ["gsp/visual/visual.py", "gsp_matplotlib/glm/vec234.py"],
     [("matrices", "gsp/visual/visual.py:Visual.render")],
     "property testing against an independent float64 projection",
     "Affine and perspective matrices, w bounded away from zero.")

prop("R04", "Rendering again updates the drawing instead of adding to it",
     "A visual rendered any number of times on a viewport appears there once, in its latest "
     "state: latest matrices, current content of its buffers, variables and measures (also "
     "after the canvas is resized). It can be rendered on several viewports or canvases and "
     "appears once in each, and one visual's renderings do not affect another's, nor which of them covers "
     "the other.",
     ["histories"], "all histories of renderings, data updates, resizes over several viewports",
     NOTEST + "histories.", VS + ["gsp_matplotlib/core/viewport.py", "gsp_matplotlib/core/canvas.py"],
     [("one collection per viewport", f) for f in VS],
     "metamorphic property testing: history versus a single rendering of the final state, "
     "compared pixel by pixel",
     "Histories of up to 8 operations.")

prop("R05", "Indices partition paths and polygons as specified",
     "A number p cuts the positions in consecutive runs of p; a list, array or buffer of sizes in "
     "consecutive runs of these sizes; a list of index lists selects the indexed positions. "
     "Exactly these paths or polygons, with these vertices in order, are drawn, each one with "
     "its own attributes, and all forms that describe the same partition draw the same.",
     ["inputs"], "all position arrays and partitions",
     NOTEST + "partitions.",
     [V + "paths.py", V + "polygons.py", "gsp/core/list.py", "gsp_matplotlib/core/list.py",
      "gsp_matplotlib/glm/ndarray/ragged.py", MINIT],
     [("partition", V + "paths.py"), ("lists", MINIT + ":list_to_List")],
     "property testing against a reference partition; metamorphic equivalence of forms",
     "Up to 6 items of 2 to 5 vertices.")

prop("R06", "Viewports occupy their declared rectangle, with coordinates from -1 to 1",
     "A viewport covers exactly the rectangle given by its position and size (integers are "
     "pixels, floats are fractions of the canvas, measures are physical lengths, and a missing "
     "size is the one of the canvas) with its background colour, and follows canvas resizes. "
     "Coordinates -1 and +1 are at its borders when it is created and, once the canvas has been "
     "resized, at the borders of its shorter side, with equal scale along x and y around the center.",
     ["inputs", "histories"], "all rectangles, units, canvas sizes, dpi and resizes",
     NOTEST + "rectangles and units.",
     ["gsp_matplotlib/core/viewport.py", "gsp_matplotlib/core/canvas.py"],
     [("placement", "gsp_matplotlib/core/viewport.py:Viewport._update")],
     "property testing on rasters: background region and pixel probes against analytic values",
     "Canvas up to ~160 pixels, one pixel tolerance at borders for fractional rectangles.")

prop("R07", "A canvas renders to exactly its size, in memory and in files",
     "Rendering a canvas without target returns an image of exactly height × width RGBA pixels "
     "for any size and dpi (sizes may be measures); rendering to a file, in the format of its name and replacing it if it exists, writes an image of the same size and content. Rendering is repeatable and changes nothing in the scene.",
     ["inputs"], "all sizes and dpi", NOTEST + "sizes and dpi.",
     ["gsp_matplotlib/core/canvas.py"],
     [("raster", "gsp_matplotlib/core/canvas.py:Canvas.render")],
     "property testing over generated sizes and resolutions",
     "Sizes 1 to 400, dpi 20 to 400.")

prop("R08", "Markers have their type's shape, rotated by their angle and sized by their size",
     "Each marker is drawn with the outline of its own type, rotated counter-clockwise by its "
     "own angle in degrees around its position, its area proportional to its size, independently of the "
     "view. Equal types have equal outlines and different types different ones.",
     ["inputs"], "all types, angles, sizes and depth orders",
     NOTEST + "types and angles.",
     [V + "markers.py", "gsp/core/types.py", "gsp/core/svg.py"],
     [("outlines", "gsp/core/types.py:Marker.path"), ("markers", V + "markers.py")],
     "property testing of drawn outlines against the type's outline and an analytic rotation",
     "Front-facing markers (no axis).")

G = "gsp_matplotlib/glm/"
prop("G01", "Vector conversions follow the documented conventions",
     "Converting arrays to 2, 3 or 4 components keeps existing components, fills missing ones "
     "with z=0 and w=1, divides by w when dropping it, and groups flat arrays, for every dtype "
     "and count, returning a new array of the requested dtype; viewing conversions only "
     "reshape. Shapes that cannot be converted raise an error and inputs are never modified.",
     ["inputs"], "all arrays, shapes and dtypes", NOTEST + "shapes and dtypes.",
     [G + "vec234.py"], [("conversions", G + "vec234.py")],
     "property testing against a numpy reference",
     "Up to 9 vectors, float and integer dtypes.")
prop("G02", "Swizzles read and write exactly the named components",
     "Reading any combination of component letters of a vector or vector array gives these "
     "components in that order (repeats allowed); writing a number, a tuple of components, a "
     "column or an array sets exactly these components to exactly these values and leaves the "
     "others alone. Letters that are not components raise an error when read.",
     ["inputs"], "all swizzle keys, vector sizes, counts and assigned shapes",
     "The suite checks chosen keys on a few arrays; it cannot cover every key, shape and "
     "assigned form.",
     [G + "ndarray/swizzle.py", G + "ndarray/vectors.py"],
     [("get and set", G + "ndarray/swizzle.py")],
     "property testing against index-by-index numpy assignment",
     "Up to 6 vectors; ambiguous array forms are excluded.")
prop("G03", "A tracked array's mirror always holds the array's content",
     "After any sequence of item, slice, mask, component or in-place arithmetic modifications "
     "made through a tracked array or any view of it, a mirror kept up to date only by the "
     "signalled byte ranges equals the array. Modifying copies or results of computations "
     "signals nothing to the original's mirror. Without a mirror, the dirty region of the array is the "
     "smallest range of bytes that covers what has been modified through the array or its views since "
     "it was last cleared.",
     ["histories"], "all sequences of modifications through arbitrary views",
     NOTEST + "sequences through views.",
     [G + "ndarray/tracked.py", MINIT], [("tracking", G + "ndarray/tracked.py:tracked")],
     "stateful model-based testing: a byte mirror versus the array after each step",
     "Up to 12 operations on arrays of up to 3 dimensions.")
prop("G04", "Ragged arrays behave like lists of arrays",
     "A ragged array built from values and their partition into items of various sizes behaves as "
     "the list of these items: length, item sizes, indexing and iteration give the items, and "
     "indexing with a slice (any step), a list of indices or a mask gives the values of these "
     "items one after the other. Assigning to items changes the values of these items only, "
     "whatever sequence of such operations is applied. A partition that does not fit the values is "
     "refused.",
     ["histories", "inputs"], "all partitions and sequences of list operations", NOTEST + "sequences.",
     [G + "ndarray/ragged.py"], [("ragged", G + "ndarray/ragged.py")],
     "stateful model-based testing against a Python list of arrays",
     "Up to 12 operations.")
prop("G05", "Elementary transformation matrices act as documented",
     "Translation adds, scaling multiplies, and rotations turn counter-clockwise by the given "
     "degrees about their axis, being orthonormal with determinant 1; the alignment of U on V "
     "is a rotation that maps U's direction to V's, also for parallel and opposite vectors. "
     "Each matrix has the requested dtype and is transposed on demand.",
     ["inputs"], "all vectors, angles and axes", NOTEST + "vectors and angles.",
     [G + "glm.py"], [("matrices", G + "glm.py")],
     "property testing against Rodrigues' formula and algebraic laws",
     "Magnitudes up to 1e3.")
prop("G06", "Projection and view matrices map their volume to the unit cube",
     "Orthographic, frustum and perspective projections map the corners of their view volume to "
     "the corners of the -1..1 cube after perspective division, the look-at matrix puts the eye at the origin looking "
     "down -z with up in the y half-plane, rigidly, the viewport matrix maps the cube to the pixel rectangle. "
     "Each is transposed on demand; the camera helper is their documented composition.",
     ["inputs"], "all view volumes, eyes and rectangles", NOTEST + "view volumes.",
     [G + "glm.py"], [("projections", G + "glm.py")],
     "property testing against the defining geometric equations",
     "Well-conditioned volumes.")
prop("G07", "The trackball always yields a rotation and is inverted by the opposite drag",
     "After any orientation and sequence of drags, the trackball's model matrix is a rotation "
     "(orthonormal, determinant 1). A null drag changes nothing, a drag from a to b followed by "
     "b to a restores the orientation, the point of the sphere under the mouse follows the mouse, "
     "and the orientation that is set is the rotation by theta about x followed by the rotation "
     "by phi about z.",
     ["histories"], "all orientations and drag sequences (including hundreds of drags)",
     NOTEST + "drag sequences.",
     [G + "trackball.py"], [("quaternions", G + "trackball.py")],
     "stateful metamorphic property testing",
     "Up to 300 drags; the theta/phi read-back is not claimed.")
prop("G08", "Shapes and geometry helpers keep their geometric invariants",
     "The built-in polyhedra and spheres have the documented numbers of vertices and faces, are "
     "closed with valid indices and, but for the tetrahedron, have their vertices on a sphere and "
     "edges of the same length. Fitting, centering, normalizing, "
     "clamping, mesh reading and front/back classification give the documented result for "
     "every input.",
     ["inputs"], "all radii, resolutions, vertex clouds, triangles and mesh files",
     NOTEST + "clouds and meshes.",
     [G + "shapes.py", G + "glm.py"], [("shapes", G + "shapes.py"), ("helpers", G + "glm.py")],
     "property testing of geometric invariants; generated OBJ files",
     "Up to 40 vertices.")
prop("G09", "Typed allocators give arrays of the documented shape and dtype",
     "Every vector and matrix allocator gives, for every count, an array of that many vectors or "
     "matrices (or a single one without count) of the documented dtype, whose storage is its "
     "own and which reads back what is written in it; computing with it or reshaping it gives what numpy gives. An array class over a given memory is a view of that memory, from the given offset on.",
     ["inputs"], "all allocators and counts",
     "The suite checks shapes of some matrix allocators for one count.",
     [G + "vec234.py", G + "mat234.py", G + "ndarray/vectors.py", G + "ndarray/matrices.py"],
     [("allocators", G + "vec234.py"), ("matrices", G + "mat234.py")],
     "property testing over all allocators against numpy",
     "Counts 0 to 20.")
prop("S01", "SVG path data gives the same outline in all its notations",
     "Parsing SVG path data yields an outline whose points are the curve's, scaled uniformly so "
     "that the coordinates of its vertices span -0.5..0.5, with y up. Relative and absolute commands, shorthand and "
     "full curves, and implicit repetition describing the same outline give the same result, "
     "drawing can go on after closing a subpath, and the sign of the radii of arcs is ignored.",
     ["inputs"], "all sequences of path commands", NOTEST + "command sequences.",
     ["gsp/core/svg.py"], [("parser", "gsp/core/svg.py")],
     "property testing against an independent interpreter and the equations of arcs, metamorphic "
     "rewriting of notations",
     "Up to 10 commands.")


def main():
    from checks import INDEX
    claimed = [p for p in P if p["id"] in INDEX]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            if "--all" in sys.argv or p["id"] in INDEX:
                f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"},
                                   ensure_ascii=False) + "\n")
    manifest = dict(
        version=1,
        setup_cmd="./check --selftest",
        checks=[dict(property=p["id"], quick_cmd=f"./check {p['id']}",
                     thorough_cmd=f"VERIF_TIER=thorough ./check {p['id']}",
                     technique=p["_technique"] + " (Hypothesis, seeded by VERIF_SEED)",
                     level="exploration",
                     level_note=p["_note"]) for p in claimed],
        not_applicable=[])
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
    import importlib.util
    print(len(P), "properties,", len(claimed), "claimed")


main()
