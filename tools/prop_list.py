prop("P01", "Rendered image is the image the Gerber commands describe",
     "For every well-formed Gerber X3 program the rendered image is dark exactly where the Gerber format says it is: circles, rectangles, obrounds and regular polygons (with or without holes) appear at the flashed positions, draws and arcs cover the swept circular aperture, region contours are filled, and dark and clear objects overwrite each other in the order they were created. Coordinates omitted from an operation keep their previous value, arc offsets omitted are zero, and nothing after the end-of-program command contributes to the image (unless the caller asks to ignore it). Both the raster and the vector back end obey this.",
     "all command sequences over apertures, draws, arcs, regions, polarity switches and program end; all sample points further from an edge than the back end's resolution",
     "the tests render a handful of example files and mostly check that nothing crashes; interleavings of modal state, polarity and regions are unbounded",
     [C, ST, SHP, PV, SV], [("compile", C), ("state tracking", ST), ("shape construction", SHP), ("raster", PV), ("vector", SV)],
     IMG_TECH, "TLC explores all programs up to the stated depth over a small alphabet exhaustively; larger programs are random. Points within a margin of an edge are not judged.",
     over=PROG)
prop("P02", "Mirroring, rotation and scaling apply to every aperture use",
     "Aperture mirroring, rotation and scaling stay in force from the command that sets them until the next one, and every flash made meanwhile shows the aperture mirrored first, then rotated counter-clockwise about its origin, then scaled; draws and arcs use the scaled aperture width. An aperture flashed under different transformations is shown transformed by the one current at each flash, and transformations never move the flash position.",
     "all interleavings of transformation commands, aperture selections, flashes and draws",
     "the number of interleavings of modal transformations and aperture kinds is unbounded, tests render few of them",
     [C, "src/pygerber/vm/types/matrix.py", "src/pygerber/vm/commands/shape_segments/arc.py"], [("aperture layer per transform", C)],
     IMG_TECH, "as P01; rotations are multiples of 15 degrees, scale factors from a fixed list", over=PROG)
prop("P03", "Block apertures and step and repeat replicate their contents",
     "Flashing a block aperture paints everything drawn between its open and close commands, in order, displaced to the flash position, transformed by the current mirroring, rotation and scaling, and with dark and clear exchanged when the current polarity is clear. A step and repeat block paints its contents once per column and row at the given distances with the first copy in place. Defining a block paints nothing by itself, blocks may contain flashes of other blocks, and modal state carries across block boundaries.",
     "all nestings and interleavings of blocks, step and repeat, flashes, draws, polarity and transformations",
     "replication combines with every other feature; tests cover isolated examples",
     [C, "src/pygerber/gerber/ast/nodes/aperture/AB.py", "src/pygerber/gerber/ast/nodes/aperture/SR.py"], [("block buffers", C)],
     IMG_TECH, "as P01; nesting depth up to 2", over=PROG)
prop("P04", "Macro apertures paint exactly the instantiated primitives",
     "Flashing an aperture created from a macro paints the macro's primitives (circle, vector line, center line, lower-left line, outline, polygon, moire, thermal) in order with the parameter values of that aperture, each rotated about the macro origin, with exposure-off primitives erasing only within the aperture. Apertures created from the same macro with different parameters are independent of each other, and variables assigned inside the macro are visible to later primitives of the same instance only.",
     "all macro bodies, parameter lists and numbers of instances",
     "bodies, parameters and instance counts combine without bound",
     [C, "src/pygerber/gerber/ast/expression_eval_visitor.py"], [("macro evaluation", C)],
     IMG_TECH, "random macro bodies with up to three primitives; values are thousandths of a unit", over=PROG)
EV = "src/pygerber/gerber/ast/expression_eval_visitor.py"
GR = "src/pygerber/gerber/parser/pyparsing/grammar.py"
prop("P05", "Macro expressions evaluate by the rules of arithmetic",
     "The value of every expression in an aperture macro is its arithmetic value: multiplication and division bind tighter than addition and subtraction, operators of equal rank associate to the left, unary signs and parentheses work as in mathematics, and lower and upper case multiplication signs are the same. Parameters of the aperture and earlier assignments in the macro give variables their values (a later assignment replaces an earlier one), and a variable never assigned is zero.",
     "all expressions, assignment sequences and parameter lists without division by zero",
     "the expression grammar is recursive; tests evaluate a few fixed expressions",
     [GR, EV, C], [("grammar", GR), ("evaluation", EV)],
     "TLA+ recursive-descent specification with exact rationals (MacroExpr): laws checked by TLC over all token strings up to a length, the enumerated and random expressions replayed through parse/compile/render and measured on the rendered macro",
     "token strings up to 5 (7 thorough) enumerated exhaustively in the model; measured with tolerance 0.001")
prop("P06", "Packed coordinates decode and encode exactly",
     "A packed coordinate denotes the number obtained by padding it with zeros on the side the format omits them and placing the decimal point as the format says, separately for X/I and Y/J; it is rejected when it has no digits or more digits than the format allows. Packing a number gives the shortest text that unpacks to the nearest representable value and is rejected when the integer part does not fit, so that unpacking a packed value returns it.",
     "all formats (zero omission, integer and decimal digits) and all digit strings and values",
     "the digit strings times formats are unbounded; tests sample a few",
     [ST], [("CoordinateFormat", ST)],
     "TLA+ codec on digit sequences (Codec): round-trip laws checked by TLC for all small formats, and every observed pack/unpack of the real CoordinateFormat and of whole files judged by CodecTrace",
     "exhaustive for formats up to 2.2 with digits 0,5,9; random for formats up to 6.7")
prop("P07", "Modal graphics state follows every command",
     "After every command the tracked graphics state (unit, coordinate format, interpolation and quadrant mode, current aperture and point, polarity, mirroring, rotation, scaling, region mode, aperture and macro dictionaries, image attributes) is the one obtained by applying that command to the state before it, and no other component changes. Each operation is dispatched exactly once to the handler the state selects, with the start point, end point and offsets in force, inside blocks as well; using coordinates before the format, an undefined aperture or flashing without an aperture is an error; nothing after the program end has any effect unless ignoring it was requested.",
     "all command sequences",
     "modal state interacts over arbitrarily long histories",
     [ST, "src/pygerber/gerber/ast/ast_visitor.py"], [("StateTrackingVisitor", ST)],
     "TLA+ state machine GState, explored exhaustively by TLC to a depth; behaviours and random programs replayed into StateTrackingVisitor with a state snapshot and the dispatched handlers compared after every command (GStateTrace)",
     "exhaustive to depth 4 (5) over a 16 command alphabet; random programs up to 25 commands with nesting up to 2", over=["inputs", "histories"])
prop("P08", "Attributes attach to the right files, apertures and objects",
     "Attribute commands update the file, aperture and object dictionaries by name, deletion removes one name or everything from the aperture and object dictionaries and never touches file attributes. An aperture keeps exactly the attributes that were current when it was defined, and every compiled object carries exactly the object attributes (regions also the aperture attributes) current when it was created, also when replicated by blocks and step and repeat; the compiled program carries the file attributes.",
     "all interleavings of attribute, aperture and drawing commands",
     "lifecycles interleave arbitrarily; tests check single commands",
     [ST, C], [("attribute dictionaries", ST), ("metadata", C)],
     "TLA+ state machine GState (attribute dictionaries and object log), explored by TLC; behaviours and random programs replayed into StateTrackingVisitor and Compiler(include_metadata=True), dictionaries and metadata judged by GStateTrace",
     "exhaustive to depth 4 (5) over a 14 command alphabet; random programs up to 25 commands", over=["inputs", "histories"])
FM = "src/pygerber/gerber/formatter/formatter.py"
FO = "src/pygerber/gerber/formatter/options.py"
AV = "src/pygerber/gerber/ast/ast_visitor.py"
PA = "src/pygerber/gerber/parser/pyparsing/parser.py"
NF = "src/pygerber/gerber/ast/node_finder.py"
prop("P09", "Formatting never changes the meaning of a file",
     "For every source the parser accepts and every set of formatter options, the formatted text parses again and contains the same commands with the same values in the same order; numbers may be rounded only to the requested number of decimal places, and written numbers are always plain decimals. G54 and G55 codes disappear only when their removal is requested, G codes joined to an operation are separated only when that is requested, and added or dropped parentheses never change the value of a macro expression.",
     "all parseable sources times all formatter options",
     "sources and the cross product of options are unbounded, tests format sample files with few options",
     [FM, FO], [("Formatter", FM), ("Options", FO)],
     "TLA+ machine Format over an abstract syntax (Syntax), laws checked by TLC for all small documents and options; the real formatter is run on generated sources with random options, its output read by an independent reader and judged command by command by FormatTrace (Focus meaning)",
     "random documents up to about 20 commands of every kind with nesting; expressions are compared by value at fixed variable assignments")
prop("P10", "Formatter options control layout and nothing else",
     "The white space written by the formatter is exactly what the options ask for: line endings, one indentation per enclosing block plus the one for each operation, macro bodies and parameters split as requested, an empty line before polarity switches, no white space at all when stripping, and decimals cut, padded or trimmed as requested. Formatting the result again with the same options changes nothing, and a formatter object gives the same text every time it is used.",
     "all parseable sources times all formatter options",
     "indentation depends on nesting and on options that interact; tests compare few golden files",
     [FM, FO], [("Formatter", FM), ("Options", FO)],
     "TLA+ machine Format gives the white space before every command from the options and the stack of open blocks; laws checked by TLC, real output judged by FormatTrace (Focus layout)",
     "as P09; white space of macros nested in blocks and the vertex lists of outline primitives are not judged")
prop("P11", "Parsed trees mirror the source exactly",
     "Every command of a well-formed source appears in the parsed tree exactly once, in order, with the values written in the source, nested in the aperture block, step and repeat or macro it was written in. Every node knows the offset, line and column at which its command starts in the text given to the parser, and where commands are written without inner white space also where it ends.",
     "all well-formed sources, including joined codes, nested blocks, tabs and arbitrary line breaks",
     "the grammar is recursive and layout is free; tests parse samples and rarely look at positions",
     [GR, PA, "src/pygerber/gerber/ast/nodes/base.py"], [("grammar", GR), ("SourceInfo", "src/pygerber/gerber/ast/nodes/base.py")],
     "TLA+ model Document (nesting, offsets to lines and columns) explored by TLC; sources generated from an abstract syntax are parsed by the real parser and each node is judged by DocumentTrace (Focus nodes)",
     "random documents up to about 20 commands of every kind, block nesting up to 3")
prop("P12", "Strict, prefix and resilient parsing agree on what is readable",
     "A source that consists of readable commands only is read completely and identically by the strict, prefix (strict=False) and resilient modes. When unreadable lines occur, strict parsing is an error, prefix parsing returns exactly the commands before the first unreadable line, and resilient parsing returns every readable command unchanged and in order with one invalid node per unreadable line carrying its text and position.",
     "all sources with any number of unreadable lines at any position between commands",
     "the places and kinds of damage are unbounded; tests sample a few broken files",
     [GR, PA], [("grammar", GR), ("modes", PA)],
     "TLA+ model Document (reading modes over items) explored by TLC; sources with unreadable lines inserted are read in the three modes and judged by DocumentTrace (Focus modes)",
     "unreadable lines come from a fixed list of unambiguous ones and stand between top level commands")
prop("P19", "Looking up a position finds the command written there",
     "For every position inside a command, looking it up returns that command: the innermost one, so inside blocks and macros the contained command and not the block. Positions outside of any command give the command before them or nothing, never a command that starts later or one that another command was begun after.",
     "all well-formed sources and all positions",
     "positions times sources are unbounded, tests look up a few",
     [NF], [("NodeFinder", NF)],
     "TLA+ model Document defines the answer and TLC checks a binary search against it on all small documents; the real NodeFinder is queried at boundaries and random positions of generated sources and judged by DocumentTrace (Focus lookup)",
     "25 positions per document; positions on later lines of a command that spans lines may also give nothing")
prop("P23", "Visitors see every command once, in order, and failures are contained",
     "Visiting a parsed file calls, for every command in document order, the callback for that command followed by those for its parts (coordinates in X, Y, I, J order, expression operands left to right, the general aperture or attribute callback), once each, and the end of file callback exactly once at the end, also when the visit is aborted. When a callback fails, the exception callback is told exactly once; if it asks to continue, the visit goes on with the next top level command, otherwise the exception reaches the caller.",
     "all trees and all sets of failing callbacks",
     "failure points times trees are unbounded; tests check single callbacks",
     [AV, "src/pygerber/gerber/ast/nodes"], [("AstVisitor", AV)],
     "TLA+ model Document defines the callbacks of a command and the effect of failures; recorded callbacks of a real visitor on generated documents with injected failures are judged by DocumentTrace (Focus visits)",
     "random documents of every command kind; failures injected in half of them")
BU = "src/pygerber/builder/gerber.py"
prop("P13", "Builder writes exactly what was asked for",
     "Gerber code returned by the builder describes exactly the pads, cutout pads, traces, arcs and regions requested by the calls made so far, in call order, each with the requested shape, attributes, polarity, rotation, mirroring, scale, width and location, and nothing else; trace locations given as earlier draws resolve to their ends. A call that is refused (location out of range, not a pad, finished creator, too short outline) leaves the builder as it was. Asking for the code any number of times, or using other builders in between, does not change it, and its text and tree agree.",
     "all histories of builder calls, accepted or refused",
     "the builder writes modal state updates only when needed, so each output depends on the whole history of calls; tests make a few calls",
     [BU], [("GerberX3Builder", BU), ("PadCreator", BU), ("RegionCreator", BU)],
     "TLA+ machine Builder: meaning of calls and an interpreter of Gerber commands; TLC checks for all short histories that a modal writer and the interpreter agree; random histories are played on the real builder, its text read back by an independent reader and judged object by object by BuilderTrace",
     "exhaustive to 3 (4) calls over a small alphabet in the model; random histories up to 17 calls on the real builder", over=["histories"])
VMB = "src/pygerber/vm/vm.py"
RB = "src/pygerber/builder/rvmc.py"
prop("P14", "RVMC builder and the JSON form say what was drawn",
     "A rendering program made with the RVMC builder shows exactly the shapes and pasted layers added through accepted calls, in the order they were added to each layer, wherever layers are nested; layers abandoned by an exception leave no trace and block nothing, and finished layers and locked builders refuse further additions. The JSON form of any program, built or compiled, contains every layer, shape segment and paste with its position, size, direction and polarity, so that it denotes the same image.",
     "all histories of builder calls (accepted, refused, abandoned) and all compiled programs",
     "nesting and interleaving of open layers is unbounded; tests build a few fixed programs",
     [RB, "src/pygerber/vm/rvmc.py", SHP], [("LayerBuilder", RB), ("RVMC.to_json", "src/pygerber/vm/rvmc.py")],
     "TLA+ machines RvmcBuild (calls) and Layers (virtual machine); TLC checks for all short histories that writing commands preserves the image; random histories are played on the real builder, its JSON form is executed by the specification and compared with the meaning of the calls and with the painted image (RvmcTrace)",
     "exhaustive to 5 (6) calls in the model; random histories up to 25 calls with nesting up to 4; compiled programs of the P03/P04 generators", over=["histories", "inputs"])
prop("P15", "Layers of the rendering machine obey stack discipline",
     "Shapes and pastes go to the innermost open layer, a pasted layer makes dark (or clear) exactly what is dark in it, displaced so that its origin lands on the given point, and a layer without fixed size is just large enough for everything put into it; a layer that stays empty paints nothing (or is an error when asked). Reusing a layer name, drawing without a layer, pasting an unknown layer or one whose size is not known yet, and a missing main layer raise their own errors. The raster and the vector machine agree.",
     "all command sequences of the rendering virtual machine",
     "command sequences nest and reuse layers without bound; tests use few fixed programs and compile only produces some of them",
     [VMB, PV, SV], [("VirtualMachine", VMB), ("PillowVirtualMachine", PV), ("ShapelyVirtualMachine", SV)],
     "TLA+ machine Layers explored exhaustively by TLC (stack discipline, frozen layers, exact pastes); all enumerated behaviours and random programs are run on both real machines; outcome, box and painted points are judged by LayersTrace",
     "exhaustive to 5 (6) commands over two layer names; random programs with up to 3 nesting levels, shapes of every constructor", over=["inputs", "histories"])
GFI = "src/pygerber/gerber/api/_gerber_file.py"
ENU = "src/pygerber/gerber/api/_enums.py"
CV = "src/pygerber/gerber/api/_composite_view.py"
JF = "src/pygerber/gerber/api/_gerber_job_file.py"
prop("P16", "Pictures of a file have the right size, place, orientation and colours",
     "A raster picture of a file covers exactly the extents of its image, larger Y further up, with the requested number of dots per millimetre whatever unit the file uses; every pixel well inside a dark area has exactly the foreground colour and every other the background colour of the style, transparency included. All ways of saving (PNG, BMP, TIFF, JPEG, WEBP, by method or by format name in any case, to paths, buffers and files) keep size and colours as far as the format can, and the vector picture shows the same image inside its view box in the foreground colour. The image space reports these extents in file units, millimetres and pixels.",
     "all images, units, resolutions, styles, formats and destinations",
     "the tests render examples and check that a file appears; sizes, positions and colours over all inputs are not looked at",
     [GFI, PV, SV, "src/pygerber/vm/types/color.py"], [("GerberFile.render_with_*", GFI), ("ImageSpace", GFI), ("PillowResult.get_image", PV), ("ShapelyResult.save_svg", SV)],
     "TLA+ specification Raster of pictures (extents, pixel positions, colours); TLC checks that painting pixel by pixel gives the specified picture; pictures of random files in random formats are read back and judged pixel by pixel by RasterTrace",
     "files of up to five dark and clear rectangles; pixels within two pixels of an edge are not judged, JPEG and lossy WEBP within a tolerance; pictures smaller than three pixels are not judged")
prop("P20", "Composed views align and stack their files",
     "The picture of a composed view covers the union of the extents of its files and shows each file at its own position, also when files use different units; where files overlap, the opaque colours of later files cover earlier ones and transparent ones let them through, and areas outside of all files stay transparent. The view keeps its files in the given order, sub-images correspond to them one by one, and a colour map set for the view applies to every file.",
     "all sequences of files, units, extents, styles and resolutions",
     "tests render fixed projects whose layers share one extent",
     [CV, GFI], [("CompositeView.render_with_pillow", CV)],
     "TLA+ specification Raster of stacked pictures; TLC checks that pasting pictures onto a canvas one by one gives the specified stack for all small views; composed pictures of random views are judged pixel by pixel by RasterTrace",
     "one to four files of up to five rectangles; colours fully opaque or fully transparent; pixels within three pixels of an edge are not judged")
prop("P21", "File type and colours are decided by request, extension and attributes",
     "The type of a file is the one explicitly requested, otherwise the one its extension implies (in any case), otherwise the one its .FileFunction attribute tells, otherwise undefined; files read from strings and buffers have no extension. Every picture is drawn in the style given for it, or else in the style the colour map in force at that moment has for the type, no matter what was drawn before, and the default colour maps have a style for every type.",
     "all requests, extensions, attributes and histories of colour map changes and drawings",
     "the combinations of request, source, extension, attribute and call history are many and tests sample a handful",
     [GFI, ENU], [("infer_from_extension", ENU), ("infer_from_attributes", ENU), ("_dispatch_style", GFI)],
     "TLA+ machine Files (load, set map, draw) explored by TLC; random files are loaded and drawn through the real API with colour maps that tell types apart, and each drawing is judged by FilesTrace",
     "extensions with trailing garbage after a layer number and non-standard functions are not judged", over=["inputs", "histories"])
prop("P24", "Job files become projects with every file in its view",
     "A project made from a job file contains in its top and bottom views the files of that side and in its inner views the copper layers in ascending layer number, with the profile in every view, each view ordered bottom up from copper over masks, paste and legend to the profile. Every file is read relative to the job file with the type its function tells, independent of the order of entries, and job files not read from disk work with an explicit path.",
     "all job files (sets and orders of entries, layer counts, spellings)",
     "tests convert one sample project",
     [JF], [("GerberJobFile.to_project", JF)],
     "TLA+ specification Files of views, laws checked by TLC while a job is filled entry by entry; all enumerated and random jobs are written to disk with their files, converted by the real code and judged by FilesTrace",
     "exhaustive for jobs of 2 (3) entries over a small alphabet, random up to 10 entries; two files competing for one place of a view are not judged")
LI = "src/pygerber/gerber/linter/"
prop("P17", "The linter reports every offending command once, where it is",
     "Linting a document with a set of rules reports exactly the commands those rules describe (every deprecated G54 and G55, every G01, G02 or G03 that repeats the one in force), each once, in document order, with the offsets, line and column of the command and its name in the title. Reports depend only on the document and the rules, not on documents linted before with the same linter. A listener registered with the event visitor hears every node of its type exactly once, in document order.",
     "all documents, rule sets and sequences of documents given to one linter",
     "tests lint one short snippet per rule",
     [LI + "linter.py", LI + "event_ast_visitor.py", LI + "rules/GRB001.py"], [("Linter.lint", LI + "linter.py"), ("EventAstVisitor", LI + "event_ast_visitor.py"), ("GRB001", LI + "rules/GRB001.py")],
     "TLA+ specification Lint of the linter's walk, checked by TLC to report exactly the repeated modes and to leave every draw's mode unchanged when reported commands are deleted; all enumerated command histories and random documents are linted by the real code (one linter over several documents) and judged by LintTrace",
     "exhaustive for histories of 4 (5) commands, random documents up to about 30 commands; the mode in force after a block aperture is not assumed")
TFN = "src/pygerber/gerber/ast/nodes/attribute/TF.py"
prop("P26", "The MD5 attribute vouches for exactly the text before it",
     "Checking the MD5 attribute of a file that was read succeeds exactly when the digest it carries is that of all characters before the command with line ends left out. Changing only line ends before the command keeps it valid, any other change before the command makes it invalid, and text after it has no influence, wherever the command stands.",
     "all files, positions of the command and edits", "one sample file is checked for success, no changed file is checked",
     [TFN], [("TF_MD5.check_source_hash", TFN)],
     "TLA+ specification Integrity of the text covered, checked by TLC for files written, signed and edited character by character; all of those and random documents with several signatures are read by the real code, and IntegrityTrace compares the text each digest was made from with the text covered",
     "exhaustive for files of 2 (3) units with one edit; MD5 itself is taken as injective; digests are written in lower case")
GF = "src/pygerber/gerber/api/_gerber_file.py"
prop("P22", "Results depend on document and settings, not on history",
     "Rendering, formatting and describing a file gives the result a new object in a new process with the same document and current parser, compiler and colour settings gives, whatever was done before with this object, with other objects or with images returned earlier, and also after operations that failed. A syntax tree may be formatted, linted, compiled and examined, and a compiled program rendered, any number of times in any order without changing either.",
     "all histories of operations over several files", "tests perform one operation on a fresh object; caches and shared trees only fail on particular sequences",
     [GF, "src/pygerber/gerber/api/_composite_view.py", C], [("cached tree, program and state", GF), ("compile", C), ("format", "src/pygerber/gerber/formatter/formatter.py")],
     "TLA+ specification Reuse: an object is its settings and the result of an operation is a function of the key made of document, settings and arguments; ReuseMC checks with TLC that the object with its caches refines it. Histories emitted by TLC and random histories over several objects are performed in one process, every key is computed once more by a new object in a new process, and ReuseTrace compares along the history",
     "histories of 4 operations from the model (a sample in quick, all in thorough), random up to 9 operations over 3 objects; results are compared by digest, errors by type; threads are not used")
CLI = "src/pygerber/console/gerber.py"
prop("P25", "The command line does what the API does",
     "Every convert, merge-convert, format and lint command writes (or prints, as path:line:column rule: title) exactly what the API call with the named settings gives, where names may be written in any case, the last value of a repeated option counts, rule lists add up and omitted options take their documented defaults. A command used wrongly exits with status 2 and changes nothing. A command that fails exits non-zero and leaves files that existed, the source included, as they were.",
     "all commands, combinations and spellings of options, sources and outputs, broken sources included",
     "tests run every command once with few options; options interact",
     [CLI], [("commands and _sanitize_style", CLI), ("format_cmd", CLI), ("lint", CLI)],
     "TLA+ specification Cli reads arguments one by one into settings and names the API call by a key; TLC checks its laws (order and case do not matter, the last wins) over all short argument lists and computes the plan for random command lines; the real command line is run in scratch directories, the planned API calls in a separate process, and CliTrace compares exit status, outputs and untouched files",
     "exhaustive for short argument lists in the model, random command lines of up to about 8 arguments; TIFF compressions limited to the four Pillow writes reliably; in-process runner, no signals")
GR = "src/pygerber/gerber/parser/pyparsing/grammar.py"
prop("P28", "Parsers build trees from the node classes they were given",
     "A parser made with its own classes for some kinds of nodes makes every node of those kinds, wherever it stands (in blocks, macros, attributes, and for text it could not read), from those classes and every other node from the library's. Trees have the same nodes and format the same as without such classes. Other parsers made or used before or after have no influence.",
     "all sets of kinds, documents and histories of several parsers", "tests override one or two kinds in one parser",
     [GR, "src/pygerber/gerber/parser/pyparsing/parser.py"], [("get_cls and make_unpack_callback", GR), ("parse", "src/pygerber/gerber/parser/__init__.py")],
     "TLA+ specification Overrides says which nodes a document consists of and whose class each is; TLC checks ownership over all histories of up to three parsers, those histories and random ones with random documents and any subset of all node classes are performed with real parsers, and OverridesTrace compares every node of every tree",
     "histories of 4 steps from the model (a sample in quick), random ones of up to 8 steps with 3 parsers; every node class of the library is overridden in some history")
LS = "src/pygerber/gerber/language_server/_server/documents/gerber.py"
LSH = "src/pygerber/gerber/language_server/_server/hover/gerber.py"
LSS = "src/pygerber/gerber/language_server/_server/server.py"
prop("P18", "The language server answers for the document as it is",
     "Every hover and completion request about an open Gerber document is answered without an error, from the text the document has after the changes announced before the request and the position asked about, whatever other documents, earlier versions, earlier questions and closings there were. Hovering shows the points, the aperture, the attributes, the transformation and the picture the graphics state in force gives the command, with the command's range. Completion offers the apertures the document defines, each once, and the next free code.",
     "all conversations of opening, changing, asking and closing several documents, with commands being typed", "tests ask one question about one fixed document",
     [LS, LSH, LSS], [("on_change and on_completion", LS), ("create_hover_markdown", LSH), ("get_document", LSS)],
     "TLA+ specification Lsp on top of the graphics state machine GState says what each answer must contain; LspMC checks with TLC that the server with its caches answers as one without and emits conversations; these and random conversations are held with the real server over its protocol, and LspTrace judges every answer",
     "conversations of up to 5 (6) messages from the model, random ones of up to 20 messages over 2 documents; what follows incorrect commands, the program's end or precedes the format is not judged")
VT = "src/pygerber/vm/types/"
prop("P27", "The values pictures are computed with obey their algebra and never change",
     "Vectors, boxes, transformations, colours and text positions compute what their operations mean: componentwise arithmetic and order, lengths and angles (always at least 0 and less than 360 degrees, full precision), smallest common boxes with the empty box as neutral element, transformations composed so that (A @ B) @ v = A @ (B @ v), colours converted between hexadecimal, integer, fraction and hue forms, positions ordered by line and then column. Equal values are equal in every comparison and hash alike. No operation changes its operands, and channels outside 0 to 255 or malformed colours are refused.",
     "all values and programs of operations on them", "tests sample single operations on a few values",
     [VT + "vector.py", VT + "box.py", VT + "matrix.py", VT + "color.py", "src/pygerber/common/position.py"],
     [("Vector", VT + "vector.py"), ("Box", VT + "box.py"), ("Matrix3x3", VT + "matrix.py"), ("Color", VT + "color.py"), ("Position", "src/pygerber/common/position.py")],
     "TLA+ specification Values: a machine whose registers hold values in exact integer arithmetic; TLC checks the laws (associativity, composition, neutral and inverse elements, order, angles) over all short programs and emits them; these and random programs are run with the real types and ValuesTrace compares every result and, at the end, every register",
     "programs of 3 (4) operations from the model, random ones of up to 60; values are multiples of a hundredth up to 250, angles between general directions are judged by octant")
