#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run from anywhere."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note))

LEX = "layout/src/gv/parser/lexer.rs"; PAR = "layout/src/gv/parser/parser.rs"; AST = "layout/src/gv/parser/ast.rs"
PRN = "layout/src/gv/parser/printer.rs"
BLD = "layout/src/gv/builder.rs"; REC = "layout/src/gv/record.rs"; MAP = "layout/src/adt/map.rs"; DAG = "layout/src/adt/dag.rs"
SVG = "layout/src/backends/svg.rs"; GEO = "layout/src/core/geometry.rs"; COL = "layout/src/core/color.rs"
STY = "layout/src/core/style.rs"; UTL = "layout/src/core/utils.rs"; FMT = "layout/src/core/format.rs"
REN = "layout/src/std_shapes/render.rs"; SHP = "layout/src/std_shapes/shapes.rs"
LAY = "layout/src/topo/layout.rs"; OPT = "layout/src/topo/optimizer.rs"
BK = "layout/src/topo/placer/bk.rs"; SIM = "layout/src/topo/placer/simple.rs"; PLA = "layout/src/topo/placer/place.rs"
EDG = "layout/src/topo/placer/edge_fixer.rs"; MBR = "layout/src/topo/placer/move_between_rows.rs"; VER = "layout/src/topo/placer/verifier.rs"
CLI = "src/bin/layout.rs"

prop("C01", "Parsing any text terminates with a tree or an error",
 "Parsing any text at all, valid or not, ends with either a syntax tree or an error message: it never panics, never overflows the stack, and never runs forever. The same holds for reading any text as a record label. The work done is at most proportional to the length of the text.",
 ["inputs"], "All texts (any Unicode characters, unterminated strings and comments, deep nesting, up to 100s of kB).",
 "The tests parse a handful of well-formed files; crashes and hangs hide in truncated, damaged and deeply nested texts.",
 [LEX, PAR, REC], [("every loop consumes a character or stops at the end of the input", LEX), ("nesting is bounded", PAR), ("record strings end", REC)],
 "coverage-guided fuzzing (bytes, fragment soups, damaged programs) with a deterministic step budget; oracle: no crash, steps linear in the length",
 "Search over generated texts: 8 MiB stack, in a process of its own per worker; a step budget decides hangs without a clock.")
prop("C02", "Parsing inverts printing: the syntax tree is what was written",
 "However a valid program is written down - any white space, line, block and nested-looking comments, quoting and escapes of names, optional separators - parsing gives exactly the tree that was written: statements in order, names, ports, arrow kinds, attributes in order, scopes. Nothing is dropped, merged, reordered or invented.",
 ["inputs", "programs"], "All programs of the supported DOT subset times all ways of writing them.",
 "Tests assert that examples parse, not what the tree is; the quantifier is over programs and their spellings.",
 [LEX, PAR, AST], [("tokens", LEX + ": next_token"), ("recursive descent", PAR + ": parse_stmt")],
 "property-based round trip: random tree -> random spelling -> parser -> compare trees",
 "Search over generated trees and spellings, up to hundreds of statements.")
prop("C03", "Exactly the programs of the grammar are accepted",
 "A text is accepted exactly if it is a program of the supported DOT grammar; a damaged program - a missing, extra or wrong token, an illegal character, a string without end, text after the graph - is rejected with an error. An accepted text always has the tree that the grammar gives it.",
 ["inputs", "programs"], "All token sequences, except for the constructs of full DOT where the supported subset is not documented (empty statements, a second attribute list, edges to subgraphs, compass points, a top-level subgraph).",
 "Tests contain next to no invalid programs.",
 [LEX, PAR], [("expected tokens are checked", PAR), ("end of file is checked", PAR + ": process")],
 "differential property-based testing against an independent recursive-descent parser on edited and random token sequences",
 "Search over token sequences; the reference grammar is part of the trusted base.")
prop("C04", "The drawing shows exactly the nodes, edges and attributes of the program",
 "The drawing of a program has one shape for each node that is mentioned, and one route for each connection of every edge statement, with the label, shape, colors, line style, pen width, font size, ports, arrow heads and visibility that the program declares. Defaults for nodes and edges apply to what follows in the same scope and in nested scopes, and end with the scope; explicit attributes win over defaults. The direction of the graph is the one that is declared.",
 ["programs"], "All programs with nested scopes, defaults, redeclarations, chains, ports and the supported attributes.",
 "Tests build a few graphs and look at no drawing; scoping and inheritance are properties of all sequences of statements.",
 [BLD, MAP, REN, SHP, STY], [("scoped attributes", MAP), ("attributes to styles", BLD + ": get_*_from_attributes"), ("chains", BLD + ": visit_edge")],
 "model-based property testing: random programs against a model of the scoping rules, by perfect matching of model and recorded drawing",
 "Search over generated programs of up to tens of statements; whether defaults apply again to a node that is declared again is left open.")
prop("C05", "Every accepted program becomes a well-formed SVG document",
 "Every program that is accepted can be laid out and drawn, with any combination of the debug, optimization and layout options, without a crash. The result is a well-formed SVG document: escaped text, legal characters only, finite numbers, unique ids, references and style classes that exist. It has a path for each connection, and at least a shape for each node.",
 ["programs", "configurations"], "All accepted programs, all eight option combinations; font sizes up to 10^6, record nesting up to 100.",
 "Tests run a fixed set of graphs through one configuration and do not look at the file.",
 [BLD, LAY, OPT, BK, SIM, EDG, MBR, PLA, REN, SHP, SVG, REC], [("layout pipeline", LAY + ": do_it"), ("escaping", SVG), ("verification of levels", DAG)],
 "coverage-guided property-based fuzzing of the whole pipeline; oracle: no panic, strict XML parser and SVG validity rules",
 "Search over programs (tens of statements) and eleven graph families (up to 40 nodes).")
prop("C06", "Layout preserves the graph: nothing is lost, duplicated or restyled",
 "Laying out and drawing a graph shows each node exactly once with its shape, size, text, font and colors, and each edge exactly once with its label, line style, color and width, no matter how edges are split, reversed, reordered or moved internally; invisible helper elements are never drawn. Node sizes are not changed by the layout, and the ranked graph that it leaves behind has one chain of elements through consecutive rows for each edge between two nodes.",
 ["inputs", "configurations"], "All graphs (cycles, self edges, parallel edges, long edges, isolated nodes, records), orientations and option combinations.",
 "Tests only check that layout of random graphs does not crash.",
 [LAY, OPT, MBR, BK, REN, SHP], [("long edges get connectors", LAY + ": split_text_edges, split_long_edges"), ("elements move between rows", MBR)],
 "property-based testing on a recording render backend; each element has a color of its own, oracle: exact content of the drawing",
 "Search over generated graphs up to tens of nodes.")
prop("C07", "Edges start and end on the borders of the shapes they connect",
 "Each visible edge is drawn as one connected route that starts on the border of the shape, or of the record field, that it leaves, and ends on the border of the one that it enters; its arrow heads are drawn at the declared ends. Edges that run against the layout direction, self edges and edges with labels are no exception. The route of an edge with a label passes the label, and bends beside its text, not in it.",
 ["inputs", "configurations"], "All graphs (built by hand or from programs), shapes, ports, orientations and option combinations; node sizes 1 to 800.",
 "No test looks at a route.",
 [REN, SHP, GEO, LAY, EDG], [("connection points", GEO + ": get_connection_point_for_box/circle"), ("routes", REN + ": generate_curve_for_elements"), ("reversed edges", LAY)],
 "property-based testing on a recording backend with exact geometry of the borders",
 "Search over generated graphs; tolerance 1e-6 relative.")
prop("C08", "Nodes and labels never overlap",
 "In a finished drawing the boxes of any two nodes are disjoint and keep a distance of at least 60 units on one axis. Labels of edges overlap neither nodes nor each other. This holds for all options and both orientations.",
 ["inputs", "configurations"], "All graphs (built by hand or from programs); node sizes 1 to 600, fonts up to 60; labels take the room that the layout estimates for their text.",
 "A unit test checks a few fixed graphs; spacing is a property of all graphs, because four passes move nodes horizontally.",
 [BK, SIM, PLA, EDG, MBR, VER, LAY], [("block placement", BK), ("rows are fixed up", SIM), ("edges are straightened only if there is room", EDG), ("labels move only if there is room", MBR)],
 "property-based testing on a recording backend; oracle: pairwise box distances",
 "Search over generated graphs up to 60 nodes.")
prop("C09", "Edges follow the layout direction; rows are longest-path ranks",
 "An edge leads to a strictly later row than it starts in, unless it closes a cycle with the edges declared before it; such an edge leads back to a strictly earlier row. Nodes of a row share the center line of the row, and rows are stacked in order without overlap. Loops stay beside their node, no other node of the row comes in between. Without optimizations the row of each node is its longest distance from a source, where edges with labels count twice.",
 ["inputs", "configurations"], "All graphs (built by hand or from programs), acyclic and cyclic, both orientations and all options.",
 "Tests check ranks of three fixed graphs.",
 [LAY, DAG, OPT, SIM, PLA], [("cycle removal", LAY + ": to_valid_dag"), ("ranks", DAG + ": recompute_node_ranks"), ("rows", PLA + ": do_it")],
 "property-based testing; oracle: independent cycle breaking and longest-path model against recorded positions",
 "Search over generated graphs up to 60 nodes.")
prop("C10", "Left-to-right layout is the transposed top-to-bottom layout",
 "A graph without edge labels drawn left to right has the node positions of the graph with transposed node sizes drawn top to bottom, with the axes swapped. For round shapes the routes of edges between two nodes are the swapped ones, too.",
 ["inputs", "configurations"], "All graphs without edge labels, node sizes 1 to 200, with and without optimizations and layout.",
 "No test compares the two orientations.",
 [LAY, GEO, REN, SHP], [("transposition before and after the layout", LAY + ": do_it"), ("transposition of shapes", SHP + ": transpose")],
 "metamorphic property-based testing: transposed graph, transposed drawing",
 "Search over generated graphs up to 10 nodes.")
prop("C11", "The same program always gives the same drawing, byte for byte",
 "Drawing the same program again gives the same document, byte for byte, whatever was drawn before. The drawing depends only on the meaning of the program: not on white space, comments, quoting, separators, the graph's name, the order of different attributes in a list, nor on the names of nodes that have labels.",
 ["programs", "histories"], "All programs, rendered repeatedly in a process where other programs were rendered before, all option combinations.",
 "Iteration order of hash maps is random per map: a single run of a test cannot show that it never leaks into the drawing.",
 [BLD, SVG, LAY, BK, OPT], [("order of nodes is kept", BLD + ": node_order"), ("ids of styles", SVG)],
 "metamorphic property-based testing: repetition, respelling and renaming; oracle: equality of bytes",
 "Search over generated programs; hash seeds differ between repetitions.")
prop("C12", "The SVG document holds exactly what was drawn",
 "Whatever is drawn on the SVG backend - rectangles, ellipses, lines, texts, routes, clipped shapes, in any order - the document is well-formed XML with one element for each call, in order, with the geometry, colors, line widths, dashes, rounded corners, heads, fonts, and text lines (each character shown as given) of the call. Clip regions apply to the calls that name them, and the canvas reaches every point that was drawn.",
 ["inputs", "histories"], "All sequences of drawing calls with finite non-negative coordinates; texts of any characters (those that XML does not allow are dropped), properties that are well-formed attributes.",
 "One test of the escaping function at most; texts and sequences of calls are unbounded.",
 [SVG, FMT, COL], [("escaping", SVG + ": escape_string"), ("canvas", SVG + ": grow_window"), ("style classes", SVG + ": get_or_create_font_style")],
 "property-based testing with a strict XML parser of our own: random call sequences, read back element by element",
 "Search over sequences of up to 60 calls.")
prop("C13", "Everything drawn is inside of the canvas, at finite positions",
 "All coordinates of a finished drawing are finite. Shapes, texts, edge labels and the points that routes pass through are inside of the view box of the document, for all graphs and options.",
 ["inputs", "configurations"], "All graphs (built by hand or from programs); node sizes 1 to 600, fonts up to 60; bows of curves between their points, and debug markers, are not counted.",
 "No test looks at the canvas.",
 [SVG, PLA, BK, MBR, LAY], [("the drawing moves to the origin", PLA), ("canvas grows", SVG + ": grow_window")],
 "property-based testing: the same graph on the SVG backend and on a recording backend; oracle: containment",
 "Search over generated graphs up to 40 nodes.")
prop("C14", "Records are read, sized and drawn as they are written",
 "The label of a record describes nested fields with optional ports; reading it gives exactly these fields, and the drawing shows each as a cell with its text, in order, side by side or stacked, turning the direction with each nesting level and with the graph's direction. Cells tile the record without gaps or overlap, keep inside of its rounded corners, and, in a record of its natural size, each is large enough for its text. An edge to a port connects at the border of the cell of the port.",
 ["inputs"], "All record labels with balanced braces and no empty fields (for crash freedom: all texts); nesting up to 6; both directions; natural, larger and arbitrary sizes.",
 "Tests parse two labels and look at no drawing.",
 [REC, REN, SHP, BLD], [("record parser", REC), ("sizes", REN + ": get_record_size"), ("cells", REN + ": visit_record")],
 "property-based round trip of record labels, and geometric invariants of drawn records",
 "Search over generated records up to tens of fields.")
prop("C15", "The ranked graph structure is exact after any history of operations",
 "After any sequence of adding nodes and edges, removing edges, ranking, moving nodes between rows and clearing, queries about successors, predecessors, reachability, rows and ranks of the graph structure give what the history implies. Every node is in exactly one row once ranked, and the rank of a node is then its longest distance from a source. Verification accepts the graph exactly if it has no cycle of two or more nodes.",
 ["histories"], "All histories of operations (up to hundreds), ranks are computed for acyclic graphs.",
 "Two tests of four fixed operations each.",
 [DAG], [("edges are kept in both directions", DAG + ": add_edge, remove_edge"), ("rows", DAG + ": place_node_in_row, add_element_to_level"), ("verification", DAG + ": verify")],
 "stateful model-based property testing against a reference graph",
 "Search over histories up to hundreds of operations.")
prop("C16", "Rank optimization keeps edges pointing down and only shortens them",
 "Ranking an acyclic graph puts each node as many rows down as its longest path from a source has edges. Optimizing the ranks keeps every node in exactly one row, every edge leading to a later row, and the edges of the graph; nodes only sink, no rows are added, and the total length of all edges does not grow. Afterwards each node that has a successor, and no more predecessors than successors, is right above its nearest successor.",
 ["inputs"], "All acyclic graphs.",
 "No test of the optimizer looks at its result.",
 [OPT, DAG], [("nodes sink", OPT + ": RankOptimizer")],
 "property-based testing against independent ranks and edge lengths",
 "Search over generated acyclic graphs up to 60 nodes.")
prop("C17", "Reordering rows never adds crossings",
 "Minimizing crossings only reorders the nodes within rows: each row keeps its nodes, and the number of crossings of edges between adjacent rows is never larger than before. If two rows are connected one to one, no crossing remains.",
 ["inputs"], "All ranked graphs with edges between adjacent rows and any initial order.",
 "No test counts crossings.",
 [OPT], [("crossing counts", OPT + ": num_crossing"), ("swaps", OPT + ": EdgeCrossOptimizer")],
 "property-based testing against an independent count of crossings",
 "Search over generated ranked graphs up to tens of nodes per row.")
prop("C18", "Scoped attributes behave like a stack of maps",
 "A map with nested scopes answers each lookup with the value that was inserted last in the innermost scope that has the key, and forgets a scope's insertions, and only those, when the scope ends. Its flattened form has exactly the visible entries.",
 ["histories"], "All histories of opening scopes, inserting and closing scopes.",
 "Two tests of a few fixed insertions.",
 [MAP], [("a stack of maps", MAP)],
 "stateful model-based property testing against a list of maps",
 "Search over histories up to hundreds of operations.")
prop("C19", "The geometric primitives are exact",
 "A segment is reported to cross a box, and two boxes are reported to overlap, exactly if they do (cases where they merely touch aside). Connection points are on the border of the shape, towards the other end; routes pass connectors inside of them, without turning back. Vector operations, medians and text sizes agree with their definitions.",
 ["inputs"], "All segments, boxes, ellipses, vectors, lists of numbers and texts; coordinates up to 10^5.",
 "A few fixed points in tests.",
 [GEO, REN, SHP, FMT], [("segment and box", GEO + ": segment_rect_intersection"), ("overlap", GEO + ": do_boxes_intersect"), ("connection points", GEO)],
 "property-based testing against exact rational clipping and closed forms",
 "Search over generated shapes; integer coordinates are decided exactly.")
prop("C20", "Positions stay consistent under moving, aligning and resizing",
 "After any sequence of moving, aligning, resizing, transposing and re-centering a position, its corners, edges, middle, center point, size and distances are those of the box that the operations describe; aligning puts the named edge at the given coordinate, moving keeps the size, and the outer box adds the spacing on both sides.",
 ["histories"], "All histories of operations on positions, coordinates up to 1000.",
 "No tests.",
 [GEO], [("center, halo and size", GEO + ": Position")],
 "stateful model-based property testing against absolute edges",
 "Search over histories of up to 14 operations.")
prop("C21", "Colors mean what CSS and hexadecimal notation say",
 "Each of the 148 CSS color names, in lower case, and each color of six or eight hexadecimal digits gives the color that CSS defines; anything else is recognized as no color, and then the default is used, without a crash. Colors of lines, fills and edges appear in the drawing with exactly that value; a color list stands for its first color.",
 ["inputs", "programs"], "All names of the table, all numeric colors of 6 or 8 digits, all other texts.",
 "Tests check a few colors; a wrong entry of the table is invisible to them.",
 [COL, BLD], [("table and parser", COL + ": Color::from_name"), ("normalization", BLD + ": normalize_color")],
 "exhaustive over the table against an independent copy, property-based beyond it",
 "The table is checked completely, all else by search.")
prop("C22", "The tool writes the library's drawing, and writing files is all or error",
 "The command line tool writes to the given output file exactly the drawing that the library makes of the input with the selected options, replaces previous content completely, and touches nothing else; a program with errors leaves the output file untouched and is reported. When output can't be written completely, this is reported, and saving a file through the library returns success only if the file has exactly the given content.",
 ["inputs", "configurations", "fault_sequences"], "All programs and argument orders; faults: missing directory, full device, path of a directory, disk full after k bytes for all k.",
 "No test runs the tool or injects a fault.",
 [CLI, UTL], [("arguments", CLI + ": main"), ("errors are returned", UTL + ": save_to_file")],
 "differential property-based testing of the built tool against the library; fault injection with random limits",
 "Search over programs, options and faults; the exit status after errors is not specified.")
prop("C23", "Options change the layout, never the content",
 "Debug mode only adds marks: all else is drawn exactly as without it, in the same order. Disabling optimizations or the layout pass only moves things: the same shapes with the same sizes, texts and styles, and the same edges with the same heads and labels are drawn.",
 ["inputs", "configurations"], "All graphs (built by hand or from programs) and all eight option combinations.",
 "Tests use one configuration.",
 [LAY, REN, SHP], [("options", LAY + ": do_it"), ("debug marks", REN)],
 "metamorphic property-based testing over the option combinations on a recording backend",
 "Search over generated graphs up to tens of nodes.")
prop("C24", "Work is polynomial: no program makes the layout blow up",
 "Parsing takes work proportional to the length of the program, and building the graph at most quadratic work in it. Layout and drawing take at most work proportional to the cube of the number of elements to place (nodes and edges, counting each row that a long edge crosses), plus work proportional to the length of the texts.",
 ["inputs", "programs"], "All programs; in particular graphs with exponentially many paths, long edges, many cycles, parallel and self edges, and long or repetitive texts; up to about 2000 elements.",
 "Tests have small graphs, and exponential work shows only on graphs with many paths.",
 [DAG, LAY, OPT, EDG, MBR, BK, LEX, PAR, BLD], [("each node is visited once", DAG + ": is_reachable"), ("fixed numbers of iterations", OPT + "; " + EDG)],
 "property-based testing with a deterministic count of executed basic blocks as the measure of work, on graph families of growing size",
 "Bounds have a factor of at least three over what is observed (about ten for drawing); work in the standard library is not counted.")
prop("C25", "The report of a parse error points at the offending token",
 "When a program is rejected, the printed report shows the program up to the end of the line with the first token that can't be right, and below it a marker in the column of that token (or right next to it). If the program is unfinished, the marker is at its end.",
 ["inputs"], "All invalid programs, except those whose offending token spans several lines.",
 "No test looks at the printed report.",
 [LEX, PAR], [("position of the lexer", LEX + ": print_error")],
 "differential property-based testing against an independent parser that tells where it gets stuck; the standard output is captured",
 "Search over edited programs; one column of tolerance.")
prop("C26", "The dump of the syntax tree shows the whole program in order",
 "Dumping a syntax tree prints, in program order, the graph with its name, and for every statement its kind, the names and ports of its nodes, its connectors with their kind, and each of its attributes with key and value, also inside of nested scopes; it prints nothing that is not in the program.",
 ["programs"], "All programs whose names and values have no line breaks.",
 "No test looks at the dump.",
 [PRN, AST], [("recursive printing", PRN)],
 "property-based testing: random tree, parsed, dumped, compared line by line with the tree; the standard output is captured",
 "Search over generated programs with nested scopes.")
prop("C27", "Texts fit into their shapes and never overlap",
 "In the drawing of a program each shape, and each field of a record, has room for all lines of its text, taking each character to be as wide and as high as the font size, and the text is drawn inside of it. No two texts of a drawing overlap, and labels of edges lie on no shape. This holds for all fonts, shapes, options and both orientations.",
 ["programs", "configurations"], "All programs with any shapes, nested records, fonts, and texts of several lines, of nodes and edges.",
 "Tests never look at the document.",
 [BLD, REN, SHP, SVG, GEO, MBR], [("sizes follow the texts", REN + ": get_shape_size"), ("labels are elements of their own", LAY + ": split_text_edges"), ("lines of texts", SVG + ": draw_text")],
 "property-based testing on the finished document: the boxes of all lines of text are computed from the document and compared with shapes and with each other",
 "Search over generated programs up to 30 nodes; widths of characters are the layout's own estimate, ellipses count as boxes.")
prop("C28", "Looks never move anything",
 "Where shapes, labels and routes are placed depends on the structure of the graph and the sizes of its elements only: with other colors, line widths, line styles (invisible edges included), arrow heads, properties, or other letters in the same number of lines and columns, everything is drawn in the same places.",
 ["programs", "configurations"], "All graphs and programs and all changes of looks, options and orientations.",
 "Tests never compare drawings.",
 [BLD, LAY, OPT, BK, MBR, EDG, REN], [("the layout sees sizes and edges only", LAY + "; " + BK), ("labels carry their size", REN + ": get_shape_size")],
 "metamorphic property-based testing: the same graph with other looks must have the same geometry, on a recording backend",
 "Search over generated graphs up to 40 nodes and random programs.")

prop("C29", "Shorthand draws as the plain program that it stands for",
 "A program draws the same document, byte for byte, as the plain program that it stands for: its nodes declared one by one in the order in which they are first mentioned, each with all attributes that apply to it, and then its connections one by one in order, each with all attributes that apply to it. Chains, defaults, scopes, repeated declarations, repeated attributes and first mentions in edges are shorthand only.",
 ["programs"], "All programs (without groups as the ends of edges), with all options.",
 "Tests draw programs, but compare no two of them.",
 [BLD, PAR, MAP], [("chains, declarations", BLD), ("defaults", MAP), ("order of creation", BLD + ": get")],
 "metamorphic property-based testing: a random program and its canonical expansion, made by a model of the language, must give the same document",
 "Search over generated programs up to 25 statements per scope; whether defaults apply again to nodes declared again is left open.")

prop("C30", "Drawings are compact, and chains are straight",
 "No space is wasted: consecutive rows of nodes are no further apart than the spacing of 60 units and the labels of edges require, the first row and the leftmost node start at the margin as far as labels and routes leave room, and the nodes lie within the extent that all elements would need side by side. Without the layout pass the nodes of a row follow each other directly. The canvas ends where the drawing ends. The nodes of a graph that is one chain lie on a straight line. This holds for both orientations.",
 ["inputs", "configurations"], "All graphs and programs, options and orientations.",
 "Tests never look at positions.",
 [SIM, BK, EDG, LAY, SVG, PLA], [("rows and first positions", SIM), ("alignment", BK), ("extent of the canvas", SVG + ": grow_window")],
 "property-based testing: upper bounds of distances, computed from the sizes of the elements, against the boxes in the finished drawing and the canvas of the document",
 "Search over generated graphs up to 40 nodes, and programs.")

prop("C31", "The order of declaration shows in the drawing",
 "Without optimizations the nodes of each row are drawn in the order in which they are first mentioned. With optimizations, in a graph in which every edge connects adjacent rows, each row keeps the order of declaration if no edges cross in that order, and otherwise no more edges cross in the drawing than would in that order. This holds for both orientations, with and without the layout pass.",
 ["inputs", "configurations"], "All graphs and programs (without groups as the ends of edges), options and orientations.",
 "Tests never look at the order of nodes.",
 [BLD, DAG, OPT, BK, SIM, LAY, PLA], [("rows in order of creation", DAG + ": recompute_node_ranks"), ("crossings", OPT), ("first positions", SIM)],
 "property-based testing: the order of the boxes in each row of the finished drawing against the order of declaration, and a reference count of crossings",
 "Search over generated graphs up to 40 nodes, layered graphs up to 72 nodes, and programs.")

prop("C32", "Drawings do not influence each other",
 "The document that a program gives is the same whether its steps - reading, building, layout, writing - run alone, alternate with the steps of other drawings, happen while another drawing is in the middle of being written, run in threads at the same time, or come first or last in the life of a process. Two writers, two graph structures or two scoped maps that are used in turns each end up as they would alone.",
 ["programs", "histories", "schedules"], "All programs and options; all orders of the steps of up to three drawings; all interleavings of calls on two instances; threads as scheduled by the system.",
 "Tests use one object at a time and never compare two runs.",
 [SVG, BLD, PAR, LAY, DAG, MAP], [("writer holds its own state", SVG + ": SVGWriter"), ("builder holds its own state", BLD), ("no globals", "layout/src")],
 "stateful and metamorphic property-based testing: random interleavings of steps and calls against each alone, and against a new process",
 "Search over generated programs and interleavings; thread schedules are those that happen.")

prop("C33", "Routes lead from row to row and pass between the shapes",
 "No bend of a route lies inside of a shape. Without the layout pass each route leads steadily from the row of one end to the row of the other, never back, and the label of an edge lies between the rows of its ends. An edge without bends, whose ends are right above each other, is straight. The layout pass keeps shapes in their rows: it moves them along the row only, and the bends and labels of edges by no more than 100 units out of it.",
 ["inputs", "configurations"], "All graphs and programs, options and orientations.",
 "Tests never look at routes.",
 [LAY, EDG, SIM, GEO, REN], [("bends", LAY + ": split_long_edges, split_text_edges"), ("routes", REN + ": generate_curve_for_elements"), ("moved labels", EDG + ": adjust_crossing_edges")],
 "property-based testing: the routes in the drawing against the boxes of shapes; metamorphic: the drawing with the layout pass against the one without",
 "Search over generated graphs up to 110 nodes, and programs; the curves between bends are not followed.")

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None},
            }) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [{
            "property": p["id"], "quick_cmd": "bash check.sh " + p["id"], "thorough_cmd": "bash check.sh " + p["id"],
            "technique": p["technique"], "level": "exploration", "level_note": p["note"],
        } for p in P],
        "not_applicable": [],
        "notes": "All checks are property-based: one engine (harness/src), one binary per property (harness/src/bin). VERIF_TIER=thorough multiplies the number of cases by about 30. No hooks in /repo.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
