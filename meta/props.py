PROPS = []
NOT_APPLICABLE = {}
CORE = "lanelet2_core/"
H = CORE + "include/lanelet2_core/"
SEQ = "bounded exhaustive exploration of operation sequences on the real code against a reference model"
def P(id, title, statement, over, quant, tests, files, mech, technique, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, quant=" ".join(quant.split()), tests=" ".join(tests.split()),
                      files=files, mech=mech, technique=technique, note=" ".join(note.split()), **kw))

P("C01", "An attribute means the same however and how often it is asked",
  """The interpretation of an attribute as bool, number, id, velocity or text depends on its text alone: not on which
  interpretations were asked before, not on copies, assignments or resets in its history. An attribute made from a typed value gives
  that value back, exactly, through the typed query and through its text. A text that is no value of the asked type gives none.""",
  ["inputs", "histories"], "every text and typed value, every history of queries, copies, assignments and resets",
  "The tests ask a few texts once each; the cached interpretation of the last query makes the answer depend on history, which they do not vary.",
  [H + "Attribute.h", CORE + "src/Attribute.cpp"],
  [("interpretation with a cache of the last one", CORE + "src/Attribute.cpp"), ("reset of the cache when the text is set", CORE + "src/Attribute.cpp")],
  SEQ, """All histories up to the bound over 32 texts and 36 typed values, each answer compared with a hand-written table. Texts outside the
  alphabet are not covered.""")
P("C02", "Attribute maps behave as ordered maps, by text key and by named key alike",
  """An attribute map answers as a sorted map from text to attribute would: insertion, overwriting, erasure, swap, copy, move and
  iteration included. Looking up one of the well known keys by its symbolic name gives the same as looking up its text, at any time and
  through any copy.""",
  ["histories"], "every sequence of operations on maps that are copied, moved, swapped and assigned between each other",
  "Symbolic lookups go through positions cached beside the map; only operation sequences the tests do not have make them stale.",
  [H + "utility/HybridMap.h", H + "Attribute.h"],
  [("vector of iterators for known keys kept in step with the map", H + "utility/HybridMap.h")],
  SEQ, "All sequences up to the bound of operations on two maps with 5 keys (3 known), compared with std::map after every operation.")
P("C03", "All views of a line string show one sequence of points",
  """A line string, its inverse, its two- and three-dimensional, const, hybrid and polygon views stay views of one sequence of points:
  whatever is changed through one of them is seen in every other, in the same order or in reverse for inverted ones. Size, element access, iteration in both directions,
  segments and equality follow from that sequence.""",
  ["histories"], "every sequence of modifications through any view, for any orientation",
  "Tests modify through one view and look at few others; the orientation dependent index arithmetic is only met by combinations.",
  [H + "primitives/LineString.h", H + "primitives/LineStringOrPolygon.h", H + "primitives/Polygon.h", H + "utility/ReverseAndForwardIterator.h"],
  [("index and iterator arithmetic by orientation", H + "primitives/LineString.h"), ("shared data with orientation flag", H + "primitives/LineString.h")],
  SEQ, """All sequences up to the bound. Inserting through an inverted view is accepted at either end of the given position, because the
  existing tests pin the present behaviour for single insertions.""")
P("C04", "Compound line strings and polygons are the concatenation of their parts",
  """A compound line string or polygon shows the points of its parts one after the other, in the orientation of each part, leaving
  out a point that repeats the one before. This holds for every number of parts, empty and single point parts included, for iteration,
  indexing, segments, size, hybrid and basic versions and after changes of the parts.""",
  ["inputs"], "every list of parts of any length and orientation",
  "The tests use two or three parts of at least two points; parts that are empty or have one point decide the border cases of the skipping.",
  [H + "CompoundLineString.h", H + "CompoundPolygon.h", H + "primitives/CompoundLineString.h"],
  [("iteration over parts with removal of duplicates", H + "primitives/CompoundLineString.h")],
  "exhaustive enumeration of all small compounds on the real code against concatenation",
  "Every compound of up to the bound many parts, each a line string of at most 3 of 3 points in either orientation.")
P("C05", "Lanelets and areas follow their bounds; nothing derived from them goes stale",
  """What is derived from the bounds of a lanelet (centerline, polygon, inverse) or of an area (outer and inner polygons) is
  at any time what a newly made object with the same bounds would give, unless a centerline was set by the user. The inverse of a lanelet swaps and
  inverts the bounds; a sequence of lanelets shows the concatenation of bounds and centerlines.""",
  ["histories"], "every history of setting bounds, setting and resetting centerlines, attributes, regulatory elements, through handles and inverted handles",
  "The cached centerline and its invalidation depend on the order of operations; the tests have one or two orders.",
  [H + "primitives/Lanelet.h", H + "primitives/Area.h", H + "primitives/LaneletSequence.h", CORE + "src/Lanelet.cpp", CORE + "src/Area.cpp"],
  [("centerline cache and its reset", CORE + "src/Lanelet.cpp"), ("inversion of bounds", H + "primitives/Lanelet.h")],
  SEQ, "All sequences up to the bound over four bounds; compared with a model and with a freshly built object after every operation.")
P("C06", "A map contains everything that what was added refers to",
  """Whatever is added to a map, the map afterwards contains it and everything it refers to, directly or indirectly, once each, under
  an id different from the ids of everything else of its kind, and nothing else. Members are found by id, by iteration and by the primitives they are used in, and
  nothing that was in the map gets lost or is replaced by a later addition.""",
  ["histories"], "every sequence of additions of primitives that share members and refer to each other, with or without ids",
  "The tests add few primitives in one order; sharing, cycles through regulatory elements and missing ids interact only in sequences.",
  [H + "LaneletMap.h", CORE + "src/LaneletMap.cpp"],
  [("recursive addition of members", CORE + "src/LaneletMap.cpp"), ("assignment of ids", CORE + "src/LaneletMap.cpp"), ("usage lookup", CORE + "src/LaneletMap.cpp")],
  SEQ, """All sequences up to the bound over a pool of 29 primitives and all 64 patterns of missing ids. Members are not exchanged
  after their owner was added.""")
P("C07", "Spatial searches return what brute force over the layer returns",
  """Searching a box returns exactly the elements of the layer whose bounding box meets it; the nearest n elements are n elements with the
  smallest distances, in ascending order, for every n including zero and more than there are. The searches with a predicate visit elements in that
  order and stop where the predicate says so.""",
  ["inputs", "histories"], "every layer, map content, way of filling the map, query and number of results",
  "Tests query a handful of positions in one map; the tree's shape depends on how it was filled.",
  [CORE + "src/LaneletMap.cpp", H + "geometry/LaneletMap.h", H + "geometry/impl/LaneletMap.h"],
  [("r-tree per layer", CORE + "src/LaneletMap.cpp"), ("distance ordered search", H + "geometry/impl/LaneletMap.h")],
  "exhaustive enumeration of maps and queries on a grid against brute force",
  "All grid queries on all layers of small maps filled in every way, distances compared up to 1e-9.")
P("C08", "Ids are unique under every interleaving of threads",
  """No id is handed out twice and no id that was registered before is handed out afterwards, however many threads ask for ids, register ids or add
  primitives without ids to maps of their own at the same time.""",
  ["schedules"], "every interleaving of id operations of up to three threads",
  "The tests are single threaded; which interleaving happens on a machine is chance.",
  [CORE + "src/LaneletMap.cpp", H + "utility/Utilities.h"],
  [("atomic id counter", CORE + "src/LaneletMap.cpp")],
  "stateless model checking: all schedules of the real code under a controlled scheduler up to a preemption bound",
  """Every schedule at atomic operations, locks and reference counts up to the preemption bound, spurious failures of weak compare-exchange
  included. Memory accesses of a thread to memory that provably no other thread uses are not scheduling points. Sequentially
  consistent execution; weaker memory orders only enter through the race detector.""")
P("C09", "Reading is thread safe: concurrent const operations neither race nor disturb",
  """Any number of threads may at the same time use const operations on shared primitives, maps, traffic rules, routing graphs and routes,
  copy them and drop copies. There is no data race and no use of freed memory, and every operation returns what it returns when it is
  alone.""",
  ["schedules"], "every interleaving of every pair of const operations on freshly made objects",
  "Lazily filled caches make const operations write; the tests have one thread.",
  [CORE + "src/Attribute.cpp", H + "Attribute.h", CORE + "src/Lanelet.cpp", H + "primitives/Point.h", H + "primitives/LaneletSequence.h", "lanelet2_routing/src/Route.cpp"],
  [("cache of attribute values", CORE + "src/Attribute.cpp"), ("cache of centerlines", CORE + "src/Lanelet.cpp")],
  "stateless model checking: all schedules of the real code under a controlled scheduler with race and use-after-free detection",
  """Every pair from about 65 const operations under every schedule up to the preemption bound, with a vector clock race detector over all
  instrumented accesses. Accesses inside libstdc++.so are not seen. One known finding: two-dimensional reads after a point was moved.""")
P("C10", "Regulatory elements and those they refer to stay consistent",
  """The members of a regulatory element are exactly what was added and not removed, in order and per role, whichever typed function was used,
  and expired lanelets are left out without disturbing the others. Asking for the stop line, the kind of manoeuvre or the signs that apply
  to a lanelet follows from these members.""",
  ["histories"], "every sequence of additions, removals and expirations on each kind of regulatory element",
  "Tests add one or two members; mixed sequences and expired members decide the index arithmetic between parallel lists.",
  [CORE + "src/BasicRegulatoryElements.cpp", CORE + "src/RegulatoryElement.cpp", H + "primitives/RegulatoryElement.h", H + "primitives/BasicRegulatoryElements.h"],
  [("parallel lists of lanelets and stop lines", CORE + "src/BasicRegulatoryElements.cpp"), ("weak references", H + "primitives/RegulatoryElement.h")],
  SEQ, "All sequences up to the bound on each of the five kinds against lists of ids.")
P("C11", "A submap shows exactly what was added and keeps it alive",
  """A submap contains what was added to it, once each, and not what that refers to; all of it stays usable after the map it came from is gone.
  The full map made from a submap contains the same and everything referred to.""",
  ["histories"], "every sequence of additions to a submap, however it was made",
  "The tests build one submap in one way and do not drop the original map.",
  [CORE + "src/LaneletMap.cpp", H + "LaneletMap.h"],
  [("addition without members, holding regulatory elements", CORE + "src/LaneletMap.cpp")],
  SEQ, "All sequences up to the bound from every way to make a submap, against a set model, under AddressSanitizer.")
P("C12", "Handles show identity, kind and lifetime of elements",
  """Two handles are equal exactly if they refer to the same element in the same orientation, whatever their constness, dimension, copies and equal ids or contents of different elements; equal handles have
  equal hashes. A weak handle gives the element, in its orientation, exactly as long as a handle, list or map holds it, and NullptrError afterwards. A handle of either a lanelet or an area, or of either a line
  string or a polygon, has id, attributes and everything else of what it holds, and gives it back as the kind it is and as no other.""",
  ["inputs", "histories"], "every history of handles and every pair of elements", "Tests have single comparisons and one expired lanelet.",
  [H + "primitives/Lanelet.h", H + "primitives/Area.h", H + "primitives/Primitive.h", H + "primitives/LineString.h", H + "primitives/LaneletOrArea.h", H + "primitives/LineStringOrPolygon.h"],
  [("weak handles", H + "primitives/Lanelet.h"), ("handles of either kind", H + "primitives/LaneletOrArea.h"), ("identity", H + "primitives/Primitive.h")],
  "exhaustive enumeration of histories of handles on the real code (ASan) against a count of holders, and of all pairs of handles",
  "Histories of four (thorough: five) out of 14 operations on two handles, two weak handles, a map, a list and a regulatory element; sequences of three (five) elements held by handles of either kind.")
P("C13", "Own kinds of regulatory elements are made, found and stored like built in ones",
  """Whatever kinds of regulatory elements a program registers, the factory makes an element of exactly the class registered for a rule, with the data that was given and the rule as its subtype, refuses rules nobody
  registered and data the class refuses with InvalidInputError, and makes a generic element for an empty rule. Asked for elements of a class, lanelets give all of that class or one derived from it, in order, and
  nothing else. Written to OSM files or archives and loaded again, elements are of the same class, with the same members and tags.""",
  ["inputs", "histories"], "every set of registered classes and every combination of elements", "Tests register one class and look up one element.",
  [H + "primitives/RegulatoryElement.h", CORE + "src/RegulatoryElement.cpp", H + "primitives/Lanelet.h", "lanelet2_io/src/OsmHandlerLoad.cpp", "lanelet2_io/include/lanelet2_io/io_handlers/Serialize.h"],
  [("registry of rules", CORE + "src/RegulatoryElement.cpp"), ("typed lookup", H + "utility/Utilities.h"), ("elements made while loading", "lanelet2_io/src/OsmHandlerLoad.cpp")],
  "exhaustive enumeration of registrations and elements, each in a process of its own, on the real code (ASan)",
  "All subsets of five own classes (two derived from others, one in place of a built in one), sequences of two (thorough: three) of ten rules, with and without members.")
P("G01", "Distances, projections and arc coordinates follow the geometry of a line",
  """For every line string and every point, distance, signed distance, projection, closest segment, arc coordinates, points at a given
  arc length and the way back from arc coordinates follow from the nearest point of the line and the side on which the query point lies. The
  representation (line string, inverted, hybrid, basic, compound), the dimension and the number of points make no difference beyond that.""",
  ["inputs"], "every line string of at least two points, repeated, collinear and self crossing ones included, and every query point",
  "Tests have a few lines and points; ties at vertices, corners, repeated points and the search tree used from 50 points on decide.",
  [H + "geometry/LineString.h", H + "geometry/impl/LineString.h", CORE + "src/LineStringGeometry.cpp"],
  [("signed distance and arc coordinates", H + "geometry/impl/LineString.h"), ("projection by brute force and by search tree", CORE + "src/LineStringGeometry.cpp")],
  "exhaustive enumeration of lines and query points on a grid on the real code, against brute force over segments",
  "All lines of up to 5 points on a small grid and all query points of a finer grid around it; tolerance 1e-9. No consecutive equal points.")
P("G02", "Shortest connections between line strings and borders are shortest",
  """The connecting points of two line strings or polygon borders lie on them and are as far apart as the closest pair of points; distances
  equal this. Lines intersect in three dimensions if their projections do and the heights differ by less than the tolerance.""",
  ["inputs"], "every pair of line strings or polygons, of any length and representation",
  "Parallel, degenerate, touching and crossing segments, the closing segment of polygons and the search tree of long lines are each only met by particular pairs.",
  [CORE + "src/LineStringGeometry.cpp", H + "geometry/impl/LineString.h", H + "geometry/impl/Polygon.h"],
  [("closest points of two segments", CORE + "src/LineStringGeometry.cpp"), ("search tree over the longer line", CORE + "src/LineStringGeometry.cpp")],
  "exhaustive enumeration of pairs of lines on a grid on the real code, against closest segments",
  "All pairs of lines of up to 3 points on a 3x3 grid with heights (quick: every 16th pair of 3 point lines). Intersection in 3d only for lines of constant height.")
P("G03", "Neighbourhood predicates follow from shared bounds and points",
  """Left of, right of, follows, adjacent and the functions that determine the common line answer by identity of bounds, their orientation and
  their end points: every pair of lanelets and areas, inverted or not, gets the answer the definition gives.""",
  ["inputs"], "every pair of lanelets and areas made of shared line strings, in any orientation",
  "Tests have one example of each; the orientation of a shared bound and inverted lanelets decide.",
  [H + "geometry/impl/Lanelet.h", H + "geometry/impl/Area.h", H + "geometry/Area.h"],
  [("common lines of lanelets", H + "geometry/impl/Lanelet.h"), ("common lines of areas and lanelets", H + "geometry/impl/Area.h")],
  "exhaustive enumeration of pairs over a pool of line strings on the real code, against the definitions",
  "All lanelets and closed areas over a pool of 8 (9) line strings in both orientations.")
P("G04", "Overlap, intersection, containment and boxes follow from the shapes",
  """Two lanelets or areas overlap exactly if their interiors meet and intersect exactly if they have a point in common; in three dimensions
  the heights must also differ by less than the tolerance. Lanelets that are neighbours or follow each other do not overlap. A point is inside exactly
  if it lies in the shape, border included and holes of areas excluded; boxes enclose tightly, those of regulatory elements all members that exist, of which the
  closest determines the distance. Centerlines intersect where they have points in common, at the given distances along both.""",
  ["inputs"], "every pair of lanelets and areas in every relative position, order and orientation",
  "Tests have single examples; touching, containing, crossing and concave positions as well as the order of arguments decide.",
  [H + "geometry/impl/Lanelet.h", H + "geometry/impl/Area.h", H + "geometry/impl/Polygon.h"],
  [("overlap by relation masks and neighbourhood", H + "geometry/impl/Lanelet.h"), ("areas by outer bounds and holes", H + "geometry/impl/Area.h")],
  "exhaustive enumeration of pairs of shapes on a grid on the real code, against exact tests on convex pieces",
  "All pairs from about 280 x 200 (thorough 1100 x 580) quadrangles, bent strips and strips with five points per bound on small grids at constant heights; intersect3d of lanelets of constant height only. All 256 selections of eight members of regulatory elements.")
P("G05", "Partitions of polygons are partitions",
  """The convex parts and the triangles of a polygon are convex, do not overlap, lie within the polygon, cover it, and have only vertices of it.
  There are n-2 triangles. This holds for simple clockwise polygons whose edges belong to the Delaunay triangulation of their vertices, on which the functions are based.""",
  ["inputs"], "every such polygon, convex or concave",
  "Tests check three polygons and mostly the number of parts.",
  [CORE + "src/PolygonTriangulationGeometry.cpp", H + "geometry/impl/Polygon.h"],
  [("merging of Delaunay cells", CORE + "src/PolygonTriangulationGeometry.cpp")],
  "exhaustive enumeration of simple polygons on grids on the real code, against the definition of a partition",
  "All simple polygons of up to 8 (thorough: 9) vertices on a regular, an irregular and two large, slightly dented 4x3 (thorough: 4x4) grids. Polygons with edges that are not Delaunay edges are left out: the functions do not support them.")
P("G06", "Calculated centerlines run half way between the bounds",
  """A calculated centerline begins and ends half way between the ends of the bounds; each of its points is half way between points of
  both bounds that do not come before those of the last point; it does not leave the lanelet; inverted lanelets have it
  reversed. Aligning bounds given in any orientation yields those of the lanelet.""",
  ["inputs"], "every pair of bounds, of any number and density of points",
  "Tests have a few lanelets and compare with expected points; which point comes next depends on distances and crossings along the whole lanelet.",
  [CORE + "src/Lanelet.cpp", H + "geometry/impl/LineString.h"],
  [("search for the next point of the centerline", CORE + "src/Lanelet.cpp"), ("alignment by sides", H + "geometry/impl/LineString.h")],
  "exhaustive enumeration of bounds on grids and curves on the real code, against the definition",
  "All bounds of up to 4 (5) points that advance in x, all subsets of points of two curves, all convex quadrangles on a grid.")
P("G07", "Offset line strings keep their distance and side",
  """An offset line string either cannot be made, which is reported, or all its points lie on the side asked for, between once and the
  square root of two times as far away from the line as asked, and it does not cross itself. Offsets that are small against the line can be made and
  run along all of it.""",
  ["inputs"], "every line string that does not touch itself and every offset to the left and to the right",
  "Tests have a few lines; the sides differ, and the joints depend on angle, convexity and the order in which parts cross.",
  [H + "geometry/impl/LineString.h"],
  [("shifting of convex parts and joining them", H + "geometry/impl/LineString.h"), ("check for inversion", H + "geometry/impl/LineString.h")],
  "exhaustive enumeration of lines on a grid and offsets on the real code, against distances and sides by brute force",
  "All lines of 2 to 4 (thorough: 6) points on a 3x3 grid that do not touch themselves, offsets of 0.1 to 1 to both sides.")
P("G08", "Bounding boxes behave as the sets of points they stand for",
  """A box contains a point, contains, meets or is as far away from another box as the set of points between its corners; the intersection of boxes is that of the sets, extending and merging give the smallest box around
  both, and a box without corners is empty and neutral for that. Corners, center, sizes, translation and conversions between two and three dimensions, Eigen and boost::geometry follow from the corners.""",
  ["inputs"], "every pair of boxes, empty and degenerate ones included, and every point", "Tests do not call most of these functions.",
  [H + "primitives/BoundingBox.h", H + "geometry/BoundingBox.h"],
  [("the box", H + "primitives/BoundingBox.h"), ("boxes of points and boxes", H + "geometry/BoundingBox.h")],
  "exhaustive enumeration of boxes and points on a grid on the real code against interval arithmetic",
  "All boxes with corners from four (thorough: seven) coordinates, empty ones included, with 81 (225) points and with each other.")


IO = "lanelet2_io/"
IOH = IO + "include/lanelet2_io/"
P("I01", "A map written as OSM and loaded again is the same map",
  """Writing a map to an OSM file and loading it with the same projection gives a map with the same primitives under the same ids, the same
  attributes whatever their text, the same members in the same roles, order and direction, shared where they were shared, and
  coordinates that differ by no more than the precision of the file. Writing the loaded map again changes nothing more. Outer rings of areas come back
  clockwise, holes counter-clockwise.""",
  ["inputs"], "every map: every layout of lanelets, areas and regulatory elements, every text, id, coordinate and direction of lines",
  "Tests write and load one element of a kind; text that needs escaping, inverted lines, shared and cyclic references only matter in combination.",
  [IO + "src/OsmHandlerWrite.cpp", IO + "src/OsmHandlerLoad.cpp", IO + "src/OsmFile.cpp"],
  [("writer", IO + "src/OsmHandlerWrite.cpp"), ("parser", IO + "src/OsmHandlerLoad.cpp"), ("xml", IO + "src/OsmFile.cpp")],
  "bounded exhaustive enumeration of maps through the real writer and parser, compared element by element",
  "All maps that differ in up to two (thorough: three) of nine features from a base map, and all combinations of layouts. What the format can not hold (empty roles, directions of parameters) is not compared.")
P("I02", "A map stored as binary archive and loaded again is the same map, to the bit",
  """Writing a map to a binary archive and loading it gives a map with the same primitives, ids, attributes, members in the same order
  and direction, coordinates to the last bit, shared where they were shared. Ids given out after loading do not clash with those loaded.""",
  ["inputs"], "every map: every layout of lanelets, areas and regulatory elements, every text, id, coordinate and direction of lines",
  "Tests store single elements; cycles between lanelets and regulatory elements and sharing depend on the order in which things are stored.",
  [IOH + "io_handlers/Serialize.h", IO + "src/BinHandler.cpp"],
  [("serialisation of shared and cyclic references", IOH + "io_handlers/Serialize.h"), ("id counter in the archive", IO + "src/BinHandler.cpp")],
  "bounded exhaustive enumeration of maps through the real writer and parser, compared bit by bit",
  "The maps of I01, including what OSM can not hold.")
P("I03", "A map that could not be written completely is reported",
  """When the file system stops accepting data at whatever byte, writing a map, as OSM or as archive, throws an IOError. When nothing is thrown, the
  file is complete.""",
  ["crash_points"], "every byte after which the disk is full, both formats",
  "Tests never run out of space.",
  [IO + "src/BinHandler.cpp", IO + "src/OsmHandlerWrite.cpp", IO + "src/Io.cpp"],
  [("check of the stream", IO + "src/BinHandler.cpp"), ("check of the xml writer", IO + "src/OsmHandlerWrite.cpp")],
  "exhaustive fault injection: the file size limit is set to every possible byte while the real writer runs",
  "Every byte for small maps, block borders and steps for larger ones.")
P("I04", "Damaged files are refused or loaded with a report, and never break the reader",
  """Loading a file that is truncated or altered in any way either throws an IOError, or fills the list of errors, or gives a map
  all of whose references are to primitives that are in the map. It never crashes, hangs, reads memory it should not or throws anything else.""",
  ["inputs", "crash_points"], "every truncation and alteration of a file",
  "Tests load intact files and a few defects; a file can be damaged in more ways than tests list.",
  [IO + "src/OsmFile.cpp", IO + "src/OsmHandlerLoad.cpp", IO + "src/BinHandler.cpp"],
  [("xml to elements", IO + "src/OsmFile.cpp"), ("elements to primitives", IO + "src/OsmHandlerLoad.cpp"), ("archive", IO + "src/BinHandler.cpp")],
  "exhaustive enumeration of damages on the real parsers with the address sanitizer",
  """All truncations, single byte changes from an alphabet, replaced values (single and pairs), doubled and exchanged lines. Archives are only truncated: their format, which is boost's, has no
  protection against altered content.""")
P("I05", "References to missing elements are reported and cost nothing else",
  """When a file or map lacks elements that others refer to, every element that refers to a missing one is named in the errors (or an IOError is thrown
  where nobody asks for errors), every element that is whole, with everything it refers to, is loaded or written unchanged, and nothing is reported when nothing is missing.""",
  ["inputs"], "every subset of elements missing from a file or a layer",
  "Tests remove one element; errors of one element must not disturb the handling of others, in any order.",
  [IO + "src/OsmHandlerLoad.cpp", IO + "src/OsmHandlerWrite.cpp", IO + "src/OsmFile.cpp"],
  [("dummies for what is missing", IO + "src/OsmHandlerLoad.cpp"), ("unresolved roles", IO + "src/OsmFile.cpp")],
  "exhaustive enumeration of subsets of a file's elements through the real parser and writer",
  "Subsets of up to four (thorough: all 14) elements removed from a file, up to three (five) removed or replaced by useless ones of the same id, up to three (six) from the layers of a map.")
P("I06", "The handler of a name or extension is used as given, and all errors arrive",
  """load and write use the parser or writer that was registered (last) for the given name or for the extension of the file, built in or own, with the file, map, projector, origin and parameters that were given, and
  the lists of what is supported name exactly what is registered. Errors a handler reports are given to whom asks for them, exactly and in order, or thrown, all of them, as ParseError or WriteError; exceptions of handlers are passed
  on; missing files, unknown names and unknown extensions are answered with their documented error before any handler runs. Handlers may ask for their configuration as long as they live; without an origin parsers refuse to project.""",
  ["inputs", "histories"], "every history of registrations, every file name, every form of the call and every outcome of the handler", "Tests use the two built in handlers with proper files.",
  [IO + "src/Factory.cpp", IO + "src/Io.cpp", IO + "include/lanelet2_io/io_handlers/Factory.h", IO + "include/lanelet2_io/io_handlers/IoHandler.h"],
  [("registries of names and extensions", IO + "src/Factory.cpp"), ("errors passed on or thrown", IO + "src/Io.cpp"), ("projector and configuration of a handler", IO + "include/lanelet2_io/io_handlers/IoHandler.h")],
  "exhaustive exploration of histories of registrations, each in a process of its own, on the real code (ASan) against a table of who registered last",
  "Up to two (thorough: three) registrations of 14 own parsers and writers; 21 file names and handler names; 16 forms of the call; handlers that succeed, report one or two errors or throw.")
P("I07", "OSM documents keep every element, reference, role and tag",
  """osm::read(osm::write(file)) is the same document: the same nodes, ways and relations under the same ids, the same members in order and role, each reference pointing to the element of the
  same document, the same tags of any text (the elevation of a node is part of its position), positions to the precision of the format. Elements that an editor has deleted are as if they were not there: references to
  them are left out, each is reported with the element that made it, and all else is as before. Documents are equal exactly if they have the same elements that refer to the same elements in order. Configured writing changes what is documented only.""",
  ["inputs"], "every document, every subset of deleted elements", "Tests write and read one document; references among relations, missing ones and unusual text only matter in combination.",
  [IO + "src/OsmFile.cpp", IO + "include/lanelet2_io/io_handlers/OsmFile.h"],
  [("elements to and from xml", IO + "src/OsmFile.cpp"), ("references between relations", IO + "src/OsmFile.cpp"), ("comparison", IO + "src/OsmFile.cpp")],
  "exhaustive enumeration of documents and of subsets of deleted elements on the real code (ASan) against a description of the document",
  "Two elements of each kind; lists of up to two (thorough: three) members per relation and up to three (five) nodes per way; all subsets of deleted elements; pairs of 14 texts, 8 ids, pairs of 11 numbers.")
PR = "lanelet2_projection/"
P("P01", "Projections invert each other, fix their origin and know their limits",
  """Every projector maps its origin to zero (where it is documented to be local), maps positions and coordinates back and forth without loss, is the
  same function in every instance with the same origin, agrees locally with distances on the ground as its kind promises, and answers positions outside of
  its range with the documented error instead of a wrong coordinate.""",
  ["inputs"], "every origin, including borders of zones and hemispheres, and every position around it",
  "Tests use one origin in Germany and few positions; zones, hemispheres and their borders behave differently.",
  [PR + "src/UTM.cpp", PR + "include/lanelet2_projection/Mercator.h", PR + "src/LocalCartesian.cpp", PR + "src/Geocentric.cpp"],
  [("zones and padding", PR + "src/UTM.cpp"), ("scaling by latitude", PR + "include/lanelet2_projection/Mercator.h")],
  "exhaustive enumeration of a grid of origins and positions on the real code against GeographicLib's geodesics",
  "A grid of the globe with the borders of UTM zones; offsets from centimetres to 90 km.")
TR = "lanelet2_traffic_rules/"
G_ = TR + "src/GenericTrafficRules.cpp"
TAG = "exhaustive enumeration of tags on the real code against the documented tagging scheme"
P("T01", "Who may use a lanelet or area follows from its tags as documented",
  """A participant may pass a lanelet or an area exactly if the tags, read as documented, allow it: tags for the participant or a more general class decide if any
  participant tag is present, the subtype otherwise. Lanelets can be used against their direction exactly if one_way says so for the participant, and
  isOneWay tells whether exactly one direction can be used.""",
  ["inputs"], "every combination of subtype, location, participant and one_way tags, every participant and direction",
  "Tests check a few tags; precedence, hierarchy of participants and direction form a product of thousands of combinations.",
  [G_, TR + "include/lanelet2_traffic_rules/GermanTrafficRules.h", "lanelet2_core/doc/LaneletAndAreaTagging.md"],
  [("overriding tags", G_), ("participants by subtype", G_), ("direction", G_)],
  TAG, """All subtypes and locations, all sets of up to two (thorough: four) participant tags and two one_way tags, eleven participants. Where the documentation contradicts itself (pedestrians and
  one_way of others) nothing is checked.""")
P("T02", "Lane changes are possible exactly where the marking between lanes allows them",
  """A participant can change between two lanelets exactly if they are neighbours in the same direction, both can be passed, and the line between them permits crossing in that
  direction: lane_change tags first, type and subtype otherwise, read relative to the direction of the line as it is stored.""",
  ["inputs"], "every marking, every direction in which line and lanelets are stored or driven, every participant",
  "Tests check few markings for vehicles; each depends on four directions.",
  [G_, "lanelet2_core/doc/LinestringTagging.md"], [("type of change of a marking", G_), ("sides", G_)],
  TAG, "All documented types and subtypes with all lane_change tags, both directions of the line and of each lanelet, pairs of six (thorough: more) kinds of lanelets, eleven participants.")
P("T03", "Speed limits come from signs, tags and country defaults in this order",
  """The speed limit of a lanelet or area is that of its speed limit sign where the rules of the participant interpret it, else that of the overriding tags (that of the participant or its class before the general one), else the
  default of the country for location and subtype, with the documented flag whether it is mandatory.""",
  ["inputs"], "every combination of signs, tags, units, participants",
  "Tests check few values; the sources of a limit shadow each other.",
  [G_, TR + "src/GermanTrafficRules.cpp"], [("precedence", G_), ("signs", TR + "src/GermanTrafficRules.cpp")],
  TAG, "All subtypes, locations, signs, limits in several units, tags for single participants (thorough: pairs). Combinations documented as forbidden are left out.")
P("T04", "Passing between lanelets and areas needs a common, permeable border",
  """One can pass from a lanelet or area to another exactly if both can be passed and they follow each other (lanelets), or have at least one common border, on a side that the
  direction of the lanelet allows to leave or enter by, that may be crossed in this direction.""",
  ["inputs"], "every arrangement of two neighbours, every marking of their common borders, every direction",
  "Tests check two arrangements; sides, directions of lines and several common borders multiply.",
  [G_, H + "geometry/impl/Area.h", H + "geometry/impl/Lanelet.h"], [("passing between kinds", G_), ("common lines", G_)],
  TAG, "Two neighbouring cells as lanelets in four directions or areas with all starting lines, one or two common lines with eleven markings, and an area on all subsets of sides of a lanelet.")
P("T05", "Own traffic rules are found by class of participant and are asked first",
  """Rules registered for a location and participant are found for this participant, those for vehicles also for all kinds of vehicles that have none of their own, and for no one else. What own rules
  say about regulatory elements takes precedence over tags and tags over defaults; dynamic rules are reported.""",
  ["inputs", "histories"], "every set of registered rules, every answer of own rules, all tags",
  "Tests only use the built-in rules, whose answers from regulatory elements never decide.",
  [TR + "src/TrafficRulesFactory.cpp", G_], [("registry", TR + "src/TrafficRulesFactory.cpp"), ("precedence", G_)],
  "exhaustive enumeration of registrations and scripted rules on the real code against the documented precedence",
  "All subsets of five registrations; scripted answers times subtypes and tags.")
RO = "lanelet2_routing/"
RGB, RGC, SP, RB, RT_ = RO + "src/RoutingGraphBuilder.cpp", RO + "src/RoutingGraph.cpp", RO + "include/lanelet2_routing/internal/ShortestPath.h", RO + "src/RouteBuilder.cpp", RO + "src/Route.cpp"
NET = "exhaustive enumeration of all small road networks on the real routing graph against relations and costs worked out from the network's description"
P("R01", "The routing graph knows exactly the relations its map and rules permit",
  """For all elements passable under the given rules, following, previous, left, right, adjacent, besides and their variants report exactly the relations the geometry and markings
  imply: successor when bounds continue each other, lane change when the common line may be crossed, adjacent otherwise. A lane change whose cost is infinite is only adjacent.
  The cost of a lane change depends on the lanelets from there on along which the change stays possible, not on the order of ids or lanelets. Nothing is known about elements that cannot be passed.""",
  ["inputs", "configurations"], "every network, marking, direction of travel and of lines, cost module",
  "Tests use one drawn map; relations depend on combinations of presence, direction and marking of neighbours.",
  [RGB, RGC, RO + "include/lanelet2_routing/RoutingGraph.h"], [("building of edges", RGB), ("collection of lane changes", RGB), ("queries by relation", RGC)],
  NET, "Rows and grids of up to 2x4, 3x2 cells (thorough: 3x3) in all states and markings, rings, oncoming lanes, junctions with all sets of connectors, areas in 2x2 arrangements.")
P("R02", "Searches visit everything reachable once, cheapest first, at its true cost",
  """forEachSuccessor and forEachPredecessor (with and without areas) visit every element reachable with the permitted relations exactly once, in order of cost, with the least cost, a predecessor on such a
  cheapest path, its length and number of lane changes, and do not go on from where the caller says no. shortestPath is a connected path of least cost between the given elements if any exists, and absent otherwise.""",
  ["inputs", "configurations"], "every network, start, end, direction, cost module, and every element at which the search is told to stop",
  "Tests check some paths on one map with distance costs, where ties hide mistakes.",
  [SP, RGC, RO + "include/lanelet2_routing/internal/GraphUtils.h"], [("Dijkstra search with predicate", SP), ("choice of graph by cost, lane changes and areas", RGC)],
  NET, "The networks of R01 with costs that differ for each transition and with impossible transitions; all starts, ends, directions and stops.")
P("R03", "Paths through given points are cheapest section by section, in order",
  """shortestPathVia (with and without areas) gives a connected path that starts and ends as asked, passes the given points in order, and costs the sum of the cheapest paths between them; there is none exactly if one section has none.""",
  ["inputs"], "every network and every sequence of up to four points, repeated ones included", "Tests check two sequences.",
  [RGC], [("joining sections", RGC)], NET, "The networks of R01 (quick: smaller ones); all sequences of two and three points, of four in networks with up to six elements.")
P("R04", "What is reachable within a limit, and the possible paths up to it",
  """reachableSet and reachableSetTowards hold exactly the elements whose cheapest path stays within the limit. possiblePaths and possiblePathsTowards are exactly the cheapest paths that
  reach the cost or number of elements asked for and do not go on from there, together with shorter ones that end where nothing else can be reached if those are asked for. No limit at all is refused.""",
  ["inputs", "configurations"], "every network, start, direction, limit on cost and number of elements", "Tests check few limits, none close to where the answer changes.",
  [RGC, RO + "include/lanelet2_routing/RoutingGraph.h"], [("cost limits and paths from the search tree", RGC)],
  NET, "Limits just below and above every cost that occurs, one to four elements, and both; from every element, with and without lane changes and areas.")
P("R05", "A route holds the cheapest path and all lanes that lead along it",
  """A route exists exactly if a path does; its shortest path is a cheapest one through the given points. Every lanelet of it can be reached from its start and leads to its end within the route. Every lanelet
  that can be changed to and back from is part of it. Its relations, conflicts, lanes, remaining lanes and paths, sizes and searches are those of the routing graph restricted to it,
  circular routes included; nothing is known about lanelets that are not part of it.""",
  ["inputs", "histories"], "every network, every start, goal and point between, with and without lane changes",
  "Tests check some routes on one drawn map; loops, junctions and merging lanes decide which lanelets belong to a route.",
  [RB, RT_, RO + "include/lanelet2_routing/Route.h", RO + "include/lanelet2_routing/internal/GraphUtils.h"],
  [("growing and pruning the route", RB), ("lane ids and lanes", RB), ("queries", RT_)],
  NET, "The networks of R01 (quick: smaller ones); routes between all lanelets, via others, circular ones, two cost modules. That only lanes beside or in conflict with the route are added is checked, not that all in conflict are.")
P("R06", "Exactly what overlaps at a common level is in conflict, symmetrically",
  """Two elements are in conflict exactly if they overlap, are within the configured height of each other (if one is configured) and have no other relation; the two directions of a lanelet always are. Conflicts are
  the same from both sides, for either direction of travel and whatever the order of ids.""",
  ["inputs", "configurations"], "every arrangement of lanelets and areas, one way or both ways, on every level, for every height",
  "Tests check one crossing with one height and one direction.", [RGB], [("conflicting edges for lanelets and areas", RGB), ("height of the participant", RGB)],
  NET, "All pairs and triples of six overlapping, touching, nested and separate boxes as lanelets or areas on four levels, for four heights.")
P("R07", "Conflicts between graphs of different participants are found on all levels",
  """RoutingGraphContainer reports for a lanelet, or for a route, exactly those lanelets of each contained graph that overlap it at its level, and refuses graphs it does not contain.""",
  ["inputs", "configurations"], "every arrangement, every assignment of lanelets to participants, every height, every route", "Tests check one lanelet and one route.",
  [RO + "include/lanelet2_routing/RoutingGraphContainer.h"], [("overlap search over graphs", RO + "include/lanelet2_routing/RoutingGraphContainer.h")],
  NET, "Pairs and triples of crossing lanelets on four levels with all assignments, junctions with all sets of connectors used by pedestrians; all routes that are not driven backwards.")
P("R08", "The outline of a path is the union of its elements without inner borders",
  """getEnclosingPolygon3d of a path over lanelets and areas consists of exactly the pieces of the borders of its elements that no two consecutive elements share, in one clockwise ring.
  getRemainingLane gives the lanelets from a position on up to the first that does not follow.""",
  ["inputs"], "every path over lanelets and areas, every direction of every line",
  "Tests have about ten paths; direction of lines and sides at which areas are entered and left multiply.",
  [RO + "src/LaneletPath.cpp"], [("bounds of tails, lanelets and areas", RO + "src/LaneletPath.cpp")],
  "exhaustive enumeration of paths over small maps on the real code against the borders of the elements",
  "All paths of up to five (thorough: seven) elements in maps of cells being lanelets (four directions) or areas, with two and three points per line.")
P("R09", "Distance and travel time costs are what they promise",
  """With the built-in cost modules a transition costs the mean of length (or time at the speed limit) of both lanelets, a lane change costs the given cost and needs the given minimum of length (or time) along which it is
  possible; all relations and searches follow from these costs. Negative costs are refused.""",
  ["inputs", "configurations"], "every network, speed limit and parameter", "Tests use one map on which speeds hardly matter.",
  [RO + "src/RoutingCost.cpp", RO + "include/lanelet2_routing/RoutingCost.h"], [("costs from length, speed limits and minimum for lane changes", RO + "src/RoutingCost.cpp")],
  NET, "Straight networks with all markings, three (thorough: nine) patterns of three speed limits, four modules at once.")

P("R10", "Debug maps and exports of graphs and routes show all of them",
  """The debug map of a routing graph has one point per lanelet and area, at its center of gravity, and lines that give every relation of the kinds asked for, with its cost; that of a route has its lanelets, their
  relations, lanes and which are on the shortest path. GraphML and GraphViz files hold all lanelets and areas and exactly the relations that are not excluded, with their costs. Unknown modules and
  missing file names are refused, and files that cannot be written completely are reported.""",
  ["inputs", "configurations", "fault_sequences"], "every network, cost module, choice of relations, route and file that cannot be written", "Tests check that something is there and one refused file name.",
  [RO + "src/RoutingGraph.cpp", RO + "src/Route.cpp", RO + "include/lanelet2_routing/internal/RoutingGraphVisualization.h"],
  [("debug map of the graph", RO + "src/RoutingGraph.cpp"), ("debug map of the route", RO + "src/Route.cpp"), ("exports", RO + "include/lanelet2_routing/internal/RoutingGraphVisualization.h")],
  NET, "About 3800 (thorough: 200000) networks of rows, columns, junctions and areas with two cost modules; four choices of relations per debug map and five per export, debug maps of all routes. Costs are compared with six digits.")

MA = "lanelet2_matching/"
P("M01", "Matches are the lanelets within the distance asked for, both ways, sorted",
  """getDeterministicMatches returns exactly the lanelets whose distance to the hull of the object (or its position if it has none) is within the limit, each in both directions, with that distance, in order of
  distance, on maps and const maps. isCloseTo, isWithin and findWithin agree with it for all layers. removeNonRuleCompliantMatches keeps exactly those that may be used in that direction.""",
  ["inputs", "configurations"], "every arrangement of lanelets, pose, hull, limit and participant", "Tests use one map, three objects and two limits.",
  [MA + "src/LaneletMatching.cpp", MA + "src/Utilities.cpp", MA + "include/lanelet2_matching/Utilities.h"],
  [("matching with a distance", MA + "src/LaneletMatching.cpp"), ("search within a distance", MA + "include/lanelet2_matching/Utilities.h")],
  "exhaustive enumeration of objects on small maps on the real code against distances worked out from coordinates",
  "Sets of up to three (thorough: six) of six roads, 56 positions, 8 (24) angles, seven hulls, limits just around every distance that occurs. Touching within 1e-9 may go either way.")
P("M02", "Probabilistic matches have the right Mahalanobis distance in each direction",
  """getProbabilisticMatches finds the same lanelets with the same distances, and gives for each direction the squared Mahalanobis distance of position and orientation to the closest point of its
  centerline under the given covariances, sorted by it. A singular covariance of the position is refused with MatchingError.""",
  ["inputs", "configurations"], "every arrangement of lanelets, pose, covariance and concentration", "Tests use one map and one covariance.",
  [MA + "src/LaneletMatching.cpp", MA + "src/Utilities.cpp"], [("Mahalanobis distance", MA + "src/Utilities.cpp")],
  "exhaustive enumeration of objects on small maps on the real code against a closed form",
  "Up to two (thorough: six) of six roads, positions and angles as in M01, four covariances, three concentrations. Not judged within 0.5 m of bends or where the closest point is not unique.")
VA = "lanelet2_validation/"
P("V01", "Each map check reports exactly the defects it documents",
  """Repeated points in lines and polygons (errors), points closer than 5 cm, bounds curved by more than 0.5/m, missing mandatory tags, undocumented tags, undocumented values of
  types, subtypes and locations, and values that cannot be read as bool (warnings) are reported, one issue per occurrence with the primitive and id, and nothing is reported that is documented.""",
  ["inputs"], "every combination of points and of tags of every kind of primitive", "Tests have one or two maps per check.",
  [VA + "src/validators/" + f for f in ("DuplicatedPoints.cpp", "PointsTooClose.cpp", "CurvatureTooBig.cpp", "CheckTags.cpp")],
  [("tables of tags and values", VA + "src/validators/CheckTags.cpp"), ("neighbour search", VA + "src/validators/PointsTooClose.cpp")],
  "exhaustive enumeration of small maps and tags on the real code against the documented tagging scheme",
  "Lines of up to four (thorough: five) of three points, up to four (five) points at 24 places, bounds of two to four (five) points, all documented types, subtypes, locations and tags. Subtypes of types without documented ones are open.")
P("V02", "Validation runs the selected checks once each and reports all they find",
  """The comma separated regular expressions select exactly the checks whose names they match (without regard of case), all if there are none. Each runs once, map checks before those of traffic rules and of routing graphs,
  which run for every participant; what cannot be run or loaded becomes an error while the rest goes on. The report holds every issue with its severity, primitive and id; the command line tool succeeds exactly if there are none.""",
  ["configurations", "inputs", "programs"], "every filter, set of participants, map and result of checks", "Tests run three filters on one map.",
  [VA + "src/Validation.cpp", VA + "src/ValidatorFactory.cpp", VA + "src/Cli.cpp", "lanelet2_routing/src/RoutingGraphBuilder.cpp"],
  [("running the checks", VA + "src/Validation.cpp"), ("selection by regular expressions", VA + "src/ValidatorFactory.cpp"), ("command line", VA + "src/Cli.cpp")],
  "exhaustive enumeration of configurations on the real code with scripted checks that record how they are run",
  "Up to two (thorough: three) of ten expressions, six sets of participants (one cannot build a graph), eight sets of defects, all command line switches. The order within a kind of check is open.")

PY = "lanelet2_python/"
P("Y01", "Python objects are live, safe handles that behave like Python containers",
  """Every Python object is a handle of the C++ object: changes through any handle, view or inverted view are visible in all others, also from regulatory elements, areas and maps, and elements stay valid when their
  container changes or is gone. Line strings, attribute maps, layers and lists of bounds index, slice, iterate, compare, hash and fail as Python's own containers do.""",
  ["programs", "histories"], "every sequence of operations and every order in which objects are dropped", "Tests are some dozen lines of assertions on one object each.",
  [PY + "python_api/core.cpp", PY + "include/lanelet2_python/internal/converter.h"], [("containers and handles", PY + "python_api/core.cpp")],
  "exhaustive enumeration of sequences of Python operations on the real package against lists and dictionaries of plain Python, with the address sanitizer",
  "Sequences of up to three (thorough: four) operations on line strings and their views, polygons, attribute maps, lanelets, areas, maps and regulatory elements, and all pairs of an object and what it comes from.")
P("Y02", "Every Python function does what the C++ function of that name does",
  """Functions, methods, properties and constructors of all modules give the results of the C++ functions, for every overload, with arguments by position, by keyword and left out; costs and visitors written in Python are
  called as C++ ones are, and exceptions of either side reach the other.""",
  ["inputs", "configurations", "programs"], "every function, combination of arguments and way to pass them", "Tests call a third of the functions, most with one set of arguments.",
  [PY + "python_api/" + f + ".cpp" for f in ("core", "geometry", "io", "matching", "projection", "routing", "traffic_rules")] + [PY + "include/lanelet2_python/internal/converter.h"],
  [("tables of functions and defaults", PY + "python_api/geometry.cpp"), ("overridable costs", PY + "python_api/routing.cpp")],
  "exhaustive enumeration of calls on the real package against the C++ functions called directly, with the address sanitizer",
  "About 500 functions and overloads with three to forty values for each argument. What the C++ functions themselves compute is for the other properties.")
P("Y03", "The scripts do what they say to any map",
  """make_ids_positive.py replaces exactly the negative ids of all elements by new positive ones, keeps everything else of the map and, unless told otherwise, the input; print_ids.py prints exactly the ids of every layer and finds exactly those
  that are there; create_debug_routing_graph.py writes the debug map of the routing graph of the given participant.""",
  ["inputs", "configurations"], "every combination of negative and positive ids of the kinds of elements, every id asked for, every participant and origin", "No test runs the scripts.",
  [PY + "scripts/" + f + ".py" for f in ("make_ids_positive", "print_ids", "create_debug_routing_graph")],
  [("renumbering layer by layer", PY + "scripts/make_ids_positive.py"), ("setting ids", PY + "python_api/core.cpp")],
  "exhaustive enumeration of maps and arguments with the scripts run on the real package, against the description of the map",
  "Maps of one lanelet, area, traffic light and polygon; 256 (quick) or 4096 (thorough) signs of ids; road networks up to three lanelets.")
