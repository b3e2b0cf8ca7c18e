import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
p("C01","Grid sort: cell-ordered permutation with exact cell offsets",
 "Sorting any set of points with coordinates in (0,1) on any grid resolution only permutes the points: none is lost, duplicated or altered. The returned ids are the grid cell of the point now at each position and are ascending, every id lies in [0, resolution^3), and points of one cell keep their input order. The returned offset table has resolution^3+1 entries, starts at 0, and the points of cell c are exactly those at positions offset[c] up to but not including offset[c+1].",
 ["inputs","configurations"],"all point sets (any size, duplicates, coordinates next to the cell borders and to 0 and 1), all grid resolutions, float and double",
 "Tests sort a few random and Fibonacci sets at resolutions up to 16, so ids never need a third byte, and validate ids but not the offsets or the permutation.",
 ["src/xyzset.ipp","include/xyzset.hpp"],[("xyzset::sort","src/xyzset.ipp"),("get_cell","src/xyzset.ipp"),("validate_xyzset / validate_id / validate_sort","src/xyzset.ipp")],
 ["returned (id, offset) pair and the permuted point vector"])
p("C02","k-nearest-neighbour search is exact",
 "For every point, grid resolution and k, the neighbour search returns the k nearest other points (all of them when fewer exist), in order of non-decreasing distance, each with its squared distance. The point itself is never returned, no point is returned twice, and slots that cannot be filled stay marked as undefined at the end of the list.",
 ["inputs","configurations"],"all sorted point sets with their id/offset tables, all query points, all k >= 1, all grid resolutions",
 "The search is only tested through final neighbour lists on random sets, where a missed or spurious far neighbour rarely matters.",
 ["src/knn.ipp","src/heap.ipp"],[("knni::compute","src/knn.ipp"),("heap::maxheapify / heap::sort","src/heap.ipp")],
 ["heap_id / heap_pq rows after the call"])
p("C03","Heap operations order a row and only permute it",
 "Sifting an element down restores the max-heap order of a row whose other nodes already satisfy it, and sorting a row leaves its keys in non-decreasing order. Both move identifiers and keys together, only permute the entries of that row, and touch nothing outside it, for every row size (0 and 1 included), row position and memory layout.",
 ["inputs"],"all rows, keys (ties and infinities included), sizes, offsets and strides",
 "Tests sort a few small rows at one offset and never check that keys and ids move together or that neighbouring rows are untouched.",
 ["src/heap.ipp"],[("heap::maxheapify","src/heap.ipp"),("heap::sort","src/heap.ipp"),("heap::swap","src/heap.ipp")])
p("C04","Cell clipping keeps exactly the neighbours that bound the cell",
 "Clipping a cell by its candidate neighbours in order removes exactly the vertices that lie strictly on the neighbour's side of the bisector, re-closes the hole with one fan of vertices on the new plane, and leaves the other vertices alone. When clipping completes, the returned row lists, without repetition and in candidate order, exactly the candidates whose bisector still carries a vertex of the cell, followed only by undefined entries. A candidate whose bisector cuts nothing is never listed, and clipping stops early only at the end of the valid candidates or when the security radius test holds.",
 ["inputs","configurations"],"all candidate lists, positions, k and capacities",
 "Tests accept any superset of the reference neighbours and never look at vertices, so spurious neighbours and misplaced vertices go unseen.",
 ["src/cc.ipp"],[("cci::compute","src/cc.ipp"),("boundary::compute","src/boundary.ipp"),("planes, sr","src/planes.ipp, src/sradius.ipp")],
 ["knn row, vertex (T) and plane (P) rows, state"])
p("C05","Boundary of the removed vertices is one closed directed cycle",
 "Given the triangles removed from a cell, a successful boundary computation yields a single closed cycle that starts at the reported head, visits every recorded node once, and consists exactly of the directed edges of those triangles that are not matched by an opposite edge. It only reorders the removed triangles, never reads or writes outside the given row and triangles, always terminates, and reports failure rather than return a cycle that is not of this form.",
 ["inputs"],"all triangle sets and orders, all capacities and offsets",
 "Tests run a handful of hand-written fans; retry and swap paths and 8-bit limits are not reached.",
 ["src/boundary.ipp","include/boundary.hpp"],[("boundary::compute","src/boundary.ipp"),("boundary::vstatus","src/boundary.ipp")])
p("C06","Plane primitives are the geometric operations they claim to be",
 "For all inputs the bisector of two points is the plane through their midpoint, normal to their difference, with the first point on its positive side; the intersection of three planes with a non-zero triple product is the unique point lying on all three, and degenerate triples yield the origin; and the dot product is the plane evaluated at the point. Distances are the squared Euclidean distance.",
 ["inputs"],"all real coefficients (exact arithmetic idealisation of the floating-point code)",
 "Tests check a few integer planes, so a wrong sign or index in a term that is zero there is invisible.",
 ["src/planes.ipp","src/xyzset.ipp"],[("planes::intersect","src/planes.ipp"),("planes::dot","src/planes.ipp"),("planes::bisect","src/planes.ipp"),("xyzset::get_distance","src/xyzset.ipp")])
p("C07","Security radius never stops clipping too early",
 "The security radius kept while clipping is the largest squared distance from the point to any vertex of the cell inspected for that neighbour, and it is reported reached only when the neighbour's squared distance exceeds four times it. Hence any point at least as far away as that neighbour has a bisector that cuts no vertex of the cell.",
 ["inputs"],"all points, vertices and radii",
 "Tests use a few literal points; premature stops only lose neighbours in rare elongated cells.",
 ["src/sradius.ipp","src/cc.ipp"],[("sr::update","src/sradius.ipp"),("sr::is_reached","src/sradius.ipp"),("cci::compute","src/cc.ipp")])
p("C08","Status flags are independent bits",
 "A new or reset cell state has no flag set; setting or clearing one flag changes that flag and no other, for every flag and every prior state; reading a flag changes nothing. The shared-edge record counts exactly the marked edges of a triangle and, when one or two are marked, names the edge where the triangle is attached.",
 ["histories"],"all sequences of operations on all 256 states and all flags",
 "Tests set single flags on fresh states, not every combination.",
 ["src/status.ipp","src/boundary.ipp"],[("cc::state","src/status.ipp"),("boundary::vstatus","src/boundary.ipp")])
p("C09","Jagged neighbour container represents its rows faithfully",
 "For every jagged array, empty rows included, the container reports the number of rows, the length of each row and each element exactly as given, and element access writes through to that element only. Printing and saving produce one row per point, in order, each listing exactly that row's elements, and an empty container has size 0.",
 ["inputs"],"all lists of rows of any lengths",
 "Tests index a few non-empty rows; output is never compared.",
 ["src/dnn.ipp"],[("dnn::size / operator[] / proxy","src/dnn.ipp"),("dnn::print / savetxt","src/dnn.ipp")])
p("C10","Parameters keep what is stored and reach the algorithm unchanged",
 "A parameter set starts with the documented keys and defaults, returns for each key the last value stored for it, and is unaffected by stores to other keys or to copies of the set. Unknown keys are rejected by an exception on reading and on writing, and reading a value as an incompatible type is rejected rather than yielding garbage. The settings handed to the sort, neighbour search and clipping stages are the values of their own keys.",
 ["histories"],"all sequences of stores and loads over all keys",
 "Tests store and load a few keys one at a time.",
 ["include/arguments.hpp"],[("vtargs / vtargref","include/arguments.hpp"),("get_xyzset / get_knn / get_cc","include/arguments.hpp")])
p("C11","Result does not depend on threads, chunks or scheduling",
 "For every thread count, chunk size (chunking on or off, dividing the point count or not) and every interleaving of the worker threads, each point's cell is computed from the same inputs and delivered to that point's row, no point is skipped, and concurrently processed points use disjoint storage.",
 ["schedules","configurations"],"all thread counts, chunk sizes and interleavings",
 "Tests fix one or two thread counts and chunk sizes, and run one schedule.",
 ["src/votess.ipp"],[("__cpu__tesellate","src/votess.ipp"),("__cpu__recompute","src/votess.ipp"),("tmpnn_fill","src/votess.ipp")])
p("C12","Device code computes what the host code computes",
 "The device versions of the heap, neighbour search, boundary and clipping routines meet the same specification as the host versions in their own memory layout, for every stride, column and chunk. A device run therefore yields the same neighbour lists as a host run.",
 ["inputs","configurations"],"all inputs, strides and columns",
 "No GPU is available to the tests, which silently fall back to the host path.",
 ["src/heap.ipp","src/knn.ipp","src/boundary.ipp","src/cc.ipp","src/votess.ipp"],[("device overloads","src/heap.ipp, src/knn.ipp, src/boundary.ipp, src/cc.ipp"),("__gpu__tesellate","src/votess.ipp")])
p("C13","Recompute resolves every cell that more resources can resolve",
 "With recompute enabled, exactly the cells whose security radius was not reached are redone, with more candidates and, where one ran out of room, larger capacities, until each has reached it or all other points are candidates and no capacity that can still grow is exhausted. Rows of the other cells are untouched, rows redone replace the old ones, and the process terminates.",
 ["inputs","configurations"],"all point sets, initial k and capacities",
 "Tests enable recompute on sets where the first retry succeeds.",
 ["src/votess.ipp"],[("__cpu__recompute","src/votess.ipp")])
p("C14","Result assembly keeps every row",
 "Each processed point's row in the result is exactly the defined prefix of its computed neighbour row, in order, rows of other points are untouched, and the final container has one row per point whose concatenation and offsets reproduce those rows exactly, empty rows included.",
 ["inputs"],"all row contents and index lists",
 "Tests only compare neighbour sets for generic point sets without empty rows.",
 ["src/votess.ipp"],[("tmpnn_fill","src/votess.ipp"),("tmpnn_getdnn","src/votess.ipp")])
p("C15","Capacity limits are flagged and storage bounds respected",
 "Processing a point reads and writes only that point's own slices of the shared work arrays and only inside them, whatever the capacities. When a cell needs more planes or vertices than its capacity (or than can be indexed) the matching overflow flag is set and processing of that cell stops before anything is written out of bounds; if neither that nor a boundary failure occurs no such flag is set, and other cells' flags never change.",
 ["inputs","configurations"],"all capacities (0 to the index limits) and candidate lists",
 "Tests use ample capacities and cannot see silent out-of-slice writes.",
 ["src/cc.ipp","src/knn.ipp","src/boundary.ipp"],[("cci::compute overflow tests","src/cc.ipp")])
p("C16","Command line maps options to the matching parameter",
 "Every documented option sets exactly its own parameter to the given value (short and long form alike), in any order and combination, unspecified parameters keep their defaults, the device option selects the device used, the input file's points are all read in order, and a missing, unreadable or malformed input is reported with a non-zero exit status.",
 ["inputs","configurations"],"all option combinations and input files",
 "The command line program has no tests.",
 ["src/main.cpp"],[("parse_args / main","src/main.cpp")])
p("C17","Result is the Voronoi neighbour relation in floating point",
 "For every point set in general position the returned rows are exactly the face neighbours of each Voronoi cell of the set inside the unit cube, as computed in floating point.",
 ["inputs"],"all point sets, float and double",
 "Tests compare with voro++ on sampled sets only.",
 ["src/votess.ipp","src/cc.ipp","src/knn.ipp"],[("votess::tesellate","src/votess.ipp")])
p("C18","Arithmetic helpers compute what they name",
 "The minimum, maximum (two and three arguments), square, cube, floating remainder and swap helpers return the mathematical result for all finite arguments, and swap exchanges its two arguments.",
 ["inputs"],"all finite arguments of the integer and floating types used",
 "Tests try a handful of values.",
 ["src/utils.ipp"],[("utils","src/utils.ipp")])
p("C19","Top-level run composes the stages on one consistent data set",
 "A tessellation sorts the points once, hands the same sorted points and tables to every later stage, runs the selected device (falling back to the host when none exists), applies recompute exactly when requested, returns one row per input point that refers to positions in the sorted point set, and leaves standard output connected as it was.",
 ["inputs","configurations"],"all argument settings and devices",
 "Tests only inspect the returned rows for the default path.",
 ["src/votess.ipp"],[("votess::tesellate","src/votess.ipp"),("suppress::stdout","src/votess.ipp")])
p("C20","Python binding passes parameters, points and results through unchanged",
 "For every Python program using the module: setting a documented parameter to an int, bool, float or str stores exactly that value and leaves every other parameter alone, reading one returns the stored integer, and unknown keys, other types and integers that do not fit are rejected with an exception and change nothing; tesellate runs the library on the given points, the given parameters and the given device (device.cpu and device.gpu mean those devices; the default is gpu) and returns its result; a container's rows, elements and sizes read from Python are those of the container, any index outside raises IndexError, and a row stays usable after the last reference to its container is gone.",
 ["inputs","histories"],"all values, keys, indices and object lifetimes",
 "No test imports the Python module.",
 ["src/pybind11/pyvotess.cpp"],[("PYBIND11_MODULE","src/pybind11/pyvotess.cpp")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
