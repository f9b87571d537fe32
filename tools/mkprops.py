"""Writes properties.jsonl and MANIFEST.json (run by hand after editing the table below)."""
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
F = "src/pymech/neksuite/field.py"
M = "src/pymech/neksuite/mesh.py"
A = "src/pymech/neksuite/map.py"
S = "src/pymech/simsonsuite.py"
C = "src/pymech/core.py"
T = "src/pymech/meshtools.py"
D = "src/pymech/dataset.py"
K = "src/pymech/vtksuite.py"

P = []


def p(id, title, statement, over, qtext, why, files, mech, technique, note, observe=(), level="exploration", state=()):
    P.append((dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None),
    ), dict(technique=technique, level=level, level_note=note)))


RT = "runtime monitoring: "
ORA = "The verdict of each execution comes from code that shares nothing with pymech; it holds for the executions observed, which the evidence counts. "

p("C01", "Field files survive a write/read cycle bit for bit",
  "Writing a field with writenek and reading it with readnek gives back the dimensions, element order, step, word size, byte order, variables and every value of every element (rounded to single precision once if the file is in single precision; time at the 14 significant digits of the header), in the requested memory precision. Components that the file does not hold are zero. Writing what was read gives a byte-identical file.",
  ["inputs", "configurations"], "all dimensions, orders, sets of variables, numbers of scalars, word sizes, byte orders, element orders and values including infinities, NaN and denormals",
  "The tests with data present read five files and write two; the combinations of variables, order, precision and byte order are unbounded.",
  [F], [("writenek", F + ":376"), ("readnek", F + ":174")], RT + "round-trip oracle over generated fields, bitwise comparison and rewrite comparison",
  ORA + "Times are compared at 14 digits.", ["HexaData returned by readnek", "bytes of the files"])

p("C02", "writenek produces valid Nek5000 field files",
  "A file written by writenek, decoded independently by the Nek5000 format, has a 132-byte header with the word size, orders, element counts, time, step and variables of the field, the byte-order tag, the element order, and the values of each variable in element order, in the declared byte order and precision, with nothing missing and nothing extra. In 3D it ends with the minimum and maximum of every component of every element. This does not depend on how the arrays are laid out in memory.",
  ["inputs", "configurations"], "all fields, in-memory precisions, strides and layouts",
  "The tests only compare two written files with stored ones; an error shared by writer and reader is invisible to round trips.",
  [F], [("writenek", F + ":376"), ("Header.as_bytestring", F + ":134")], RT + "independent decoder as online oracle on every file written",
  ORA + "The decoder was written from the format description.", ["bytes of the files"])

p("C03", "readnek reads exactly what the file holds and what was asked for",
  "For a valid field file, whole or one part of a field written in several parts, readnek puts every value at the element its map gives, in the requested precision, and leaves elements that are not in the file at zero. A map holding zeros is replaced by the order in the file. Variables named in skip_vars stay zero and all the others are unaffected.",
  ["inputs", "configurations"], "all valid files, partitions into parts, sets of skipped variables, byte orders and word sizes",
  "The tests skip variables on two files; they cannot reach the product of sets of variables, parts, maps and precisions.",
  [F], [("readnek", F + ":174"), ("skip_elements", F + ":247")], RT + "files from an independent encoder, per-component comparison oracle",
  ORA, ["HexaData returned by readnek"])

p("C04", "Field headers convert to text and back without change",
  "A header built from numbers, from variable names or from the text of a file has the same meaning; its 132-byte text holds exactly those values, and reading it back gives an equal header (time at 14 significant digits). Reading leaves the stream just behind the header. Word sizes other than 4 and 8, missing variables, truncated headers and text streams are refused.",
  ["inputs"], "all header contents within the widths of the format",
  "The tests use two headers.",
  [F], [("Header", F + ":33"), ("read_header", F + ":151")], RT + "differential oracle between construction routes, text and parsed header", ORA, ["Header attributes", "header text"])

p("C05", "Damaged binary files are never read as if they were complete",
  "For a field, .re2, .ma2, SIMSON velocity or SIMSON plane file cut at any byte, the reader either fails or returns exactly what it returns for the complete file. It never returns partial data, and never refuses a file that has all its data. A field file with a wrong byte-order tag is refused.",
  ["inputs", "crash_points"], "all truncation points (a writer killed at any byte) of all valid files",
  "No test reads a damaged file.",
  [F, M, A, S], [("readnek", F + ":174"), ("readre2", M + ":612"), ("readma2", A + ":8"), ("readdns", S + ":13"), ("readplane", S + ":243")],
  RT + "fault injection: truncation at random bytes and at every section boundary, monitored against the result for the complete file",
  ORA + "A .re2 file cut exactly between two fields of conditions is a valid file with fewer fields and is judged as such.", ["outcome of the readers"], "fault_enumeration")

p("C06", "Binary meshes (.re2) are written and read correctly",
  "A mesh written with writere2, decoded independently, holds its vertices, curved edges and boundary conditions of all fields (internal connections left out) in the declared byte order. readre2 of that file, or of a .re2 file from elsewhere in either byte order, gives the same vertices, curvature, number of curved edges and conditions with their parameters; writing it again gives the same bytes. Meshes with more than two points per direction, or with the wrong number of coordinates, are refused without touching the file.",
  ["inputs", "configurations"], "all meshes, fields of conditions, curvature types, byte orders",
  "The tests read one mesh and write one, in one byte order.",
  [M], [("readre2", M + ":612"), ("writere2", M + ":764")], RT + "independent encoder and decoder as oracles on every file",
  ORA + "A mesh without fields of conditions reads back with one empty field.", ["bytes of the files", "HexaData returned by readre2"])

p("C07", "Text meshes (.rea) are written and read correctly",
  "A mesh written with writerea, decoded independently, holds its vertices, curved edges and conditions of all fields to the 7 digits of the format, with faces that have no condition written as internal; readrea of it, or of a .rea file with other numbers of parameters and switches, gives the same mesh. This holds for each of the layouts the format uses as the number of elements grows. Writing again what was read gives the same text.",
  ["inputs", "configurations"], "all meshes whose values have a decimal exponent of at most two digits, up to above a million elements",
  "The tests read one .rea file; the layouts for more than 999 and 999 999 elements are never executed.",
  [M], [("readrea", M + ":12"), ("writerea", M + ":199")], RT + "independent encoder and decoder as oracles on every file, size classes across layout changes",
  ORA + "The layout for more than 999 999 elements is observed once per thorough run.", ["text of the files", "HexaData returned by readrea"])

p("C08", "Writing never changes the mesh, and the bytes depend on the mesh only",
  "Writing a mesh or field in any of the three formats, in any order and any number of times, or failing to because it is refused, leaves every value and attribute of the mesh as it was. The same mesh gives the same bytes each time, and no other file is written.",
  ["histories", "inputs"], "all sequences of writes of all meshes",
  "Tests write once and look at the file, not at the mesh.",
  [F, M], [("writenek", F + ":376"), ("writere2", M + ":764"), ("writerea", M + ":199")], RT + "frame-condition monitor (snapshot before and after every write) and byte comparison over histories", ORA, ["HexaData", "bytes of the files"])

p("C09", "readma2 returns the map that the file holds",
  "For a valid .ma2 file in either byte order, readma2 returns one row of integer vertex numbers per element and the integer rank of each element, in file order, equal to what the file holds.",
  ["inputs"], "all element counts, 4 or 8 vertices per element, byte orders, 32-bit values, trailing data",
  "One stored file is read by the tests, when it is present.", [A], [("readma2", A + ":8")], RT + "files from an independent encoder, exact comparison", ORA, ["arrays returned"])

p("C10", "SIMSON velocity fields and planes are read correctly",
  "readdns returns the grid (x and z uniform over the periodic box, y on Chebyshev points scaled by dstar), the time, and for velocity and every scalar the mean profile held by the file; readplane returns the coordinates and the data in the order of the file. This holds in either byte order, for any sizes, flow types and numbers of scalars or dimensions.",
  ["inputs", "configurations"], "all grid sizes, numbers of scalars, flow types except 4 and 5, byte orders; planes of 1 to 3 dimensions",
  "The tests read one of each, when present.", [S], [("readdns", S + ":13"), ("readplane", S + ":243")], RT + "files from an independent encoder; analytic oracle for grid and mean mode",
  ORA + "Known finding: single modes other than the mean come back wrong (inverse transform over the wrong axes), so only the mean mode is judged. Flow types 4 and 5 are excluded.", ["HexaData returned by readdns", "tuple returned by readplane"])

p("C11", "What a mesh says about itself is true",
  "Limits are the minimum and maximum of every component over all elements; the point list holds every point of every element once, x fastest; centroids and face centres are the means of the points and of the face corners; the smallest edge is the shortest distance between corners that share an edge. Asking does not change the mesh, and limits cannot be overwritten.",
  ["inputs"], "all meshes and fields in 2D and 3D, any orders, from one element up",
  "Tests query a few stored meshes.", [C], [("DataLims", C + ":31"), ("Elem.smallest_edge", C + ":149"), ("Elem.face_center", C + ":186"), ("HexaData.get_points", C + ":492")],
  RT + "independent recomputation of every query", ORA, ["values returned"])

p("C12", "Mesh checks accept exactly the valid meshes",
  "check_connectivity returns True if and only if every internal and periodic connection names an existing face whose own connection of the same type names it back, and the centres of internally connected faces agree within the tolerance times the smallest edge; otherwise it reports what is wrong and raises ValueError. check_bcs_present returns True if and only if every face of every element has a condition in every field. Neither changes the mesh.",
  ["inputs"], "all meshes, all ways to break a connection, all tolerances (points within 0.1% of the tolerance are not judged)",
  "The tests check a handful of valid meshes, and no broken ones.", [C], [("HexaData.check_connectivity", C + ":278"), ("HexaData.check_bcs_present", C + ":358")],
  RT + "mutated meshes judged by an independent decision procedure", ORA, ["return value", "exceptions", "log"])

p("C13", "Merging meshes glues exactly the faces in contact",
  "After merging b into a, the elements of a and then those of b are unchanged, with connections renumbered and the element map of b following that of a, and two faces, one from each, are connected to each other if and only if they are in contact within the tolerance and carry conditions that merging may replace; periodic faces that met are reconnected across the seam. The return value counts the new connections, ignore_all_bcs glues nothing, ignore_empty=False glues also faces without condition. b is not changed and shares no data with the result, and meshes of another dimension or order are refused.",
  ["inputs", "histories"], "all cuts of all meshes into two, element orders, orientations, periodic seams, gaps, numbers of fields",
  "The tests merge three pairs of stored meshes.", [C], [("HexaData.merge", C + ":383"), ("HexaData.offset_connectivity", C + ":518")],
  RT + "cut-and-merge workloads with known topology, independent connectivity audit", ORA + "Both meshes have the same number of fields; periodic faces only meet periodic faces.", ["HexaData after merge"])

p("C14", "keep_elements keeps exactly the selected elements",
  "The result has the selected elements in their original order with their positions and curvature, conditions relabelled, connections between kept elements renumbered consistently, and connections to removed elements replaced by the given condition in every field. Element map, element count and curved-edge count match the result, the selection passed in is not modified, elements named more than once are kept once, and element numbers out of range, negative ones included, are refused without touching the mesh.",
  ["inputs"], "all meshes, all subsets in any order, replacement conditions, numbers of fields",
  "One test keeps one subset.", [T], [("keep_elements", T + ":1206")], RT + "before/after oracle and connectivity audit", ORA, ["HexaData after the call"])

p("C15", "Internal connections can be deleted and regenerated exactly",
  "delete_internal_bcs clears exactly the internal connections, and generate_internal_bcs creates them, in every field, for exactly the pairs of faces in contact within the tolerance that have no condition yet; nothing else changes, and the returned counts are right. Deleting and regenerating gives back an identical mesh; doing either twice finds nothing more. Meshes with edges of zero length are refused.",
  ["inputs", "histories"], "all meshes in 2D and 3D, orientations, element orders, tolerances, partly connected meshes, gaps",
  "The tests do it on one or two meshes.", [T], [("delete_internal_bcs", T + ":1095"), ("generate_internal_bcs", T + ":1122")], RT + "meshes with known topology as oracle", ORA + "Meshes with at least one field.", ["HexaData", "return values"])

p("C16", "Extrusion turns each 2D element into one element per layer",
  "extrude gives, for every 2D element and layer, one 3D element at the z values asked for, whose lateral conditions, periodic and internal connections and curvature are those of the 2D element in its own layer, connected to the layers above and below, with the requested (by default periodic) conditions at the ends in every field. The connectivity is valid and the volume is area times height. With internal_bcs=False internal connections are left blank and the rest is the same; the 2D mesh is not modified; 3D or high-order input and one-sided periodic ends are refused.",
  ["inputs", "configurations"], "all 2D meshes, curvature, spacings, end conditions, numbers of fields",
  "The tests extrude one mesh.", [T], [("extrude", T + ":12")], RT + "element-by-element oracle located by position, connectivity audit", ORA, ["HexaData returned"])

p("C17", "Refined extrusion gives a conforming mesh",
  "extrude_refine gives a mesh in which every face either coincides with exactly one face of another element or lies on the boundary with the condition of the boundary it comes from, with valid (including periodic) connections, the expected number of elements, positive Jacobians and the exact volume. All elements at an edge agree on its curvature, which follows the 2D curve it came from, also where an edge was split; an edge inserted between two others deviates from a straight line by the mean of what they do. Conditions keep their parameters. Without splitting functions it equals extrude; unsuitable numbers of layers or parameters, one-sided periodic ends, 3D input and lines that do not cross elements properly are refused.",
  ["inputs", "configurations"], "structured 2D regions (boxes, sheared, annular), one or two splitting lines, positions of the finest zone, layers, curvature, end conditions",
  "The tests run one configuration and compare counts.", [T], [("extrude_refine", T + ":161"), ("extrude_mid", T + ":389")], RT + "geometric conformity monitor, connectivity and curvature audit",
  ORA + "Lines parallel to element columns; not periodic across the split axis.", ["HexaData returned"])

p("C18", "gen_box fills the box with a connected uniform grid",
  "gen_box gives nx times ny equal elements that tile the box exactly, with neighbours connected (or blank with internal_bcs=False), opposite periodic sides connected to each other, and the requested conditions, parameters of connection and element labels on each side in every field. Sides without conditions are periodic, the variables are those asked for, and empty boxes are refused.",
  ["inputs", "configurations"], "all sizes, limits, variables and side conditions",
  "The tests make two boxes.", [T], [("gen_box", T + ":1387")], RT + "cell-by-cell analytic oracle, connectivity audit", ORA + "Periodic conditions are given on both opposite sides.", ["HexaData returned"])

p("C19", "gen_circle makes a valid mesh of the disc",
  "gen_circle gives ns^2 + 4 ns no elements with positive Jacobians that cover the polygon inscribed in the circle exactly, connected everywhere inside, whose only boundary faces are 4 ns arcs of the requested radius with ends regularly spaced on the circle and the requested conditions in every field. Its inner square has ns times ns elements of the requested size. It is symmetric by quarter turns, every condition is labelled with its own element and face, and with internal_bcs=False the internal faces are blank. The layers around the square lie at the fractions bl_fun gives along the diagonals; by default they grow geometrically from the size of the elements of the square. Where the curvature function is 0 a ring is straight, where it is 1 its vertices are regularly spaced in angle.",
  ["inputs", "configurations"], "all feasible radii, square sizes, divisions, curvature and spacing functions that map 0 to 0 and 1 to 1, conditions and variables",
  "The tests make a few discs and check the connectivity.", [T], [("gen_circle", T + ":1553")], RT + "geometric and connectivity audit of every mesh", ORA, ["HexaData returned"])

p("C20", "map2D moves vertices and edge midpoints by the transformation",
  "map2D returns a new mesh whose vertices are exactly the images of the vertices; edges that were curved, and all edges or all boundary edges if asked, become midpoint-curved through the image of their old midpoint, and other edges stay straight. Conditions, connections, fields and metadata are those of the original, which is not modified.",
  ["inputs"], "all 2D meshes, arcs and midpoint curvature, transformations returning tuples, lists or arrays, options",
  "The tests map one mesh.", [T], [("map2D", T + ":1841")], RT + "point-by-point oracle", ORA + "Meshes with at least one field.", ["HexaData returned"])

p("C21", "Rotation and edge geometry are exact",
  "rotate_2d turns all points and midpoint curvature by the angle about the centre in the x-y plane, leaving z, arcs' radii, conditions and metadata alone, and turning back restores the mesh. edge_mid returns the point of a straight, arc, midpoint or sphere edge halfway between its ends, and edge_circle the circle through the ends and that point, in their plane, with the sign of the radius following the side of the bulge. Neither of the last two modifies the element.",
  ["inputs"], "all meshes and fields, centres, angles; all edges and curvature types (arcs in planes of constant z)",
  "The tests rotate one mesh about the origin.", [T], [("rotate_2d", T + ":1353"), ("edge_mid", T + ":913"), ("edge_circle", T + ":1006")], RT + "analytic oracle", ORA, ["HexaData", "values returned"])

p("C22", "The exponential refinement parameter gives the requested length",
  "For any number of elements, first element length and total length, exponential_refinement_parameter returns the positive ratio for which the geometric progression adds up to the total length (1 for a single element), whether refining, coarsening or nearly uniform.",
  ["inputs"], "up to 200 elements, totals within eight decades of the first element",
  "The tests try a few values.", [T], [("exponential_refinement_parameter", T + ":1267")], RT + "residual oracle with exact summation", ORA, ["value returned"])

p("C23", "Data sets hold every value at its place and time, or are refused",
  "open_dataset, directly or through xarray, of a field on a box of elements aligned with the axes gives coordinates and variables in which every value of every element is at its place, whatever the order of the elements in the file; drop_variables removes exactly those named. open_mfdataset stacks files along time in order. A mesh with any element that is not aligned with the axes, in increasing order, is refused.",
  ["inputs", "configurations"], "all boxes of elements in 2D and 3D, orders, spacings, variables, precisions, byte orders, element orders",
  "The tests open two stored files.", [D], [("_open_nek_dataset", D + ":69"), ("PymechXarrayBackend", D + ":110")], RT + "value-by-value oracle from the generated field", ORA + "Element interfaces share exactly equal coordinates.", ["xarray.Dataset"])

p("C24", "Files are recognised as Nek fields by their whole extension",
  "A path is taken for a field file if and only if it ends in .fld or in .f followed by exactly five digits, whether given as string or path object, by the recognition function and by the xarray backend alike, and whether or not the file exists. open_dataset refuses all others.",
  ["inputs"], "all names", "The tests try two names.", [D], [("can_open_nek_dataset", D + ":29"), ("PymechXarrayBackend.guess_can_open", D + ":111")], RT + "independent decision procedure on generated names", ORA, ["value returned"])

p("C25", "Any sequence of mesh operations leaves a consistent mesh",
  "After any sequence of generating, rotating, deleting and regenerating connections, selecting, merging, mapping, extruding, and writing to and reading from files, the mesh has the predicted number of elements, volume, and area under each boundary condition in each field; its counts, element map and array shapes are consistent; its connections are mutual, between faces in contact and labelled with their own element; and check_connectivity accepts it.",
  ["histories"], "sequences of three to nine operations from five kinds of initial meshes", "Tests apply one or two operations to one mesh.",
  [T, C, M, F], [("all mesh operations", T)], RT + "model-based monitoring of operation histories with invariant checks after every step", ORA + "Tolerances are relaxed after passing through a .rea file, which has 7 digits.", ["HexaData after every step"])

p("C26", "Results share nothing with inputs or with each other",
  "Meshes returned by generators, extrusions, mapping, merging and readers share no storage with the meshes they were made from, with other results, or with the default arguments, and no two elements of a mesh share storage: changing one never changes another. Lists and arrays passed in are not modified.",
  ["histories", "inputs"], "all of these operations, then arbitrary changes to inputs or results", "Tests look at one result and throw it away.",
  [T, C, M, F], [("copies of elements and lists", T)], RT + "scribble monitor: inputs, results and single elements overwritten, everything else compared with snapshots; storage-overlap check", ORA, ["HexaData", "array storage"])

p("C27", "VTK conversion keeps every cell, point and value",
  "hexa2vtk gives one hexahedron or quadrilateral per grid cell of every element (one per element when downsampling), with the corners in VTK order at the coordinates of the field, and at every corner the velocity, pressure, temperature and scalars of the field there. Cells start where their offsets say, all points belong to cells, and writevtk gives this dataset to the writer under the name asked for, with the extension .vtp. The field is not modified.",
  ["inputs"], "all 2D and 3D fields with coordinates, orders, variables", "The tests are skipped without VTK, and then look at one file.", [K], [("hexa2vtk", K + ":25")],
  RT + "stand-in VTK classes record what they are given; corner-by-corner oracle", ORA + "VTK itself is not installed: the calls into it are recorded by a stand-in.", ["calls into VTK"])

p("C28", "Results depend on the arguments only",
  "Any operation gives the same result on the same arguments whatever operations, including failed ones, came before it, and whatever the state of the random generators, the floating-point error settings and the level of logging. No operation changes the state of the process: random generators, floating-point settings, working directory, environment, locale, warning filters.",
  ["histories"], "random histories over some twenty kinds of operations with failures in between", "Each test runs in its own history, always the same.",
  [C, T, F, M, A, S], [("no module state", "src/pymech")], RT + "replayed histories with digests of all results, monitor of process-wide state", ORA, ["digest of all results", "process state"])

p("C29", "A writer that reports success has written the complete file",
  "If there is not enough room for the file, whatever byte the room ends at, each of the three writers raises an error instead of returning; if it returns, the complete file is on disk. The mesh is not modified, and writing again once there is room gives the complete file.",
  ["fault_sequences", "crash_points"], "all sizes of room for all files", "No test makes a write fail.", [F, M], [("writes through the file object", F + ":376")],
  RT + "fault injection: file size limits at random and boundary bytes, full device; monitored outcome", ORA + "A full disk is modelled by a limit on file size and by /dev/full.", ["outcome of the writers", "bytes of the files"], "fault_enumeration")

p("C30", "Concurrent work on different meshes and files is independent",
  "Threads that work at the same time, each on its own meshes and files, get exactly the results they get alone.",
  ["schedules"], "all schedules of two to four threads over the operations of the package", "All tests are single-threaded.", [C, T, F, M, A, S], [("no shared mutable state", "src/pymech")],
  RT + "schedule perturbation at every line of pymech (injected yields), results compared with sequential digests", ORA + "Schedules are sampled, their number and the switches inside pymech are in the evidence.", ["digest of all results", "thread switches"])

p("C31", "Readers and writers leave no file open",
  "When a reader or writer returns, the files it opened have been closed, and after one failed, for whatever reason, no file stays open once its error has been dealt with.",
  ["fault_sequences", "inputs"], "all readers and writers; complete, cut, empty, foreign and missing files; unsuitable meshes; missing folders", "Tests do not look at descriptors.", [F, M, A, S, D], [("close at the end of each function", F)],
  RT + "descriptor-table and resource-warning monitor around every call", ORA, ["/proc/self/fd", "ResourceWarning"], "fault_enumeration")

p("C32", "New meshes are blank and renumbering makes room exactly",
  "A new mesh has the requested numbers of elements, fields, components and points in the requested precision, numbered in order, all zero and without conditions, to be written in double precision and the byte order of the machine, and its elements are independent. offset_connectivity adds the offset to the connected element of every internal and periodic connection, and to the own number in the labels of all elements, from the given element on, and changes nothing else: elements inserted or removed at any position after renumbering leave a valid mesh. update_ncurv sets the number of curved edges to the number of edges that have a curvature, and changes nothing else.",
  ["inputs", "configurations"], "all dimensions, sizes, variables and precisions of meshes; all positions and numbers of inserted and removed elements",
  "No test renumbers part of a mesh or looks at a new mesh.", [C], [("HexaData.__init__", C + ":236"), ("offset_connectivity", C + ":518"), ("update_ncurv", C + ":506")],
  RT + "per-record oracle on renumbering, validity oracle after insertion, removal as exact inverse", ORA, ["every condition of every field of every element"])

p("C33", "Mesh operations do not depend on the unit of length or the axes",
  "Measured in another unit of length (a power of four times the first), and with the axes turned by quarter turns about z, every mesh operation gives the same mesh in the new measure: queries of elements, checking, deleting and regenerating connections, merging, extruding, refining, rotating, mapping, generating, edge geometry and mesh files. Nothing is connected, curved, accepted or refused in one frame and not in the other: tolerances are relative to the mesh.",
  ["inputs", "configurations"], "all meshes and operations, units over eighteen decades, including faces within and outside the tolerances",
  "Tests use meshes of about unit size.", [T, C, M], [("smallest_edge", C + ":149"), ("generate_internal_bcs", T + ":1122"), ("merge", C + ":383"), ("edge_circle", T + ":1006"), ("gen_circle", T + ":1553"), ("map2D", T + ":1841")],
  RT + "metamorphic monitor: the same operation in two frames, results brought back and compared", ORA + "Units are powers of four, so that scaling is exact and decisions next to a tolerance are the same.", ["HexaData, values and outcomes in both frames"])

p("C34", "Equivalent forms of the arguments give the same result",
  "Every operation gives the same result however the same arguments are handed over: sequences of numbers as list, tuple or NumPy array (contiguous or not), sequences of names as list or tuple, numbers and flags of Python or NumPy, whole numbers as integers or floats, file names as strings or path objects, arguments by position or name, default values left out or written out, types by any of their names, and meshes whose sizes, variables or element map are stored as another kind of sequence, whose coordinates and fields are stored in another order of memory, or, where the operation does not modify them, whose arrays are read-only.",
  ["inputs", "configurations"], "all public operations, all such forms", "Tests call each function with one form of arguments.",
  [T, C, M, F, A, S, D], [("public functions", T), ("public readers and writers", F)],
  RT + "metamorphic monitor: digests of results and of modified meshes and files over forms of the arguments", ORA + "HexaData.var is a list or tuple. Data types of HexaData are given by name.", ["digest of all results", "bytes of the files"])

p("C35", "Mesh operations do not depend on how elements and fields are numbered",
  "With the elements of a mesh numbered in another order, and the fields of its conditions stored in another order, every mesh operation does the same to the same element: queries, checking, deleting and regenerating connections, merging, extruding, refining, rotating, mapping, keeping elements, renumbering and mesh files. The result is that of the original mesh in the corresponding order, with all connections, and what is refused in one order is refused in every order.",
  ["inputs", "configurations"], "all meshes and operations, all permutations of elements and fields of conditions", "Tests use meshes in the order their generator numbered them, mostly with one field of conditions.",
  [T, C, M], [("extrude_refine", T + ":161"), ("keep_elements", T + ":1206"), ("generate_internal_bcs", T + ":1122"), ("check_bcs_present", C + ":358"), ("merge", C + ":383")],
  RT + "metamorphic monitor: the same operation on a renumbered mesh, results brought back and compared", ORA + "The labels of faces without condition carry no meaning and are not compared.", ["HexaData, values and outcomes for both orders"])

p("C36", "Operations touch exactly the files they are given, by their literal names",
  "A reader opens the files it is given, under exactly the name it is given, for reading only, and leaves every file, link, folder, mode and time of modification as it was. A writer creates or replaces the one file it is given and nothing else, whatever was there before; the other operations touch no file. Names with spaces, tildes, dollars, patterns, case differences, unusual suffixes or none, links, relative and absolute paths are taken literally. A failed operation creates or removes no other file or folder.",
  ["inputs", "configurations", "fault_sequences"], "all readers and writers, names, folders and neighbouring files; complete, cut and missing files", "Tests read and write files with plain names and do not look at what else is there.",
  [F, M, A, S, D], [("writenek", F + ":376"), ("readrea", M + ":12"), ("writere2", M + ":764"), ("readma2", A + ":8"), ("open_dataset", D + ":41")],
  RT + "audit-hook monitor of every file-system event, snapshots of the whole tree, results compared with those under a plain name", ORA + "A leading ~ given to open_mfdataset is expanded by xarray itself and not used.", ["audit events", "tree of files with contents, modes and times"])

p("C37", "Interrupted operations leave their inputs and the process as they were",
  "When an operation is interrupted, runs out of memory, or the function it is given fails, at whatever point, then the exception reaches the caller, the meshes and arguments it only reads are unmodified, no file stays open, the state of the process (working folder, error settings, warnings, logging, random state) is as before, and the same operation repeated gives the result it would have given in the first place.",
  ["fault_sequences"], "all operations, all lines of pymech at which an exception can occur, all calls of the functions given", "Tests interrupt nothing.",
  [T, C, F, M, A, S, D], [("extrude", T + ":12"), ("map2D", T + ":1841"), ("merge", C + ":383"), ("writenek", F + ":376"), ("writere2", M + ":764")],
  RT + "exceptions injected at chosen line events inside pymech; snapshots, process state and descriptor table before and after, repetition", ORA + "Nothing is claimed about meshes that the operation modifies in place, and about files being written.", ["snapshots of inputs", "digest of the repeated result"], "fault_enumeration")

p("C38", "Work done over and over leaves nothing behind",
  "Reading, writing, generating and changing meshes and fields any number of times does not accumulate memory once the results are dropped, whether the operation succeeds or fails, and leaves no threads, child processes or temporary files.",
  ["histories"], "all sequences of operations on different data, successful and failing", "Tests run every operation once or twice and do not look at memory.",
  [T, C, F, M, A, S, D], [("public readers and writers", F), ("public functions", T), ("open_dataset", D + ":41")],
  RT + "allocation tracing over rounds of work with fresh data, census of threads, processes and temporary files", ORA + "Growth is reported from twice the data of one round on; six rounds are made.", ["tracemalloc", "/proc/self/task", "folder of temporary files"])

p("C39", "Operations compose as the geometry does",
  "Two ways to the same mesh lead to the same mesh: selecting elements before or after extruding, mapping, or another selection; mapping by one transformation after the other or by both at once; turning before or after extruding and merging, by an angle in one go or in two, and back; taking a mesh apart and merging the parts, in any order and grouping; merging faces without condition or regenerating connections; two stacks of layers or boxes next to each other merged, or made as one; extruding and refining with all of the mesh on one side of the line or without connections and regenerating them; and doing any of it before or after writing to a file. Wider tolerances accept and connect no less than narrower ones.",
  ["histories", "inputs"], "all meshes, transformations, selections, tolerances and pairs of operations with a law between them", "Tests apply operations one at a time.",
  [T, C, M, F], [("keep_elements", T + ":1206"), ("map2D", T + ":1841"), ("merge", C + ":383"), ("extrude", T + ":12"), ("extrude_refine", T + ":161"), ("generate_internal_bcs", T + ":1122"), ("gen_box", T + ":1387")],
  RT + "metamorphic monitor: twenty-odd laws between operations, both sides computed by the real code and compared", ORA + "The labels of faces without condition and the unused parameters of connections are not compared.", ["HexaData and numbers on both sides"])

p("C40", "Copies of meshes and data sets are as good as the originals",
  "Meshes, fields, limits, headers and data sets, wherever they came from, can be copied with copy.deepcopy and pickled. The copy equals the original, shares no storage with it, can be modified without changing it, and every operation does the same to the copy as to the original. Copied limits remain unmodifiable.",
  ["inputs", "configurations"], "all results of the public operations, all ways of copying, all operations on the copies", "Tests copy nothing.",
  [C, F, D, T], [("HexaData", C + ":233"), ("Elem", C + ":104"), ("DataLims", C + ":31"), ("Header", F + ":33")],
  RT + "snapshots and storage of copies against originals; digests of the outcome of operations on both", ORA + "Data sets are pickled with protocol 2 and later, as xarray requires.", ["HexaData, Elem, DataLims, Header, Dataset before and after"])

p("C41", "Results do not depend on how and where Python runs",
  "Every operation gives the same result, and what is refused is refused, in any interpreter: with any options (optimisation that removes assertions and docstrings included), environment, locale, seed of the hash function, working folder, standard streams, limits on open files and recursion, in the main thread or another, traced or not, with the garbage collector on or off, with modules of the same short names elsewhere on the path, and, apart from data sets, without optional packages. The modules of pymech can be imported in any order, and importing them changes nothing in the process. Files that are written get the permissions the process asks for.",
  ["inputs", "configurations"], "all options, environments and states of an interpreter, all orders of imports, all operations", "Tests run in one interpreter, with one set of options.",
  [C, D, T, "src/pymech/log.py"], [("logger", "src/pymech/log.py:22"), ("open_mfdataset", D + ":64"), ("HexaData", C + ":233"), ("keep_elements", T + ":1206")],
  RT + "digests of operations in interpreters started under random circumstances against this process; state of the process and of third-party packages before and after imports; outcome of all refusals; permissions of files", ORA + "Standard output is closed only where rich, whose handler fails without it, is missing.", ["interpreters with their options, environments, folders, streams, limits"])

p("C42", "What is refused is refused with a reason and changes nothing",
  "Input that an operation does not accept (meshes of another dimension or order, edges without length, elements that do not exist, one-sided periodic ends, unsuitable layers or parameters, empty boxes, broken connections, word sizes that do not exist, damaged or missing files, folders in the place of files, text streams, other file types) is refused by an error of the kind documented, with a message. Then the meshes and arguments are as they were, every file and folder is as it was, a file that was to be replaced included, the state of the process is as before, and the meshes can be used further with the results they would have given otherwise.",
  ["inputs", "configurations"], "all refused uses of all operations, faults at any element, face, field, argument or byte", "Tests refuse next to nothing, and look at the error only.",
  [C, D, T, F, M], [("merge", C + ":383"), ("generate_internal_bcs", T + ":1122"), ("keep_elements", T + ":1206"), ("writenek", F + ":376"), ("writere2", M + ":764")],
  RT + "refused uses with the fault at random places, with snapshots of meshes, arguments, process and folders (contents, modes, times, links) before and after; later use compared with that of untouched copies", ORA, ["refused uses: operation, reason, place", "files in place", "carrying on afterwards"])


def main():
    with open(V / "properties.jsonl", "w") as fp:
        for a, _ in P:
            assert len(a["title"]) <= 80, a["title"]
            fp.write(json.dumps(a) + "\n")
    checks = []
    for a, b in P:
        cmd = f"/opt/venv/bin/python harness/run.py {a['id']}"
        checks.append(dict(property=a["id"], quick_cmd=cmd, thorough_cmd=f"VERIF_TIER=thorough {cmd}", evidence_file=f"evidence/{a['id']}.json", **b))
    man = dict(version=1, setup_cmd="/opt/venv/bin/python harness/selftest.py", checks=checks, not_applicable=[],
               notes="Pure Python package: monitors and fault injection; no hooks in /repo are needed. Known findings and fixes: known_findings.txt.")
    (V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")


if __name__ == "__main__":
    sys.exit(main())
