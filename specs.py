"""Configurations and, per property, what is built and how it is run."""
CONFIGS = {
    # one sanitizer family per build, reports fatal
    "san": dict(flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    "san0": dict(flags=["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    "dbg": dict(flags=["-O0", "-DDEBUG"]),
    "opt": dict(flags=["-O2"]),
    "o3": dict(flags=["-O3", "-march=x86-64-v3"]),
    "tsan": dict(flags=["-O1", "-fsanitize=thread"]),
    # the code's branches for other platforms
    "msvc": dict(flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DKIT_PLATFORM=1"]),
    "other": dict(flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DKIT_PLATFORM=2"]),
    # the other compiler the code supports; left out of a run where it cannot build the harness (G03 decides that)
    "gcc": dict(cxx="g++", flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    "gopt": dict(cxx="g++", flags=["-O2"]),
    "gtsan": dict(cxx="g++", flags=["-O1", "-fsanitize=thread"]),
    # counts the basic blocks executed
    "meter": dict(flags=["-O0", "-fsanitize-coverage=trace-pc", "-mllvm", "-sanitizer-coverage-prune-blocks=0"]),
    "gmeter": dict(cxx="g++", flags=["-O0", "-fsanitize-coverage=trace-pc"]),
    "msan": dict(flags=["-O1", "-fsanitize=memory", "-fsanitize-memory-track-origins=2"]),
}
SPECS = {}
WIN = "-I" + __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "harness", "win")


def spec(pid, rule, runs, thorough, gcc=(0.25, 0.5), **kw):
    """gcc: how much of what clang's builds do gcc's do too, (quick, thorough)"""
    kw.setdefault("src", [pid + ".cpp"])
    like = {"opt": "gopt", "san": "gcc", "tsan": "gtsan", "dbg": "gopt"}
    for of, share, kinds in ((runs, gcc[0], ("opt",)), (thorough, gcc[1], ("opt", "san", "tsan"))):
        of += [dict(x, config=like[x["config"]], scale=x["scale"] * share) for x in of if share and x["config"] in kinds]
    SPECS[pid] = dict(rule=rule, runs=runs, thorough=thorough, **kw)


def r(config, scale=1.0, shards=1, **kw):
    return dict(config=config, scale=scale, shards=shards, **kw)


spec("T01",
     "Integers rendered by to_text and compared byte for byte with a decimal counter kept as digits; every 8, 16 and 32 bit value, and for 64 bit "
     "values every power of ten and two +- 1000, every 8 digit block and random values of every length. Non-trivial: distinct (type, value) outside "
     "the exhaustive spans, plus one per exhausted span of 2^24 values.",
     [r("san", 0.05), r("opt", 1, 8)], [r("san", 0.4), r("dbg", 0.4), r("opt", 40, 8)], lib=["to_text"], gcc=(0, 0.1), min_distinct=1000,
     require={"values_exhausted_32": 2**33 - 10})
spec("T02",
     "Bit patterns of float and double rendered, bounded by guard bytes, and parsed back with the C library; every sign and exponent with extreme mantissas, "
     "strided or (thorough) all 2^32 float patterns, integers, decimals and powers of two; and, where the user gave a conversion of his own, its calls recorded; the same texts in a German locale and under each rounding. Non-trivial: distinct double patterns and distinct strata.",
     [r("san", 0.1), r("opt", 1, 8)], [r("san", 0.5), r("opt", 1, 8)], lib=["to_text"], src=["T02.cpp", "T02user.cpp"], min_distinct=1000, require={"users_own": 200, "other_locale": 500, "other_rounding": 500})
spec("H01",
     "Random data checksummed by a random sequence of byte, 4 byte and 8 byte calls in eight polynomials, from random running values, against the bitwise definition; every table entry "
     "through every lane; compile time literals; more than 2^32 words. Non-trivial: distinct (data, polynomial, start).",
     [r("san", 0.15), r("opt", 1)], [r("san", 1, 4), r("opt", 3, 4)], min_distinct=10000, require={"widths": 3, "table_entries": 2048}, case_cpu=80)
spec("H02",
     "Random arrays of nine element types hashed whole, from a basis, and in two parts, and NUL terminated text, and more than 2^32 elements, against the byte definition. Non-trivial: distinct (bytes, width).",
     [r("san", 0.3), r("opt", 1)], [r("san", 1, 4), r("opt", 3, 4)], min_distinct=10000, require={"types": 9}, case_cpu=80)
spec("E01",
     "Random bytes encoded by a reference encoder, padded or not or followed by a non digit, decoded into guarded memory from an exactly sized copy; every byte value as a digit in "
     "every position; sizes over the whole size_t range; a text of more than 2^32 bytes; compile time decoders. Non-trivial: distinct byte sequences.",
     [r("san", 0.4), r("opt", 0.4)], [r("san", 1, 4), r("dbg", 0.2, 4)], min_distinct=10000, require={"length_mod_3_and_kind": 12}, case_cpu=80)
spec("E02",
     "Random valid streams (literals, spans of every length and distance, overlapping, 4096 back) and greedily compressed data, decoded into guarded memory from an exactly sized copy "
     "and compared with the reference expansion; one of more than 2^32 bytes. Non-trivial: distinct encoded streams.",
     [r("san", 0.5), r("opt", 1)], [r("san", 1, 4), r("opt", 1, 4)], min_distinct=3000, require={"span_lengths": 16, "overlapping_spans": 1000, "far_spans": 1000}, case_cpu=80)
spec("B01",
     "Random histories of append, resize, append_n, remove, clear, assignment, copying and element writes over three bounded sequences of eight element types and five capacities, "
     "compared with model sequences after each operation, between guard bytes; capacities beyond 2^32. Non-trivial: distinct operation sequences.",
     [r("san", 0.6), r("opt", 1), r("dbg", 0.5)], [r("san", 1, 3), r("opt", 1, 3), r("dbg", 0.5, 2)], lib=["to_text"], min_distinct=5000, require={"refused": 1000, "op_fill": 60})
spec("B02",
     "Random histories over bounded sequences of objects which record their own lifetime (with and without default or copy construction, and nested), and dictionaries of them: the "
     "set of live objects is compared with the containers' contents after each operation. Non-trivial: distinct operation sequences.",
     [r("san", 0.6), r("opt", 1)], [r("san", 1, 4), r("opt", 1, 4)], lib=["to_text"], min_distinct=5000, require={"objects": 100000})
spec("B03",
     "Random, rising, falling and tied insertions mixed with removals at six capacities against a multiset with item identities, and every permutation of up to 7 items; capacities beyond 2^32. "
     "Non-trivial: distinct operation sequences.",
     [r("san", 0.5), r("opt", 1)], [r("san", 1, 4), r("opt", 1, 4)], min_distinct=5000, require={"refused": 1000})
spec("B04",
     "Random single bit and whole set operations at nine sizes; every bit compared with a model after each; sets of more than 2^32 bits. Non-trivial: distinct operation sequences.",
     [r("san", 0.3), r("opt", 1)], [r("san", 0.6, 4), r("opt", 1, 4)], min_distinct=5000, require={"op_bit": 40}, case_cpu=80)
spec("D01",
     "Random binds, rebinds and finds over five name types and six capacities, with unused slots zero or junk, against a map; every name and value rechecked after each bind; values which own memory, each construction and destruction recorded by address and "
     "balanced. Non-trivial: distinct name sequences.",
     [r("san", 0.3), r("opt", 1)], [r("san", 1, 4), r("opt", 1, 4)], min_distinct=4000, require={"refused": 1000, "rebound": 1000, "find_absent": 1000, "owner_replaced": 1000, "searched": 10000})
spec("P01",
     "Random insertions at both ends and removals over four queues sharing a pool of eight capacities, against model deques, heads and tails of all queues compared after each "
     "operation, drained at the end; a full 65536 slot pool. Non-trivial: distinct operation sequences.",
     [r("san", 0.4), r("opt", 1)], [r("san", 1, 4), r("opt", 1, 4)], min_distinct=4000, require={"refused": 1000, "removed_from_empty": 1000})
spec("P02",
     "Random slot allocation and release in stack, queue and random order at seven capacities, reset in between, against the set of slots in use, then refilled completely. "
     "Non-trivial: distinct histories.",
     [r("san", 0.4), r("opt", 1)], [r("san", 1, 4), r("opt", 1, 4)], min_distinct=4000, require={"exhausted": 500, "refilled": 500, "freed_null": 500})
spec("S01",
     "Random, rising, falling, tied, organ pipe, saw, nearly sorted and extreme ranges of nine element types sorted through eight entry points between guard elements, compared as "
     "multisets of bytes; every permutation and every 3 valued range of up to 7 elements. Non-trivial: distinct (range of 2 or more, entry point).",
     [r("san", 0.4), r("opt", 1)], [r("san", 0.6, 4), r("opt", 1, 4)], min_distinct=10000, require={"type_entry_shape": 550, "small_lengths": 7})
spec("S02",
     "An adversarial comparison (McIlroy) constructs the worst input against the running sort, which is replayed forwards, backwards and rotated; twelve patterns; comparisons and the "
     "lowest stack address are recorded in the comparison. Non-trivial: distinct inputs.",
     [r("opt", 1), r("dbg", 0.5), r("san", 0.4)], [r("opt", 1, 4), r("dbg", 0.5, 2), r("san", 0.4, 2)], min_distinct=200, require={"adversary_runs": 40, "shapes": 12})
spec("S03",
     "Sorted ranges of five element types, some of more than 2^32 elements, with ties, keys present, absent and extreme, against a linear scan; every sorted 4 valued range of up to 7 elements. Non-trivial: distinct ranges.",
     [r("san", 0.4), r("opt", 1)], [r("san", 0.6, 4), r("opt", 1, 4)], min_distinct=5000, require={"tied": 1000, "at_begin": 1000, "at_end": 1000})
spec("R01",
     "Generators started from random and edge states and run for up to 64 steps through every access function, each output and state compared with the published algorithm; seeds "
     "of 0..3000 bytes; and of more than 2^32; streams of millions of steps. Non-trivial: distinct states and seeds.",
     [r("san", 0.3), r("opt", 1)], [r("san", 0.6, 4), r("opt", 1, 8)], min_distinct=10000, require={"pcg_rotation": 32, "seed_size_parity": 4, "stream_steps": 1000000}, case_cpu=80)
spec("R02",
     "A scripted generator replays all 2^32 outputs for fixed and random n and counts the outputs each result comes from; the buckets of random results for random n; runs of up to 63 "
     "refused outputs; bounds and state with the real generator. Non-trivial: distinct n and output scripts.",
     [r("san", 0.2), r("opt", 1, 8)], [r("san", 0.5, 4), r("opt", 1, 8)], gcc=(0, 0.3), min_distinct=10000, require={"outputs_enumerated": 5 * 2**32, "bucket_sets": 1000, "refused_in_a_row": 30}, case_cpu=120)
spec("M01",
     "64 bit quadruples of every magnitude, equal and off by one products, products which differ only in their low half, the extreme values, and every small quadruple, against "
     "sign and magnitude arithmetic in 32 bit limbs. Non-trivial: distinct quadruples.",
     [r("san", 0.3), r("opt", 1)], [r("san", 0.5, 4), r("opt", 2, 4)], min_distinct=100000, require={"equal": 10000, "less": 10000, "greater": 10000})
spec("M02",
     "Vector pairs over the whole 32 bit range, collinear, nearly collinear and equal; random triangulations built by exact insertion and edge flips, queried at vertices, lattice points "
     "on edges, anywhere and around. Non-trivial: distinct pairs and triangulations.",
     [r("san", 0.3), r("opt", 1)], [r("san", 0.5, 4), r("opt", 2, 4)], min_distinct=100000, require={"collinear": 10000, "same": 1000, "on_edges": 1000, "vertices": 10000})
spec("M03",
     "Points, radii and segments of every magnitude up to 2^30, with radii at and around every boundary, degenerate and perpendicular arrangements, and every small arrangement, against "
     "128 bit squared distances. Non-trivial: distinct arrangements.",
     [r("san", 0.3), r("opt", 1)], [r("san", 0.5, 4), r("opt", 2, 4)], min_distinct=50000, require={"coordinate_bits": 25, "ball": 10000, "within": 10000, "not_within": 10000})
spec("M04",
     "Random, axis parallel, self crossing, revisiting and spiral polygons of 0 to 100 vertices with points level with vertices, against crossings of a perpendicular ray; all triangles "
     "and quadrilaterals of a 4x4 lattice; one polygon of more than 2^32 vertices. Points inside slanted edges: those edges count for nothing; other points on the boundary are not judged. Non-trivial: distinct polygons.",
     [r("san", 0.3), r("opt", 1)], [r("san", 0.5, 4), r("opt", 2, 4)], min_distinct=10000, require={"winding_numbers": 12, "inside": 10000, "inside_an_edge": 1000}, case_cpu=80)
spec("M05",
     "Squares, their neighbours, the values where the nearest root changes and random values up to (2^31 - 1)^2; every value below 2^22; pythagorean, axis and random vectors; float "
     "vectors over 30 decades. Non-trivial: distinct arguments.",
     [r("san", 0.3), r("opt", 1)], [r("san", 0.5, 4), r("opt", 2, 4)], min_distinct=100000, require={"root_bits": 60, "lengths": 50000, "normals": 10000})
spec("M06",
     "Vectors of every magnitude rotated by random angles and angles at and around each eighth of a turn, sine, cosine and the cartesian form, a sweep over 65536 angles, against long "
     "double; degrees over the 32 bit range in exact arithmetic. Non-trivial: distinct (vector, angle).",
     [r("san", 0.3), r("opt", 1)], [r("san", 0.5, 4), r("opt", 2, 4)], min_distinct=100000, require={"magnitude_bits_quadrant": 200, "angle_sweep": 65536, "degrees": 300003})
spec("M07",
     "Vectors of every magnitude and direction, on and next to the axes and diagonals, every vector up to 100, against long double, and converted back. Non-trivial: distinct vectors.",
     [r("san", 0.3), r("opt", 1)], [r("san", 0.5, 4), r("opt", 2, 4)], min_distinct=100000, require={"length_bits_eighth": 200, "small": 40401})
spec("M08",
     "Random, short, long, parallel, nearly parallel and meeting lines with coordinates to 2^29, in each order, every arrangement on a 4x4 lattice, and the scaling they use, against "
     "128 bit rationals; results which do not fit are not judged. Non-trivial: distinct arrangements.",
     [r("san", 0.3), r("opt", 1)], [r("san", 0.5, 4), r("opt", 2, 4)], min_distinct=100000,
     require={"parallel": 1000, "crossing": 100000, "coordinate_bits": 25, "scaled64": 10000, "scaled32": 10000},
     assumptions=["coordinates within 2^29 and an intersection within 32 bits"])
spec("M09",
     "Products of vectors over the whole 32 bit range, and of 64 bit ones whose products fit, in 128 bit arithmetic; every operator of six vector types compared component by component, with vectors which differ in one "
     "component. Non-trivial: distinct operands.",
     [r("san", 0.3), r("opt", 1)], [r("san", 0.5, 4), r("opt", 2, 4)], min_distinct=100000, require={"beyond_32_bits": 10000, "wide": 10000})
spec("T03",
     "Random values of 31 types alone, of 16 types in every pair, and of 6 types in every triple, composed directly and in bounded storage placed alone on the heap; strings and arrays are "
     "exactly sized, null, empty, unterminated and longer than the limit. Non-trivial: distinct composed texts.",
     [r("san", 0.5), r("opt", 0.5)], [r("san", 1, 4), r("opt", 1, 2)], lib=["to_text"], min_distinct=10000,
     require={"types": 31, "type_pairs": 250, "type_triples": 200, "long_bounded": 100})
spec("T04",
     "Call sites generated from the seed: 0 to 8 arguments each of literals, strings with quotes, commas and brackets, calls, subscripts, brace initialisers and operators, spread over white "
     "space and comments, at every level, plain and message form, run with changing values through a capturing hook; the same sites disabled; random pairs to the default "
     "hook. Non-trivial: distinct argument texts and lines.",
     [r("san", 0.5), r("opt", 0.5)], [r("san", 1, 2), r("opt", 1, 2)], src=["T04.cpp", "T04off.cpp", "T04os.cpp"], lib=["os", "to_text"], gen=["logs"], min_distinct=5000,
     require={"sites": 250, "levels": 8, "disabled": 250, "line_levels": 10, "evaluations_counted": 100, "default_hook": 5},
     assumptions=["commas inside an argument are within (), [], {} or a literal, except in the last; no raw string literals"])
spec("T05",
     "Assertion call sites generated from the seed: four kinds, tests with their own commas and quotes, 0 to 5 arguments, any file name and line, run with passing and failing tests and "
     "a handler answering stop or continue; the same sites disabled; random reports to the default handler. Non-trivial: distinct (site, test, answer) and reports.",
     [r("san", 0.5), r("opt", 0.5)], [r("san", 1, 2), r("opt", 1, 2)], src=["T05.cpp", "T05off.cpp", "T05os.cpp"], lib=["os", "to_text"], gen=["checks"], gcc=(1, 1), min_distinct=5000,
     require={"kind_test_answer_enabled": 32, "failures_reported": 1000, "silent": 500, "evaluations_counted": 100, "default_hooks": 6},
     assumptions=["the text of the arguments is reported with the spacing the preprocessor gives it"])
spec("Z01",
     "Points over the whole 32 bit range and every pair of single bits encoded and compared with a bit by bit definition; boxes with points inside, outside and on every side. "
     "Non-trivial: distinct codes and (box, point).",
     [r("san", 0.3), r("opt", 1)], [r("san", 0.5, 4), r("opt", 2, 4)], min_distinct=100000, require={"inside": 10000, "outside": 10000, "small_boxes": 9})
spec("Z02",
     "Random, clustered, dense, repeated and nested stored codes queried with boxes of every size, narrow, degenerate and touching every corner of the range, from exactly sized memory, "
     "against a scan with coordinates compared one by one; more than 2^32 stored codes. Non-trivial: distinct (stored codes, box).",
     [r("san", 0.5), r("opt", 1)], [r("san", 1, 4), r("opt", 2, 4)], min_distinct=30000, require={"partial": 5000, "left_out": 100000, "deep": 1000, "dense": 100, "bounds": 1000})
spec("C01",
     "Random histories of points and edges in nine kinds of places (clusters, lattices, lines, circles, borders, slivers, every magnitude) at five scales and capacities, with valid, stale and "
     "wild hints; after each operation orientation, area, twins, constraint flags, corners and every view are checked exactly. Non-trivial: distinct final meshes.",
     [r("san", 0.3, 4), r("opt", 1, 4)], [r("san", 0.5, 4), r("opt", 1, 8)], lib=["to_text"], min_distinct=1000,
     require={"kind_edges": 18, "edges": 5000, "edges_refused": 50, "split_points": 1000, "sizes": 400})
spec("C02",
     "Points in nine kinds of places, lattices of every spacing in random order, and meshes filled to 8192 points; after each point the circle of each face against the corners across its "
     "edges (all corners in small meshes) in 128 bit arithmetic. Non-trivial: distinct final meshes.",
     [r("san", 0.3, 4), r("opt", 1, 4)], [r("san", 0.5, 4), r("opt", 1, 8)], lib=["to_text"], min_distinct=5000,
     require={"kinds": 9, "cocircular": 100000, "extents": 15, "all_corners": 10000})
spec("C03",
     "Random histories of points and edges (crossing, overlapping, touching, sharing ends, along the border, anywhere); after each operation every earlier constraint must still be covered "
     "exactly, an accepted edge's ends must be joined (straight when it was not split), and new constraints must belong to the edge. Non-trivial: distinct meshes after accepted edges.",
     [r("san", 0.3, 4), r("opt", 1, 4)], [r("san", 0.5, 4), r("opt", 1, 8)], lib=["to_text"], min_distinct=10000,
     require={"accepted": 10000, "straight_free": 1000, "bent_crossing": 100, "straight_crossing": 100, "points": 10000, "split_points": 10, "at_the_corner": 100})
spec("C04",
     "Points anywhere, on and next to corners, edges and the border, and outside, located in random meshes of 2 to 12000 faces (points and edges, combs, spirals and rings of constraints turned against each other) from four hints each, or from every side of every face, "
     "against an exact scan of every face. Non-trivial: distinct (mesh, point).",
     [r("san", 0.3, 4), r("opt", 1, 4)], [r("san", 0.5, 4), r("opt", 1, 8)], lib=["to_text"], min_distinct=50000,
     require={"outside": 3000, "border": 1000, "corner": 10000, "on_edge": 3000, "in_face": 30000, "walls": 60, "wheels": 200, "beside": 50000, "sizes": 120},
     assumptions=["points within 2^30 and scales up to 2^14; on the border itself the hint may decide between none and a face"])
spec("C05",
     "Meshes of random edges, walls with gaps and up to 8192 points, filled from any face by any of its ids with any label, each face's label against a search over the neighbours in the "
     "faces' view; then points are added and each face's label compared with the face it lies in. Non-trivial: distinct (mesh, start).",
     [r("san", 0.3, 4), r("opt", 1, 4)], [r("san", 0.5, 4), r("opt", 1, 8)], lib=["to_text"], min_distinct=10000,
     require={"region_sizes": 12, "whole": 1000, "part": 3000, "rooms": 150, "large_kinds": 3, "inherited": 100000},
     assumptions=["no face of the region has the label already, or all have"])
spec("C06",
     "Points anywhere in 32 bits, again, next to corners and the border, inserted into meshes of ten capacities (4 to 8192) well past full, with the exact verdict and set of corners expected "
     "for each; edges into small meshes and from and to outside; every residue of five scales. Each mesh is alone on the heap. Non-trivial: distinct meshes and positions.",
     [r("san", 0.5, 4), r("opt", 1, 4)], [r("san", 0.5, 4), r("opt", 1, 8)], lib=["to_text"], min_distinct=5000,
     require={"duplicates": 10000, "outside": 10000, "on_border": 1000, "full": 5000, "new": 10000, "capacities_full": 8, "edge_when_full": 1000, "edge_outside": 1000, "residues": 1000})
spec("C07",
     "Each random history of points, edges, fills and searches is run on three meshes at once (zeroed memory, memory of another content, a mesh reset after another history) and compared "
     "face by face after each operation; all builds must reach the same digest. Non-trivial: distinct final meshes.",
     [r("san", 1, 2), r("dbg", 1, 2), r("opt", 1, 2), r("o3", 1, 2)], [r("san", 1, 2), r("dbg", 1, 2), r("opt", 1, 2), r("o3", 1, 2)], lib=["to_text"], digest=True, gcc=(1, 1), min_distinct=2000,
     require={"points": 10000, "edges": 5000, "fills": 1000, "locates": 1000})
spec("A01",
     "Histories of 2 to 4 threads with 2 to 8 random operations each on one value of 17 types, with and without recorded times, searched for an order of whole operations which explains "
     "every result and the last value; long runs of counting, bit flipping and token passing whose totals must be exact; each operation alone. Non-trivial: distinct histories with results.",
     [r("opt", 1, 2), r("tsan", 0.2), r("san", 0.1)], [r("opt", 1, 2), r("tsan", 0.5), r("san", 0.3), r("dbg", 0.5)], min_distinct=50000, width=2,
     stall=45, require={"histories": 20000, "overlapping": 1000, "type_kind_result": 120, "type_totals": 17, "counted": 100000, "bits": 20})
spec("A02",
     "Plain memory handed back and forth through every pair of an updating and an observing operation of 11 types, judged by the race detector; and on the processor itself rounds of two "
     "threads raising a flag and looking for the other's, and of two readers of two writers, whose forbidden outcomes must not occur. Non-trivial: distinct handovers and runs of rounds.",
     [r("tsan", 1, 2), r("opt", 0.5, 2)], [r("tsan", 1, 2), r("opt", 1, 2), r("dbg", 0.3)], min_distinct=3000, width=2,
     stall=45, require={"type_writer_reader": 350, "type_one_order": 22, "waited": 100, "both_saw": 1000, "one_saw": 1000},
     assumptions=["the race detector follows acquire and release orders; the single order of all operations is observed on this x86 processor only"])
spec("A03",
     "The implementation on MSVC's intrinsics, compiled with clang's versions of them: histories, totals, single operations, handovers and flags as for the other, without the bit operations it "
     "lacks, and values of sizes which go under shared locks. On the processor itself. Non-trivial: distinct histories with results, handovers and runs of rounds.",
     [r("opt", 1, 2), r("san", 0.1)], [r("opt", 1, 2), r("san", 0.3), r("dbg", 0.5)], gcc=(0, 0), min_distinct=50000, width=2,
     flags=[WIN, "-fms-extensions", "-Wno-c++11-narrowing", "-fwrapv", "-fno-sanitize=pointer-overflow,signed-integer-overflow"],
     stall=45, require={"histories": 15000, "overlapping": 1000, "type_kind_result": 90, "type_totals": 17, "counted": 100000, "type_writer_reader": 200, "both_saw": 1000, "one_saw": 1000, "odd_sizes": 200},
     assumptions=["the intrinsics of clang and of MSVC do the same; the order of operations is observed on this x86 processor only"])
spec("X01",
     "Threads told one by one to acquire, try and release up to four adjacent mutexes, each outcome predicted from the holders; waiting threads; crowds of up to six threads updating plain data "
     "under the mutex, counted and watched by the race detector; mutexes constructed over any memory. Non-trivial: distinct operations in situations, waits and crowds.",
     [r("tsan", 0.4), r("opt", 1), r("san", 0.3)], [r("tsan", 0.6, 2), r("opt", 1, 2), r("san", 0.5)], lib=["mutex_std"], min_distinct=20000, width=2, timeout=150,
     stall=45, require={"try_acquire_free": 2000, "try_acquire_held": 2000, "acquire_free": 1000, "waited": 1000, "crowd_writes": 10000, "crowd_refused": 100})
spec("X02",
     "As for the plain mutex with shared and exclusive holders mixed, readers held together with one another, writers waiting for readers and readers for writers, and crowds of readers and "
     "writers of plain data. Non-trivial: distinct operations in situations, waits and crowds.",
     [r("tsan", 0.4), r("opt", 1), r("san", 0.3)], [r("tsan", 0.6, 2), r("opt", 1, 2), r("san", 0.5)], lib=["mutex_std"], gcc=(0, 0.3), min_distinct=20000, width=2, timeout=150,
     stall=45, require={"try_acquire_free": 2000, "try_acquire_held": 2000, "try_acquire_shared_free": 2000, "try_acquire_shared_held": 1000, "waited": 1000, "readers_together": 50, "crowd_writes": 5000,
              "crowd_reads_together": 100, "situations": 60})
spec("X03",
     "Four threads do the work of 15 parts on objects of their own (all the same part, first used by all at once; the same and different mixtures), each compared with the same work done alone; and "
     "read shared meshes, ordered arrays, dictionaries, polygons, lists, bits and streams together. Watched by the race detector. Non-trivial: distinct results of a thread's work.",
     [r("tsan", 1, 2), r("opt", 2, 2), r("san", 0.5)], [r("tsan", 1.5, 4), r("opt", 4, 2), r("san", 1)], src=["X03.cpp", "X03os.cpp"], lib=["os_posix", "to_text"], min_distinct=2000, width=2,
     stall=60, require={"parts": 15, "overlapping": 200, "part_beside_part": 100, "shared_reads": 800})
spec("W02",
     "The Windows mutexes compiled as there over stand-in slim locks (one word, no owner, misuse reported): threads told one by one, waiting threads and crowds as for the other mutexes, "
     "both kinds. Non-trivial: distinct operations in situations, waits and crowds.",
     [r("tsan", 0.3), r("opt", 1), r("san", 0.2)], [r("tsan", 0.6, 2), r("opt", 1, 2), r("san", 0.5)], src=["W02.cpp", "win/mutex.cpp"], flags=[WIN], gcc=(0, 0), min_distinct=20000, width=2, timeout=150,
     stall=45, require={"try_acquire_free": 4000, "try_acquire_held": 4000, "try_acquire_shared_free": 2000, "waited": 1000, "readers_together": 50, "crowd_writes": 5000, "lock_calls": 10000},
     assumptions=["slim reader/writer locks behave as documented"])
spec("O01",
     "Sleeps of every magnitude with the system's sleep and clock replaced by stand-ins which interrupt at random and keep an exact account; readings of an exactly known clock; real sleeps "
     "under a hail of signals, real readings handed between threads, and the rate against the system's clock. Non-trivial: distinct durations, readings and runs.",
     [r("san", 0.3), r("opt", 1)], [r("san", 0.5, 2), r("opt", 1, 4)], lib=["os_posix", "to_text"], min_distinct=20000,
     stall=45, require={"interrupted": 10000, "magnitudes": 60, "clock_bits": 55, "real_sleeps": 8, "readings_in_order": 100000},
     assumptions=["sleep and clock reach the system through nanosleep, clock_nanosleep, usleep or clock_gettime; lengths below 2^63 ns"])
spec("O02",
     "Histories of up to 120 readings (and up to 3 restarts, with another frequency, over arbitrary prior content) of 22 clock rates over a stand-in timer of any frequency in the domain: the running total is compared "
     "with the exact 128 bit quotient after each reading. Non-trivial: distinct step sequences.",
     [r("san", 0.5), r("opt", 1)], [r("san", 1, 4), r("opt", 1, 4)], min_distinct=10000,
     require={"fractions": 100000, "exact": 1000, "restarts": 1000, "rate_and_frequency_bits": 400, "timer_wrapped": 10},
     assumptions=["(frequency * Fd) * (Fn + 1) < 2^64 and fewer than 2^64 ticks"])
spec("O03",
     "Random sequences of opening, mapping (as bytes and as items), unmapping, closing and allocating on existing, missing and odd paths, over handles and spans of any prior content: each call must report failure and "
     "leave an empty result, and descriptors, mappings and files stay as they were. Texts of up to 256 KB of any bytes (and none) go through debug output with both standard streams captured. "
     "Non-trivial: distinct call sequences and texts.",
     [r("san", 0.3), r("opt", 1)], [r("san", 1, 4), r("opt", 1, 4)], lib=["os_posix", "to_text"], min_distinct=10000,
     require={"call_and_path": 80, "length_bits": 14, "nothing": 1000},
     assumptions=["the system takes each write whole"])
spec("W01",
     "The Windows services compiled as there against a stand-in Win32 which keeps account of files, handles, mappings, views and memory and fails at random: histories of opening, mapping by file and "
     "by path, as bytes and items, closing and unmapping (twice, too) compared with a model after each call; every code point in names; sleeps, readings, page allocation and debug output of every "
     "magnitude. Non-trivial: distinct histories, sleeps, readings and texts.",
     [r("san", 0.4), r("opt", 1)], [r("san", 1, 4), r("opt", 1, 4)], src=["W01.cpp", "win/os.cpp"], flags=[WIN], gcc=(0, 0), min_distinct=20000,
     require={"faults": 3000, "fault_in_call": 4, "call_and_file": 25, "beyond_4GB": 50, "opened": 5000, "mapped": 5000, "unmapped": 2000, "closed_again": 500, "items": 2000, "code_points": 1000000, "magnitudes": 60, "allocated": 5000},
     assumptions=["the Win32 calls behave as documented; names are valid UTF-8"])
spec("W03",
     "The branches for MSVC (with stand-ins for its intrinsics) and for other compilers and processors, compiled here and driven by the harnesses of the properties they belong to: products, sides, "
     "ranges, roots and lengths, rotation, polar form, intersection, generators and checksums. Non-trivial: as there.",
     [r("msvc", 0.1), r("other", 0.1)], [r("msvc", 0.6, 4), r("other", 0.6, 4)], gcc=(0, 0), min_distinct=20000,
     require={"x86": 1, "other_processor": 1, "root_bits": 40, "normals": 1000},
     assumptions=["clang compiles these branches as MSVC and others would; the intrinsics do as documented"])
spec("I01",
     "Generated types (members of 16 basic types, other described types, arrays to three dimensions, lists, vectors, matrices and aliases, nested to any depth, up to 200 members, names with any letters, white space and "
     "comments) with random values, walked by a recorder and compared step by step (names, counts, addresses, bytes) with the walk the generator wrote out, then read back into another value. Non-trivial: distinct (type, value).",
     [r("san", 1), r("opt", 4)], [r("san", 2), r("dbg", 2), r("opt", 8)], lib=["to_text"], gen=["types"], min_distinct=3000,
     require={"types": 60, "depths": 5, "lists": 1000, "empty_lists": 100},
     assumptions=["member lists without commas inside one member's expression; no member is called io, IO or _n"])
spec("N01",
     "Generated enumerations (scoped and not, of 11 widths, global, in named and unnamed namespaces, classes, templates and functions; dense, sparse, at the edges, beyond 255, empty) asked for the name of each value in 0 to 255 "
     "and of far and negative ones, and for the value of names, parts, extensions and mixtures of names; and generated types (nested templates, pointers, references, arrays) asked for their name. Non-trivial: distinct text sequences and types.",
     [r("san0", 1), r("dbg", 1), r("gopt", 1)], [r("san0", 2), r("dbg", 1), r("opt", 4)], gen=["names"], gcc=(1, 1), min_distinct=500,
     require={"names": 10000, "unnamed": 10000, "known_text": 10000, "unknown_text": 10000, "far": 1000, "types": 40},
     assumptions=["no two enumerators of one value; beyond 0 to 255 an enumerator's name and value may be unknown"])
spec("G01",
     "Generated type lists (0 to 60 types, with and without repetitions) walked, indexed, searched and compared; references, qualifiers and pointers of generated types (to six layers over 22 basic types: functions, arrays, member "
     "pointers, enumerations, abstract classes and void among them) removed and classified as the standard library does; every sequence up to 65 and others to 4096, unpacked item by item; lists of values at the ends of their types. Non-trivial: distinct uses.",
     [r("san", 1), r("opt", 1)], [r("san", 1), r("opt", 1)], src=["G01.cpp"], gen=["lists"], min_distinct=1200,
     require={"kinds": 18, "kind_answer": 30, "sequences": 80, "values": 30})
spec("G02",
     "Generated aggregates of one to four members of 27 kinds (text, owners of memory, nested aggregates, pointers, constants) filled with random values and read by number; arrays and argument lists counted, whose arguments record "
     "being evaluated; the preprocessor helpers' expansions as text; values read as others, swapped, viewed as arrays; and tuples where there are no structured bindings. Non-trivial: distinct values and uses.",
     [r("san", 1), r("opt", 1)], [r("san", 1), r("opt", 1)], src=["G02.cpp", "G02old.cpp"], gen=["values"], min_distinct=4000,
     require={"members": 5000, "member_type": 24, "member_number": 4, "counts": 100, "macro_kinds": 9, "swapped": 1000, "colours": 1000, "reinterpreted": 1000, "without_bindings": 1000},
     assumptions=["members after the first can be default constructed, and none is a reference or a plain array"])
spec("G03",
     "Generated units of one program, each with its own selection and order of the headers, of standard headers between them, and version of the language, do the same work of 25 kinds from the same random seeds, before, in and after main, and in part at "
     "compile time; every digest of what was observed is compared with the other units'. Built by clang and by gcc, whose programs must agree as well. Non-trivial: distinct (work, digest).",
     [r("san", 1), r("opt", 1), r("gopt", 1)], [r("san", 2), r("opt", 2), r("gopt", 2), r("gcc", 2), r("o3", 2), r("dbg", 2), r("opt", 50), r("gopt", 50)], src=["G03.cpp"], digest=True, gen=["units"], lib=["os", "to_text", "mutex_std"], gcc=(0, 0),
     flags=["-DKIT_NO_ERROR_HOOK", "-DKIT_NO_LOG_HOOK"], must_build=True, min_distinct=5000, require={"units": 22, "kinds_of_work": 24},
     assumptions=["the program is built for x86-64 by clang 18 or gcc 13, C++17 or later"])
spec("G04",
     "The library and 22 kinds of work over all headers which need no C++ library, built as WebAssembly modules (32 and 64 bit memories, optimized and with UBSan's checks as traps) and natively, fed the same random seeds; each digest of "
     "what was observed is compared, and what was computed at compile time. Non-trivial: distinct (work, digest).",
     [r("opt", 1)], [r("opt", 25, 3), r("san", 5), r("gopt", 5)], src=["G04.cpp"], lib=["os", "to_text"], gcc=(0, 0), wasm=True, stall=90,
     flags=["-DKIT_NO_ERROR_HOOK", "-DKIT_NO_LOG_HOOK"], min_distinct=20000, require={"modules": 4, "kinds_of_work": 22},
     assumptions=["node's engine runs the modules as specified", "work is chosen not to round where x86's square root does otherwise"])
spec("G05",
     "Random work of 25 kinds, work of 25 more kinds whose data grows to a million items, four threads on mutexes and atomics, and the OS services, while every call of the allocator is counted on the thread which is inside the library, "
     "errno and the processor's control word are compared, and the work on large data runs on a stack of its own whose deepest use is measured. Non-trivial: distinct (work, result or size).",
     [r("opt", 1, 2), r("san", 0.5), r("gopt", 0.5)], [r("opt", 1, 4), r("san", 0.5, 2), r("dbg", 0.3), r("o3", 0.3), r("gopt", 0.5)], lib=["os", "os_posix", "to_text", "mutex_std"], gcc=(0, 0),
     flags=["-DKIT_NO_ERROR_HOOK", "-DKIT_NO_LOG_HOOK"], min_distinct=3000, require={"kinds_of_work": 22, "kinds_of_sized": 26, "threads": 50},
     assumptions=["memory asked of the system other than by the allocator is not seen", "the work's stack is measured in builds without sanitizers"])
spec("G06",
     "Random words rotated by every count, bytes copied and filled at random places and lengths, text of random bytes, types of many kinds asked how they are destroyed, time stamps read in rows and seconds apart against the processor's counter and clock; "
     "all as clang, gcc, MSVC (with stand-ins for its intrinsics) and another compiler see the code. Generated conditions, array counts and copies of known truth are given to clang and gcc in C++17 to 23, whose refusals must be exactly the false ones; "
     "16 targets are preprocessed for. Non-trivial: distinct values, places, types and lines.",
     [r("san", 1), r("opt", 1), r("gopt", 1), r("msvc", 1), r("other", 1)], [r("san", 4), r("opt", 4, 2), r("gopt", 4), r("gcc", 2), r("o3", 4), r("dbg", 1), r("msvc", 4), r("other", 4)], src=["G06.cpp"], gcc=(0, 0), min_distinct=100000,
     require={"rotations": 60, "copied": 1000, "filled": 1000, "trivially_destructible": 60, "destructors": 60, "stamps": 100000, "paced": 1, "integers": 11, "native": 1, "msvc": 1, "other": 1, "targets": 16, "lines_refused": 1000, "lines_accepted": 2000},
     assumptions=["clang compiles MSVC's and others' branches as they would; the intrinsics do as documented", "the processor's counter is constant in rate", "targets which are Unix say so"])
spec("G07",
     "Bit sets of 15 sizes, dictionaries of nine capacities at every fill and lists of seven used at random indices, most at or just beyond the bound, within the memory there is but not in use, or equal to a valid one but for high bits; "
     "an assertion's report is left by a jump, and whether there was one, and the bytes of the object and around it, are compared with what a bound check gives. Non-trivial: distinct (operation, index, size).",
     [r("san", 1), r("opt", 1), r("gopt", 0.5)], [r("san", 5), r("opt", 10), r("gopt", 3), r("o3", 3), r("gcc", 1)], src=["G07.cpp"], lib=["to_text"], gcc=(0, 0), min_distinct=20000,
     require={"valid": 50000, "stopped": 50000, "bit_kinds": 5, "place_kinds": 4, "known_names": 1000, "unknown_names": 1000, "too_long": 1000},
     assumptions=["assertions are on (the default)"])
spec("G08",
     "Generated arguments of every width, length and sign, at the ends of their types too, given to each constant function as constants, which the compiler's evaluator (refusing anything undefined) computes, and as variables; both are compared with the value "
     "the generator computed from the definition. By clang and gcc. Non-trivial: distinct uses.",
     [r("san", 1), r("opt", 1), r("gopt", 1)], [r("san", 1), r("opt", 1), r("gopt", 1), r("gcc", 1), r("o3", 1)], gen=["folded"], must_build=True, lib=["to_text"], gcc=(0, 0), min_distinct=1500,
     require={"folded": 5000, "kinds": 30},
     assumptions=["the results fit their types"])
spec("G09",
     "67 kinds of operation on random and shaped data of sizes from a few to 2^20 (sorts, searches, queues, pools, lists, dictionaries, checksums, decoders, text, arithmetic, meshes, range queries), while the compiler's coverage callback counts "
     "each basic block executed, and the bytes the memory functions move are added; each count is held against a bound of the operation's kind (constant, logarithm, proportional to what is handled, ...). Non-trivial: distinct (kind, size, count).",
     [r("meter", 1), r("gmeter", 0.3)], [r("meter", 12, 4), r("gmeter", 4, 2)], src=["G09.cpp"], lib=["os", "os_posix", "to_text", "mutex_std"], gcc=(0, 0), min_distinct=4000,
     require={"kinds": 67, "measured": 3000000, "sizes": 18},
     assumptions=["the bounds' factors, about three times what is observed without optimization, leave room for other ways to write the same algorithm"])
