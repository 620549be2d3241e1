#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and specs.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from specs import SPECS

H = "lib/h/ce/"
P = []


def prop(pid, title, statement, over, text, tests, files, mech, observe=None):
    assert len(title) <= 80, (pid, len(title))
    assert statement.count(". ") <= 2, pid
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))


CE, TT, OS = H + "ce.h", "lib/to_text.cpp", "lib/os.cpp"

# ---- text
prop("T01", "Integers convert to their exact decimal text",
     "Converting an integer of any width, signed or unsigned, to text gives exactly its shortest decimal digits, with a single leading minus sign for negative values and no padding. "
     "The returned end is just past the last character, nothing is terminated, and nothing outside the announced maximum length is written.",
     ["inputs"], "every value of every 8, 16, 32 and 64 bit integer type", "The tests convert a few values; 2^64 values with a digit-pair fixed point algorithm fail at isolated values.",
     ["lib/to_text_from_integer.h", TT], [("to_text_from_integer", "lib/to_text_from_integer.h"), ("to_text(uint32_t..int64_t)", TT)])
prop("T02", "Finite floating point numbers survive a round trip through text",
     "The text of every finite float or double parses back to the same value (the very same bits for double, the same float after rounding to float), the sign of zero included, and negative, zero, integral and fractional values are plain decimal or exponent numbers. "
     "Infinities and not-a-number values have fixed texts, and no value writes beyond the announced maximum length; a conversion given by the user stands for every one of them, and the program's locale and the thread's rounding change no text.",
     ["inputs"], "every bit pattern of float and double", "The tests print a handful of doubles.",
     [TT, "lib/to_text_from_integer.h", CE], [("to_text(float), to_text(double)", TT)])
prop("T03", "Composed text is the concatenation of its parts and stays in its bound",
     "Composing any list of values into one text gives the concatenation of each value's own text, in order, with one terminator, and the announced capacity always suffices, so nothing outside it is read or written. "
     "Strings and arrays given as parts may be null, empty, unterminated or longer than their limit: a null one gives the null marker and a long one is cut at its limit.",
     ["inputs"], "every list of value types and every value, including hostile strings", "Tests only compose a few fixed lists of ordinary values.",
     [CE, TT], [("measure, as_string, to_text_m/_s/_p/_n", CE), ("to_text(...)", TT)])
prop("T04", "A log call reports its level and each argument's source text and value once",
     "An enabled log call hands the log handler its level and, in order, one pair per argument of the argument's source text and its value as text, evaluating each argument exactly once; the message form gives one pair with all values joined. "
     "A disabled log call evaluates and reports nothing. "
     "The default handler writes exactly one line: the level's letter followed by every pair, quoted, in order.",
     ["programs", "inputs"], "every argument list (nested calls, braces, literals with commas, quotes and escapes, white space and comments), every level, every value", "No test logs; splitting source text at commas depends on the shape of every call site.",
     [CE, OS], [("CE_LOG, CE_LOG_MSG, log_hook / log_keys", CE), ("os::log", OS)])
prop("T05", "Assertions evaluate once, report failures fully and keep control flow",
     "An assertion evaluates its test exactly once and does nothing more when it passes; when it fails it reports kind, file and line, the text of the test and of the arguments, and each argument's value (evaluated once), to the log and then to the error handler, and breaks into the debugger exactly if that handler says so. "
     "The value-returning forms return the truth of their test whatever the handler answers, and disabled assertions still evaluate the test once but report nothing. "
     "An unconditional error always reports and always breaks.",
     ["programs", "configurations", "inputs"], "every call site, test outcome, argument list, handler answer and enablement", "No test fails an assertion on purpose, so the failure path is never run.",
     [CE, OS], [("CE_ASSERT, CE_VERIFY, CE_REJECT, CE_ERROR, call_error_hook", CE), ("os::error", OS)])

# ---- hashes, decoders
prop("H01", "CRC-32 of data does not depend on how it is cut into calls",
     "The checksum of a byte sequence equals the bitwise definition of the reflected CRC with the given polynomial, for every polynomial, starting value and length, at run time and at compile time. "
     "Feeding the same bytes in any mixture of 1, 4 and 8 byte steps, or continuing from an earlier checksum, gives the same result.",
     ["inputs", "histories"], "every byte sequence, cut, polynomial and starting value", "Tests check one or two literals.",
     [CE], [("crc32, crc32_table, crc32c", CE)])
prop("H02", "FNV-1a hashes follow their definition and compose",
     "The 32 and 64 bit hash of any array of integers or text equals the published FNV-1a definition over its bytes (text without its terminator), at run time and at compile time. "
     "Hashing a second part from the hash of the first equals hashing both together.",
     ["inputs"], "every array of every element type, every basis", "Tests hash a few literals.", [CE], [("fnv1a, fnv1a32, fnv1a64", CE)])
prop("E01", "Base64 decoding returns exactly the encoded bytes within its announced size",
     "Decoding the base64 text of any byte sequence, padded or not, returns exactly these bytes, at run time and at compile time, and decoding stops at the first character outside the alphabet. "
     "It never writes beyond the size it announces for the input's length nor reads beyond the input, whatever bytes the input holds.",
     ["inputs"], "every byte sequence and every malformed input", "Tests decode one literal.", [CE], [("base64::size, base64::decode, base64::decoder", CE)])
prop("E02", "LZ decoding expands any valid stream exactly and in bounds",
     "Decoding any well formed compressed stream of literals and back references (every length, every distance, overlapping ones included) produces exactly the data it encodes and returns its length, at run time and at compile time. "
     "It reads only the stream and writes only the destination it was given when that is big enough.",
     ["inputs"], "every well formed stream", "The test decodes one sample.", [H + "lziii.h"], [("lziii::size, lziii::decode, lziii::decoder", H + "lziii.h")])

# ---- containers
prop("B01", "Bounded sequences behave as sequences and never exceed their capacity",
     "Every history of appending, inserting several, resizing, removing, clearing, assigning, copying and element access leaves exactly the elements a plain sequence would hold, in order (removal by swapping moves the last element into the hole). "
     "An operation which would exceed the capacity is refused and changes nothing, and no memory outside the object is touched. "
     "Spans and views of a sequence show its elements.",
     ["histories", "inputs"], "every operation history, element type and capacity", "Tests use a few short histories of int.", [CE], [("bulk, list, span, skip, trim", CE)])
prop("B02", "Containers construct and destroy each element exactly once",
     "Over any history of a bounded sequence, every element is constructed exactly once before use and destroyed exactly once, with the constructor arguments it was given, and is only used in between, so the live objects are exactly the contained ones. "
     "The same holds for nested sequences, and a dictionary destroys the old value of a name before binding the new one.",
     ["histories"], "every history over element types with observable lifetime, with or without default and copy constructors", "No test counts lifetimes.", [CE, H + "dictionary.h"], [("bulk, CE_CONSTRUCT_AT, CE_DESTROY_AT, is_constructible_with", CE)])
prop("B03", "The bounded priority queue always yields its best item",
     "For every history of insertions and removals the item removed is one no other contained item precedes, every item inserted comes out exactly once, and a full queue refuses without changing.",
     ["histories"], "every history, priority pattern (ties included) and capacity", "No test uses it.", [CE], [("min_priority_queue", CE)])
prop("B04", "The bit set stores each bit independently",
     "Setting, clearing, writing or testing one bit affects and reports that bit only, and whole-set operations affect every bit, for every size, including sizes which are not a multiple of the word.",
     ["histories"], "every size, index and operation history", "No test uses it.", [CE], [("bitset", CE)])
prop("D01", "The dictionary maps each bound name to its latest value",
     "After any history of binding names, finding a bound name gives the value bound last and finding any other name gives nothing, for names of every kind, including ones equal to the content of unused slots. "
     "Binding a new name beyond the capacity is refused and changes nothing, and earlier names and values stay where they are. "
     "Every slot holds exactly one live value at all times: binding ends the value it replaces once and before the new one is made.",
     ["histories", "inputs"], "every sequence of binds and finds, name type and capacity", "The test binds a few names in one dictionary.", [H + "dictionary.h"], [("dictionary", H + "dictionary.h")])
prop("P01", "Queues sharing a pool keep their own items in order and lose none",
     "Any number of queues over one pool each behave as a double ended sequence of their own: items come out of the end they should, in order, exactly once, independent of operations on other queues. "
     "Insertion fails exactly when all slots of the pool are in use, and a removed item's slot is available again at once.",
     ["histories"], "every interleaving of operations on queues sharing a pool, at every capacity up to 65536", "Tests push and pop a few items.", [H + "pool.h"], [("pool::queue_t", H + "pool.h")])
prop("P02", "Pool slots are never handed out twice and never lost",
     "Over any history of allocation, release and reset, every slot handed out is valid and not in use, allocation fails exactly when every slot is in use, and every released slot can be allocated again; releasing nothing has no effect.",
     ["histories"], "every allocation and release history and capacity", "Tests allocate and free a few.", [H + "pool.h"], [("pool", H + "pool.h")])

# ---- sorting
prop("S01", "Every sort returns an ordered permutation of exactly its input range",
     "Each sorting entry point (the general sort with any cutoff, the simple sorts and the partition and median steps they are made of) leaves its range ordered and holding exactly the elements it held before, and touches nothing outside the range.",
     ["inputs"], "every range of every length, order and element type", "Tests sort a few random int arrays.", [H + "sort.h"], [("intro_sort, heap_sort, insertion_sort, partition, median", H + "sort.h")])
prop("S02", "The introspective sort needs O(n log n) comparisons and O(log n) stack",
     "Whatever the input, including one built against the algorithm, the introspective sort does at most a constant times n log n comparisons and its stack depth is logarithmic in n.",
     ["inputs"], "every input, adversarial ones included", "Tests sort random data, which never triggers the worst case.", [H + "sort.h"], [("intro_sort depth limit and heap_sort fallback", H + "sort.h")])
prop("S03", "Binary searches return the exact bounds",
     "For every range sorted by the order used and every key, the lower bound is the first element not below the key and the upper bound the first above it (or the end of the range), and searching reads only the range.",
     ["inputs"], "every sorted range with ties and every key", "No test covers ties and ends.", [H + "sort.h"], [("lower_bound, upper_bound", H + "sort.h")])

# ---- random numbers
prop("R01", "Random generators reproduce their published sequences",
     "From any state or seed the generators give exactly the outputs and successive states of the published algorithms (xoroshiro64**, xoroshiro128++ and 64 bit state PCG32), through every access function. "
     "Seeding from bytes is a fixed function of all of them (halves of a CRC, or FNV hashes), the same everywhere.",
     ["inputs", "histories"], "every state, seed and number of steps", "Tests check the first few outputs of one seed.", [CE, H + "math.h"], [("xoroshiro64ss, xoroshiro128pp, pcg32_64_t (next, next32, next64, read, step, seed)", CE)])
prop("R02", "Bounded random numbers are in range and exactly uniform",
     "A bounded random number is always below its bound, and over the generator's accepted outputs every result comes from equally many outputs, so it is exactly unbiased. "
     "Outputs are consumed one at a time, and refused ones are simply followed by the next.",
     ["inputs"], "every bound and every generator output", "Bias below 2^-32 shows in no statistical test.", [CE], [("next_ranged, next_unbiased", CE)])

# ---- math
prop("M01", "128 bit product comparisons are exact",
     "Comparing two products of 64 bit signed factors gives the exact order of the mathematical products for every choice of factors.",
     ["inputs"], "all quadruples of 64 bit integers", "Tests check a few quadruples.", [H + "math.h", CE], [("ab_less_cd", H + "math.h")])
prop("M02", "Side tests are exact and consistent so triangulations have no gaps",
     "The inside test of two vectors is the exact sign of their cross product over the whole 32 bit range, and a tie on the line is broken so that exactly one of a vector pair and its reverse holds unless they are the same direction. "
     "So every point of a triangulated area, on its edges and vertices too, is inside exactly one of the triangles around it.",
     ["inputs"], "every pair of vectors and every triangulation and query point", "Tests check a few vectors; ties appear only on exact lines.", [H + "math.h"], [("inside", H + "math.h")])
prop("M03", "Range tests of points, segments and balls are exact",
     "A point is in range of the origin, of a line, of an edge's interior, of a ray or of a whole segment exactly if the exact distance is less than the radius, for coordinates up to 2^30 and any squared radius up to 2^62, and a ball hits an edge or a ray exactly if it is in range of it.",
     ["inputs"], "all points, segments and radii in the domain", "Tests check a few.", [H + "math.h"], [("in_range_rr, in_range_rr_line/_edge/_ray/_segment, ball_hits_edge, ball_hits_ray", H + "math.h")])
prop("M04", "Point in polygon gives the exact winding number",
     "For every closed polygon, self crossing or not, and every point off its boundary the result is the exact winding number (non-zero means inside), an empty polygon contains nothing, and for a point inside slanted edges those edges count for nothing.",
     ["inputs"], "every polygon and point off its boundary, coordinates below 2^30", "Tests check a square.", [CE, H + "math.h"], [("in_polygon, in_polygon_xy", CE)])
prop("M05", "Square roots and lengths are the nearest integers",
     "The integer square root of every value up to (2^31-1)^2 and the length of every 32 bit vector are the nearest integers to the exact values, and a normalised vector has unit length and the direction of the original.",
     ["inputs"], "every value and vector in the domain", "Tests check a few values.", [H + "math.h"], [("isqrt, hypot, normal", H + "math.h")])
prop("M06", "Rotation and sine and cosine are accurate to half a unit at every angle",
     "Rotating any vector by any of the 2^32 angles, and the sine, cosine and cartesian forms, are within rounding (half a unit, plus 2^-30 of the vector's length) of the exact result in each component; converting degrees to an angle is the exact value rounded.",
     ["inputs"], "every vector and angle", "Tests check quarter turns.", [H + "math.h"], [("cordic::rotate, cos_2pi, sin_2pi, to_cartesian", H + "math.h")])
prop("M07", "Polar conversion gives the length and the angle of every vector",
     "For every vector other than the origin, shorter than 2^31, the polar form's length is the rounded length and its angle is within a unit and a quarter of the exact angle, in every octant and on every axis.",
     ["inputs"], "every vector in the domain", "Tests check a few.", [H + "math.h"], [("cordic::vector, to_polar, polar_mag, polar_ang, atan2_2pi", H + "math.h")])
prop("M08", "Line intersection is the exact point rounded, and parallel lines are refused",
     "Two lines which are not parallel intersect in the exact rational point rounded to within a unit in each coordinate, in whichever order and direction their points are given, and parallel lines are reported as such; scaled products are exact before the one division.",
     ["inputs"], "all arrangements with coordinates up to 2^29 whose intersection fits", "Tests check a few.", [H + "math.h"], [("intersect, muldiv", H + "math.h")])
prop("M09", "Vector operators are exact and componentwise",
     "Widening products (dot, cross, square) never overflow and equal the exact sums for every pair of 32 bit vectors in their domain (64 bit ones are exact where the result fits), and each operator and comparison acts on each component alike.",
     ["inputs"], "every pair of vectors", "Tests check small values.", [CE, H + "math.h"], [("vec operators, dotx, crossx, sqrx", CE)])

# ---- z order
prop("Z01", "Z-order codes interleave coordinates bijectively and keep boxes testable",
     "The code of a point interleaves the bits of its two 32 bit coordinates (offset to be unsigned), so distinct points have distinct codes, codes rise with either coordinate, and a code is inside the box of two corner codes exactly if both coordinates are within the corners'.",
     ["inputs"], "every pair of 32 bit coordinates and every box", "Tests use small coordinates.", [H + "zorder.h"], [("z_encode, z_expand, z_inside", H + "zorder.h")])
prop("Z02", "A range query reports every stored point of the box exactly once",
     "Querying sorted codes with a box reports each stored code inside the box exactly as often as it is stored, in ascending order, and nothing which is not stored or lies outside the code range of the box; codes outside the box itself come only from parts of that range which halving the box along the curve leaves within one cell of 256 by 256. "
     "It reads only the stored codes, writes only the results, and always ends.",
     ["inputs"], "every sorted data set and box", "Tests query a few small boxes.", [H + "zorder.h"], [("z_query, z_split, z_lower_bound", H + "zorder.h")])

# ---- triangulation
C = H + "cdt.h"
prop("C01", "Every history of insertions leaves a valid triangulation of the whole domain",
     "After any history of point and edge insertions, accepted or refused, the faces are non-degenerate, consistently oriented, cover the whole domain exactly once without overlap, meet edge to edge with matching neighbours and constraint flags, and have exactly the inserted and split points as corners. "
     "Face, edge and corner views agree with each other.",
     ["histories"], "every history of insertions (with any hints), at every capacity and scale", "Tests insert a few points and edges.", [C], [("insert_point_at_node, do_flip, insert_edge", C)])
prop("C02", "Point-only triangulations are Delaunay",
     "After any history of point insertions no corner of the mesh lies strictly inside the circumcircle of any face, wherever in the domain and however close, collinear or cocircular the points are.",
     ["histories", "inputs"], "every sequence of points", "Tests never check it; overflow shows on large triangles only.", [C], [("incircle, flip", C)])
prop("C03", "Inserted edges exist as constrained chains and later insertions keep them",
     "An accepted edge joins its rounded end points by constrained mesh edges, within 8 grid units of its line if it crosses no earlier constraint (but for about one in 100 000); one which crosses none, comes no closer than 2 units to other corners or sides at its ends, and needs no split is accepted and straight. "
     "Every earlier constraint stays covered exactly by constrained edges, whatever is inserted later, and new constraints belong to the inserted edge: points make none except by splitting.",
     ["histories"], "every history of points and edges", "Tests insert a couple of edges and look at counts.", [C], [("insert_edge, split_constraint, constrain_edge, can_flip", C)])
prop("C04", "Locating a point finds the face holding it from any start",
     "Locating any point inside the domain returns, for every hint (valid, stale or out of range) and after every insertion history, a face which contains the point, the same one for every hint (points on the domain's border may also give none), and points outside the domain give none; it always ends.",
     ["histories", "inputs"], "every mesh, point and hint", "Tests locate a few points with good hints; constraints make the walk cycle.", [C, H + "math.h"], [("locate, locate_insertion_node, scan", C)])
prop("C05", "Filling labels exactly the region bounded by constraints",
     "Filling from a face labels every face reachable from it without crossing a constrained edge, and no other, however large the region; other labels and the mesh are unchanged, and faces split later inherit their label.",
     ["histories"], "every mesh and start face (no face of the region labelled so already)", "Tests fill tiny meshes; large regions exhaust the fixed work stack.", [C], [("fill, fill_ex, insert_point_at_node (fi)", C)])
prop("C06", "Duplicates, outside points and a full mesh are handled without damage",
     "Inserting an existing point succeeds and changes nothing, inserting a point outside the domain or into a full mesh is refused and changes nothing for points, and no operation writes outside the mesh; the capacity is usable to the last point. "
     "Positions are rounded down to the grid of the mesh's scale.",
     ["histories", "inputs"], "every mesh, at and around its capacity and its borders", "Tests stay away from limits.", [C], [("insert_point, insert_point_at_node, c_limit", C)])
prop("C07", "Meshes depend only on the insertion history",
     "The same history gives the same mesh, face by face, whatever the memory held before, whatever was built there before a reset, and in every build configuration.",
     ["histories", "configurations"], "every history, prior memory content and build", "Tests build once in one configuration.", [C], [("reset, insert_*", C)])

# ---- threads
A = H + "atomic_std.h"
prop("A01", "Atomic operations are linearizable for every supported type",
     "Concurrent loads, stores, exchanges, compare-exchanges, adds, subtracts and bit operations on one value act as if executed one at a time: each returns the value just before it, no update is lost, and a failed compare-exchange reports the actual value and changes nothing. "
     "This holds for integers of every width, pointers, enumerations and floating point.",
     ["schedules", "inputs"], "every interleaving of operations of any number of threads", "Tests call each operation from one thread.", [A, H + "atomic.h"], [("atomic_*", A)])
prop("A02", "Atomic operations order the memory around them",
     "What a thread wrote before an atomic operation is visible to a thread which observed its result, and atomic operations on different values have one order all threads agree on (so two threads cannot each miss the other's flag).",
     ["schedules"], "every interleaving", "Tests are single threaded.", [A], [("default (sequentially consistent) orders", A)])
prop("A03", "Atomics on the MSVC x86 intrinsics are linearizable with one order for all",
     "Where atomics are built from interlocked intrinsics, concurrent loads, stores, exchanges, compare-exchanges, adds and subtracts act as if executed one at a time in one order all threads agree on, for integers, pointers, enumerations, floating point and small structures; values of sizes without an instruction are never seen half written and lose no update.",
     ["schedules", "inputs"], "every interleaving, type and size", "The tests are never built with this implementation here, and call each operation from one thread.", [H + "atomic_msvc_x86.h"], [("interlocked operations, scope_spin_lock", H + "atomic_msvc_x86.h")])
prop("X01", "A mutex admits one holder and orders what holders did",
     "Between acquiring and releasing a mutex a thread is the only holder, sees all that earlier holders did, and every blocked thread gets it in the end; trying fails exactly when it is held, without blocking, and works on every freshly constructed mutex.",
     ["schedules", "histories"], "every interleaving of any number of threads and mutexes", "Tests lock from one thread.", [H + "mutex.h", "lib/mutex_std.cpp"], [("acquire_mutex, try_acquire_mutex, release_mutex", "lib/mutex_std.cpp")])
prop("X02", "A shared mutex admits either one writer or any number of readers",
     "While a thread holds it exclusively no other holds it in any way, several threads can hold it shared at once, and trying either way fails exactly when the current holders forbid it, without blocking; holders see all that earlier writers did.",
     ["schedules", "histories"], "every interleaving of readers and writers", "Tests lock from one thread.", [H + "mutex.h", "lib/mutex_std.cpp"], [("acquire_mutex_shared, try_acquire_mutex_shared, release_mutex_shared", "lib/mutex_std.cpp")])

prop("X03", "Threads with their own objects, or reading shared ones, never interfere",
     "No part of the library keeps state outside the objects it is given: threads working on their own objects, and threads only reading shared ones through functions that do not change them, race on nothing and get exactly the results they would get alone.",
     ["schedules", "inputs"], "every interleaving of calls to any parts", "Tests run on one thread.", [CE, H + "cdt.h", H + "math.h", H + "sort.h", H + "zorder.h", H + "pool.h", H + "dictionary.h", H + "io.h", H + "nameof.h", H + "lziii.h", "lib/os.cpp", "lib/os_posix.cpp", "lib/to_text.cpp"], [("all functions; const members of cdt, dictionary, bulk", CE)])

prop("W02", "The Windows mutexes admit one writer or any number of readers",
     "Over slim reader/writer locks, an exclusive holder is alone, sharers hold together, trying fails exactly when the holders forbid it, releasing undoes what acquiring did, and a fresh mutex is free whatever its memory held.",
     ["schedules", "histories"], "every interleaving of readers and writers", "The tests are never built with this implementation here.", ["lib/mutex_win32.cpp", H + "mutex.h"], [("acquire, try_acquire and release over SRW locks", "lib/mutex_win32.cpp")])

# ---- os
prop("O01", "Timestamps never run backwards and sleeping lasts at least as asked",
     "Monotonic timestamps never decrease within and across threads, advance at the announced frequency, and a sleep lasts at least the requested time.",
     ["schedules", "inputs"], "every duration and reading order", "Tests read a timestamp or two.", ["lib/os_posix.cpp"], [("monotonic_timestamp, monotonic_frequency, sleep_ns", "lib/os_posix.cpp")])
prop("O02", "Clocks convert elapsed time without drift",
     "After any sequence of readings at any spacing the total of ticks handed out equals the elapsed time at the clock's rate, rounded down once from the exact product, however the time was cut into readings and whatever the frequencies; restarting begins at zero.",
     ["histories", "inputs"], "every reading history, tick rate and timer frequency (whose product fits 64 bits)", "Tests read real time once or twice, where a lost fraction cannot show.", [H + "clock.h"], [("clock::elapsed residual", H + "clock.h")])
prop("O03", "Unavailable file and memory services fail closed",
     "Where the platform offers no file mapping or page allocation, opening, mapping, unmapping, closing and allocating report failure and leave an empty result, whatever the path or prior content, and debug output writes exactly the text given to standard error.",
     ["inputs", "fault_sequences"], "every path, prior content and call sequence", "No test calls them.", ["lib/os_posix.cpp"], [("open_file, map_span, unmap_span, close_file, virtual_alloc, debug_out", "lib/os_posix.cpp")])

prop("W01", "The Windows file services map exact bytes, fail closed and leak nothing",
     "Under every history of opening, mapping, unmapping and closing and every failure of a system call, a mapped file shows exactly its bytes under exactly its (UTF-8) name and stays unchanged, a failure is reported and leaves an empty result, and no handle or view outlives its use; "
     "a sleep asks the system for at least the requested time, readings are passed on whole, and allocated pages are usable throughout.",
     ["inputs", "fault_sequences", "histories"], "every name, file size, call history and failure of the system", "The tests are never built with this implementation here, and no test calls these services.", ["lib/os_win32.cpp"],
     [("to_utf16, open_file, map_span, unmap_span, close_file, sleep_ns, virtual_alloc", "lib/os_win32.cpp")])

prop("W03", "Other platforms' branches of the arithmetic give the same exact results",
     "Compiled as for MSVC, or for another compiler on another processor, product comparisons, side and range tests, roots and lengths, rotation and polar form, line intersection, random generators and checksums meet the same definitions as here.",
     ["configurations", "inputs"], "every input of these functions in each platform's branch", "The tests are built for one platform only.", [H + "math.h", H + "ce.h"],
     [("ab_less_cd, muldiv, isqrt, hypot, normal", H + "math.h"), ("CE_ROTL32, CE_MEMCPY, CE_MEMSET", H + "ce.h")])

# ---- reflection
prop("I01", "Reflection visits every member once, in order, under its own name",
     "Walking a described type visits each listed member exactly once, in order, with its name, entering and leaving every class and array around its content and in balance, with the element count, to any depth; values written out and read back in the same way are equal. "
     "Names are the members' as written, without white space, at any length of list.",
     ["programs", "inputs"], "every described type and value", "The test walks one small type.", [H + "io.h"], [("io, reflection, names_t, CE_IO_BIND, CE_IO_AS", H + "io.h")])
prop("N01", "Names of enumerators and types convert both ways",
     "The name of every enumerator with a value in 0 to 255 is its own unqualified name and converts back to it, values without an enumerator give the unknown name, and text which is no enumerator's exact name gives the fallback; the name of a type is its full name. "
     "This holds for enumerations of every width and scope.",
     ["programs", "inputs"], "every enumeration, value and text", "Tests convert a few enumerators of one type.", [H + "nameof.h"], [("nameof, as_enum", H + "nameof.h")])


# ---- compile time
prop("G01", "Type lists, sequences and traits are what their names say",
     "For every list of types its length, first element, remainder, element by number, membership and sameness are exact; for every length the sequence of indices is complete and in order, and a list of values holds exactly these; "
     "removing references, qualifiers or pointers from any type, and classifying it, agrees with the language's own definition, and small trivially copyable types alone are passed by value.",
     ["programs"], "every list, length and type", "Tests use two or three of these, on one type each.", [CE], [("types, select_t, has, are_same, sequence_t, items_v, remove_*, is_ptr, best_pass_by_value_t", CE)])
prop("G02", "Members by number, counts and value helpers act on the whole value",
     "Reading a member of an aggregate by number gives that member's value and type, unchanged and leaking nothing; arrays and argument lists are counted exactly without evaluating anything; "
     "swapping exchanges two values of any type, reading a value as another type keeps its bytes, a colour's array is its components in order, and the preprocessor helpers expand to exactly the chosen parts.",
     ["programs", "inputs"], "every aggregate of up to four members, array, argument list and value", "Tests count a few arrays.", [CE], [("get, tuple, as_cast, CE_COUNTOF, CE_COUNTOF_ARGS, CE_PP_*, swap, rgba", CE)])
prop("G03", "Units, header orders, language versions and compilers agree",
     "The headers can be included in any selection and order, next to standard headers, in any number of units of a program built by clang or gcc for C++17 or later; and everything the library computes from the same inputs is "
     "the same in every unit, before, during and after main, at compile time and at run time, and from either compiler.",
     ["programs", "configurations", "inputs"], "every selection and order of headers, language version, supported compiler, time of the program and input", "The tests are one unit per header, each with one order of includes, built by one compiler in one version of the language.",
     [CE, "lib/h/ce/atomic.h", "lib/h/ce/mutex.h", "lib/h/ce/math.h", "lib/h/ce/io.h"], [("the compiler and platform selection at the top of each header, inline and constexpr functions", CE)])
prop("G04", "As WebAssembly, for 32 or 64 bit memories, the library behaves as natively",
     "Every header which needs no C++ library, and the sources it needs, builds for WebAssembly without a C or C++ library, and computes there, at compile time and at run time, with 32 and with 64 bit sizes, what it computes natively from the same inputs, "
     "without undefined behaviour.",
     ["configurations", "inputs"], "every input, on each processor the library names", "The tests are only run on the processor they are built on, where sizes and long have 64 bits and x86's instructions are used.",
     [CE, "lib/h/ce/math.h", "lib/to_text.cpp"], [("CE_CPU_WASM_*, the branches for processors other than x86, every use of size_t and long", CE)])
prop("G05", "Nothing in the library allocates, or disturbs the thread it runs on",
     "No operation of the library (text, logs, assertions, containers, sorting and searching, hashes, decoders, geometry, meshes, reflection, mutexes, atomics, system services) asks the allocator for memory or gives any back, however much data it works on; "
     "apart from system services and meshes (which stay within fixed bounds of their own), none uses more than a fixed amount of stack or changes errno, and none changes how the thread rounds.",
     ["inputs", "configurations"], "every input of every size", "Tests look at results only; an allocation, or a stack which grows with the data, changes no result.",
     [CE, "README.md"], [("non-allocating; every header", CE)])

prop("G06", "What is offered over the compiler means the same on every compiler and target",
     "CE_MEMCPY, CE_MEMSET and CE_STRLEN do exactly what the standard functions do; CE_ROTL32 rotates 32 bits left by any count modulo 32, evaluating its arguments once; CE_TIMESTAMP is the processor's counter with 64 bits (0 where there is none), never running "
     "backwards on a thread and keeping its pace; the integer types have the width and sign of their names; CE_IS_TRIVIALLY_DESTRUCTIBLE is true of exactly the types destroyed by nothing; CE_FILELINE names the line it stands on; CE_NOINLINE functions stay "
     "functions; the processor and system a program is compiled for are told correctly; and CE_STATIC_ASSERT, CE_COUNTOF and non-copyable atomics refuse to compile exactly what is false, no array, or a copy, where it stands and with its text.",
     ["inputs", "configurations"], "every value, size, type, condition, compiler and target", "Tests run one compiler, use two of these macros, and cannot contain what must not compile.",
     [CE, "README.md"], [("CE_ROTL32, CE_MEMCPY, CE_MEMSET, CE_STRLEN, CE_TIMESTAMP, CE_STATIC_ASSERT, CE_COUNTOF, CE_CPU_*, CE_API_*", CE), ("atomic", H + "atomic_std.h")])

prop("G07", "Uses out of bounds which the library checks for are reported before any harm",
     "Testing, setting, clearing or writing a bit at or past a bit set's size, asking a dictionary for a name never bound or for a place it has not given out, and copying or assigning a list whose size is beyond its capacity each fail an assertion before "
     "anything of the object is changed or anything outside of it is touched. No use within bounds fails one.",
     ["inputs"], "every size, index, place, name and operation", "Tests only use valid indices; where the check is off by one or misses an operation nothing valid shows it.",
     [CE, H + "dictionary.h"], [("bitset, bulk", CE), ("dictionary::operator[]", H + "dictionary.h")])

prop("G08", "What can be computed at compile time is defined there and equals run time",
     "Hashes, checksums, decoded base64 and its sizes, character classes, vector operators and products, side tests, angles of degrees, and the names of logged expressions and reflected members can all be computed by the compiler, which accepts nothing undefined; "
     "for every argument the constant equals what the program computes from the same values, and the definition.",
     ["inputs", "configurations"], "every argument of every constant function", "Tests assert a handful of constants; most functions are only ever called at run time, where undefined behaviour goes unseen.",
     [CE, H + "math.h", H + "io.h"], [("crc32, crc32c, hash::fnv1a, base64, ascii, vec operators, names", CE), ("inside, degrees_to_angle", H + "math.h"), ("names_t", H + "io.h")])

prop("G09", "The work of an operation grows no faster than its kind needs",
     "Independent of capacity and of what else is stored, bits, pool and queue operations, appending, unordered removal, rounding arithmetic, random draws (on average where some are thrown away), uncontended mutexes, conversions of numbers and a mesh's reset take constant "
     "work; binary searches, the priority queue and lookups of names forming a search tree take work as the logarithm of the size; copying, assigning, clearing and resizing lists take work as the elements made, copied or destroyed; checksums, hashes, decoders, "
     "text (as far as it is shown), polygons and fills take work as what they handle, and sorting n log n, insertion sort n plus the inversions. On random points, inserting or locating in a mesh takes work as the distance from the hint in faces (constant "
     "when near by), and a range query as the points found, with the logarithm of the size for each part of the box's outline.",
     ["inputs", "histories"], "every size, shape of data and history", "Tests use small data and look at results only, which a slower algorithm gives as well.",
     [CE, H + "sort.h", H + "pool.h", H + "dictionary.h", H + "cdt.h", H + "zorder.h", H + "math.h", H + "lziii.h", "lib/to_text_from_integer.h"],
     [("heap_raise, heap_lower, bulk, bitset, crc32, fnv1a, base64", CE), ("intro_sort, heap_sort, lower_bound", H + "sort.h"), ("cdt::locate, insert_point, fill", H + "cdt.h"), ("z_query, z_lower_bound", H + "zorder.h"), ("pool", H + "pool.h")])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i not in SPECS:
            na.append(dict(property=i, reason="no check yet"))
            continue
        s = SPECS[i]
        checks.append(dict(
            property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --thorough" % i, level="exploration",
            technique="runtime monitoring: " + s.get("technique", "an independent oracle over executions of the real code in sanitized and plain builds (%s)" % ", ".join(sorted({r["config"] for r in s["runs"]}))),
            level_note="Oracle verdicts on generated executions: " + s["rule"].split(" Non-trivial")[0] + (" Bounds: " + "; ".join(s["assumptions"]) + "." if s.get("assumptions") else "")))
    m = dict(version=1, setup_cmd="python3 setup_check.py", checks=checks, not_applicable=na,
             notes="One harness per property under harness/, built by check.py against /repo's working tree with the user hooks ce.h documents (no changes to /repo for monitoring). See DESIGN.md.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    ids = {p["id"] for p in P}
    assert set(SPECS) <= ids, set(SPECS) - ids


main()
