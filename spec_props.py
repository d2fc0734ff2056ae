prop("C09", "Narrowing conversions keep the value and detect every misfit",
     "Converting between any two integer types preserves every value the target type can represent, and the range test says 'fits' exactly for those values. A conversion classified as non-narrowing never loses a value.",
     ["inputs"], "all values of every ordered pair of the eight fixed-width integer types",
     "The unit test samples a few boundary values for a few type pairs; the guarantee is over 2^64 values for 64 pairs.",
     ["include/soro/utls/narrow.h"], [("narrow/fits/is_narrowing overloads", "include/soro/utls/narrow.h")],
     ["return value of narrow<T>() and of the range test"], "Complete for the eight types: no bound on values.")
prop("C15", "Merging sorted sets yields exactly their union, sorted and duplicate free",
     "Merging two or more sorted sets returns a strictly increasing sequence with every element of every input and nothing else. Unsorted input to the two-way merge is rejected.",
     ["inputs"], "all sorted inputs (any number of sets, any contents, empty ones included)",
     "Existing tests merge a handful of fixed vectors and are not even built here; order/duplicate interplay is combinatorial.",
     ["include/soro/utls/algo/merge_unique.h", "include/soro/utls/algo/multi_set_merge.h"],
     [("merge_unique", "include/soro/utls/algo/merge_unique.h"), ("multi_set_merge heap merge", "include/soro/utls/algo/multi_set_merge.h")],
     ["returned container"], "")
prop("C16", "Overlap and intersection agree with set semantics",
     "The overlap test answers true exactly when the two sequences share a value, and the intersection functions return exactly the shared values with their common multiplicity. This holds for the sorted entry points on sorted input (unsorted input to the checked one is rejected) and for the unsorted entry points on any input, which they leave unchanged.",
     ["inputs"], "all pairs of sequences, sorted or not, with duplicates",
     "Tests use a few fixed vectors; skipping logic and permutation indices matter only for particular interleavings of values.",
     ["include/soro/utls/algo/overlap.h", "include/soro/utls/algo/sort_and_intersect.h"],
     [("overlap / overlap_non_sorted / get_overlap*", "include/soro/utls/algo/overlap.h"), ("sort_and_intersect / intersect", "include/soro/utls/algo/sort_and_intersect.h")],
     ["return values", "input containers after the call"], "")
prop("C17", "Trimming and slicing keep exactly the requested part of a sequence",
     "Trimming before the first match keeps exactly the elements from the first match on; trimming after the last match keeps exactly the elements up to and including it (nothing matches: nothing is kept). Slicing keeps exactly the half-open range asked for, in place, as a copy and as a view, and the clamping variants treat a start beyond the end as 0 and an end beyond the end as the size.",
     ["inputs"], "all sequences, predicates and positions within the documented preconditions",
     "The remove_after/remove_until tests use one vector each; slicing has fixed-position tests only.",
     ["include/soro/utls/algo/remove_after.h", "include/soro/utls/algo/remove_until.h", "include/soro/utls/algo/slice.h"],
     [("remove_after", "include/soro/utls/algo/remove_after.h"), ("remove_until", "include/soro/utls/algo/remove_until.h"), ("slice, slice_clasp, slice_range", "include/soro/utls/algo/slice.h")],
     ["container contents after the call", "returned copy or view"], "")
prop("C18", "Range queries agree with their definitions on every range",
     "Searching, counting, testing, folding, copying, reversing, sorting and subtracting ranges through the range wrappers gives the mathematically defined result: first matching position (the size if none), exact counts, left-to-right folds, sorted permutations, and set differences.",
     ["inputs"], "all ranges, searched values and predicates",
     "Only incidental coverage by other tests; wrappers forward positions and predicates that a wrong iterator pair silently breaks.",
     ["include/soro/utls/std_wrapper/find_position.h", "include/soro/utls/std_wrapper/contains.h", "include/soro/utls/std_wrapper/all_of.h",
      "include/soro/utls/std_wrapper/accumulate.h", "include/soro/utls/std_wrapper/sort.h", "include/soro/utls/std_wrapper/set_difference.h"],
     [("std_wrapper functions", "include/soro/utls/std_wrapper")], ["return values and modified ranges"], "")
prop("C19", "Ordered containers stay ordered and complete through every history",
     "A sorted container built from any elements holds exactly these elements in the requested order. A priority queue always reports a greatest element under its comparison on top, removal takes exactly that element away, and no history of insertions and removals loses or invents elements.",
     ["inputs", "histories"], "all element sequences, both orders, all operation histories",
     "No test exercises histories of the queue; heap order errors show only for particular orders of equal and unequal priorities.",
     ["include/soro/utls/container/sorted_vector.h", "include/soro/utls/container/priority_queue.h"],
     [("sorted_vector constructors", "include/soro/utls/container/sorted_vector.h"), ("priority_queue emplace/pop", "include/soro/utls/container/priority_queue.h")],
     ["top(), iteration, element access"], "")
prop("C21", "Compact optional values behave like optionals for every value",
     "A compact optional is empty exactly when it is default constructed, reset, or holds the type's reserved value; otherwise it returns the stored value unchanged. Fallbacks, chaining and copies depend only on that state, and never touch other copies.",
     ["inputs"], "all stored values, fallback values and reserved values of the integer and pointer instantiations",
     "Sentinel encodings fail only at particular values, which sampled tests do not hit.",
     ["include/soro/utls/container/optional.h"], [("optional", "include/soro/utls/container/optional.h")],
     ["has_value, value, value_or, or_else, and_then, execute_if"], "")
prop("C22", "Lookup tables and id views return the element they are asked for",
     "A fixed lookup table returns the value stored for a key and fails for keys it does not hold. A view through a list of ids yields, for every traversal (forward, backward, jumping, indexing), exactly the elements with these ids in this order.",
     ["inputs"], "all table contents, keys, id lists and positions",
     "Tests use one constant table; id views are only exercised by scenarios that are not built here.",
     ["include/soro/utls/container/constexpr_map.h", "include/soro/utls/container/id_iterator.h", "include/soro/utls/container/it_range.h"],
     [("constexpr_map::at", "include/soro/utls/container/constexpr_map.h"), ("id_iterator", "include/soro/utls/container/id_iterator.h"), ("make_range", "include/soro/utls/container/it_range.h")],
     ["returned values, iteration order, iterator comparison"], "")
prop("C23", "Generators deliver every value once, in order, and pass on failures",
     "Consuming a generator, nested or mapped ones included, yields exactly the produced values, once each and in production order (depth-first for nested generators); starting an iteration consumes nothing. A failure raised while producing values reaches the consumer after the values produced before it, and abandoning the iteration at any point releases all generator state.",
     ["inputs", "histories", "fault_sequences"], "all produced sequences and nestings, all abandonment points, a failure at any production point",
     "The generator tests iterate a few fixed generators to the end; nested completion, failure points and abandonment are combinatorial.",
     ["include/soro/utls/coroutine/generator.h", "include/soro/utls/coroutine/recursive_generator.h", "include/soro/utls/coroutine/iterator.h",
      "include/soro/utls/coroutine/coro_map.h", "include/soro/utls/coroutine/collect.h"],
     [("promise types and iterators", "include/soro/utls/coroutine/generator.h"), ("nesting of leaf/parent promises", "include/soro/utls/coroutine/recursive_generator.h"), ("coro_it", "include/soro/utls/coroutine/iterator.h")],
     ["sequence seen by a range-for, thrown exceptions, destructor runs"], "Failures inside the bare coroutine iterators (coro_it) are outside the claim.")
prop("C10", "Exclusion sets behave as mathematical sets of ids",
     "Whatever sequence of constructions, insertions, unions and differences produced it, an exclusion set contains exactly the ids set theory gives, reports their number and lists them in ascending order. Comparing two sets gives exactly the subset relation (equal, proper subset, proper superset or unordered), empty sets included.",
     ["inputs", "histories"], "all sets of ids, all queried ids, all histories of insertions, unions and differences",
     "The exclusion set test needs libraries missing here and samples a few sets; block alignment and compaction matter only for particular id positions.",
     ["src/infrastructure/exclusion/exclusion_set.cc", "include/soro/infrastructure/exclusion/exclusion_set.h"],
     [("set/operator|=/operator-=/compact/lower_first/increase_last", "src/infrastructure/exclusion/exclusion_set.cc"), ("compare/contains", "src/infrastructure/exclusion/exclusion_set.cc")],
     ["operator[], count, listing, comparison results"], "Comparison is decided for arbitrary contents, histories for a grid of block-boundary positions.")
prop("C24", "Graph traversals visit exactly the reachable nodes in order",
     "Breadth-first and depth-first traversal visit every node reachable from the start exactly once and nothing else, each edge of a visited node exactly once, breadth-first in order of distance, depth-first along the graph's own neighbour order. A callback's wish to stop at a node or edge cuts off exactly what lies behind it, and the forward and backward views of the same graph agree.",
     ["inputs"], "all directed graphs (cycles and self loops included), start nodes and stop requests",
     "No test in the build runs a traversal; visiting twice or never shows only on particular cycles.",
     ["include/soro/utls/graph/traversal.h"], [("bfs / dfs", "include/soro/utls/graph/traversal.h")],
     ["order and number of node and edge callbacks"], "")
prop("C25", "Cycle detection finds a cycle exactly when there is one",
     "A graph is reported cyclic exactly when it has a directed cycle (self loops count). A reported cycle is a real closed walk of the graph, and a list of reported cycles is empty exactly for acyclic graphs.",
     ["inputs"], "all directed graphs",
     "The tests need scenario files and libraries not built here, and sample a few graphs.",
     ["include/soro/utls/graph/has_cycle.h", "src/simulation/ordering/get_cycle.cc"],
     [("has_cycle", "include/soro/utls/graph/has_cycle.h"), ("get_cycle / get_cycles on ordering graphs", "src/simulation/ordering/get_cycle.cc")],
     ["returned answer and cycle"], "")
prop("C26", "Removing transitive edges keeps reachability with the fewest edges",
     "Removing transitive edges from an acyclic ordering graph leaves exactly its transitive reduction: every pair of nodes stays connected or unconnected as before, no remaining edge is implied by others, and no edge is invented. Both directions of the edge lists stay consistent.",
     ["inputs"], "all acyclic ordering graphs in any node numbering",
     "The test only runs on scenarios that are not built here.",
     ["src/simulation/ordering/remove_transitive_edges.cc"],
     [("remove_transitive_edges", "src/simulation/ordering/remove_transitive_edges.cc")],
     ["in and out lists of all nodes"], "")
prop("C35", "Element types are classified and named consistently",
     "Element type predicates agree with each other for every type: end, simple, switch, cross and track elements are disjoint, and track elements are either directed or undirected; every type belongs to exactly one of these classes. Every type has a name of its own, and reading an element name of the infrastructure format gives the type it denotes. A type set contains exactly the types it was built from, and infrastructure statistics count every type once.",
     ["inputs"], "all element types and element names of the format, all type sets and element counts",
     "A wrong entry in one of the tables affects one type only; the tests never look at most of them.",
     ["include/soro/infrastructure/graph/type.h", "src/infrastructure/graph/type.cc", "include/soro/infrastructure/graph/type_set.h", "src/infrastructure/graph/type_set.cc",
      "include/soro/infrastructure/infra_stats.h"],
     [("type predicates and name tables", "include/soro/infrastructure/graph/type.h"), ("type_set", "include/soro/infrastructure/graph/type_set.h"), ("infra_stats", "include/soro/infrastructure/infra_stats.h")],
     ["return values"], "Names outside the format's vocabulary are outside the claim (names are told apart by a 32-bit hash).")
prop("C39", "Physical units compute like their numbers with the right dimensions",
     "Arithmetic, comparison and conversion of physical quantities gives exactly the floating-point result of the same computation on the numbers (equality within the documented precision), never changes its operands, and products, quotients and powers carry the right, simplified dimension. A polynomial evaluates its factors in descending order; a piecewise function evaluates the piece its argument lies in and fails beyond its last border.",
     ["inputs"], "all double values (NaN and infinities included), all pairs of units, all polynomials and piecewise functions",
     "Tests compute a few sample values; a sign or order mistake in one operator or conversion affects only uses of that operator.",
     ["include/soro/si/units.h", "include/soro/utls/strong_types/fraction.h", "include/soro/utls/math/polynomial.h", "include/soro/utls/math/piecewise_function.h"]
     , [("unit operators and conversions", "include/soro/si/units.h"), ("fraction simplification", "include/soro/utls/strong_types/fraction.h"), ("polynomial", "include/soro/utls/math/polynomial.h"), ("piecewise_function", "include/soro/utls/math/piecewise_function.h")],
     ["values and static types of results"], "Degree up to 3, up to 3 pieces.")
prop("C40", "Strong number types compute like the numbers they wrap",
     "Arithmetic, comparison and conversion of strong types, speeds, durations and times gives the result of the same computation on the wrapped numbers, with rounding exactly as documented; only assigning operators change their operand. Adding a duration to a time and taking it back is the identity, and reserved invalid values stay distinguishable from valid ones.",
     ["inputs"], "all values of the wrapped integer types within the range in which the plain computation does not overflow",
     "Tests use a few sample values; a wrong operator, operand order or rounding shows only at particular values or uses.",
     ["include/soro/utls/strong_types/strong_type.h", "include/soro/simulation/kilometer_per_hour.h", "include/soro/utls/unixtime.h", "src/utls/unixtime.cc"]
     , [("strong_type operators", "include/soro/utls/strong_types/strong_type.h"), ("kilometer_per_hour", "include/soro/simulation/kilometer_per_hour.h"), ("unixtime, duration", "include/soro/utls/unixtime.h")],
     ["results and operands after each operation"], "")
prop("C41", "Tuple and range helpers keep every element, in order",
     "Applying to, searching in and slicing tuples touches exactly the requested positions, each once and in order; searches report the first match, or none. Converting a range gives a container with exactly its elements in order, and type lists compute positions, counts and removals exactly.",
     ["inputs"], "all tuple contents, slices, indices and predicates; all ranges within the bounds",
     "Tests use one tuple each; off-by-one slices or an extra callback show only for other positions.",
     ["include/soro/utls/tuple/slice.h", "include/soro/utls/ranges/to.h", "include/soro/utls/strong_types/type_list.h"],
     [("tuple helpers", "include/soro/utls/tuple"), ("ranges::to", "include/soro/utls/ranges/to.h"), ("type list computations", "include/soro/utls/strong_types/type_list.h")],
     ["returned values, callback order"], "")
prop("C44", "Error codes identify their error and category unambiguously",
     "An error code made from an error value carries that value and its category, compares equal only to the same error of the same category, and has a message of its own; values that are no error have the fallback message. The success value is no error.",
     ["inputs"], "all error values of all categories, all pairs, all other 32-bit values",
     "No test looks at messages or cross-category comparison.",
     ["src/rolling_stock/rolling_stock_error.cc", "src/timetable/timetable_error.cc", "src/timetable/parsers/kss/kss_error.cc", "src/timetable/parsers/route_transform_error.cc"],
     [("error categories", "src/timetable/timetable_error.cc")], ["value, category, message, comparisons"], "")
prop("C46", "Coordinates are validated, bounded and compared consistently",
     "A GPS position is valid exactly when both coordinates are numbers within their ranges, and a bounding box is the smallest box holding all given points. The tolerant number comparison is symmetric, reflexive for numbers, and accepts exactly differences below its tolerance.",
     ["inputs"], "all double coordinates (NaN and infinities included), all point sets within the bounds",
     "Tests use a few points; NaN, poles and the exact limits are not among them.",
     ["include/soro/utls/coordinates/gps.h", "src/utls/coordinates/gps.cc", "include/soro/base/fp_precision.h"],
     [("valid, bounding_box", "src/utls/coordinates/gps.cc"), ("equal / is_zero", "include/soro/base/fp_precision.h")], ["return values"], "Projections (transcendental functions) are outside the claim.")
prop("C01", "Service day calendars keep exactly their days of service",
     "A service day calendar contains exactly the days it was given: asking for a day, counting, listing and iterating (also from or up to a point in time) agree with its content and ascend. Changing a day changes that day only, a union contains exactly the days of both calendars, and calendars are equivalent exactly if they contain the same days, whatever days they start with.",
     ["inputs"], "all calendars (any first day, any content), all days, all pairs of calendars",
     "Tests use a few hand written masks; the calendars are 512 day bit sets realigned whenever their first days differ, so errors depend on the offset between calendars and on word boundaries.",
     ["include/soro/timetable/bitfield.h", "src/timetable/bitfield.cc"],
     [("bitfield operators, set, equivalent, iterators, from/to", "src/timetable/bitfield.cc")],
     ["operator[], count, iteration, first/last day, equivalent"], "Days from 1970 to 2106, up to 512 day calendars.")
prop("C03", "A train's trips are exactly those of its service days and intervals",
     "For a query interval a train lists exactly those trips, in order, whose time from first departure to last arrival shares an instant with the interval, trips that started on an earlier service day included; without an interval it lists one trip per service day. Intervals overlap exactly if they share an instant; halts are counted, and a general speed limit concerns exactly the trains it names.",
     ["inputs"], "all service days, departure and arrival offsets (over midnight, several days) and query intervals",
     "Tests query whole scenarios only (and are not built here); a trip is missed only for overnight trains at particular interval bounds.",
     ["include/soro/timetable/train.h", "src/timetable/train.cc", "include/soro/timetable/interval.h"],
     [("train::departures/trips", "src/timetable/train.cc"), ("interval::overlaps", "include/soro/timetable/interval.h")],
     ["listed departures and trips, overlaps, event interval, halt counts"], "")
prop("C04", "Absolute and relative times and dates convert without loss",
     "An absolute time built from an anchor and a relative time is their sum, and converting back gives the relative time. Midnight is the start of the day that contains a time, a calendar date denotes its first second, and exactly the reserved values count as invalid.",
     ["inputs"], "all anchors and relative times in the 32-bit range, all dates from 1970 to 2106",
     "Conversions between 32-bit, signed and calendar types fail only near range ends, leap days and midnights.",
     ["include/soro/base/time.h", "src/timetable/sequence_point.cc"],
     [("relative_to_absolute, absolute_to_relative, midnight, ymd_to_abs", "include/soro/base/time.h")], ["converted values"], "Sums outside the 32-bit range are outside the precondition.")
prop("C06", "Numbers in text are read exactly or rejected",
     "Reading an integer from text gives exactly its value, for every accepted type and way of passing the text, and the checking variant rejects everything that is not entirely a decimal number in range. Reading a decimal fraction, with a point or, where enabled, a comma, gives the correctly rounded value, never looks beyond the given text and leaves it unchanged.",
     ["inputs"], "all byte strings, all decimal numbers",
     "Tests parse a few literals; overflow limits, signs, trailing characters and text that is not terminated are input combinations.",
     ["include/soro/utls/parse_int.h", "include/soro/utls/parse_fp.h"],
     [("parse_int / try_parse_int", "include/soro/utls/parse_int.h"), ("parse_fp", "include/soro/utls/parse_fp.h")], ["returned values"], "")
prop("C08", "Text comparison, hashing and splitting depend on the characters only",
     "Two texts are equal exactly if they consist of the same characters, whichever string types hold them and whatever follows them in memory; the prefix test agrees with the characters, equal texts have the same (FNV-1a) hash, and splitting yields the pieces between separators, which make up the text again.",
     ["inputs"], "all texts and separators",
     "Existing tests compare a few terminated literals; views into longer texts and prefixes are where comparisons go wrong.",
     ["include/soro/utls/string.h"], [("equal, starts_with, str_hash, split", "include/soro/utls/string.h")], ["return values"], "")
prop("C38", "Delay distributions keep every probability at its time and speed",
     "A distribution over time (and speed) holds, at every granularity step, exactly the sum of the probabilities inserted there, whatever the order of insertions; access by value, iteration and sums agree with each other. Combining two distributions by maximum gives the distribution of the later of both events and loses no probability; times are rounded to the nearest step.",
     ["inputs", "histories"], "all insertion histories, all pairs of distributions",
     "Tests insert ascending values only; gaps, insertions before the first value and joint distributions are not covered.",
     ["include/soro/simulation/dpd.h", "src/simulation/sim_graph.cc"],
     [("dpd::insert, iterators, sum", "include/soro/simulation/dpd.h")], ["distribution contents by access, iteration and sum"], "")
prop("C30", "Station routes list their nodes with their own omissions and limits",
     "A station route traversed completely, or over any part, lists exactly its nodes in order; each is marked omitted exactly if the route omits it, and carries exactly the extra speed limit given for that node, or none. A route is through, entering, leaving or contained according to its ends, its neighbours can be attached exactly when they are listed, and its halts and ETCS requirement follow from its data.",
     ["inputs"], "all routes, omissions, extra limits, halts and subranges within the bounds",
     "Tests check structural facts of the sample infrastructures; two merged index sequences go wrong only for particular placements of omitted nodes and limits.",
     ["include/soro/infrastructure/station/station_route.h", "src/infrastructure/station/station_route.cc"],
     [("from_to / iterate", "src/infrastructure/station/station_route.cc"), ("can_start/end, halts, kinds", "src/infrastructure/station/station_route.cc")],
     ["listed nodes with omission and limit, predicates"], "")
prop("C11", "Interlocking routes are exactly the paths between signals and ends",
     "From the station routes and their graph exactly these interlocking routes are generated, each once and numbered by position: the paths from a main signal, or a station route nothing precedes, to the next main signal or to the end of a station route nothing follows, except that no route leads over several station routes one of which requires ETCS. The tables list exactly the routes that start, end or halt at each node, that use each station route and that pass each station, ascending. A network without interlocking routes is accepted.",
     ["inputs"], "all station route graphs, main signal placements, ETCS requirements and halts within the bounds",
     "Tests compare a lower bound of the number of routes on sample networks (and are not built here); missing or extra routes need particular signal placements at junctions.",
     ["include/soro/infrastructure/interlocking/get_interlocking.h", "src/infrastructure/interlocking/get_interlocking.cc"],
     [("get_interlocking", "src/infrastructure/interlocking/get_interlocking.cc"), ("get_interlocking_routes_from_sr", "src/infrastructure/interlocking/get_interlocking.cc")],
     ["generated routes, tables of the interlocking"], "Station route graphs have no cycle without a main signal.")
prop("C12", "Routes exclude each other exactly when they share infrastructure",
     "Two interlocking routes exclude each other in the exclusion graph exactly if they have an exclusion element in common and neither starts where the other ends; the relation is mutual, and does not depend on the number of processors computing it. Every interlocking route is mapped to exactly the exclusion sets that contain it.",
     ["inputs", "schedules"], "all exclusion element sets, route ends, networks within the bounds, 1 to 4 worker threads run in either order",
     "Whether two trains may be given conflicting routes rests on this relation; tests check it on sample networks only, where a missed conflict of one pair, one batch boundary or one chained pair goes unnoticed.",
     ["src/infrastructure/exclusion/get_exclusion.cc", "src/infrastructure/exclusion/get_exclusion_graph.cc", "include/soro/utls/algo/multi_set_merge.h"],
     [("get_exclusion, get_closed_element_used_by", "src/infrastructure/exclusion/get_exclusion.cc"), ("get_exclusion_graph", "src/infrastructure/exclusion/get_exclusion_graph.cc")],
     ["exclusion graph, route to set mapping"], "utl::parallel_for runs its iterations one after another in the model.")
prop("C13", "Exclusion elements of a route are exactly those along it",
     "The closed set of exclusion elements of an interlocking route consists of exactly the signals, halts, switches, crosses and track ends located from its start to its end, those of the opposite direction included; the open set leaves out exactly its first and last element. Both ascend without duplicates.",
     ["inputs"], "all routes in both directions over tracks of up to three sections with any elements",
     "An element missed at a section border or for the falling direction leads to undetected conflicts; tests look at sample networks only.",
     ["src/infrastructure/exclusion/exclusion_elements.cc", "include/soro/infrastructure/graph/section.h"],
     [("get_exclusion_elements, get_used_sections", "src/infrastructure/exclusion/exclusion_elements.cc"), ("section::from/to/from_to", "include/soro/infrastructure/graph/section.h")],
     ["closed and open exclusion elements"], "")
prop("C14", "Exclusion set files are read completely and in canonical order",
     "Reading a file of exclusion sets yields one set per line with exactly the numbers in it; members of a set ascend and the sets are in lexicographic order, whether or not the last line is terminated. A missing file yields no sets.",
     ["inputs"], "all file contents of well-formed lines within the bounds",
     "The order is what later lookups by binary search rely on; no test reads such a file.",
     ["src/infrastructure/exclusion/read_cliques.cc"], [("read_cliques", "src/infrastructure/exclusion/read_cliques.cc")], ["returned sets"], "File streams are replaced by streams over memory.")
prop("C29", "Interlocking routes are traversed node by node without gaps",
     "An interlocking route traversed completely, or from, to or between any of its positions, lists exactly the nodes of its station routes from its start offset in the first to its end offset in the last, in order and with their omissions. Its size, ends, parts per station route and membership test agree with that path.",
     ["inputs"], "all start and end offsets, positions and lengths of station routes within the bounds",
     "Tests traverse whole routes of sample networks; offsets and sub-ranges at the joints of station routes are not tested.",
     ["include/soro/infrastructure/interlocking/interlocking_route.h", "src/infrastructure/interlocking/interlocking_route.cc"],
     [("iterate, from, to, from_to, contains, size", "src/infrastructure/interlocking/interlocking_route.cc")], ["listed nodes, size, membership, ends"], "")
prop("C31", "The station route graph joins exactly the routes meeting at a border",
     "A station route that leaves its station is followed exactly by the routes of the neighbouring station that start at the border element across from its end; routes that end inside a station, at a track end, or have no neighbouring station have no successors. Predecessors are the exact inverse of successors.",
     ["inputs"], "all combinations of ends, borders and neighbouring stations within the bounds",
     "Tests check symmetry on sample networks; a successor via the wrong border or a lost predecessor needs particular arrangements.",
     ["src/infrastructure/station/station_route_graph.cc"], [("get_station_route_graph", "src/infrastructure/station/station_route_graph.cc")], ["successors and predecessors"], "")
prop("C32", "The track graph has the elements of the ISS file, in order and linked",
     "Reading an infrastructure builds, for every section of the file, its elements with the type, direction and position of the file, sorted by position in both directions, between its two ends. Following the nodes passes exactly the elements of the direction in order, backwards as forwards; a direction without elements gets one of its own. Sections, elements, nodes and stations are found by their ids and names, and each element knows its section and station.",
     ["inputs"], "all sections with elements of every direction in any file order and position within the bounds",
     "Tests look at a handful of sample files whose elements are already sorted; ties, reversed file order, crowded or empty directions and sections in several stations are combinations they do not contain.",
     ["src/infrastructure/graph/graph_creation.cc", "src/infrastructure/parsers/iss/parse_iss.cc", "include/soro/infrastructure/graph/section.h"],
     [("graph creation from sections", "src/infrastructure/graph/graph_creation.cc"), ("parse_iss", "src/infrastructure/parsers/iss/parse_iss.cc")],
     ["sections, elements, nodes and links of the parsed infrastructure"], "pugixml is modelled by a small parser in symbolic runs; native replays use the real library.")
prop("C33", "Sections meet as the switches, crosses and borders of the file say",
     "The sections of an ISS file that meet in a switch, cross, cross switch, kilometre jump or line switch are joined exactly as the element says, whatever their orientations, lines and order in the file: a train arriving on one leg can leave exactly on the legs the element allows, in the direction it came from. Stations are joined at exactly the matching borders of neighbouring stations. Reverse edges are the exact inverse of the edges.",
     ["inputs"], "all orientations, legs, lines, file orders and element placements within the bounds",
     "Sample files contain few of the many orientations a switch or cross can have; a wrong leg silently routes trains onto the wrong track.",
     ["src/infrastructure/graph/graph_creation.cc", "src/infrastructure/parsers/iss/parse_iss.cc"],
     [("switches, crosses, borders joined", "src/infrastructure/graph/graph_creation.cc"), ("parse_iss", "src/infrastructure/parsers/iss/parse_iss.cc")],
     ["successor, branch and reverse edges of the parsed infrastructure"], "pugixml is modelled by a small parser in symbolic runs; native replays use the real library.")
prop("C34", "Station routes of the file become exactly the paths they describe",
     "Every published station route of an ISS file becomes the path from its begin to its end element through the switches of its course, with its omitted elements, extra limits, main signals, ETCS starts, halts, attributes and length as given; routes with equal ends and course share one path. It is found by its name in its station, and enters from and leaves to the right stations.",
     ["inputs"], "all routes between any ends, in either direction, with all omissions, limits and attributes within the bounds",
     "Routes are traversed only structurally by tests; a wrong turn at a switch passed trailing or a lost omission needs particular routes.",
     ["src/infrastructure/parsers/iss/parse_station_route.cc", "src/infrastructure/station/station_route.cc"],
     [("parse_station_routes", "src/infrastructure/parsers/iss/parse_station_route.cc"), ("get_station_route / path", "src/infrastructure/station/station_route.cc")],
     ["parsed station routes"], "pugixml is modelled by a small parser in symbolic runs.")
prop("C36", "Track elements carry the data of the file",
     "Every element of an ISS file has the type, direction, kilometrage, line and name of the file; speed limits keep their limit, kind and point of action, slopes their value with the sign turned for the falling direction, whatever notation and unit the numbers are given in. The statistics of an infrastructure count exactly its stations, sections and elements.",
     ["inputs"], "all element kinds, all numbers and names within the bounds",
     "Tests check element counts of sample files; a wrong sign, unit, kind or point of action changes train dynamics without failing them.",
     ["src/infrastructure/parsers/iss/parse_track_element.cc", "src/infrastructure/parsers/iss/parse_helpers.cc", "src/infrastructure/parsers/iss/get_infra_stats.cc", "src/infrastructure/graph/type.cc"],
     [("parse_track_element", "src/infrastructure/parsers/iss/parse_track_element.cc"), ("get_infra_stats", "src/infrastructure/parsers/iss/get_infra_stats.cc")],
     ["element data of the parsed infrastructure, statistics"], "pugixml is modelled by a small parser in symbolic runs; std::from_chars for floating point by an exact model for short decimals.")
prop("C42", "Lines, defaults and rolling stock are found with the data of the file",
     "An infrastructure knows the stations, short and full names, version, source, default values, lines and train data of the files its index names, and of no others. A line position yields the segment containing it with its signalling and ETCS. A train series is found exactly by its number, owner and variant, with its own masses, lengths, speeds, deceleration and tractive curves, and a train's maximal speed is the smallest of its parts.",
     ["inputs"], "all index files, line segments, positions, numbers and lookups within the bounds",
     "Sample data has one of each; mixing up neighbouring variants, segments or fields needs several similar entries.",
     ["src/infrastructure/parsers/iss/parse_iss.cc", "src/infrastructure/line.cc", "src/rolling_stock/parse_train_series.cc", "src/rolling_stock/rolling_stock.cc", "src/infrastructure/regulatory_data.cc"],
     [("get_iss_files / parse_iss", "src/infrastructure/parsers/iss/iss_files.cc"), ("line segments", "src/infrastructure/line.cc"), ("train series", "src/rolling_stock/parse_train_series.cc")],
     ["base data of the parsed infrastructure, lookups"], "pugixml is modelled by a small parser in symbolic runs.")
prop("C05", "A KSS timetable is read completely, with its days, times and vehicles",
     "Reading a folder of KSS files yields exactly the trains of its KSS files that can be run, numbered consecutively in file order, whatever other files lie beside them; trains that cannot be run are left out as a whole and do not affect others. Each train runs on exactly the days of its service periods, included and excluded dates, and has the number, stops, times (with night leap), minimal stop times, length, weight, speed and vehicles of the file. The timetable spans from the first departure to the last arrival. A timetable of another infrastructure version is refused.",
     ["inputs"], "all service masks, dates, clock times, durations, numbers, combinations of unacceptable trains and folder contents within the bounds",
     "Tests parse two sample timetables with one train each; masks that overlap, night leaps, rounding, mixed folders and every reason to skip a train are not in them.",
     ["src/timetable/parsers/kss/parse_kss_timetable.cc", "src/timetable/timetable.cc", "src/timetable/train.cc"],
     [("parse_kss_timetable and helpers", "src/timetable/parsers/kss/parse_kss_timetable.cc"), ("try_parsing_timetable", "src/timetable/timetable.cc")],
     ["trains and interval of the parsed timetable, errors"], "pugixml is modelled by a small parser in symbolic runs; native replays use the real library.")
prop("C49", "A stop sequence becomes the one gapless path of interlocking routes along it",
     "A stop sequence is turned into interlocking routes that follow each other, lead along its station routes from the first to the last halt and no further, with exactly its halts and timed transits in order; it is refused if no such path exists, and never refused if there is exactly one choice at every step. Running the train passes exactly the nodes from its first to its last halt, each once, has its times at their nodes and omits the halts it does not stop at.",
     ["inputs"], "all signal, halt and checkpoint placements over chains, forks and shared tracks, all stop sequences within the bounds",
     "Tests use two sample timetables; routes that begin before the first or lead beyond the last stop, diverging routes and ETCS borders are not among them.",
     ["src/timetable/parsers/station_route_to_interlocking_route.cc", "src/timetable/train.cc", "src/timetable/sequence_point.cc"],
     [("transform_to_interlocking", "src/timetable/parsers/station_route_to_interlocking_route.cc"), ("train::iterate", "src/timetable/train.cc")],
     ["path, sequence points, traversal of the train"], "")
prop("C37", "Every part of a train's way has the speed limit in force there",
     "The way of a train is divided at exactly the main signals, the halts it stops at and the places where its speed limit changes, in order and with their distances. The limit of each part is the last one that concerns the train: of track elements and station routes, from their place or back from the last main signal, beginning with the one in force before its first halt, and leaving out omitted elements. Limits are lowered only where the train could not brake in time, and then so that it can.",
     ["inputs"], "all sequences and places of signals, halts, limits of either kind, omissions and extra limits, all limits and distances within the bounds",
     "Tests compare a few precomputed running times; a limit that applies from the wrong signal or a step later shifts times by seconds only.",
     ["src/runtime/interval.cc", "include/soro/runtime/interval.h", "src/timetable/train.cc", "src/infrastructure/station/station_route.cc"],
     [("get_interval_list", "src/runtime/interval.cc"), ("adjust_speed_limits", "src/runtime/interval.cc"), ("train::effected_by", "src/timetable/train.cc")],
     ["intervals with distances, limits, stops and events"], "")
prop("C02", "Running times obey physics, speed limits, departures and minimal stop times",
     "A train reaches the requested elements of its way one after another and has times at exactly these. It leaves its stops at the planned departure but not before its minimal stop time, and stands nowhere else. Between two elements it needs at least the time its speed limits and maximal speed allow, and no longer than these, its acceleration and its brakes require; running times do not depend on the time of day.",
     ["inputs"], "all limits, distances, speeds, departures and minimal stop times within the bounds",
     "Tests compare the running times of one or two trains; short sections in which a train cannot reach its speed, late trains and changing limits at arbitrary distances are not covered.",
     ["src/runtime/runtime.cc", "src/runtime/runtime_physics.cc"],
     [("runtime_calculation", "src/runtime/runtime.cc"), ("accelerate, brake, coast", "src/runtime/runtime_physics.cc")],
     ["timestamps at elements"], "Constant tractive force without resistance; transcendental functions do not occur.")
prop("C27", "The ordering graph orders the uses of every exclusive part of the network",
     "The ordering graph has, for every trip of the selected trains and times, one node per interlocking route of its path, in order, found by the trip and followed by next(). Of two uses of routes that exclude each other the earlier comes before the later along the edges, and nothing else is ordered but by the course of trips; edges are without shortcuts and known at both ends. Exclusion paths are reported complete exactly if every two exclusive uses are ordered.",
     ["inputs"], "all divisions of routes into exclusion sets, all departures, service days and filters within the bounds",
     "Tests check one graph for cycles and exclusion paths; a use entered under the wrong time, route or node gives another consistent graph.",
     ["src/simulation/ordering/ordering_graph.cc", "src/simulation/ordering/remove_transitive_edges.cc", "src/simulation/ordering/check_exclusion_paths.cc"],
     [("ordering_graph", "src/simulation/ordering/ordering_graph.cc"), ("remove_transitive_edges", "src/simulation/ordering/remove_transitive_edges.cc"), ("has_exclusion_paths", "src/simulation/ordering/check_exclusion_paths.cc")],
     ["nodes, edges, trips"], "Ties of begin times excluded; parallel loops run sequentially.")
prop("C48", "The map export contains every element, station and connection once",
     "The OSM export of an infrastructure has exactly one node with position and tags for every element and station, one way for every two neighbouring elements of a station and one curve of interpolation nodes for neighbours of different stations, however its parts are divided over threads; ids are unique and ascending, ways refer to nodes that exist. Curves are the same from both ends, without gaps, straight where the track is, and continue the track before them.",
     ["inputs", "schedules"], "all connections, assignments to stations, station positions, orders, numbers of processors and times of execution within the bounds",
     "The web tests are not part of the build; a missing range of nodes depends on the number of processors of the machine.",
     ["web/server/src/modules/tiles/osm_export/osm_export.cc", "web/server/src/modules/tiles/osm_export/interpolation.cc"],
     [("export_to_osm", "web/server/src/modules/tiles/osm_export/osm_export.cc"), ("compute_interpolation", "web/server/src/modules/tiles/osm_export/interpolation.cc")],
     ["nodes, ways and tags of the document"], "Curves are computed at concrete positions chosen symbolically from lists; pugixml is modelled; asynchronous parts run when started or when asked for.")
prop("C47", "The server's answers carry the data of the item asked for",
     "The web server offers every infrastructure folder of its source directory and, for each infrastructure, exactly the timetables that can be read for it, under their names. A request for the infrastructures, stations, a station, station route, interlocking route, exclusion set, element, bounding box, the timetables or a timetable is answered with exactly the data of the item of that infrastructure that was asked for: every entry of a list once, texts, numbers and positions as stored, the path of a route node by node, the smallest box around all elements. Every unknown infrastructure, timetable or id, however large, is answered not found.",
     ["inputs"], "all items, ids, numbers, positions and combinations of infrastructures and timetables within the bounds",
     "The web server is not part of the build and has no tests of its answers; ids beyond the last item and unknown names do not occur in ordinary use of the client.",
     ["web/server/src/modules/infrastructure/serve_element.cc", "web/server/src/modules/infrastructure/serve_station.cc", "web/server/src/modules/infrastructure/infrastructure_module.cc", "web/server/src/modules/timetable/timetable_module.cc"],
     [("infrastructure_module", "web/server/include/soro/server/modules/infrastructure/infrastructure_module.h"), ("timetable_module", "web/server/include/soro/server/modules/timetable/timetable_module.h"), ("serialization functions", "web/server/include/soro/server/cereal/cereal_extern.h")],
     ["status, header and document of the answers"], "The net and cereal libraries are replaced by stand-ins with their interface that keep documents as trees; parsers are replaced by their result.")
prop("C50", "Everything that has a name is found by it",
     "The search of an infrastructure knows every station by its short and, if different, its full name, every element by its number and signals, switches and halts by their names (halts also by their external and operational identifiers, where they have them), every station route by its name and every interlocking route by its number, each exactly once and leading to its item with kind, id, element type and bounding box. A request is answered with the items of the matching names of the infrastructure asked for, best first; queries of less than three characters are refused, unknown infrastructures not found.",
     ["inputs"], "all combinations of names, items, matches and positions within the bounds",
     "The web server is not part of the build and has no tests of the search.",
     ["web/server/src/modules/search/search_module.cc", "web/server/src/modules/search/serve_search.cc"],
     [("get_search_context", "web/server/src/modules/search/search_module.cc"), ("serve_search", "web/server/src/modules/search/serve_search.cc")],
     ["names given to the guesser, answers"], "Which names match a query is decided by the guess library, which is replaced by any choice.")
prop("C51", "The ordering graph is answered for the interval and trains asked for",
     "A request for the ordering graph of a timetable has it computed for exactly the times and trains of the request and answered with every trip, in the order of their first departures and numbered so, with its nodes in order, their train, interlocking route and offset in the trip, every edge once, the number of trips and the length of the longest. Requests whose times or trains are no numbers of that kind or whose interval ends before it begins are refused, unknown infrastructures and timetables not found, and nothing is computed for them.",
     ["inputs"], "all graphs, departures, times and lists of trains within the bounds",
     "The web server is not part of the build and has no tests of this answer.",
     ["web/server/src/modules/ordering/serve_ordering_graph.cc"],
     [("serialize_ordering_graph", "web/server/src/modules/ordering/serve_ordering_graph.cc"), ("params_to_filter", "web/server/src/modules/ordering/serve_ordering_graph.cc")],
     ["filter of the computed graph, document answered"], "The computed graph is replaced by any graph (C27 is about the one computed); net and rapidjson are replaced by stand-ins.")
prop("C43", "Sections and paths have their elements in order and are as long as they are",
     "A section yields its elements in either direction, with or without those of the other direction, and the parts from, to or between elements. Neighbours are as far apart as the kilometres of the legs by which they are joined. A path is as long as its steps, by elements, nodes or sections, a train's way as long as it is from its first to its last halt. Elements are a path exactly if each is a neighbour of the one before.",
     ["inputs"], "all kinds, legs, directions, kilometres and sequences of elements within the bounds",
     "Tests compare lengths on sample data with few switches and crosses, computed by the functions under test.",
     ["include/soro/infrastructure/graph/section.h", "include/soro/infrastructure/path/length.h", "include/soro/infrastructure/path/is_path.h", "src/infrastructure/graph/element.cc", "src/timetable/train.cc"],
     [("section", "include/soro/infrastructure/graph/section.h"), ("get_path_length_from_elements, get_path_length_from_sections", "include/soro/infrastructure/path/length.h"), ("is_path", "include/soro/infrastructure/path/is_path.h"), ("element::get_km", "src/infrastructure/graph/element.cc")],
     ["elements of ranges, lengths"], "")
prop("C20", "Elements and stations get a place on the map that keeps the station's shape",
     "The layout puts the elements of the rail plan where the plan has them, from the upper left of their station, and track elements between the ends of their section, in order and at even distances. On the map known station positions are kept, others lie between the nearest known ones (closer to those reached over fewer stations), beside a single known one or at the default place; the elements of a station lie around it in the shape of the layout, turned towards its neighbours.",
     ["inputs"], "all positions in the plan, divisions into files, arrangements of stations and known positions within the bounds",
     "No test covers the layout.",
     ["src/infrastructure/layout/layout.cc", "src/infrastructure/layout/layout_to_gps.cc", "include/soro/utls/coordinates/polar.h"],
     [("get_layout", "src/infrastructure/layout/layout.cc"), ("layout_to_gps", "src/infrastructure/layout/layout_to_gps.cc")],
     ["layout and positions"], "Positions on the map are computed at concrete places chosen symbolically from lists; pugixml is modelled by a small parser in symbolic runs.")
prop("C52", "Every URL leads to the item it names",
     "Every URL that the server documents or its client asks for (lists of infrastructures, stations and timetables with and without a slash at the end, bounding boxes, tiles, stations, routes, exclusion sets, elements, searches, timetables and ordering graphs) is answered, once, with what it names, for exactly the names and numbers it contains; every other target is looked up among the files of the server and answered not found if there is none. The modules serve the same infrastructures and timetables.",
     ["inputs"], "all names, numbers and lists of trains within the bounds, arbitrary short targets",
     "The web server is not part of the build and has no tests; patterns that miss or confuse some URLs only show for those.",
     ["web/server/src/soro_server.cc"],
     [("soro_server::set_up_routes", "web/server/src/soro_server.cc"), ("soro_server", "web/server/src/soro_server.cc")],
     ["handler called, its parameters, the answer"], "The net library is replaced by a stand-in that matches the patterns of the routes.")
prop("C53", "Stations are where the coordinate file says",
     "Importing the positions of stations gives exactly one position per station: that of the line of its short name, whatever the order of lines and columns, and unknown if the file has no line, latitude or longitude for it or does not exist; lines of other stations change nothing, and an infrastructure without a coordinate file is still laid out.",
     ["inputs"], "all files within the bounds",
     "Tests always import with the complete file of their sample.",
     ["src/infrastructure/parsers/parse_station_coords.cc", "src/infrastructure/layout/layout_to_gps.cc"],
     [("parse_station_coords", "src/infrastructure/parsers/parse_station_coords.cc")],
     ["positions returned"], "utl's csv reader is replaced by a stand-in.")
