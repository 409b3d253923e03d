# Single source of properties.jsonl and MANIFEST.json: python3 meta/gen.py rewrites both.
I = "include/bss-util/"
S = "bss-util/"
PROPS = []
def P(id, title, statement, over, text, why, files, mech, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=observe or ["return values and observable contents of the public API after every operation", "element constructor/destructor balance", "AddressSanitizer and leak counter"]))

P("P01", "Sequence containers behave like a list and own their elements exactly once",
  "For every history of construction, copying, moving, appending, inserting, removing, replacing, resizing, slicing and clearing, the fixed, dynamic, compact (small-buffer), bit-packed boolean and mixed-type arrays and the stack hold exactly the elements, in exactly the order, that the same history gives a mathematical list, and copies are independent of their source. Every stored element is constructed once and destroyed once, in the manner its declared storage class allows (bitwise relocatable, address-sensitive or move-only). No operation reads or writes outside the storage it owns, whatever the capacity.",
  ["histories", "inputs", "configurations"], "all operation histories, element values, element storage classes, initial capacities and size types",
  "The tests run one fixed history per container with a handful of element types; capacity edges, shrink/grow interleavings and lifetime errors depend on the history.",
  [I+"Array.h", I+"DynArray.h", I+"CompactArray.h", I+"Stack.h"], [("per-storage-class copy/move/destroy helpers", I+"Array.h"), ("amortised growth", I+"DynArray.h"), ("inline-to-heap switch", I+"CompactArray.h")],
  "Stateful model-based generation over all storage classes against std::vector, with resource-owning instrumented elements; histories of up to a few hundred operations")
P("P02", "Ring buffers and queues keep order, indexing and element lifetimes",
  "For every history of pushes and pops at either end, indexed reads, removals and insertions, capacity changes, copies and moves, the circular array presents the same sequence as a bounded deque (including wrap-around and negative indices), the FIFO queue delivers each element exactly once in insertion order, and the random queue delivers each element exactly once in some order. Every stored element is constructed and destroyed exactly once. No operation touches memory outside the buffer.",
  ["histories", "inputs", "configurations"], "all histories, capacities, wrap-around positions and element storage classes",
  "Tests push and pop a few items; wrap-around combined with resize, copy or removal is a property of the history.",
  [I+"ArrayCircular.h", I+"Queue.h", I+"RandomQueue.h"], [("modular cursor arithmetic", I+"ArrayCircular.h"), ("swap-with-last removal", I+"RandomQueue.h")],
  "Stateful model-based generation against std::deque / multiset")
P("P03", "Sorted arrays, maps and binary search agree with a sorted sequence",
  "After every history of insertions, removals, replacements and bulk operations, a sorted array or ordered map holds exactly the inserted entries in the order of its comparison function, and exact, nearest-before, nearest-after and presence lookups return what a linear scan of that order returns. Binary search over any sorted input, with duplicates and for every boundary variant, returns the position a linear scan would. The library's comparison functions are consistent total orders that agree with the operators they wrap. Every stored element is constructed and destroyed exactly once.",
  ["histories", "inputs"], "all histories, comparison functions, sorted inputs (with duplicates) and search keys",
  "Tests probe fixed small arrays; boundary behaviour with duplicates and at both ends needs all inputs.",
  [I+"ArraySort.h", I+"Map.h", I+"bss_util.h"], [("binary search template and its near/before/after wrappers", I+"bss_util.h"), ("ordered insertion", I+"ArraySort.h")],
  "Model-based generation against sorted std::vector/std::multimap plus exhaustive-style search-key sweeps per generated array")
P("P04", "Heaps, priority queues and the scheduler always yield the extreme element",
  "After every history of insertions, removals of the top or of any position, key changes, bulk heapification, copies and moves, the heap-based containers contain exactly the live elements and their top is an extreme one under the comparison function, so draining them yields sorted order; handles issued by the handle-based priority heap keep naming their own element. Heap sort sorts every array. The scheduler fires every due event exactly once, in time order, reschedules by the returned delay, and never touches an empty heap; stored elements are constructed and destroyed exactly once.",
  ["histories", "inputs"], "all histories, keys (with ties), comparison directions and element storage classes",
  "Tests insert a fixed permutation and pop it; sift errors in the middle of the heap depend on the shape reached by the history.",
  [I+"BinaryHeap.h", I+"PriorityQueue.h", I+"Scheduler.h"], [("percolate up/down", I+"BinaryHeap.h"), ("handle table maintained by move callbacks", I+"PriorityQueue.h")],
  "Stateful model-based generation against multisets, full drain at the end of every history")
P("P05", "Balanced search trees are ordered maps and stay balanced",
  "After every history of insertions (including duplicates where the tree allows them), removals by key or by node, key replacements, clears and moves, the AVL, AA and threaded red-black trees contain exactly the live entries in order, with their data, and exact and nearest-neighbour lookups agree with a sorted list. Each tree meets its own balance definition (hence logarithmic depth) after every operation, and the threaded tree's linked iteration order is the sorted order in both directions with node addresses that stay valid until removal. Every stored element is constructed and destroyed exactly once and removed nodes are returned to the allocator.",
  ["histories", "inputs"], "all histories, keys, duplicate multiplicities and comparison directions",
  "Tests use one shuffled insertion/removal order; rotations and fix-ups depend on tree shape, so every shape must be reached.",
  [I+"AVLTree.h", I+"AATree.h", I+"TRBtree.h"], [("rotations and balance factors", I+"AVLTree.h"), ("skew/split", I+"AATree.h"), ("insert/delete fix-up and duplicate threading", I+"TRBtree.h")],
  "Stateful model-based generation against std::map/multiset with full structural verification after every operation")
P("P06", "Hash tables are exact maps and sets under every hash function",
  "For every history of insertions (overwriting or not), removals by key or iterator, value updates, capacity requests, clears, copies and moves, hash maps and sets report exactly the live keys and their latest values through lookup, existence, length and forward and backward iteration, whatever collisions the hash function produces. Integer, string (case-sensitive and, for the case-insensitive variant, ASCII case-folded), pair and tuple keys are distinguished exactly by equality. Every stored key and value is constructed and destroyed exactly once, and moved-from tables are empty and usable.",
  ["histories", "inputs", "configurations"], "all histories, key types, degenerate hash functions and element storage classes",
  "Tests insert a fixed set of keys; tombstone reuse, rehash kick-out chains and collision cycles depend on history and hash values.",
  [I+"Hash.h", I+"khash.h"], [("open addressing with tombstones and in-place rehash", I+"Hash.h"), ("hash/equality families", I+"Hash.h")],
  "Stateful model-based generation against std::map with degenerate hash functions and resource-owning elements")
P("P07", "Linked lists keep their sequence in both directions",
  "For every history of insertions at either end or next to a given node, removals, replacements and iteration, the doubly linked list, the index-linked array and the intrusive list helpers present the same sequence forwards and backwards as a mathematical list, report its length, and keep handles, indices and node addresses of untouched items valid. Removed nodes are returned to the allocator and every list frees all of its nodes when cleared or destroyed.",
  ["histories", "inputs"], "all histories of list operations and all positions",
  "Tests add and remove a few nodes in one order; unlinking the head, the tail and the only node in combination with reuse of freed slots is a property of the history.",
  [I+"LinkedList.h", I+"LinkedArray.h", I+"LLBase.h"], [("relinking of neighbours", I+"LLBase.h"), ("free-list reuse of slots", I+"LinkedArray.h")],
  "Stateful model-based generation against std::list, walking both directions after every operation")
P("P08", "Tries and string tables find exactly the strings they hold",
  "A trie built from any list of distinct words - arbitrary bytes, any lengths, words that are prefixes of one another - maps each of its words to that word's position and every other string, including prefixes and extensions, to the not-found value; the case-insensitive and length-limited lookups agree with a linear scan. A string table built from any sequence of appended strings returns each string, its length and its order unchanged after any further appends, copies or moves. Neither reads or writes outside its storage.",
  ["inputs", "histories"], "all word lists and query strings, all append histories",
  "Tests use a dozen ASCII words; branching, prefix and byte-order errors depend on the particular word set and query.",
  [I+"Trie.h", I+"StringTable.h"], [("sorted sibling chains with early exit", I+"Trie.h"), ("offset table over one character buffer", I+"StringTable.h")],
  "Generated word lists over small and full-byte alphabets with derived queries, compared with a linear scan")
P("P09", "Disjoint sets maintain the partition; minimum spanning trees are minimal",
  "After every history of unions, finds, resets, copies, moves and added elements, two elements share a set name exactly when they have been joined by unions, the number of sets, the size of a set and the enumeration of its members agree with that partition, and invalid unions are refused without changing it. The minimum spanning forest built from any weight-ordered edge list is acyclic, spans every component and has minimum total weight.",
  ["histories", "inputs"], "all union/find histories and all edge lists",
  "Tests join a few fixed sets; path compression and weight bookkeeping errors appear only after particular sequences.",
  [I+"DisjointSet.h"], [("weighted union with negated sizes", I+"DisjointSet.h"), ("path compression", I+"DisjointSet.h")],
  "Stateful generation against an explicit partition; Prim's algorithm as independent oracle for the forest weight")
P("P10", "Graphs keep exactly their vertices and edges; search and flow are correct",
  "After every history of adding and removing vertices and edges (parallel edges and self-loops included) and of moves, a directed graph's vertex list, every outgoing and incoming edge list, its counts and its adjacency-matrix image describe exactly the live vertices, edges and their data. Breadth-first search visits every vertex reachable from the root exactly once in non-decreasing distance and stops when told to. The push-relabel maximum flow terminates on every network with a valid flow (capacity limits and conservation) of maximum value, and the lower-bound and circulation reductions are feasible exactly when the original problem is and yield a solution of it.",
  ["inputs", "histories"], "all graph histories, networks, roots, sources and sinks",
  "Tests run one fixed six-vertex network; termination and optimality on dead ends, parallel edges and recycled indices need all networks.",
  [I+"Graph.h", I+"LinkedArray.h", I+"DisjointSet.h"], [("dual edge lists", I+"Graph.h"), ("discharge/relabel loop", I+"Graph.h")],
  "Stateful model of the edge set; independent breadth-first distances and Edmonds-Karp maximum flow as oracles on networks of up to 13 vertices")
P("P11", "KD-tree queries report exactly the intersecting rectangles",
  "After every history of insertions, removals, bulk loads (root insertion followed by solving), automatic and explicit rebalancing at any threshold, clears and moves, a rectangle query reports every stored item whose rectangle intersects the query (touching edges included) exactly once and no other item; traversal of everything reaches each stored item once; each node's item count and links describe what it holds; all of this terminates for coincident, degenerate and rounding-prone coordinates, and nodes are freed when the tree is cleared or destroyed.",
  ["histories", "inputs"], "all operation histories, rectangles, queries and rebalance thresholds",
  "The test makes two queries on five rectangles; a divider moved by rebalancing past an item only loses it for particular queries.",
  [I+"KDTree.h"], [("divider recomputation and item migration", I+"KDTree.h"), ("insertion descent and query pruning", I+"KDTree.h")],
  "Stateful generation with boundary-aligned queries against a linear scan")
P("P12", "Allocators hand out disjoint, stable, aligned storage and give it all back",
  "For every history of allocations, deallocations, reallocation-style requests, clears and moves from one thread, each allocator (fixed-block, greedy, greedy-block, size-cached, ring and lock-free block, and their policy wrappers) returns storage of at least the requested size and the requested alignment that overlaps no live block; live blocks keep their contents and addresses until freed; freed fixed-size blocks are reused before new chunks are requested; growing a block through a policy preserves its contents; and all memory is returned to the system exactly once when the allocator is destroyed or overwritten.",
  ["histories", "inputs", "configurations"], "all allocation histories, sizes, alignments, initial capacities and chunk boundaries",
  "Tests allocate and free uniformly sized blocks; overlap at chunk boundaries and double ownership after moves depend on the exact sequence of sizes.",
  [I+"BlockAlloc.h", I+"GreedyAlloc.h", I+"GreedyBlockAlloc.h", I+"CacheAlloc.h", I+"RingAlloc.h", I+"BlockAllocMT.h", I+"Alloc.h"], [("free list threading and chunk growth", I+"BlockAlloc.h"), ("bump pointer with alignment", I+"GreedyAlloc.h"), ("per-size free lists", I+"CacheAlloc.h")],
  "Stateful generation with a live-block interval map and content patterns, AddressSanitizer and leak accounting")
P("P13", "Concurrent queues are linearizable FIFOs under every interleaving",
  "Under every interleaving of one producer and one consumer on the lock-free queue, and of any number of producers and consumers on the micro-lock queue, each pushed value is delivered exactly once, values are delivered in an order consistent with the order of non-overlapping pushes and pops, a pop or peek reports emptiness only if the queue could have been empty at some moment during the call, the tracked length is exact when no operation is in progress, every operation completes under fair scheduling, and no operation touches a freed node or leaks one. Used from one thread, and across moves, both are plain FIFO queues.",
  ["schedules", "histories"], "all interleavings at memory-access granularity, all operation mixes and element types",
  "The stress test runs whatever interleavings the machine happens to produce; a window of two instructions is not hit reliably and a stale read of freed memory goes unnoticed.",
  [I+"LocklessQueue.h", I+"BlockAllocMT.h"], [("producer/consumer divider pointers", I+"LocklessQueue.h"), ("consumer and producer spin flags", I+"LocklessQueue.h")],
  "Generated schedules over instrumented code on a deterministic cooperative scheduler with a checked heap; FIFO linearizability conditions as oracle", "Sequentially consistent interleavings only")
P("P14", "Concurrent allocators never hand out a live block, under any interleaving",
  "Under every interleaving of threads allocating and freeing (including freeing blocks another thread allocated), the ring, lock-free block, greedy and size-cached allocators return blocks that overlap no live block and have the requested size and alignment, never disturb the contents of a live block, stay usable afterwards, complete every call under fair scheduling, never touch freed or foreign memory, and release all of their memory exactly once when destroyed.",
  ["schedules", "histories"], "all interleavings at memory-access granularity, sizes, initial capacities and thread counts",
  "The stress tests run whatever interleavings the machine happens to produce; ABA and bucket recycling races need a thread to stop at one particular instruction while others free and reallocate.",
  [I+"RingAlloc.h", I+"BlockAllocMT.h", I+"GreedyAlloc.h", I+"CacheAlloc.h", I+"RWLock.h", I+"lockless.h"], [("bucket recycling protocol", I+"RingAlloc.h"), ("tagged free-list head", I+"BlockAllocMT.h"), ("chunk replacement under an upgraded lock", I+"GreedyAlloc.h")],
  "Generated schedules on a deterministic cooperative scheduler with a checked heap; live-block interval map and content patterns as oracle", "Sequentially consistent interleavings only")
P("P15", "Locks exclude, pool tasks run exactly once, atomic primitives are exact",
  "Under every interleaving, the readers-writer lock never lets a writer (by lock, attempt, strict attempt or upgrade) coexist with another writer or another reader, a successful attempted upgrade keeps the data read under the read lock unchanged, attempts report exactly whether they acquired, and the lock is free once everyone released it. The thread pool runs every added task exactly the requested number of times - tasks added by tasks or by several threads included - with the given arguments, finishes them without outside help, and Wait and the destructor return only, and always, once all of them finished; a future shows its result exactly once its function returned it. Semaphores admit one waiter per notification; a joined or destroyed thread object's thread has ended, and a timed join succeeds if it ended in time. Atomic add, compare-exchange and bit operations of every width return the old value, change only their own bytes and lose no concurrent update. Every call completes under fair scheduling.",
  ["schedules", "inputs", "histories"], "all interleavings at memory-access granularity, lock usage patterns, task graphs and worker counts, operand values and widths",
  "The tests run a handful of threads on whatever interleavings occur; mutual-exclusion windows and lost wake-ups need particular ones, and neighbour corruption by a too-wide atomic needs particular layouts.",
  [I+"RWLock.h", I+"ThreadPool.h", I+"Thread.h", I+"lockless.h", I+"LocklessQueue.h"], [("writer bit plus reader count", I+"RWLock.h"), ("task counter, queue and semaphore", I+"ThreadPool.h"), ("width-selected atomics", I+"lockless.h")],
  "Generated schedules on a deterministic cooperative scheduler; occupancy invariants, execution counts and sequential reference semantics as oracles; real threads for instruction atomicity", "Sequentially consistent interleavings only, except the atomicity sub-check, which uses real threads")
P("P16", "JSON documents and typed records survive every round trip",
  "Every JSON document - any nesting of objects, arrays, strings (all Unicode characters, quotes and control characters), integers, finite floating-point numbers, booleans and null - and every typed record (integers of all widths, floating point, strings, booleans, nested objects, arrays, fixed arrays, tuples, maps, variants, optional fields) that is serialized, compactly or pretty-printed, yields valid JSON that any strict reader decodes to the same document and that parses back to an equal value. Any valid JSON text, whatever its whitespace, escapes, key order or unknown keys, is read as the document it denotes. Damaged text never causes a crash, hang, leak or out-of-bounds access.",
  ["inputs"], "all documents, record values, valid renderings of them and damaged texts",
  "Tests parse a few fixed texts; escapes, exponents, nesting and unknown-key skipping interact in unboundedly many ways.",
  [I+"JSON.h", I+"Serializer.h", I+"Variant.h", I+"Str.h"], [("character-level value parser and unknown-value skipping", I+"JSON.h"), ("indentation and escape writing", I+"JSON.h"), ("type-directed serialization dispatch", I+"Serializer.h")],
  "Generated documents and records: round trip, differential against an independent strict JSON reader and renderer, structured corruption")
P("P17", "UBJSON values and typed records survive every round trip",
  "Every UBJSON value tree and every typed record that is serialized to Universal Binary JSON yields bytes that an independent decoder reads as the same tree and that parse back to an equal value: integers of every width and sign, floating point bit for bit, strings and keys of any bytes, nested, typed, counted and open containers. Any well-formed encoding of a document, with any admissible choice of integer widths, container headers, key order or unknown keys, is read as that document. Damaged or truncated input never causes a crash, hang, leak or out-of-bounds access.",
  ["inputs"], "all value trees, record values, admissible encodings of them and damaged inputs",
  "Tests cover one fixed record; container headers, integer widths and unknown-key skipping combine in unboundedly many ways.",
  [I+"UBJSON.h", S+"UBJSON.cpp", I+"Serializer.h"], [("typed and counted container headers", I+"UBJSON.h"), ("width selection and byte order", I+"UBJSON.h")],
  "Generated trees and records: round trip, differential against an independent encoder and decoder, structured corruption")
P("P18", "XML trees and typed records survive every round trip and edit",
  "Every tree of elements, attributes and text that is written out and read back has the same names, attributes (any text, including quotes, ampersands and angle brackets), text values and child order, and reading any well-formed element-only rendering of a tree - with comments, declarations, entities, self-closing tags and any whitespace between tags - gives that tree. After every sequence of adding, replacing, removing, copying and moving nodes and attributes, lookups by name and index describe exactly the remaining tree. Numeric views of values equal the number written. Typed records written as XML read back equal. Damaged text never causes a crash, hang, leak or out-of-bounds access.",
  ["inputs", "histories"], "all trees, renderings, edit histories, record values and damaged texts",
  "Tests read one fixed document; entity handling, duplicate names and node removal depend on the particular tree and history.",
  [I+"XML.h", S+"XML.cpp", I+"Serializer.h", I+"Str.h"], [("tokenizer-driven tree construction", S+"XML.cpp"), ("name-to-index hash kept in step with the node array", S+"XML.cpp"), ("attribute and text escaping", S+"XML.cpp")],
  "Generated trees, renderings and edit histories against an explicit tree model; record round trips; structured corruption")
P("P19", "TOML documents and typed records are read and written faithfully",
  "Every typed record (numbers of all widths, strings, booleans, dates, nested records, arrays of anything, fixed arrays, tuples, maps with any keys) written as TOML is valid TOML denoting that record and reads back equal. Any TOML text made of pairs, inline tables, arrays, table and array-of-tables headers (implicit parents included), all four string forms, integers, floats, booleans, dates with any zone, comments and any admissible white space is read into an untyped value as the document it denotes and into a record as that record, unknown keys and tables being skipped. Damaged text never causes a crash, hang, leak or out-of-bounds access.",
  ["inputs"], "all record values, documents of the supported subset, renderings of them and damaged texts",
  "The test reads one fixed text; headers, nesting, string forms, comments and unknown keys interact in unboundedly many ways.",
  [I+"TOML.h", I+"Serializer.h", I+"Hash.h", I+"Variant.h"], [("header resolution and pair parsing", I+"TOML.h"), ("string forms and escapes", I+"TOML.h"), ("two-pass table writer", I+"TOML.h")],
  "Generated documents and records: renderer, strict reader and document model independent of the code; round trips; structured corruption", "Dotted keys in pairs, digit separators, non-decimal integers and fractional seconds are outside the supported subset")
P("P20", "INI files, their object and every edit stay in step",
  "Reading an INI file yields exactly its sections and entries - repeated names numbered in file order, names compared without regard to case, white space trimmed, comments and malformed lines ignored - with integer, hexadecimal and floating-point views of the values. After every history of adding and removing sections, inserting, editing and deleting entries (by instance), copying and moving the object and saving, lookups and iteration show exactly the edited contents, a copy is independent and equal, calls on things that do not exist fail without effect, and the saved file reads back as the same contents with untouched comments kept. No input causes a crash, leak or out-of-bounds access.",
  ["histories", "inputs"], "all files, edit histories, instance numbers and values",
  "The test runs one fixed script on a file it created itself; prefix-sharing names, repeated names, long names and comments depend on the particular file and history.",
  [S+"INIstorage.cpp", S+"INIsection.cpp", S+"INIentry.cpp", S+"INIParser.c", I+"INIstorage.h", I+"INIsection.h", I+"INIentry.h"], [("parallel update of node lists, hashes and file text", S+"INIstorage.cpp"), ("line classification and text search", S+"INIParser.c")],
  "Generated files and edit histories against an explicit model; every save is reloaded and compared")
P("P21", "Unicode conversions are exact, bounded and stop at malformed input",
  "Every text converts between UTF-8 and UTF-32 to exactly its encoding and back, whether the source is terminated or counted, through the conversion functions and through string construction and assignment; code points above U+10FFFF become U+FFFD; the size query always announces enough room; with less room the result is the longest prefix of whole characters that fits; ill-formed UTF-8 (truncated, overlong, surrogate, out of range, stray bytes) is decoded up to the first ill-formed sequence; and no conversion reads outside the source or writes outside the buffer.",
  ["inputs"], "all texts, byte strings, source lengths and buffer sizes",
  "Tests convert a few pangrams through large buffers; boundary code points, exact-size buffers and ill-formed sequences are unboundedly many.",
  [S+"ConvertUTF.c", I+"utf_conv.h", I+"Str.h"], [("lead-byte tables and legality check", S+"ConvertUTF.c"), ("two-pass size query and conversion", I+"Str.h")],
  "Generated texts, corruptions and exactly sized heap buffers against an encoder and a decoder written from the Unicode tables, under AddressSanitizer", "Conversions to and from 16-bit wide characters are not covered on this platform")
P("P22", "Strings, splitting, trimming, formatting and command lines match their reference",
  "Under every sequence of assignments, concatenations, copies, moves, character edits, trimming and replacing, a string equals the plain character sequence those operations define. Splitting at a delimiter or set of delimiters yields the non-empty pieces in order, chunk extraction the n-th piece, removal of a character every other character, printf-style construction the printf result. The C-string helpers (replace, count, trim, byte search, integer to text in any base within any buffer), command-line splitting and grouping, brace formatting and whole-file loading match their definitions for every input and stay inside their buffers.",
  ["inputs", "histories"], "all texts, delimiters, operation sequences, numbers, bases, buffer sizes, command lines and formats",
  "Tests try a handful of fixed strings; empty pieces, leading delimiters, negative bytes and exactly fitting buffers are particular inputs.",
  [I+"Str.h", I+"bss_util.h", S+"bss_util_c.c"], [("token loops over a private copy", I+"Str.h"), ("in-place argument splitting", I+"bss_util.h"), ("digit loop with bounded buffer", S+"bss_util_c.c")],
  "Generated operation sequences and inputs against std::string models, exactly sized heap buffers under AddressSanitizer")
P("P23", "Integer, bit and floating-point helpers agree with exact arithmetic",
  "For every argument in their domain and every integer width, the bit helpers (count, masks, set and get bit, next power of two, binary logarithm, byte order reversal), integer helpers (square root, absolute value, negation, sign, division and modulo toward negative infinity, double-width multiply and shift, bit-width limits), comparison of floating-point numbers by units in the last place, rounding and truncation, running average and sum of squared differences, angle distances, interpolation end points, day numbers of calendar dates, FNV-1a hashes and UTF-8 output equal the exact mathematical result; the fast square roots and length stay within their stated approximation.",
  ["inputs"], "all operand values of all widths",
  "Tests check a few values per helper; 64-bit operands, sign boundaries and neighbouring floating-point numbers are particular values.",
  [I+"bss_util.h", I+"defines.h"], [("bit-twiddling shortcuts", I+"bss_util.h"), ("integer reinterpretation of floating-point numbers", I+"bss_util.h")],
  "Generated operands with boundary bias against 128-bit integer and double-precision references")
P("P24", "Rational, fixed-point and dual numbers compute what they stand for",
  "Under every sequence of arithmetic, increments, comparisons and conversions whose values are representable, a rational number equals the exact fraction in lowest terms with positive denominator, mixed operations with integers on either side included. Fixed-point addition, subtraction, multiplication, division, remainder, shifts, reciprocal and comparisons, between formats and with floating-point operands, are within the last place of the exact result, and conversion between formats, widths, integers and floating point preserves the value to the coarser of the two. A dual number evaluated through any composition of the arithmetic operators, powers and elementary functions carries the exact derivatives up to its order.",
  ["inputs", "histories"], "all operand values, formats, operation sequences and expressions",
  "Tests compute a few fixed expressions; reduction to lowest terms, sign normalisation, rounding direction and higher derivatives depend on the operands.",
  [I+"Rational.h", I+"FixedPt.h", I+"Dual.h", I+"bss_util.h"], [("incremental reduction by partial gcds", I+"Rational.h"), ("scaling shifts between formats", I+"FixedPt.h"), ("recursive lower-order duals", I+"Dual.h")],
  "Generated operation sequences and expressions against 128-bit fractions, long double values and truncated Taylor series")
P("P25", "Vectors, matrices and SSE lanes agree with scalar arithmetic",
  "For every vector size and element type, the operators (with vectors, scalars and vectors of other element types, in place and by value), dot and cross product, length, distance, normalisation, absolute value, ordering, rotation, polar form, outer product and swizzles equal the component-wise definition. Matrix products (including results written over an operand and matrices at any address), component-wise operators, transposes, determinants and inverses are those of linear algebra; rotation, translation, scaling, affine and quaternion matrices map points as named, and their _T variants are the transposes. Every SSE vector type acts on each lane as the scalar operation does, with aligned and unaligned loads and stores of exactly 16 bytes.",
  ["inputs"], "all components, sizes, element types, aliasings and addresses",
  "Tests check one or two fixed vectors and matrices per type; the hand-shuffled SSE paths are wrong only for particular lanes or entries.",
  [I+"vector.h", I+"sseVec.h"], [("SSE specialisations beside the generic loops", I+"vector.h"), ("lane emulation of operations SSE2 lacks", I+"sseVec.h")],
  "Generated operands on which the exact result is representable, against scalar reference loops and matrices built together with their inverse")
P("P26", "Geometric shapes answer containment, distance and collision correctly",
  "For circles, spheres, lines, rays, rectangles, triangles, polygons, ellipses and circle sectors, containment, collision, intersection points, nearest points, distances, areas, lengths, centroids, convexity and bounding boxes equal those of the exact shapes, whichever overload or operand order is used, for positions anywhere in the plane. A circle or sphere does not contain its boundary; a rectangle contains its left and top edges but not its right and bottom ones; a rectangle that merely touches a rectangle, circle or segment collides with it; a segment meets a circle where it crosses its outline; a sector meets a polygon where it meets its outline. Arithmetic, ordering and conversions of rectangles act on each side.",
  ["inputs"], "all shapes, positions, sizes and angles, away from tangencies and shared edges that rounding decides",
  "The test suite has no geometry or collision tests at all.",
  [I+"Geometry.h", I+"Collision.h"], [("primitive tests around the origin, translated by callers", I+"Collision.h"), ("shape wrappers and circle sectors", I+"Geometry.h")],
  "Integer-lattice shapes judged in exact arithmetic; real-valued ones by dense sampling of the boundary with a margin")
P("P27", "Searches, Base64, curves, solvers and traversals match their definitions",
  "Binary searches return the last element not after, the first not before, or an element equal to the sought value (or -1), over any sorted array, subrange, index type and record comparison. Base64 (URL alphabet, no padding) encodes as the standard says, announces exactly the size it writes, decodes back to the same bytes, and never touches memory outside its buffers for arbitrary text. Splines and Bezier curves follow their polynomials; splitting a curve leaves both halves on it; approximating a cubic yields quadratics that join end to end within the error bound; N-point quadrature is exact up to degree 2N-1; quadratic and cubic solvers and the quadratic fit return the roots or curve of their input up to their fast square root; root finders converge on increasing functions, stay in the bracket and report failure; breadth-first traversal visits every node of any binary tree in level order until told to stop.",
  ["inputs"], "all sorted arrays, byte strings, control points, polynomials and tree shapes",
  "Tests use one array, a few byte strings and one polynomial; several functions had never been instantiated.",
  [I+"algo.h"], [("binary search, curve, solver and Base64 templates", I+"algo.h")],
  "Generated inputs against the standard library, exact polynomials with known roots and integrals, an independent encoder and a queue-based traversal")
P("P28", "Random sources have the distribution they promise",
  "The xorshift generators produce the published sequences for any state, are reproducible from a seed (any 64-bit value, zero included), copyable, and discard(n) equals n calls; no seed leaves them stuck. bssrand stays inside [min,max) (for integers strictly below max, whatever bits the engine delivers) and is uniform. A shuffle returns a permutation of its elements for every engine output, and every permutation is equally likely. An alias table encodes exactly the given probabilities, for every count, index type and precision, also after copying, assigning and moving, and its samples follow them. Normal samples have the normal distribution including its tails. The leaves of a stochastic subdivision tile the rectangle. Poisson-disk samples lie inside the rectangle, no two are closer than the minimum distance, and they leave no hole that another sample would fit in by the generator's own rule.",
  ["inputs"], "all seeds, engine outputs, ranges and probability lists",
  "Tests look at a few samples; wrong columns, unreachable permutations, stuck seeds or out-of-range results need particular probabilities or engine bits.",
  [I+"XorshiftEngine.h", I+"AliasTable.h", I+"algo.h"], [("xorshift state update and seeding", I+"XorshiftEngine.h"), ("alias construction and sampling", I+"AliasTable.h"), ("ranges, shuffle, ziggurat, subdivision", I+"algo.h")],
  "Reference generators, exact distributions implied by the tables, scripted engines delivering extreme bits, and seven-sigma frequency tests over generated seeds")
P("P29", "Variants, smart pointers, delegates and singletons keep what they were given",
  "Over any history, a variant holds exactly the type and value last assigned, typeset, copied or moved into it, at an address aligned for that type, destroys each replaced value exactly once, and survives serialization (JSON and UBJSON) also when read into a variant holding another type. A reference-counted object lives exactly as long as some ref_ptr or explicit grab refers to it, including assignments from itself, from a member of the object being released, and moves. An OwnerPtr deletes its object exactly once, when the owning pointer goes or is reassigned; copies and references never delete. A delegate calls the function or method it was bound to, on the object it was bound to, with the arguments given and returns its result, also after copying or storing; deferred calls run exactly once at scope exit. A singleton's instance is the object last created or moved to, and none once it is gone.",
  ["histories"], "all sequences of construction, assignment, copy, move, parse and destruction",
  "Tests make a handful of assignments; leaks, double deletions and dangling references depend on which type or owner each side held before.",
  [I+"Variant.h", I+"RefCounter.h", I+"SmartPtr.h", I+"Delegate.h", I+"Singleton.h", I+"Serializer.h"], [("tagged storage", I+"Variant.h"), ("grab and drop", I+"RefCounter.h"), ("ownership flag", I+"SmartPtr.h"), ("type-erased stubs", I+"Delegate.h")],
  "Model-based histories over tracked element types with leak, lifetime and reference-count accounting under ASan")
P("P30", "Animations, schedulers and timers follow their timeline exactly",
  "An animation's tracks stay sorted by time and hold exactly the frames added, set and not removed, through copies and moves, and its length is the given length or else the last end of any track. Played by any sequence of steps, time jumps, rewinds and resets, each discrete frame is delivered exactly once per pass in frame order once its time is reached, an interval is active exactly while start <= time < start + length (it is started once and ended exactly once, also on wrap, reset, rewind and destruction), and a smooth track has the value its interpolation defines at the current time. A looping animation finishes its pass and continues at loop + (time - length) mod (length - loop); one that does not loop does nothing once over. Easing follows its Bezier curve. A scheduler runs exactly the events that are due, in order of due time, again after the delay they return if it is positive, and events may schedule others. A timer's milliseconds and nanoseconds agree, are warped alike, and never run backwards.",
  ["histories", "inputs"], "all frame lists, loop points, step sequences, event sets and clock readings",
  "Tests play a few frames with one step size; duplicated, skipped or leaked frames need frames at particular times relative to the steps, wraps and overlapping intervals.",
  [I+"Animation.h", I+"Scheduler.h", I+"HighPrecisionTimer.h", S+"HighPrecisionTimer.cpp"], [("tracks, states and looping", I+"Animation.h"), ("event heap", I+"Scheduler.h"), ("clock sampling", S+"HighPrecisionTimer.cpp")],
  "Generated frame lists and step sequences against a timeline computed directly from the frames; scheduler and timer under a controlled clock")
P("P31", "Bit streams, bit fields and memory streams preserve every bit and byte",
  "Bits written to a bit stream in pieces of any length, plain or typed, appear in the underlying stream in order, low bit first, with a last partial byte padded with zeros exactly once by a flush or the destruction of the stream; reading in pieces of any length gives them back, whatever the destination held before, without touching anything past the bits asked for and without consuming bytes it does not need; moving a bit stream loses nothing. A bit field holds exactly the bits set, masked, added, removed or flipped through fields, references and groups. A stream splitter delivers each text once to exactly the targets it had when the text was flushed. A read-only memory stream behaves like a string stream over the same bytes (reads, put back, seeking, end and failure states). A stream over a dynamic array appends what is written, piecewise or by character, to the array, and reads back whole elements from the start position given, across reallocations. A transforming stream buffer moves all data whatever its buffer size.",
  ["inputs", "histories"], "all sequences of reads and writes of all lengths at all offsets",
  "Tests write one sequence of fields; lost, duplicated or stale bits depend on the offset, the piece length, the old content of the destination and where the buffer ends.",
  [I+"BitStream.h", I+"BitField.h", I+"stream.h"], [("partial byte handling", I+"BitStream.h"), ("masks and references", I+"BitField.h"), ("stream buffers", I+"stream.h")],
  "Model-based histories against bit vectors, byte strings and std::istringstream under ASan")
P("P32", "Logs and profiles record exactly what happened",
  "Every log entry below the maximum level reaches every current target stream and file exactly once and flushed, with the header its format defines (source, file name without its path, line, level text, local time or date and time; the null format if there is no source), through Log, LogFormat and PrintLog; entries above the maximum level are dropped. Setting a level's text changes that level only. An assimilated stream writes into the log and has its own buffer back once the logger is gone or assigned over, however often it was assimilated. Moving a logger keeps its targets, files, levels, formats and assimilated streams. For up to 15 profile points, the profiler counts each call path, its average total and own time exactly, and its tree, flat and heat outputs name each with its own numbers. The time zone offset, file size and font path services return what the system reports.",
  ["histories", "inputs"], "all sequences of log calls, targets, formats, moves and nested profile blocks",
  "Tests only check that logging does not crash; lost levels, stale buffers, mislabelled numbers and wrong dates depend on the history and on the clock.",
  [I+"Logger.h", S+"Logger.cpp", I+"Profiler.h", S+"profiler.cpp", S+"bss_util.cpp"], [("targets, headers and levels", S+"Logger.cpp"), ("call trie and averages", I+"Profiler.h"), ("outputs", S+"profiler.cpp"), ("system services", S+"bss_util.cpp")],
  "Model-based histories with exact expected text under a controlled clock, time of day, time zone and font configuration")
P("P33", "Every serializable type survives every format and chain of formats",
  "An object with a serializable member of any kind (static, dynamic, compact and boolean arrays, arrays of arrays and of key/value pairs, stacks, random queues, heaps, priority queues, sorted arrays, maps, hash sets and hash maps, std::vector, vectors and matrices of any size, circles, spheres, lines, rectangles, triangles, ellipses, circle sectors, polygons, variants) that is written as JSON, UBJSON, XML or TOML and read into a fresh object comes back with the same elements (in the same order where the container has one), the same keys and values, exactly the same components and the same alternative, and the members beside it are unchanged; the same holds after any chain of formats. Arrays of arrays are outside XML.",
  ["inputs", "histories"], "all contents of the listed types, all chains of the formats",
  "Tests serialize one fixed record; which containers compile into the engines at all, and which contents (empty, one element, negative, extreme or textual, nested) come back, differs by type and by format.",
  [I+"Serializer.h", I+"JSON.h", I+"UBJSON.h", I+"XML.h", I+"TOML.h", I+"Array.h", I+"DynArray.h", I+"ArraySort.h", I+"Hash.h", I+"vector.h", I+"Geometry.h", I+"Variant.h"], [("element functions of the containers", I+"DynArray.h"), ("key/value pairs", I+"Hash.h"), ("fixed arrays", I+"vector.h"), ("tuple and variant dispatch", I+"Serializer.h")],
  "Round trips of generated contents through chains of formats, compared with what was put in")
P("P34", "Containers return every block to the allocation policy it came from",
  "A container constructed with an allocation policy asks that policy, and never the default one, for all of its storage; every block is reallocated or freed exactly once, by the policy that handed it out and with the number of elements it was asked for, over every history of insertions, removals, clears, copies, moves, copy and move assignments between containers of different policies, self-assignments, use after being moved from, and destruction; the contents stay right throughout and nothing is left allocated when the containers are gone. This holds for arrays, sorted arrays, compact arrays, stacks, queues, heaps, priority queues, hashes, linked lists and linked arrays, the search trees, graphs, k-d trees and the concurrent queues (of these, the graph and the concurrent queues are not used after being moved from).",
  ["histories", "inputs"], "all histories of several containers over two policies",
  "Tests use each container with its default allocator and never mix policies; which policy frees a block after a chain of moves and assignments, and whether a cleared or moved-from container still knows its policy, depends on the history.",
  [I+"Alloc.h", I+"Array.h", I+"DynArray.h", I+"Hash.h", I+"LinkedList.h", I+"AVLTree.h", I+"TRBtree.h", I+"AATree.h", I+"KDTree.h", I+"Graph.h", I+"LocklessQueue.h", I+"CompactArray.h"],
  [("policy pointer of the allocator", I+"Alloc.h"), ("ownership on move assignment", I+"Array.h"), ("reallocation of buckets", I+"Hash.h")],
  "Stateful model-based generation over three containers and two recording policies, contents compared with a model after every operation")
