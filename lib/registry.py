"""One entry per property: what it says, where it lives in the code, how it is checked.
tools/generate.py turns this into properties.jsonl and MANIFEST.json."""

CHECKS = {}


def prop(pid, title, statement, over, qtext, why, files, mechanism, rule, note,
         technique="stateless property-based testing with internal shrinking", **extra):
    assert len(title) <= 80, (pid, len(title))
    CHECKS[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why,
                       files=files, mechanism=mechanism, rule=rule, note=note,
                       technique=technique, **extra)


TRUST = ("Trusts g++ 13, its standard library, ASan/UBSan and the harness' own oracle. "
         "Exploration: silence means no counterexample among the generated cases.")
MODEL = "model-based (stateful) property-based testing, choice-sequence shrinking; libFuzzer in thorough"
PBT = "property-based testing against a reference oracle, choice-sequence shrinking; libFuzzer in thorough"

# ---------------------------------------------------------------- callbacks
prop("C01", "A callback calls exactly its registered functions, once each, in order",
     "After any history of add, +=, =, disconnect, clear and calls made from outside the handlers, calling a "
     "Callback or RecursiveCallback invokes exactly the currently registered functions, each once and in the order "
     "of registration, and a non-void callback returns their results in that order. Disconnecting a connection "
     "removes its own function and no other and returns true exactly if that function was still registered; "
     "assigning a function leaves it as the only one registered. Adding an empty function throws "
     "std::invalid_argument and changes nothing.",
     ["histories", "inputs"],
     "all histories of add/+=/=/disconnect/clear/call on both callback templates, plain and tracked ids, void and value results",
     "callback.cpp and rcallback.cpp run a few fixed scripts of at most a handful of operations; order and identity "
     "of the called functions after arbitrary removal patterns is a statement over all histories.",
     ["nytl/callback.hpp", "nytl/recursiveCallback.hpp", "nytl/connection.hpp"],
     [("ordered subscription list with increasing ids", "Callback::add, RecursiveCallback::emplace"),
      ("lookup by id and removal", "Callback::disconnect, RecursiveCallback::disconnect"),
      ("removal of everything", "clear, operator=")],
     "Random operation histories (up to 40 operations) on one callback, compared after every step with a list model. "
     "Non-trivial: at least one call happened after a removal that left other functions registered.",
     "Both callback templates, ConnectionID and TrackedConnectionID, void and int results, both add overloads. " + TRUST,
     technique=MODEL)

prop("C02", "A RecursiveCallback may be changed and called freely from its own handlers",
     "From inside handlers of a RecursiveCallback, at any nesting depth, it is allowed to call it again, add, "
     "disconnect (the running or any other function), clear and assign. Every nested or outer call invokes, in "
     "registration order and once each, exactly the functions that were registered when that call started, even "
     "those removed while it runs, but never one added during it or removed before it started. When the outermost "
     "call has returned, removed functions have been destroyed and the callback behaves as if the same changes had been "
     "made outside of any call.",
     ["histories", "schedules"],
     "all nested scripts of operations executed from within handlers, any depth, any position in the list",
     "rcallback.cpp has a few hand-written re-entrant cases; which functions a nested call must see depends on the whole "
     "interleaving of removals, additions and nested calls.",
     ["nytl/recursiveCallback.hpp", "nytl/connection.hpp"],
     [("call ids and negative ids mark the call during which a function was removed", "RecursiveCallback::call, clear, disconnect"),
      ("deferred removal", "RecursiveCallback::removeOld"), ("last element snapshot", "RecursiveCallback::call")],
     "Random programs: every handler carries generated scripts (call, add, disconnect self/other, clear, assign, nested to "
     "depth 4), executed by the real callback and predicted by a snapshot model. Non-trivial: a removal or clear and an "
     "addition or nested call happened inside a handler.",
     "Both id types, void and value results, functions with and without Connection parameter. " + TRUST, technique=MODEL)

prop("C03", "Custom connection ids get each removal reported exactly once",
     "A connection id type given to a Callback or RecursiveCallback (see docs/callback.md) is constructed with a "
     "positive value and its removed() is called exactly once for every registered function: when it is disconnected, "
     "cleared, replaced by assignment or the callback is destroyed, for a RecursiveCallback at the latest when the "
     "outermost running call ends. set() is only called with negative values, only for removals that happen while the "
     "RecursiveCallback is being called, and never after removed(). Functions still registered are never notified.",
     ["histories"],
     "all histories of operations, from outside and from within handlers, with a recording connection id type",
     "The tests never use a custom id type; the id protocol is documented for every removal path and nesting.",
     ["nytl/recursiveCallback.hpp", "nytl/callback.hpp", "docs/callback.md"],
     [("removed() calls", "~Callback, clear, disconnect, removeOld"), ("set(-callID)", "RecursiveCallback::clear, disconnect")],
     "Random histories with a shared-state recording id; after each outermost operation the set of ids that were told "
     "removed() must equal the model's removed functions. Non-trivial: some function was removed by each of at least two "
     "different means, or from within a handler.",
     "Counts notifications per registered function, for all removal paths. " + TRUST, technique=MODEL)

prop("C04", "Tracked connections know whether their function is still registered",
     "With TrackedConnectionID every copy of a connection reports connected() exactly as long as its function is "
     "registered, no matter whether it was removed through another copy, by clear, by assignment, from within a handler "
     "or by destroying the callback. Disconnecting through a connection whose function is already gone, also after the "
     "callback was destroyed, is safe and removes nothing else. After disconnect() the connection object itself reports "
     "not connected, for every id type.",
     ["histories"],
     "all histories of operations over several callbacks with their lifetimes and many copied connections",
     "connection.cpp checks one connection and one disconnect; the guarantee spans all copies, removal paths and the callback's death.",
     ["nytl/connection.hpp", "nytl/callback.hpp", "nytl/recursiveCallback.hpp"],
     [("shared id value", "TrackedConnectionID"), ("connected()", "ConnectionT::connected")],
     "Random histories over up to 3 tracked callbacks (created and destroyed), connections copied and stored, operations from "
     "outside and inside handlers; after each step connected() of every copy is compared with the model. Non-trivial: a copy "
     "observed a removal done by other means.",
     "ASan watches for use of destroyed callbacks. " + TRUST, technique=MODEL)

prop("C05", "A unique connection disconnects exactly what it owns",
     "A UniqueConnection disconnects its function when it is destroyed (also as part of a registered function that is removed, "
     "even from the same callback), when it is overwritten by move assignment or when disconnect() is called, and otherwise "
     "never. Moving transfers the ownership and leaves the source empty; release() leaves the object empty and returns a connection to the function, which stays registered. No function owned by "
     "another connection is ever affected.",
     ["histories"],
     "all histories of creating, moving, swapping, releasing, disconnecting and destroying unique connections",
     "connection.cpp destroys and moves one guard; ownership must hold over all histories of moves and removals.",
     ["nytl/connection.hpp", "nytl/callback.hpp", "nytl/recursiveCallback.hpp"],
     [("ownership transfer", "UniqueConnectionT move constructor and assignment"), ("destructor", "~UniqueConnectionT"),
      ("release", "UniqueConnectionT::release")],
     "Random histories over an array of slots holding unique connections of two callbacks and an ownership model; the "
     "registered functions are observed by calling the callbacks. Non-trivial: an owned connection was moved or released and "
     "another one disconnected (facets owners: a removed function owned a connection that was still registered).",
     "Plain and tracked ids, both callback templates. Self-move is outside the domain. " + TRUST, technique=MODEL)

prop("C06", "Exceptions from handlers or ids leave a callback consistent",
     "An exception thrown by a handler reaches the caller of the callback unchanged; the handlers before it were called, "
     "the ones after it are not. Afterwards the callback works as before: later calls invoke exactly the registered "
     "functions, and removals made inside handlers before the exception, also of nested calls, have taken effect (also "
     "destroying the functions). If "
     "constructing the connection id throws during a registration, the registered functions are unchanged.",
     ["fault_sequences", "histories"],
     "all histories of operations and all points at which a handler or an id constructor throws",
     "No test lets a handler of a recursive callback throw after modifying it; the guarantee ranges over every throwing point of every history.",
     ["nytl/recursiveCallback.hpp", "nytl/callback.hpp"],
     [("scope guard ends the iteration and removes deferred entries", "RecursiveCallback::call"),
      ("id is constructed before the state changes", "Callback::add, RecursiveCallback::emplace")],
     "Histories with fault injection: every handler run and every id construction may throw at a generated point; calls are "
     "nested and exceptions cross nested calls or are caught there. Non-trivial: an exception was thrown while functions had "
     "been removed or added inside the same outermost call.",
     "Faults are generated, not enumerated exhaustively. " + TRUST, technique="stateful property-based testing with injected faults")

prop("C07", "Every handler receives the caller's arguments",
     "Each function registered in a callback receives the arguments of the call: by-value parameters arrive in every "
     "handler with the value the caller passed, whatever earlier handlers did with their own parameter; reference "
     "parameters refer to the caller's object; a move-only argument reaches the handler of a callback with one function. "
     "A function taking a leading Connection receives the connection of its own registration. The results "
     "are returned in order without being altered.",
     ["inputs", "programs"],
     "all argument values (long strings, vectors, shared pointers, references), any number of handlers and parameter lists",
     "The tests only pass ints and empty argument lists; a by-value argument consumed by the first handler is invisible to them.",
     ["nytl/callback.hpp", "nytl/recursiveCallback.hpp"],
     [("argument passing", "call(Args...), operator()"), ("self connection", "RecursiveCallback::add(std::function<Ret(Connection, Args...)>)")],
     "Generated argument values and handler lists for several signatures (by value, const reference, reference, move-only, "
     "mixed); handlers may move from or modify what they get. Non-trivial: two or more handlers and a non-empty by-value argument.",
     TRUST, technique=PBT)

# ---------------------------------------------------------------- scope guards
prop("C08", "Connections disconnect from any connectable exactly once",
     "For every connectable (a class derived from ConnectableT, or any class with a disconnect(id) function) and every id type: disconnect() of a ConnectionT or UniqueConnectionT, and destroying or overwriting a "
     "UniqueConnectionT, call the connectable's disconnect exactly once, with the id that is held, if that id is positive at this time, and make no call otherwise; empty, moved-from, released and already disconnected objects call nothing, "
     "and destroying, copying or overwriting a ConnectionT calls nothing. connected(), connectable() and id() report what is held. A std::exception from the connectable passes through disconnect(), but never leaves the destructor or the move "
     "assignment of a UniqueConnectionT, which still takes over its source.",
     ["histories", "fault_sequences"],
     "all histories of creating, copying, moving, releasing, disconnecting and destroying connections to several connectables that may refuse",
     "connection.cpp only uses empty connections and those of a Callback; no test has a connectable of its own or one that throws.",
     ["nytl/connection.hpp"],
     [("disconnect", "ConnectionT::disconnect, UniqueConnectionT::disconnect"), ("destructor and assignment", "~UniqueConnectionT, operator=")],
     "Random histories over four plain and four unique connections to recording connectables of several classes, with generated refusals (exceptions) and ids that change. The recorded calls are compared with a model after every "
     "operation. Non-trivial: a disconnect was called and a live connection was moved or an exception thrown.",
     "What an object holds after its own disconnect() has thrown is not specified (it may try again when destroyed). Self-move is outside the domain. " + TRUST, technique=MODEL)

prop("S01", "Scope guards run their function exactly when promised",
     "A ScopeGuard runs its function exactly once when its scope is left, a SuccessGuard only if the scope is left without "
     "an exception, an ExceptionGuard only if it is left by one; this is also right inside destructors and handlers that run "
     "while another, older exception is being processed. After unset() the function is never run. Exceptions thrown by the "
     "function never leave the guard, and a guard built from an lvalue uses that very object.",
     ["programs", "fault_sequences"],
     "all nestings of scopes, guards of the three kinds, thrown and caught exceptions, unset and throwing guard functions",
     "scope.cpp has a fixed handful of guards; the nesting with unwinding and other exceptions in flight is unbounded.",
     ["nytl/scope.hpp"],
     [("uncaught exception count at construction", "ScopeGuard"), ("policy", "~ScopeGuard")],
     "Random scope trees are interpreted with real guards: each scope creates guards, runs statements, throws, catches or runs "
     "a nested tree inside a destructor during unwinding; a reference interpreter predicts the log of executed functions. "
     "Non-trivial: an exception passed a guard, or a guard was created during unwinding.",
     TRUST, technique=MODEL)

# ---------------------------------------------------------------- clone
prop("K01", "clone and cloneMove preserve dynamic type, value and identity of the base",
     "For every class hierarchy built with the clone helpers (single or multiple bases, several levels), clone(obj) returns a "
     "new object of exactly the dynamic type of obj that is equal to it and independent of it, and leaves obj unchanged. "
     "cloneMove(obj) returns an object of the same dynamic type that holds the value moved out of obj. Both work through a "
     "reference to any of the bases and return a pointer to that same base within the new object.",
     ["programs", "inputs"],
     "all hierarchies from the helpers, through every base reference, for all values",
     "clone.cpp only clones through first bases, where any pointer conversion happens to work.",
     ["nytl/clone.hpp"],
     [("virtual void* doClone/doCloneMove", "Cloneable, DeriveCloneable, CloneMovable"), ("conversion of the result", "clone, cloneMove")],
     "A family of hierarchies (first/second/third bases with different sizes, two and three levels, move-only payloads) with "
     "generated values, cloned repeatedly through generated bases. Non-trivial: cloned through a base that is not at offset 0 or via "
     "two or more levels.",
     "The set of hierarchies is fixed (14 classes); values, access paths and chains are generated. " + TRUST, technique=PBT)

# ---------------------------------------------------------------- utf
prop("U01", "UTF conversions are lossless and produce the standard encodings",
     "For every sequence of Unicode code points (including U+0000 and all planes, without surrogates) toUtf8, toUtf16 and "
     "toUtf32 return exactly its UTF-8, UTF-16 and UTF-32 encoding, whatever encoding they convert from. Any chain of "
     "conversions that ends in the original encoding returns the original string.",
     ["inputs"],
     "all sequences of Unicode scalar values, all conversion pairs and chains",
     "utf.cpp converts two literals.",
     ["nytl/utf.hpp"],
     [("std::codecvt based conversions", "toUtf8, toUtf16, toUtf32")],
     "Code point sequences biased to the encoding length boundaries and plane edges, against an independent encoder. "
     "Non-trivial: two or more different encoding lengths occur in the string.",
     TRUST, technique=PBT)

prop("U02", "charCount and nth address whole characters of a UTF-8 string",
     "For every valid UTF-8 string charCount is its number of code points. nth(s, i) returns the bytes of its i-th character "
     "(null-terminated in the array version; as a reference to its first byte and its byte count in the versions with size) for every "
     "i below charCount, and throws std::out_of_range for every i that is not. The concatenation of all characters is the string.",
     ["inputs"],
     "all valid UTF-8 strings and all indices",
     "utf.cpp looks at three characters of one string.",
     ["nytl/utf.hpp"],
     [("length from the lead byte", "charCount, nth")],
     "Code point sequences with generated and out-of-range indices. Non-trivial: the string mixes characters of different byte lengths.",
     TRUST, technique=PBT)

prop("N01", "StringParam is a null-terminated view of the string it was made from",
     "A StringParam (char, char16_t and char32_t) made from a C string or a std::string has exactly its characters and length, "
     "its c_str() is the null-terminated string and refers to the original characters without a copy. A default "
     "constructed one is empty and its c_str() is null-terminated as well. Copies and use as std::string_view keep that.",
     ["inputs"], "all strings without embedded null characters, three character types",
     "There is no test for it.",
     ["nytl/stringParam.hpp"], [("construction from C string and std::string", "BasicStringParam")],
     "Random strings. Non-trivial: non-empty string.", TRUST, technique=PBT)

# ---------------------------------------------------------------- span, bytes
prop("P01", "A span views exactly the contiguous range it was made from",
     "A span made from a container, array, C array, pointer and count, pointer pair or another span, with static or dynamic "
     "extent, refers to exactly those elements: size, size_bytes, empty, indexing, front, back and forward and reverse iteration agree "
     "with the underlying storage and writing through it changes that storage. What would need other elements or would drop const is not convertible to a span (and does not take part in overload resolution). Every first, last and subspan, in the static and in "
     "the dynamic form and through any chain of them, refers to exactly the requested subrange.",
     ["inputs", "histories"], "all element types, lengths, offsets, counts and chains of subviews",
     "span.cpp builds a few spans from literals and takes no chained subviews.",
     ["nytl/span.hpp"], [("storage and extents", "span constructors, storage_type"), ("subviews", "first, last, subspan, make_subspan")],
     "Random buffers and chains of subview operations against (offset, length) arithmetic. Non-trivial: a chain of two or more "
     "subviews or a non-empty proper subrange.", TRUST, technique=PBT, extra=["P01b.cpp"])

prop("P02", "Span comparison is elementwise and byte views cover the object bytes",
     "Two spans compare equal exactly if they have the same length and equal elements, and <, <=, >, >= are the lexicographic "
     "order of their elements, consistently with each other and with == and !=. as_bytes and as_writeable_bytes view exactly the bytes "
     "of the spanned elements, in order.",
     ["inputs"], "all pairs of sequences, static and dynamic extents",
     "span.cpp compares no spans.",
     ["nytl/span.hpp"], [("comparison operators", "operator==, operator<"), ("byte views", "as_bytes, as_writeable_bytes")],
     "Pairs of sequences related by editing (equal, prefix, one changed element). Non-trivial: common prefix of at least one element.",
     TRUST, technique=PBT)

prop("B01", "Bytes written to a buffer are read back unchanged",
     "Any sequence of values, structs, vectors and spans written to a DynWriteBuf or WriteBuf and read back in the same order "
     "from the resulting bytes gives equal values; each write and read advances its buffer by exactly the size of the value, appends "
     "exactly the object's bytes and changes no other byte. bytes() views exactly the bytes of a value, span, vector or initializer list, "
     "skip advances without reading, copy and copyExact read without advancing.",
     ["inputs", "histories"], "all sequences of writes, reads, skips and copies over mixed types",
     "There is no test for bytes.hpp.",
     ["nytl/bytes.hpp", "nytl/span.hpp"], [("byte conversion", "bytes"), ("advancing buffers", "write, read, skip, copy")],
     "Random sequences of typed items are written to fixed and dynamic buffers surrounded by canary bytes and compared with a memcpy "
     "model, then read back in mixed ways. Non-trivial: three or more items of at least two kinds.",
     TRUST, technique=MODEL)

prop("B02", "Byte buffer operations never go past the end",
     "With NYTL_BYTES_ASSERT defined to throw, every read, write, skip, copy or copyExact that needs more bytes than the "
     "buffer has left (or, for copy into a buffer and copyExact, a different number) throws before any byte is changed and "
     "without advancing the buffer. Every operation that fits succeeds, also when it uses up the buffer exactly.",
     ["inputs", "histories"], "all buffer sizes and operation sequences, in particular sizes next to the limit",
     "There is no test for bytes.hpp.",
     ["nytl/bytes.hpp"], [("NYTL_BYTES_ASSERT conditions", "skip, write, read, copy, copyExact")],
     "Random operation sequences with sizes drawn around the remaining size. Non-trivial: an operation exceeded the buffer after "
     "others had succeeded.", TRUST, technique=MODEL)

# ---------------------------------------------------------------- flags, approx, math
prop("F01", "Flags behave like a set of bits of the enumeration",
     "For all enum values and Flags |, &, ^ and their assignment forms, in every combination of enum and Flags operands, give "
     "the bitwise result on the underlying values, are commutative and leave their operands unchanged. ~ and invertFlags give the "
     "complement of the value in the underlying type, == and != compare values, and conversion to bool or the underlying type gives the stored value.",
     ["inputs"], "all flag values over several underlying types and all operand combinations",
     "flags.cpp combines a handful of constants of one enum.",
     ["nytl/flags.hpp", "nytl/fwd/flags.hpp"], [("operators", "Flags, NYTL_FLAG_OPS")],
     "Random expression trees over flags of enums with 8, 16, 32 and 64 bit underlying types, compared with unsigned integer "
     "arithmetic. Non-trivial: an expression of three or more operators mixing enum and Flags operands.", TRUST, technique=PBT)

prop("A01", "approx equality accepts exactly the values within the tolerance",
     "For finite floating point values, x == approx(v, eps) holds exactly if |x - v| < eps * (1 + max(|x|, |v|)), up to rounding at the "
     "boundary, independent of the side approx is on, and != is its negation. For complex numbers, vectors and matrices it holds exactly if "
     "it holds for every component with that epsilon; vectors of different dimension are never equal. NaN never compares equal.",
     ["inputs"], "all finite values of all magnitudes, all epsilons, all component positions",
     "approx.cpp samples a few numbers near 1.",
     ["nytl/approx.hpp", "nytl/approxVec.hpp"], [("relative tolerance", "Approx::operator==")],
     "Values over the whole magnitude range with differences placed below and above the tolerance; one component of a larger "
     "object perturbed at a time. Non-trivial: the difference is within a factor of 100 of the tolerance.", TRUST, technique=PBT)

prop("M01", "mapUnsigned, unmapUnsigned and pair are unique and invertible",
     "mapUnsigned maps every int to a different unsigned int as documented (0, -1, 1, -2, 2 ... to 0, 1, 2, 3, 4 ...) and unmapUnsigned "
     "reverses it for every unsigned value. pair(x, y) is the Cantor pairing of x and y, thus different for different pairs, for all "
     "x, y whose pairing fits into unsigned int.",
     ["inputs"], "all int and unsigned values; all pairs whose pairing number fits",
     "No test covers them.",
     ["nytl/math.hpp"], [("zig-zag mapping", "mapUnsigned, unmapUnsigned"), ("Cantor pairing", "pair")],
     "Values biased to zero, powers of two and the type limits, exact 64 bit oracle. Non-trivial: absolute value above 1.",
     TRUST, technique=PBT)

prop("M02", "Scalar helpers: angles, mix, smoothstep, factorial and clampStore",
     "degrees and radians are inverse linear conversions (180 degrees are pi), not truncated for integer angles. mix(x, y, a) is (1-a)*x + a*y; "
     "smoothstep is 0 up to min, 1 from max on, monotonic and the cubic 3t^2-2t^3 in between. factorial(n) is n! for n up to 20; "
     "clampStore returns the value clamped to [min, max] and stores -1, 0 or 1 telling whether it was below, inside or above.",
     ["inputs"], "all finite arguments in representable ranges",
     "No test covers them.",
     ["nytl/math.hpp"], [("scalar functions", "degrees, radians, mix, smoothstep, factorial, clampStore")],
     "Random finite arguments including ends of the ranges. Non-trivial: argument strictly inside the range or factor not 0 or 1.",
     "At a value equal to min or max either stored value is accepted. " + TRUST, technique=PBT)

# ---------------------------------------------------------------- vec
prop("V01", "Vector arithmetic is componentwise",
     "For vectors of every dimension and value type +, -, unary + and -, and multiplication with a scalar give componentwise the result of the scalar "
     "operation, in the common type of the operands, and change no operand. +=, -= and *= change the left operand to the same "
     "result, also if the right operand is the vector itself or one of its components.",
     ["inputs"], "all dimensions, value types, values, and aliasing of operands",
     "vec.cpp evaluates a few literal expressions; mixed types, dimensions above 4 and aliasing are not covered.",
     ["nytl/vec.hpp", "nytl/vec2.hpp", "nytl/vec3.hpp"], [("free operators", "vec.hpp")],
     "Random vectors of dimension 1 to 7 over int, unsigned, float, double and mixed pairs, exact oracle. Non-trivial: at least "
     "two different non-zero components.", TRUST, technique=PBT, parts=6)

prop("V02", "Vector geometry obeys the euclidean definitions",
     "sum, multiply, dot, length, distance, angle, angleNormed, normalized, normalize, mirror and cross compute their mathematical definitions for every dimension: "
     "dot is bilinear and symmetric, length is the root of dot(a, a), angle is in [0, pi], symmetric, 0 for equal directions and never NaN "
     "for non-zero vectors, a normalized vector has length 1 and the same direction. The 3D cross product is orthogonal to both operands, "
     "anticommutative and right-handed, the 2D one is the signed area. lnormal and rnormal in rho and lho turn a 2D vector by a right angle to the left or right in the coordinate system of their namespace.",
     ["inputs"], "all vectors without overflow, all dimensions and value types",
     "vec.cpp checks a few literal vectors.",
     ["nytl/vecOps.hpp"], [("vector operations", "vecOps.hpp")],
     "Integer vectors with exact oracle and floating point vectors over a wide magnitude range with error bounds, including parallel, "
     "opposite and orthogonal ones. Non-trivial: vectors not parallel to an axis.", TRUST, technique=PBT, parts=6)

prop("V03", "Componentwise operations match the scalar functions",
     "Every function and operator in vec::cw, vec::cw::ip, vec::cw::operators and vec::operators gives in each component exactly what the named "
     "scalar operation gives for the corresponding components (or scalar operand, on the side it was given). The in-place version changes the vector to what the "
     "copying version returns, and the copying version leaves its argument unchanged.",
     ["inputs"], "all functions, dimensions, vectors and scalars in the domain of the function",
     "No test covers vec::cw beyond one or two calls.",
     ["nytl/vecOps.hpp"], [("macros and overloads", "vec::cw, vec::cw::ip, vec::operators")],
     "Every function with random vectors in its domain and over the whole range of the type (infinities, signed zeros, values around integers), oracle: the std function per component. Non-trivial: components differ from each other.",
     TRUST, technique=PBT, parts=11)

prop("V04", "Vec is a contiguous sequence with checked conversions",
     "Elements, iteration, front, back, data, size and the x, y, z members of a Vec of any dimension agree with the values it was made from, in order. "
     "Converting to another dimension or type keeps the leading components, converted, and value-initializes new ones; == holds exactly if all components "
     "are equal and != is its negation. Indexing a 2D or 3D Vec out of range throws std::out_of_range.",
     ["inputs"], "all dimensions, pairs of dimensions, types, values and indices",
     "vec.cpp covers single literals.",
     ["nytl/vec.hpp", "nytl/vec2.hpp", "nytl/vec3.hpp"], [("element access", "Vec, Vec<2, T>, Vec<3, T>"), ("conversion operator", "operator Vec<OD, OT>")],
     "Random vectors, conversions between all dimension pairs up to 6, mutation of single components. Non-trivial: dimension changes or "
     "differing component is not the first.", TRUST, technique=PBT, parts=4)

# ---------------------------------------------------------------- matrices
prop("L01", "Matrix arithmetic follows the algebraic definitions",
     "For matrices of all dimensions and value types +, -, unary -, multiplication with scalar, vector and matrix give the textbook result and leave "
     "their operands unchanged. The assignment forms +=, -= and *= (scalar and square matrix) give the same result, also if the right operand is the matrix itself "
     "or one of its elements. == holds exactly if all elements are equal and != is its negation.",
     ["inputs"], "all dimensions (square or not), value types, values and aliasing of operands",
     "mat.cpp multiplies a few literal matrices.",
     ["nytl/mat.hpp", "nytl/vec.hpp"], [("operators", "mat.hpp")],
     "Random matrices of dimensions up to 9x9 and 1x17 over integer, floating point and complex types, small exact values and extreme ones, exact oracle on nested arrays. Non-trivial: matrix is not diagonal "
     "and not zero.", TRUST, technique=PBT, parts=7)

prop("L02", "Structural matrix operations move exactly the right elements",
     "transpose, col (read and write), swapRow, swapCol, identity, one, trace, multiplyDiagonal, symmetric, row and element access and conversions between "
     "dimensions and types read and change exactly the elements they name and no others. at throws std::out_of_range for positions outside the matrix. pivot swaps the "
     "row with the largest absolute value in the column (among all rows, or only following ones if asked to) into the given row and returns the new value there.",
     ["inputs"], "all dimensions, indices and values",
     "mat.cpp uses a few of them on literals only.",
     ["nytl/matOps.hpp", "nytl/mat.hpp"], [("structural functions", "matOps.hpp"), ("at, conversion", "Mat")],
     "Random matrices up to 9x9 and 17x1 of many value types with random indices against nested arrays. Non-trivial: the matrix is neither symmetric nor constant, or two different "
     "indices are used.", TRUST, technique=PBT, parts=6)

prop("L03", "Row reduction yields the (reduced) row echelon form of the matrix",
     "For every matrix of any shape and rank, rowEcholon leaves a row echelon form with leading ones that spans the same row space, and "
     "reducedRowEcholon additionally has zeros above the leading ones, i.e. the unique reduced row echelon form; no element outside the matrix is accessed and "
     "zero rows come last. The Copy versions return the same in double precision and leave their argument unchanged.",
     ["inputs"], "all shapes (wide, tall, square) and ranks, including zero rows and columns",
     "mat.cpp reduces one matrix of full rank.",
     ["nytl/matOps.hpp"], [("elimination", "rowEcholon, reducedRowEcholon"), ("partial pivoting", "pivot")],
     "Matrices built as product of elementary integer row operations on a known reduced form (so the answer is known by construction), and integer matrices "
     "solved exactly in rationals. Non-trivial: rank below the number of rows, or a column without pivot before the last pivot.",
     "Floating point: values chosen such that exact cancellation is exact or far from zero; others only up to a tolerance. " + TRUST, technique=PBT, parts=5)

prop("L04", "The LU decomposition satisfies PA = LU for every square matrix",
     "For every square matrix A, singular or not and badly scaled or not, luDecomp returns a unit lower triangular L, an upper triangular U, a permutation matrix P and "
     "its sign with P * A = L * U up to rounding relative to the size of the elements of A. sign is 1 if P is an even permutation and -1 if it is an odd one.",
     ["inputs"], "all square matrices, any scale and rank, integer and floating point",
     "mat.cpp decomposes a few benign matrices.",
     ["nytl/matOps.hpp"], [("elimination with row swaps", "luDecomp")],
     "Integer, graded, permuted, singular and tiny-pivot matrices up to 9x9 over integer and floating point types. Non-trivial: P is not the identity or A is singular.",
     TRUST, technique=PBT, parts=4)

prop("L05", "determinant and invertible agree with the mathematical definition",
     "determinant of a matrix equals the sum over all permutations (exactly for small integer matrices, up to rounding otherwise), changes sign when "
     "two rows or columns are swapped and is multiplicative; determinant of its LU decomposition gives the same value. invertible is true for matrices that are clearly regular and "
     "false for matrices that are singular because of a zero row or column or two equal rows, also if the determinant is too big or too small for the value type.",
     ["inputs"], "all square matrices, integer and floating point",
     "mat.cpp evaluates two determinants, both with an even number of row swaps.",
     ["nytl/matOps.hpp"], [("product of the diagonal of U with the sign", "determinant"), ("invertible", "invertible")],
     "Integer matrices up to 7x7 (singular ones up to 9x9) against the exact Leibniz sum. Non-trivial: determinant is negative, or zero for a non-zero matrix.",
     TRUST, technique=PBT, parts=5)

prop("L06", "Solving and inverting linear systems gives the solution",
     "For every well conditioned square matrix A, inverse(A) times A and A times inverse(A) are the identity, and luEvaluate with the decomposition of A "
     "(or with its L and U and the permuted right side) returns the x with A * x = b, up to rounding. inverse from an LU decomposition gives the same result as from the matrix, and "
     "the inverse of the inverse is the matrix.",
     ["inputs"], "all well conditioned matrices, including those that need row swaps, and right sides",
     "mat.cpp solves one system and inverts one matrix; permutations that are not their own inverse do not occur.",
     ["nytl/matOps.hpp"], [("forward and back substitution", "luEvaluate"), ("inverse", "inverse")],
     "Well conditioned matrices (row-permuted diagonally dominant, integer, orthogonal-like) up to 9x9 with known solutions. Non-trivial: the "
     "permutation is a cycle of length 3 or more.", TRUST, technique=PBT, parts=6)

# ---------------------------------------------------------------- rects
prop("R01", "Rect containment, intersection tests and intersection agree",
     "contains is true exactly for the points inside a Rect or on its outline, containsReal exactly for the points strictly inside. intersects is true "
     "exactly if two Rects share at least one point, intersectsReal exactly if their interiors share one; both are symmetric. intersection returns the Rect of exactly the shared points, or an empty Rect at the origin "
     "if there are none.",
     ["inputs"], "all Rects of non-negative size (positive for intersectsReal), dimensions and value types",
     "rect.cpp tests one pair of overlapping rects.",
     ["nytl/rectOps.hpp"], [("containment per axis", "contains, containsReal"), ("overlap tests", "intersects, intersectsReal, intersection")],
     "Rects on a small grid (so that touching, crossing, containing and equal ones are frequent) and with real coordinates, 1 to 9 dimensions, oracle per "
     "axis and by enumerating grid points. Non-trivial: rects overlap without a corner of one inside the other, touch, or contain each other.",
     TRUST, technique=PBT, parts=5)

prop("R02", "difference cuts a Rect into disjoint parts outside the other Rect",
     "For Rects a and b of positive size, difference(a, b) returns Rects of positive size that are pairwise disjoint (sharing at most outlines) and together cover exactly "
     "the part of a that is not inside b. If their interiors do not intersect the result is only a; if b covers a the result is empty.",
     ["inputs"], "all pairs of Rects in any relative position, any dimension and value type",
     "rect.cpp tests the difference of one corner overlap.",
     ["nytl/rectOps.hpp"], [("slicing per axis", "difference")],
     "Pairs of rects in all relative positions per axis, 1 to 9 dimensions, integer and floating point types; oracle: classification of all cells of the coordinate grid (for 40 to 300 dimensions: disjoint parts whose volumes add up). "
     "Non-trivial: interiors intersect and a is not covered.", TRUST, technique=PBT, parts=6)

prop("R03", "Rect and Simplex conversions, size and center",
     "Converting a Rect or Simplex to another dimension or precision converts every vector of it (leading components kept, new ones zero). size of a Rect is the product of its extents, "
     "center is its midpoint. Rects are equal exactly if position and size are equal, and points() of a Simplex gives its points in order.",
     ["inputs"], "all values, dimensions and precisions",
     "rect.cpp only checks type deduction; there is no simplex test.",
     ["nytl/rect.hpp", "nytl/rectOps.hpp", "nytl/simplex.hpp"], [("conversion operators", "Rect, Simplex"), ("size, center, ==", "rectOps.hpp")],
     "Random rects and simplices. Non-trivial: dimension or type changes.", TRUST, technique=PBT)

# ---------------------------------------------------------------- quaternions
prop("Q01", "Quaternion arithmetic is the Hamilton algebra",
     "Quaternion multiplication is the Hamilton product (i*i = j*j = k*k = i*j*k = -1), associative and distributive over + and -, with conjugated(a*b) = conjugated(b)*conjugated(a) "
     "and norm(a*b) = norm(a)*norm(b), also in its assignment form with itself. +, -, scaling, ==, != and dot are componentwise as for 4D vectors, norm is the square root of dot(q, q). "
     "normalized has norm 1 and the same direction, and is the identity for the zero quaternion.",
     ["inputs"], "all quaternions without overflow",
     "There is no quaternion test.",
     ["nytl/quaternion.hpp"], [("operators", "operator*=, operator+, operator-, dot, norm, normalized, conjugated")],
     "Integer-valued quaternions with an exact oracle from the multiplication table, real ones with error bounds. Non-trivial: all four components used.",
     TRUST, technique=PBT)

prop("Q02", "All representations of a rotation agree",
     "For every unit quaternion apply(q, v) is q * v * conjugated(q), preserves lengths and handedness and equals toMat(q) * v (for 3x3, 4x4, and larger identity-extended matrices); "
     "fromMat(toMat(q)) is q or -q. axisAngle rotates by the angle around the axis following the right hand rule, apply of a product is the composition of the rotations, and yxz equals the "
     "product of the three axis rotations.",
     ["inputs"], "all unit quaternions, axes, angles and vectors, including half turns",
     "There is no quaternion test.",
     ["nytl/quaternion.hpp"], [("conversions", "axisAngle, yxz, fromMat, toMat, apply")],
     "Random rotations biased to multiples of 90 degrees and coordinate axes (all branches of fromMat), oracle: Rodrigues in long double. Non-trivial: axis is not a coordinate axis.",
     TRUST, technique=PBT, parts=2)

prop("Q03", "slerp moves along the shorter arc at constant speed",
     "For unit quaternions a and b and t in [0, 1], slerp(a, b, t) is (up to rounding) the unit quaternion on the shorter great arc from a to b or -b whose angle to a is t times "
     "the angle of the arc. So slerp(a, b, 0) is a and slerp(a, b, 1) is b or -b, the result never contains NaN, and swapping the ends and t with 1-t gives the same rotation.",
     ["inputs"], "all pairs of unit quaternions (close, far, opposite signs) and t in [0, 1]",
     "There is no quaternion test.",
     ["nytl/quaternion.hpp"], [("interpolation", "slerp, dot")],
     "Pairs with generated angle between them (including nearly equal and nearly opposite), oracle: analytic point on the arc. Non-trivial: angle between 1 and 89 degrees and 0 < t < 1.",
     TRUST, technique=PBT)

prop("Q04", "Euler angles reproduce the rotation for every sequence",
     "For every unit quaternion and each of the twelve rotation sequences eulerAngles returns three finite angles such that the product of the rotations about the named axes in that order is the rotation of the "
     "quaternion. This includes the degenerate cases (middle angle 0 or pi, or +-pi/2 for three different axes).",
     ["inputs"], "all unit quaternions, all twelve sequences, in and near gimbal lock",
     "There is no quaternion test.",
     ["nytl/quaternion.hpp"], [("angle extraction", "eulerAngles")],
     "Quaternions composed from generated angles for the sequence, middle angle biased to the degenerate values, and arbitrary ones. Non-trivial: all three angles non-zero, or degenerate middle angle.",
     TRUST, technique=PBT)

# ---------------------------------------------------------------- transforms
prop("T01", "Transform matrices do what they are named for",
     "scaleMat, translateMat, rotateMat (2D and around an axis), rotate and flipAxis/flipY/flipZ build or apply exactly the linear map they name, in float and double and for every allowed dimension; rotate, translate and scale "
     "premultiply the given matrix. orientMat maps from onto to (unit vectors in 3D, not opposite; any non-zero vectors in 2D) and is a rotation for unit vectors; base returns two unit vectors orthogonal to the given unit vector and to each other. "
     "multPos applies the homogeneous transform and divides by w.",
     ["inputs"], "all vectors, angles, axes, dimensions, float and double",
     "There is no transform test.",
     ["nytl/transform.hpp"], [("matrix constructors", "scaleMat, translateMat, rotateMat, orientMat, base, flipAxis, multPos")],
     "Random parameters applied to random points, oracle: direct computation in long double. Non-trivial: no parameter is zero or axis-aligned.",
     TRUST, technique=PBT, parts=5)

prop("T02", "Projection matrices map their volume onto the clip space cube",
     "ortho maps its box and frustum, frustumRev, frustumRevInf, perspective, perspectiveRev and perspectiveRevInf map their view volume, after division by w, onto x, y in [-1, 1] and depth in [0, 1]: the near plane to 0 and the far plane to 1, "
     "the Rev versions the other way round, the RevInf versions near to 1 and infinity to 0. The edges of the volume go to the edges of the cube, for positive and negative near and far and in float and double. Depth is "
     "monotonic between the planes, and perspective with fov and aspect equals the corresponding frustum.",
     ["inputs"], "all valid volumes, signs of near and far, points in the volume, float and double",
     "There is no transform test.",
     ["nytl/transform.hpp"], [("matrices", "ortho, frustum*, perspective*")],
     "Random volumes and points inside, on the faces and at the corners; oracle: the closed formula. Non-trivial: asymmetric volume or negative near plane.",
     TRUST, technique=PBT, parts=2)

prop("T03", "lookAt moves the position to the origin and orients the axes",
     "lookAt(pos, z, up) is a rigid transform without reflection that maps pos to the origin, the direction z to (0, 0, 1) and up into the plane x = 0 with positive y; the version without position is its rotation part. "
     "lookAt(q, pos) maps pos to the origin and undoes the rotation of q, and equals lookAt(pos, apply(q, {0,0,1}), apply(q, {0,1,0})). All hold in float and double.",
     ["inputs"], "all positions, unit directions, up vectors not parallel to them, rotations",
     "There is no transform test.",
     ["nytl/transform.hpp", "nytl/quaternion.hpp"], [("lookAt overloads", "transform.hpp")],
     "Random cameras including ones aligned with axes; oracle: orthonormality and images of points computed in long double. Non-trivial: direction and up are not axis-aligned.",
     TRUST, technique=PBT, parts=2)

# ---------------------------------------------------------------- misc
prop("X01", "Printing vectors, matrices and rects shows every value in order",
     "operator<< and print of a Vec write its components in order in the given delimiters, (a, b, c) by default; print of a Mat writes one line per row with every element in order (integers and small whole numbers exactly, others rounded to the digits shown), and of a Rect its "
     "position and size; an Approx is written as Approx(value). The state of the stream (width, precision) is as before afterwards.",
     ["inputs"], "all dimensions, values and delimiters",
     "No test checks printed text.",
     ["nytl/vecOps.hpp", "nytl/matOps.hpp", "nytl/rectOps.hpp", "nytl/approx.hpp"], [("print functions", "print, operator<<")],
     "Random values, output compared or parsed back. Non-trivial: more than one component.", TRUST, technique="round-trip property-based testing", parts=3)

PROG = "generated programs compiled against the headers, oracle by construction"
prop("O01", "A failed memory allocation leaves callbacks, clones and buffers as they were",
     "When an allocation of memory fails inside an operation, std::bad_alloc reaches the caller, nothing is leaked and the objects involved keep "
     "working: a failed add leaves exactly the previously registered functions (the rejected one is destroyed), a failed call called the functions up to the failure in "
     "order and changes nothing else than what handlers did, removals made by handlers still take effect, a failed clone or cloneMove leaves the object unchanged, a failed write leaves the bytes of a "
     "DynWriteBuf unchanged. Disconnecting, clearing and destroying a callback need no memory.",
     ["fault_sequences", "histories"],
     "all histories of operations and every allocation in them that may fail, once or lastingly, also inside nested calls and registrations made by handlers",
     "No test runs with failing allocations; the guarantee ranges over every allocation of every operation.",
     ["nytl/callback.hpp", "nytl/recursiveCallback.hpp", "nytl/connection.hpp", "nytl/clone.hpp", "nytl/utf.hpp", "nytl/bytes.hpp"],
     [("state changes after everything that can throw", "Callback::add, RecursiveCallback::add, emplace"),
      ("scope guard ends the iteration", "RecursiveCallback::call"), ("clone before move", "cloneMove")],
     "Random histories on callbacks (both templates, plain and tracked ids, five kinds of function objects), clones, conversions and buffers with a replaced global allocator that refuses "
     "the n-th allocation of an operation, once or from then on. Every step is compared with a model, living functions and unreleased allocations are counted. "
     "Non-trivial: an operation failed after another one had succeeded.",
     "Faults are generated, not enumerated exhaustively; only allocations by operator new fail. " + TRUST,
     technique="stateful property-based testing with injected allocation failures")

prop("I01", "Independent objects and calls never influence each other, also across threads",
     "nytl keeps no hidden shared state: what a sequence of operations on objects of its own observes (results, called functions, destructions, exceptions) does not depend on "
     "what else was computed before, in between (also from inside of handlers and guards) or at the same time in other threads. Distinct objects of every class may be "
     "used, and every function may be called on distinct arguments, from several threads without synchronization and without data races.",
     ["schedules", "histories"],
     "all sets of independent operation sequences over all headers, all interleavings of them in one thread and in several threads",
     "No test uses two objects at once or runs threads; a static buffer, cache or counter passes every single-threaded test.",
     ["nytl/callback.hpp", "nytl/recursiveCallback.hpp", "nytl/connection.hpp", "nytl/scope.hpp", "nytl/utf.hpp", "nytl/rectOps.hpp", "nytl/matOps.hpp",
      "nytl/quaternion.hpp", "nytl/transform.hpp", "nytl/vecOps.hpp", "nytl/clone.hpp", "nytl/bytes.hpp"],
     [("all state is in the objects", "no static or global variable in any header")],
     "Two to four generated programs of up to 30 steps out of 30 kinds (callbacks of all sorts with nested calls, removals and exceptions, connections, guards, clones, buffers, unicode, vectors, matrices, "
     "rects, quaternions, transforms, printing) are run one after the other and then interleaved, with switches also inside of handlers, or each in a thread of its own under ThreadSanitizer. "
     "Oracle: each program's log equals the one it writes alone; no data race. Non-trivial: two programs share a kind of step with different data.",
     "ThreadSanitizer sees races of the executed accesses only; thread schedules are left to the system. " + TRUST,
     technique="metamorphic property-based testing of interleaved and concurrent programs, ThreadSanitizer", parts=2, sanitize="thread", fuzz=False)

prop("E01", "Compile-time traits describe exactly the type they are given",
     "For function types, function pointers, member function pointers (const or not), lambdas and functors with one operator(), and references to them, FunctionTraits gives exactly its return type, "
     "parameter types, their number and constness (a plain function signature is not const, a function pointer counts as const) and isCallable is true (of references only claimed for function references); isCallable is false for non-callable types. validExpression is true exactly if the expression is well-formed for the types; LastType is the last of its types and templatize forwards its argument unchanged. Classes derived from "
     "NonCopyable are movable but not copyable, from NonMovable neither.",
     ["programs"], "all signatures (any parameter list, return type, kind of callable) and class shapes",
     "functionTraits.cpp, tmp.cpp and nonCopyable.cpp assert a few signatures.",
     ["nytl/functionTraits.hpp", "nytl/tmpUtil.hpp", "nytl/nonCopyable.hpp"], [("specializations", "FunctionTraits, IsCallableImpl, ValidExpressionT")],
     "Generated translation units with static_asserts about random signatures, expressions and classes; a failing unit is reduced to its failing assertions. Non-trivial: three or more parameters or a qualified "
     "parameter type.", "noexcept, volatile and ref-qualified function types are outside the domain (unsupported, see DESIGN.md). " + TRUST,
     technique=PROG, kind="programs")

prop("E02", "Constant expressions give the values of run time",
     "The operations of Vec, Mat, Rect, Simplex, Flags, span and StringParam and the math functions that need no library function (arithmetic, compound assignment, element access, iteration in four or more dimensions, == and !=, "
     "conversions, dot, cross, sum, multiply, mirror, componentwise min, max, clamp and operators, matrix products, col, transpose, trace, identity, one, Rect queries and intersection, construction and sub-spans of spans, "
     "mix, smoothstep, degrees, radians, factorial, pair, mapUnsigned, clampStore) can be used in constant expressions in C++17, and evaluated there they give the same types and values as at run time.",
     ["programs"], "all expressions composed of these operations",
     "The tests declare a few constexpr vectors and flags, most of the interface is only used at run time.",
     ["nytl/vec.hpp", "nytl/vec2.hpp", "nytl/vec3.hpp", "nytl/vecOps.hpp", "nytl/mat.hpp", "nytl/matOps.hpp", "nytl/rectOps.hpp", "nytl/flags.hpp", "nytl/span.hpp", "nytl/math.hpp", "nytl/simplex.hpp", "nytl/stringParam.hpp"],
     [("constexpr functions", "all of these headers")],
     "Random typed expression trees over these operations, as functions that are evaluated by the compiler and again by the program with arguments hidden from the optimizer. Non-trivial: nested at least three deep.",
     "Only g++ 13 in C++17 mode decides what a constant expression is. " + TRUST, technique=PROG, kind="programs")

prop("H01", "Every header works on its own, in any combination and in many units",
     "With gcc and clang in C++17 mode each header compiles when it is the first and only include, and any set of headers compiles in any order, twice included, in several translation units that are "
     "linked into one program using their functions. Names from one header do not break another one, and the forward declarations of nytl/fwd name exactly the types (dimensions, value type) their names say, the same ones the full headers define.",
     ["programs", "configurations"], "all headers, subsets and include orders, several translation units",
     "The tests include a few headers each in one fixed order and each test is a single translation unit; the build checks each header alone with an extra forced include.",
     ["nytl/fwd.hpp", "nytl/utf.hpp", "nytl/quaternion.hpp", "nytl/bytes.hpp", "nytl/vec.hpp", "nytl/mat.hpp"],
     [("include guards, includes, inline functions", "all headers")],
     "Generated programs of two or three translation units with random header subsets in random order, each using code of its headers, compiled, linked and run. Non-trivial: three or more headers.",
     "g++ 13 and clang 18 (in quick clang gets each header alone and all together). " + TRUST, technique=PROG, kind="programs")
