#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.  Run: python3 tools/spec.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, note="", tech=None, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files.split(), mech=mech, note=note, tech=tech, level=level))

H = ["inputs", "histories"]
prop("C01", "Vectors, stacks, arrays and slices behave as sequences",
     "After any history of pushes, emplacements, pops, resizes, reserves, clears, clones, moves and indexed writes, a vector or stack holds exactly the sequence the history describes, reports matching length/capacity/empty/full, iterates in order, and releases its memory. Fixed arrays and slices (including sub-slices and byte views) expose exactly the elements of the range they denote, and an index, sub-range or end access outside the sequence stops the program instead of touching memory.",
     H, "all operation histories up to the bound from each starting shape, all 32-bit element values, all 64-bit indices and sub-ranges",
     "tests/vec.cpp, stack.cpp, array.cpp and slice-using tests run a handful of fixed scripts with literal values; growth boundaries, moved-from reuse and adversarial indices are unreached",
     "rpp/vec.h rpp/stack.h rpp/array.h rpp/slice.h",
     [("amortised growth and relocation", "rpp/vec.h grow/reserve/push"), ("bounds assertions", "rpp/slice.h operator[]/sub")])
prop("C02", "Queues deliver elements in first-in first-out order across ring wrap",
     "After any history of pushes, emplacements, pops, clears, reserves, growths, clones and moves, a queue yields exactly the pushed and not yet popped elements, oldest first, through front/latest access, popping, indexing and iteration. Growing, reserving or cloning a queue whose contents wrap around the end of its storage keeps every element and its position. Popping or indexing beyond the contents stops the program.",
     H, "all histories up to the bound from each starting fill and wrap position; all element values and indices",
     "tests/queue.cpp pushes and pops fixed counts; wrap offset x growth x clone combinations are not covered",
     "rpp/queue.h", [("ring indices and growth linearisation", "rpp/queue.h push/pop/reserve"), ("clone of wrapped contents", "rpp/queue.h clone")])
prop("C03", "Heaps always yield a minimum and lose no element",
     "After any history of pushes and pops a heap's top is an element no other element precedes, and popping everything yields exactly the multiset pushed, in non-decreasing order. Clones and moved heaps hold the same multiset, and popping or reading the top of an empty heap stops the program.",
     H, "all histories up to the bound; all 32-bit keys, including ties; growth from the default and reserved capacities",
     "tests/heap.cpp uses a few literal sequences; heap order must hold for every key order and tie pattern",
     "rpp/heap.h", [("sift up / sift down", "rpp/heap.h reheap_up/reheap_down"), ("growth", "rpp/heap.h grow")])
prop("C04", "Maps behave as dictionaries for every hash pattern",
     "After any history of insertions, emplacements, lookups, erasures, clears, reserves, clones and moves, a map contains exactly the keys inserted and not erased, each bound to the value last inserted, with a matching length. This holds for every assignment of hash values to keys, including full collisions, displacement chains, wrap-around of the probe sequence and growth while colliding. Iteration visits every pair exactly once, and a required lookup of an absent key stops the program.",
     H, "all histories up to the bound over a small key set whose 64-bit hashes are arbitrary, and from pre-filled maps near the growth threshold",
     "tests/map.cpp inserts sequential literal keys with the built-in hash; collision and displacement patterns depend on hash values the tests never produce",
     "rpp/map.h rpp/hash.h", [("robin-hood insertion", "rpp/map.h insert_slot"), ("backward-shift erase", "rpp/map.h fix_up/try_erase"), ("growth rehash", "rpp/map.h grow")])
prop("C05", "Every element is constructed, moved and destroyed exactly once",
     "Whatever history of operations is applied to a container, owner or sum type, each element it received is destroyed exactly once, no operation uses an element that has ended or was never constructed, elements are relocated only through their move operation, and nothing the container allocated remains when it is destroyed. Cloning copies every element exactly once and leaves the original untouched. Moving a container transfers its elements without copying them and leaves a valid empty one.",
     H, "all histories up to the bound for vectors, stacks, queues, heaps, maps and arrays holding move-only owning elements and self-referential copyable elements",
     "the tests use trivially destructible elements or a few moves; double destruction, skipped destruction and bitwise relocation are invisible to their assertions",
     "rpp/vec.h rpp/queue.h rpp/heap.h rpp/map.h rpp/stack.h rpp/array.h rpp/storage.h rpp/base.h rpp/ref0.h",
     [("destroy on pop/clear/erase/resize", "rpp/vec.h rpp/queue.h rpp/map.h"), ("relocation on growth", "rpp/vec.h rpp/queue.h rpp/heap.h rpp/map.h")])
prop("C06", "Optionals and variants hold exactly the alternative last stored",
     "An optional or variant always holds precisely the alternative most recently constructed or assigned, reports that alternative through every query, and matching invokes exactly the handler of the held alternative once with the held value. Assigning, moving, cloning and clearing never disturb another object, end the previous alternative exactly once, and self-assignment never uses an ended value. Taking the value of an empty optional stops the program.",
     H, "all histories of stores, moves, clones, resets and matches up to the bound; all values and all source/destination alternative pairs",
     "tests/opt.cpp and variant.cpp use a few alternatives in fixed order; the matrix of (previous, next) alternatives with owning payloads is not covered",
     "rpp/opt.h rpp/variant.h rpp/storage.h", [("tag and storage lifetime", "rpp/variant.h rpp/opt.h"), ("dispatch", "rpp/variant.h match/apply")])
prop("C07", "Function objects run the callable they were given, with its own state",
     "A function object invokes exactly the callable last stored in it, passing arguments through unchanged (by value, reference or move) and returning its result. Captured state is owned: it survives moves between function objects, is never shared, and is destroyed exactly once. Invoking an empty or moved-from function object stops the program.",
     H, "all histories of storing, moving, overwriting and calling up to the bound, over callables with no, trivial, owning and maximal captures and arbitrary argument values",
     "tests/function.cpp calls a few lambdas; overwrite/move chains with owning captures at the size limit are not covered",
     "rpp/function.h", [("type-erased vtable and inline storage", "rpp/function.h")])
prop("C08", "Tuples, pairs and raw storage keep their fields independent",
     "Every field of a tuple or pair reads back exactly what was last written to that position, whatever the arity and field types, and writing or moving one field leaves the others unchanged. Construction, cloning, moving, structured binding and invocation preserve field order and values. Manual storage holds exactly the object constructed in it, suitably aligned, until destroyed.",
     ["inputs", "programs"], "all field values; arities 0 to 4 with mixed sizes, alignments and ownership",
     "tests/tuple.cpp and pair.cpp check literals for a few shapes",
     "rpp/tuple.h rpp/pair.h rpp/storage.h", [("recursive field storage", "rpp/tuple.h"), ("structured binding access", "rpp/pair.h get")])
prop("C09", "Owning pointers free exactly once, when the last owner goes",
     "A box owns one object and a reference-counted pointer shares one: the object stays alive and unchanged while any owner exists and is destroyed, and its memory returned, exactly when the last owner is dropped, cleared or overwritten. The reported reference count equals the number of owners, moves transfer ownership without changing it, and self-assignment never uses or frees an ended object. Dereferencing an empty owner stops the program.",
     H, "all histories of copies, moves, assignments and drops over several handles up to the bound",
     "tests/box.cpp and rc tests perform a few copies; aliasing histories over several handles are not covered",
     "rpp/box.h rpp/rc.h", [("reference counting", "rpp/rc.h Rc/Arc"), ("unique ownership", "rpp/box.h")])
prop("S01", "Strings are values: content, comparison and ownership are exact",
     "A string holds exactly the bytes it was built from (of any value), independent of the buffer it came from, and clones, moves, concatenations and appends yield exactly the concatenated bytes. Equality and ordering agree with the byte content, and equal strings and views hash equally. Terminated copies end with one zero byte, and access outside the content stops the program.",
     ["inputs", "histories"], "all byte contents up to the length bound, including embedded zero bytes and non-ASCII; all 64-bit indices",
     "tests/string.cpp uses ASCII literals; arbitrary bytes, embedded zeros and boundary lengths are not covered",
     "rpp/string0.h rpp/string1.h rpp/impl/base.cpp", [("comparison", "rpp/string0.h operator=="), ("append/concat", "rpp/string1.h")])
prop("S02", "Path helpers split and trim at the right separators for every path",
     "For every byte string, the file part is the text after the last slash or backslash (the whole text if there is none), removing it leaves the text up to and including that separator (nothing if there is none), and the extension is the text after the last dot or separator (the whole text if there is neither). Results always lie within the input and reading never leaves it.",
     ["inputs"], "all byte strings up to the length bound",
     "tests check a few literal paths; separators at the first and last position, doubled separators and missing ones are not covered",
     "rpp/string1.h rpp/string0.h", [("path scanning", "rpp/string1.h file_suffix/remove_file_suffix")])
prop("S03", "Text scanning and number parsing consume exactly the token they report",
     "For every byte string, integer parsing returns the decimal value of the longest valid leading token together with exactly the text after it, token scanning skips leading white space and returns the maximal token and the rest, and white space skipping removes exactly the leading white space. Input without a valid token is reported as absent; no input makes scanning read outside the text.",
     ["inputs"], "all byte strings up to the length bound",
     "the tests parse a few literals; malformed, empty, maximal and unterminated inputs are not covered",
     "rpp/format.h rpp/impl/base.cpp rpp/string1.h", [("token scanning", "rpp/format.h parse_*")])
prop("S04", "Formatting renders every value exactly and within its buffer",
     "Formatting a value produces the text that denotes it exactly: integers in decimal (parsing it back gives the value), booleans, strings verbatim, containers, options, owners, records and enumerators with their elements in order. Format strings substitute each argument at its placeholder, in order, keep all other text and honour escapes. The length computed in advance equals the length produced, so the buffer is never over- or under-filled.",
     ["inputs"], "all integer values, all string contents up to the bound, and all placeholder arrangements up to the bound",
     "tests/format.cpp prints literals; the advance-length/actual-length agreement is only sampled",
     "rpp/format.h rpp/format1.h", [("length pass and write pass", "rpp/format.h Format::*")])
prop("M01", "Integer and bit helpers match exact arithmetic for every input",
     "Power-of-two round-ups and round-downs, leading-zero and bit counts, logarithms, alignment to any boundary, integer powers, absolute value, minimum, maximum, clamp and byte-size helpers return the mathematically exact result for every argument whose result fits the type. Numeric limits enclose every value of their type and are attained.",
     ["inputs"], "all values of each integer width",
     "tests/math.cpp checks a few literals per helper",
     "rpp/math.h rpp/impl/math.cpp rpp/limits.h rpp/base.h", [("bit tricks", "rpp/math.h next_pow2/is_power_of_two/ctlz")])
prop("M02", "Scalar floating-point helpers satisfy their defining identities",
     "Absolute value, sign, minimum, maximum, clamp, fractional part, interpolation, smooth step and angle conversion satisfy their defining identities for every finite input. Floor, ceiling and rounding return the adjacent integral value on the correct side. Trigonometric, exponential and power helpers pass their arguments to the corresponding function of their precision, in order.",
     ["inputs"], "all finite single-precision bit patterns (exact IEEE semantics)",
     "tests/math.cpp checks a few literals",
     "rpp/math.h rpp/impl/math.cpp", [("scalar helpers", "rpp/math.h Math::*")])
prop("G01", "Vector algebra is component-wise and consistent with its scalar definition",
     "Every vector operation (arithmetic with vectors and with scalars on either side, compound assignment, negation, comparison, min/max, clamp, floor, ceil, lerp, absolute value) equals the scalar operation on each component, leaves its operands unchanged, and construction and indexing address components in order. Dot, cross, norm, interpolation and normalisation equal their algebraic definitions.",
     ["inputs"], "all component values (exact IEEE for component-wise operations, all integers of bounded width for products), dimensions 2 to 4",
     "tests/vmath.cpp evaluates a few literal vectors; operand order and per-component mistakes on untested combinations are invisible",
     "rpp/vmath.h rpp/impl/vmath.cpp", [("component loops", "rpp/vmath.h Vect")])
prop("G02", "Matrix algebra obeys its laws: products, transposes, inverses, transforms",
     "Matrix products, matrix-vector products, sums, scaling and transposition equal their algebraic definitions for every entry value, indexing is column-then-row throughout and stops the program outside the four columns. The inverse of an invertible matrix multiplied with it, on either side, gives the identity. Translation, scaling, rotation about an axis, look-at, axis alignment, orthographic (depth zero at the near plane, one at the far plane) and perspective (reversed depth, y down) constructors produce the matrices that transform points accordingly.",
     ["inputs"], "all integer-valued entries of bounded width (exact arithmetic), so the algebra is decided without rounding",
     "tests/vmath.cpp uses a few literal matrices",
     "rpp/vmath.h rpp/impl/vmath.cpp", [("mat4 kernels", "rpp/impl/vmath.cpp")])
prop("G03", "Quaternions and bounding boxes obey their algebra",
     "Quaternion products, conjugation, inverses, sums, scaling and conversion to matrices equal the quaternion algebra, rotating by a unit quaternion matches its matrix, and rotations compose as their products. A bounding box enclosing points and boxes contains all of them and nothing it does not need, its emptiness, centre and surface agree with its bounds, and its image under a transform or projection is the smallest box around the images of its corners.",
     ["inputs"], "all integer-valued components of bounded width",
     "tests/vmath.cpp uses a few literals",
     "rpp/vmath.h rpp/impl/vmath.cpp", [("quaternion product", "rpp/vmath.h Quat"), ("box enclose and transform", "rpp/vmath.h BBox")])
prop("G04", "SIMD lanes compute what the scalar operation computes",
     "Every SIMD lane operation (set, broadcast, load, add, subtract, multiply, divide, minimum, maximum, comparison, dot, floor, ceiling, conversion) yields in each lane exactly the scalar result of that lane's operands, with no lane affecting another.",
     ["inputs"], "all lane bit patterns",
     "tests/simd.cpp evaluates literals and compares few lanes",
     "rpp/simd.h rpp/impl/simd.cpp", [("intrinsic wrappers", "rpp/impl/simd.cpp")])
prop("R01", "Random draws stay in range, are reproducible and permute without loss",
     "From every generator state, ranged draws lie within the requested inclusive or half-open range, unit draws lie in [0,1), and equal seeds give equal sequences. Draws reach every part of their range. Shuffling any sequence (including an empty one) yields a permutation of it, and every permutation can come out. A coin of probability zero never and of probability one always succeeds, and every draw advances the state.",
     ["inputs", "histories"], "all generator states and seeds; all range endpoints",
     "tests/rng.cpp draws from a few seeds; a statement about every state and every range cannot be sampled",
     "rpp/rng.h rpp/hash.h", [("state update and scaling", "rpp/rng.h")])
prop("H01", "Equal values hash equally and hashing reads only the value",
     "Values that compare equal have equal hashes, for every hashable type the library offers: integers, characters, floating-point numbers including both zeros, pointers, strings of any allocator and views of the same text, vectors, source locations and combinations of values. A hash is a function of the value alone (never of capacity, leftover bytes or position in memory), every part of the value matters to it, and the non-zero form is never zero.",
     ["inputs"], "all values of scalar types; all byte contents up to the bound for strings; all field values for compounds",
     "tests/hash.cpp compares a few literals",
     "rpp/hash.h rpp/string0.h rpp/vmath.h rpp/log.h", [("per-type hash", "rpp/hash.h"), ("string hash", "rpp/string0.h Hash<String>")])
prop("A01", "The range allocator never hands out overlapping or lost ranges",
     "After any history of allocations and frees, live allocations are in range, mutually disjoint and at least as large as requested; a request is refused only if the allocator cannot serve it. Freed ranges coalesce with free neighbours, so when everything is freed the whole capacity is available again, and its statistics equal the true totals.",
     H, "all allocate/free histories up to the bound with arbitrary request sizes",
     "tests/range_allocator.cpp runs one script and a random loop; coalescing patterns on both sides with size-class boundaries need specific histories",
     "rpp/range_allocator.h", [("size-class free lists and bitmaps", "rpp/range_allocator.h"), ("neighbour coalescing", "rpp/range_allocator.h free")])
prop("A02", "Regions give disjoint memory and release exactly their own on exit",
     "Memory obtained in a region is disjoint from all other live region memory, keeps its content until its region ends, and becomes reusable exactly when that region ends, in nested last-in first-out order and separately per thread. Growth into new chunks loses nothing, and using a region out of order stops the program.",
     ["histories", "schedules"], "all nestings and allocation sizes up to the bound, on one and two threads",
     "tests/region.cpp allocates small fixed amounts",
     "rpp/alloc0.h rpp/alloc1.h rpp/impl/alloc.cpp", [("chunk list and offset stack", "rpp/impl/alloc.cpp Regions")])
prop("A03", "Allocators account for every byte and pools recycle without aliasing",
     "Every allocation made through a named allocator is returned exactly once, the recorded allocation and free counts and sizes equal what happened, and the final report flags exactly the leaked ones. Free lists and pools hand out storage no live object occupies, and recycle a freed slot only after it was freed.",
     H, "all allocate/free histories up to the bound over several sizes",
     "the tests check absence of leaks in fixed scripts",
     "rpp/alloc0.h rpp/alloc1.h rpp/impl/alloc.cpp rpp/impl/profile.cpp", [("free list", "rpp/alloc1.h Free_List"), ("allocation records", "rpp/impl/profile.cpp")])
SCH = ["schedules"]
prop("T01", "Mutual exclusion and condition signalling hold under every interleaving",
     "At most one thread is ever inside a critical section guarded by one mutex, data written inside is visible to the next holder, and locks are released on every exit from their scope. A thread waiting on a condition resumes only with the mutex held, and a waiter whose condition was made true and signalled under the mutex always resumes.",
     SCH, "every interleaving of 2 to 3 threads within the context-switch bound, with spurious wakeups",
     "tests/thread.cpp lets the operating system choose a schedule",
     "rpp/thread.h rpp/thread0.h rpp/pos/thread_pos.cpp", [("mutex and condition wrappers", "rpp/pos/thread_pos.cpp"), ("scoped lock", "rpp/thread.h Lock")])
prop("T02", "Flags, futures and spawned threads never lose a result or a wakeup",
     "A waiter on a flag or future always returns once it has been signalled or filled, in every order of waiting and signalling and with spurious wakeups, and sees the value and every write made before it was published. A spawned task runs exactly once with its own arguments and joining waits for its completion. Nothing is leaked or freed while another thread may still use it.",
     SCH, "every interleaving of 2 to 3 threads within the context-switch bound, with spurious wakeups",
     "tests/thread.cpp and async tests run under one operating-system schedule per run",
     "rpp/thread.h rpp/thread0.h rpp/pos/thread_pos.cpp", [("futex flag", "rpp/pos/thread_pos.cpp Flag"), ("promise/future", "rpp/thread.h Promise"), ("thread entry ownership", "rpp/thread.h spawn")])
prop("T03", "Atomics and shared pointers are exact under concurrency",
     "Concurrent increments, decrements, exchanges and compare-and-swaps on an atomic lose no update and return the values of some sequential order. A shared pointer copied and dropped concurrently by several threads keeps its object alive while any owner exists and destroys it exactly once, after all other owners' accesses, with no data race.",
     SCH, "every interleaving of 2 to 3 threads within the context-switch bound",
     "the tests rarely interleave the last two drops",
     "rpp/rc.h rpp/thread0.h rpp/thread.h rpp/pos/thread_pos.cpp", [("atomic operations", "rpp/pos/thread_pos.cpp Atomic"), ("shared count", "rpp/rc.h Arc")])
prop("T04", "Coroutine tasks complete exactly once and return their value to the awaiter",
     "A task runs its body exactly once, delivers its result to whoever waits or awaits, and resumes its awaiter exactly once, whether it completes before, while or after being awaited and on whichever thread. Coroutine frames, arguments and results are destroyed exactly once whether the task is waited for, awaited or dropped.",
     ["schedules", "histories"], "every nesting shape within the bound and every interleaving of completion, waiting and dropping on 2 threads",
     "tests/coro.cpp resumes in one order",
     "rpp/std/coroutine.h rpp/async.h", [("promise state hand-over", "rpp/async.h Promise/Task"), ("final suspension", "rpp/async.h")])
prop("T05", "The thread pool runs every job once, and shuts down cleanly",
     "Every task or continuation submitted to the pool runs exactly once on a pool thread and its completion is delivered to its waiter, wherever and whenever it is submitted. No submission is lost or duplicated, timed and event continuations resume only after their time or event, and destroying the pool ends its threads without touching freed memory.",
     SCH, "every interleaving within the context-switch bound of a submitter and one or two workers, including submission during shutdown and idle waits",
     "tests/async.cpp floods the pool under one operating-system schedule",
     "rpp/pool.h rpp/pos/async_pos.cpp rpp/async.h", [("per-thread queues and condition", "rpp/pool.h"), ("event wait thread", "rpp/pos/async_pos.cpp")])
FLT = ["fault_sequences", "inputs"]
prop("I01", "File reads and writes are complete or reported failed",
     "A successful write leaves the file with exactly the given bytes, creating or truncating it as needed, and a successful read returns exactly the file's bytes, however the operating system splits the transfers. If any step fails the call reports failure, never a partial or invented result, and in every outcome each opened descriptor is closed exactly once and no memory is lost. Modification times are those the system reports.",
     FLT, "all contents up to the bound and every sequence of partial transfers and failures of open/seek/read/write/stat within the bound",
     "tests/files.cpp does one round trip on a healthy file system",
     "rpp/files.h rpp/pos/files_pos.cpp", [("read/write loops", "rpp/pos/files_pos.cpp")])
prop("I02", "Datagram sockets respect packet bounds and own their descriptor",
     "Sending passes exactly the packet's filled bytes to the given address and stops the program rather than read beyond the packet. Receiving stores at most the packet's capacity and reports exactly how much arrived and from whom; an error, nothing to receive, or a datagram that does not fit is reported as absence, never as data. A socket closes its descriptor exactly once across moves and assignments, and addresses encode exactly the given host and port, reading only the text they were given.",
     FLT, "all return values of the socket calls permitted by their interface, all ports and addresses, all move histories within the bound",
     "tests/net.cpp sends one loopback packet",
     "rpp/net.h rpp/pos/net_pos.cpp", [("recv length handling", "rpp/pos/net_pos.cpp"), ("descriptor ownership", "rpp/net.h Udp")])
prop("I03", "Asynchronous file operations and waits complete with the true outcome",
     "An asynchronous read or write delivers the complete content or a reported failure, exactly as its synchronous counterpart would, and a timed wait or event completes no earlier than its time or signal. Descriptors and buffers live until the operation is finished and are released exactly once.",
     FLT, "all contents up to the bound, partial transfers and failures within the bound",
     "tests/async.cpp reads one file and sleeps once",
     "rpp/pos/asyncio_pos.cpp rpp/asyncio.h rpp/pos/async_pos.cpp", [("aio submission and completion", "rpp/pos/asyncio_pos.cpp")])
prop("L01", "Logging delivers each message once, to every subscriber, in order",
     "Each message is formatted once and delivered, whole and unmixed with others, to the log output and to every callback subscribed at that time, under any concurrency. Subscribing and unsubscribing affect only later messages, indentation scopes nest and restore, and a fatal message ends the program after being written.",
     ["schedules", "histories"], "all subscribe/unsubscribe/log histories up to the bound and every interleaving of two logging threads within the bound",
     "the tests never interleave subscription with logging",
     "rpp/log.h rpp/impl/log.cpp rpp/log_callback.h", [("callback table", "rpp/impl/log.cpp"), ("scope indentation", "rpp/log.h")])
prop("P01", "The profiler records the true nesting and counts",
     "For every properly nested history of frames and zones, the recorded tree has one node per distinct call path with the number of entries made to it, times are non-negative and a parent's total is at least the sum of its children's. Iteration visits exactly the nodes of each live thread's last complete frame, whatever other threads are doing. Ending a frame that was not begun, beginning one twice or ending one inside an open zone stops the program.",
     H, "all nested zone histories up to the bound, with an arbitrary monotonic clock",
     "the tests print a profile without checking it",
     "rpp/profile.h rpp/impl/profile.cpp", [("frame tree", "rpp/impl/profile.cpp Frame_Profile")])
prop("X01", "Reflection describes the type it reflects, completely and in order",
     "For a reflected record the field iteration visits each declared field once, in order, with its true name, type and position, and for a reflected enumeration each declared enumerator maps to its name and value and back. Derived behaviour (default formatting, enum-to-text, visiting) agrees with that description for every value.",
     ["inputs", "programs"], "all enumerator values and field values over representative record and enum declarations; all built-in kinds",
     "tests/reflect.cpp checks a few types",
     "rpp/reflect.h rpp/format.h", [("type lists and literals", "rpp/reflect.h")])

NA = {}
TECH = "solver-based symbolic execution of the compiled library code (LLVM IR, z3), bounded exhaustive"
TECH_T = "solver-based symbolic execution of the compiled code over all bounded interleavings (LLVM IR, z3)"
NOTE = ("Decided for all inputs/histories within the bounds printed in the evidence by symbolic execution of the LLVM IR "
        "compiled from the current sources; every reported violation is replayed natively under ASan. "
        "Trusts clang -O1 IR, the executor in engine/, z3 and the stand-ins for libc/OS calls.")

def main():
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in NA:
            na.append({"property": p["id"], "reason": NA[p["id"]]})
        elif os.path.exists(f"{V}/harness/{p['id']}.cpp"):
            checks.append({
                "property": p["id"],
                "quick_cmd": f"python3 check.py {p['id']} --tier quick",
                "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                "technique": p["tech"] or (TECH_T if "schedules" in p["over"] else TECH),
                "level": p["level"], "level_note": p["note"] or NOTE})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks, "not_applicable": na}
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
    open(f"{V}/MANIFEST.json", "a").write("\n")

main()
