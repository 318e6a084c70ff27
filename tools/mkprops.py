import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
V="src/vector.rs"; M="src/matrix/mod.rs"; A="src/matrix/arith.rs"; I="src/matrix/iter.rs"; O="src/matrix/ops.rs"

p("C01","Every element is dropped exactly once, wherever caller code panics",
"For every vector and matrix operation, every element value that enters a vector or matrix or is produced for one is eventually dropped exactly once, is never read or dropped after it was moved out or dropped, and is never duplicated except by its own clone. This holds when the operation completes, when any caller-supplied code it runs (element arithmetic, comparison, clone, conversion, closure, source iterator) panics at any call, and when a consuming iterator is abandoned half-way; the one relaxation is that when the panicking code is itself a destructor, values may be leaked, but still never dropped twice or used again.",
["programs","crash_points","fault_sequences"],"all operations x all lengths/dimensions U0..U32 x every point at which caller-supplied code runs (the crash points) x every point at which an owning iterator is dropped",
"Every unit test uses Copy or never-failing elements and runs to completion, so no test drops a half-consumed iterator, panics inside a callback, or counts drops; the unsafe moves in collect and owned iteration are only sampled on the success path.",
[V,M,A,I,O],[("uninitialised array filled in order, wrapped in NoDrop","src/vector.rs FromIterator::from_iter"),("NoDrop plus [next,back) window","src/vector.rs IntoIter next/next_back/nth/drop")],
[("IntoIter.next/back","the window of elements the iterator still owns","src/vector.rs struct IntoIter")],["element Drop/Clone/operator implementations supplied by the caller"])

p("C02","Collecting takes exactly the first N items or fails cleanly",
"Collecting an iterator into a Vector of length N returns normally only if the source produced at least N items, and then holds exactly the first N in order. A source that ends early makes the collection panic, after everything already received has been released; the source is polled at most N+1 times and never again after it has reported its end, so an unbounded source terminates, and a surplus item makes builds with debug assertions panic while other builds keep the first N. No claim the source makes about its length (its size hint) is trusted, and a panic in the source releases everything already received.",
["inputs","fault_sequences","configurations"],"all N in U0..U32 x every source behaviour: early end, surplus, unbounded, lying size hint, items again after end, panic at any poll x debug/release builds",
"No test collects from a source whose length differs from N, that panics, that is unbounded or whose size_hint is wrong; all callers in the tests are well-behaved ranges and maps.",
[V],[("exactly-N loop with early-end cleanup and debug assertion on surplus","src/vector.rs FromIterator::from_iter")],None,["items polled from the source, drops of received items, returned contents"])

p("C03","Owned iteration hands out each element once, from either end",
"Whatever sequence of front and back requests (next, next_back, nth, nth_back and everything built on them), length queries, hand-overs and abandonment a caller issues, a vector's consuming iterator and its chunk iterator deliver each remaining element (or chunk, with elements in original order) exactly once, front requests in order and back requests in reverse order. len, size_hint and count always equal the number of items still to come, asking beyond the end yields None and exhausts the iterator, and an exhausted iterator keeps answering None from both ends. A panicking element destructor while elements are skipped leaves an iterator that still owns only undelivered elements and reports their number.",
["histories","fault_sequences"],"all finite histories of front/back requests of any size x all lengths U0..U32 and all chunk sizes dividing them x abandonment and destructor panics at any point",
"One test calls nth(1) and one full rev(); none mixes both ends until they meet, oversteps the end, queries lengths in between, or drops the iterator early.",
[V],[("[next,back) window","src/vector.rs IntoIter"),("take(I) from either end, re-reversed","src/vector.rs Chunks")],
[("IntoIter.next/back","window of undelivered elements","src/vector.rs struct IntoIter")],["returned items, len/size_hint/count"])

p("C04","Matrix row/column iterators deliver each line once, from either end",
"Whatever sequence of front and back requests, length queries and overstepping requests a caller issues, the row and column iterators of a matrix (by value, by reference, and the element iterator inside a by-reference column) deliver each row, column or element exactly once, with the matrix's contents, front requests in order and back requests in reverse order. len, size_hint and count always equal the number of items still to come, asking beyond the end (by any amount) yields None and exhausts the iterator, and no request sequence panics by itself. If cloning an element panics inside a request, at most the requested line is lost, the matrix is unchanged and the iterator remains usable and consistent.",
["histories","fault_sequences"],"all finite histories of front/back requests of any size x all row/column dimensions x clone panics at any point",
"Tests walk each iterator fully forward or fully reversed on one 2x3 matrix; none mixes ends, asks past the end, or queries len after a back request.",
[I,M],[("front/back cursor pair","src/matrix/iter.rs RowsIter, ColsIter, RowsIterRef, ColsIterRef, ColsIterRefInner")],
[("front/back","window of undelivered rows/columns/elements","src/matrix/iter.rs")],["returned items, len/size_hint/count"])

p("C05","Formatting survives a failing sink: exact prefix, then stop",
"Formatting a vector or matrix (Debug, alternate Debug, and Display for matrices) of any dimension, including empty ones, never panics by itself, and returns Ok exactly when the sink accepted the complete rendering. When the sink or an element's own formatting reports an error, at any point and even if it would succeed later, formatting returns that error at once and writes nothing more, so what the sink holds is an exact prefix of the complete rendering. The complete rendering lists all elements in row-major order, in Debug with the caller's format options applied to each; Display pads every column to its widest cell, centring multi-line or wide cells by their displayed width, inside one pair of tall brackets.",
["fault_sequences","inputs"],"every position at which the sink can fail (by call or by accepted byte, permanently or transiently) x all dimensions x cell texts of any width, line count and script",
"Tests format two small matrices into a String, which never fails; empty matrices, wide characters and failing sinks are never tried.",
[M,V],[("try! on every write","src/matrix/mod.rs Display/Debug for Matrix"),("debug_list","src/vector.rs Debug for Vector")],None,["fmt::Write sink"])

p("C06","Interrupted in-place updates never tear or corrupt a value",
"A vector or matrix changed in place through any history of assignments, element writes and failed operations always reads back, at every index and by every access path, the value last stored there. If caller code panics inside an element-wise in-place operation (adding, subtracting, scaling, dividing, clamping), every element afterwards holds either its old or its new value; if it panics inside in-place transposition or matrix-product assignment, the whole matrix is either entirely old or entirely new. An out-of-range index panics and changes nothing.",
["histories","crash_points"],"all histories of in-place operations and accesses x every callback at which one can be interrupted x all dimensions",
"Tests run single in-place operations to completion on small Copy matrices; none interrupts one, continues with the value afterwards, or tries an out-of-range index.",
[V,M,A],[("element-wise loops over iter_mut","src/vector.rs, src/matrix/arith.rs *Assign; clamp"),("compute, then replace whole value","src/matrix/mod.rs transpose; src/matrix/arith.rs MulAssign<Matrix>"),("bounds-checked nested indexing","src/matrix/mod.rs Index/IndexMut")],None,["reads through index, static index, iter, as_slice, deref after every step"])

p("C07","Caller callbacks run exactly once per position, in row-major order",
"generate and map call the caller's function exactly once for every position, with that position's own index (and, for map, that position's own element), in row-major order, and place each result at its position. all and any visit positions in the same order with the matching element, at most once each, stop at the first decisive answer and return the correct verdict. If the function panics at some position, exactly the positions up to and including it have been called and none after. The same holds for the element expressions written in vector! and matrix!: each is evaluated once, in the order written, and lands at its place.",
["inputs","crash_points","histories"],"all dimensions x all stateful functions (their answers chosen freely per call) x a panic at every call",
"Tests pass pure closures (and literals to the macros) whose results do not depend on call order or count and never fail, so a skipped, repeated or reordered call is invisible.",
[V,M,"src/macros.rs"],[("(0..N).map(f).collect()","src/vector.rs generate; src/matrix/mod.rs generate, map, all, any"),("each expression written once in an array expression","src/macros.rs")],None,["arguments and order of the caller's callback invocations"])

p("C08","A failed operation leaves borrowed operands intact and can be retried",
"If caller-supplied element code panics during any arithmetic, construction, conversion, reduction, determinant, cofactor, inverse or power operation, every operand that was only borrowed still holds exactly its previous contents. Repeating the operation once the failures have stopped succeeds and returns exactly the result the operation defines over the element type's own arithmetic (exact over any exact field), no matter how many failed attempts preceded it; in particular inverse returns Some exactly for invertible matrices.",
["fault_sequences","inputs","crash_points"],"all operations x all dimensions x element values of an exact field x any number of failed attempts interrupted at any callback",
"Tests compute each operation once, on one or two fixed small matrices, without failures; no operand is inspected after an interrupted operation.",
[V,M,A,O],[("operators on references iterate without mutation","src/vector.rs impl_vector_arith, src/matrix/arith.rs"),("working copies","src/matrix/ops.rs determinant, inverse")],None,["operand contents after each attempt; returned value"])

p("C09","Concurrent callers do not affect one another",
"Vectors, matrices and their iterators can be shared by reference between threads, and handed from thread to thread, exactly when their elements can. Operations running concurrently on shared or separate values each return exactly what they would return running alone, and shared values stay unchanged, under every interleaving of the threads, down to single memory accesses. A panic in one thread's operation does not affect any other thread's results.",
["schedules","fault_sequences"],"all interleavings of 2-4 caller threads (element callbacks, and single loads and stores) x operation scripts x a panic in any thread at any callback",
"All tests are single-threaded.",
[V,M,A,I,O],[("no shared or global mutable state; plain owned arrays","src/vector.rs struct Vector, src/matrix/mod.rs struct Matrix")],None,["results returned to each thread; Send/Sync of the public types"])

p("C10","Vectors and matrices never need the heap",
"Values live in place: constructing, copying, iterating, indexing, comparing, reducing, transforming, multiplying, inverting and Debug-formatting vectors and matrices whose elements do not allocate performs no heap allocation, so all of these work while the allocator refuses every request. Only Display formatting of matrices may allocate.",
["fault_sequences","inputs"],"all operations except Display x all dimensions x allocation failing from any point on",
"The test process always has a working allocator and never observes allocation.",
[V,M,A,I,O],[("fixed-size arrays as storage","src/vector.rs ArrayLen::Array"),("iterators borrow or own the array in place","src/vector.rs IntoIter, src/matrix/iter.rs")],None,["global allocator"])

p("C11","Lying element code cannot hang or corrupt an operation",
"If the caller's comparison, equality, zero test, clone or comparator answers inconsistently or at random, every operation still terminates after a number of calls bounded by the dimensions, never panics on its own account except by returning control through the caller's own panic, and keeps elements correctly owned. Selection operations (max, min, max_by, min_by, clamp, clamped) still return only values that are among the given elements or bounds, and all other contents keep their positions.",
["fault_sequences","inputs"],"all comparison/equality/zero-test/clone answer sequences x all operations that consult them x all dimensions",
"Tests only use integers and floats with lawful implementations.",
[V,M,O],[("single pass over elements","src/vector.rs max_by, clamp; src/matrix/mod.rs max_by, clamp"),("bounded elimination loops","src/matrix/ops.rs determinant, inverse")],None,["number of callbacks, returned values, element drops"])

p("C12","Equality, approximate equality and zero tests follow the elements' answers",
"Two vectors or matrices are equal, approximately equal (with the caller's tolerances passed on unchanged, or the element type's own defaults) or zero exactly when every element, compared with the element at the same position, says so - whatever the elements' answers are and even when they contradict each other. An element is only ever compared with the one at the same position. A comparison that panics inside an element leaves both operands intact, and repeating it gives the verdict the elements give then.",
["inputs","fault_sequences","crash_points"],"all answer sequences of the elements x tolerances x all dimensions x a panic at every element comparison",
"Tests compare a few lawful values on which almost any pairing gives the same verdict; a swapped position, dropped tolerance or skipped element is invisible.",
[V,M],[("slice equality; zipped row comparison","src/vector.rs PartialEq, ApproxEq, Zero; src/matrix/mod.rs PartialEq, ApproxEq, Zero")],None,["pairs of elements compared and tolerances they were asked about; verdict"])

# not applicable (pure functions / compile-time facts)
p("C20","Float determinant, inverse, norm and normalized are numerically accurate",
"For well-conditioned floating-point input, determinant, cofactor, inverse, norm and normalized agree with the exact mathematical value to within a small relative error.",
["inputs"],"all float matrices/vectors of every dimension","Tests check a handful of fixed matrices.",
[O,V],[("closed forms up to 3x3, elimination above","src/matrix/ops.rs")])
p("C22","Dimension errors are rejected at compile time",
"Programs that combine incompatible dimensions, statically index out of bounds, ask for the determinant of a non-square matrix or the maximum of an empty vector are rejected by the compiler, and valid ones are accepted.",
["programs"],"all client programs","Tests contain only programs that compile.",
[V,M,A,O],[("type-level lengths","src/vector.rs ArrayLen, src/util.rs Min")])
p("C23","The vector! and matrix! macros count their elements correctly",
"vector![...] and matrix![...] expand to a value whose static dimensions equal the number of elements, rows and columns written.",
["programs"],"all macro invocations","Tests try up to three elements.",
["src/macros.rs"],[("recursive type-level counting","src/macros.rs")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import re
for x in P:
    assert len(x["title"])<=80,x["id"]
    print(x["id"],len(re.findall(r"[.](?:\s|$)",x["statement"])))
