import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
HS="src/lie/lie_basis/hall_set.rs"; HK="src/lie/lie_basis/hall_key.rs"; DRM="src/lie/lie_basis/degree_range_map.rs"
DV="src/vector/implementation/simple_dense_vector.rs"; SV="src/vector/implementation/simple_sparse_vector.rs"; DI="src/vector/implementation/deref_impl.rs"
VT="src/vector/traits/vector.rs"; EX="src/vector/traits/extension.rs"; AL="src/algebra/mod.rs"; DT="src/free_tensor/implementation/dense.rs"; FT="src/free_tensor/mod.rs"
TB="src/free_tensor/tensor_basis/mod.rs"; TK="src/free_tensor/tensor_basis/tensor_key.rs"; KI="src/free_tensor/tensor_basis/key_iterator.rs"; FF="src/coefficients/floating_point_fields.rs"; CF="src/coefficients/mod.rs"
HOOK="cfg(verif_sim) re-export of the private Lie-basis items (lie::verif_hooks)"
hstate=[("hall-set cache","process-wide map from alphabet width to its shared Hall set",HS),("shared Hall set","growable table of Hall elements behind a reader-writer lock",HS)]
p("C01","Hall-set requests, lookups and growth always complete",
 "Every request for the shared Hall set of an alphabet, and every lookup or growth made through a handle it returned, returns after finitely many steps, whatever other callers are doing to the same or other alphabets at the same time and whether or not the set existed before. No interleaving of callers deadlocks or livelocks.",
 ["schedules","histories"],"all interleavings of any number of caller threads, all orders of first and later requests, all mixes of alphabets and degrees",
 "No test touches the Hall-set cache at all; a deadlock needs a cold cache or a particular interleaving of readers and a waiting writer.",
 [HS,HK,DRM],[("cache look-up then insert","get_hall_set in "+HS),("per-set RwLock","HallSetObject in "+HS)],hstate,["return of get_hall_set and of every HallSet method"],HOOK)
p("C02","All callers of one alphabet share one Hall set",
 "All requests for the Hall set of one alphabet, however they race, hand out the same shared set: growth completed through any handle or request is visible through every other handle of that alphabet from then on. A request that names a degree returns a set covering at least that degree, and nothing done to one alphabet changes another.",
 ["schedules","histories"],"all interleavings of racing first requests, later requests and growth over several alphabets",
 "Sharing is lost only when two first requests race (or when the cached path forgets the requested degree); the suite never requests a Hall set, let alone twice.",
 [HS],[("cache insert","get_hall_set in "+HS),("shared ownership","HallSetObject (Arc) in "+HS)],hstate,["lookups through different handles after a completed growth"],HOOK)
p("C03","Hall-set lookups are linearizable with growth and return the Hall basis",
 "Growth, letter tests, element details, left and right parent details, degree ranges and key-level parent navigation, however they race, behave as if each call happened alone at one instant between call and return: a degree appears whole or not at all and never disappears. Every element found is the right Hall basis element (parents, degree, position), and an error is returned only for elements or degrees beyond the grown part.",
 ["schedules","histories"],"all interleavings of lookups and growth, all alphabets and degrees within memory",
 "Tests only check six entries of one degree table, single-threaded, and never grow or read a Hall set.",
 [HS,HK,DRM],[("growth under the write lock","HallSet for HallSetObject in "+HS),("degree table","DegreeRangeMap in "+DRM),("packed key accessors",HK)],hstate,["results of HallSet lookups and HallKey parents"],HOOK)
p("C04","A failing caller never wedges or corrupts the shared Hall sets",
 "When a caller dies part way through growing an alphabet's Hall set, or its lookup fails, no other caller hangs or gets a wrong answer, at whatever point of whatever interleaving that happens. Other alphabets keep working normally; calls for the affected alphabet either answer correctly or fail visibly (error or panic).",
 ["schedules","fault_sequences","histories"],"all interleavings with growth that is cut short (an allocation fails) and lookups that fail, placed at any point",
 "Needs a panic while a lock is held, then observation by other threads; the suite has neither threads nor panics.",
 [HS,DRM],[("poisoned lock mapped to an error","HallSetObject in "+HS),("growth kept outside the cache lock","get_hall_set in "+HS)],hstate,["results seen by the surviving callers"],HOOK)
p("C05","In-place vector arithmetic is exact, and per-coefficient atomic when cut short",
 "On dense, sparse and wrapped vectors an in-place operation (add, subtract, negate, scale, divide, fused scale-and-add forms, insert, erase, single-key updates, slice writes, resize, swap, clear) that completes leaves exactly the mathematically defined coefficient at every basis key, over any history of such operations; a sparse vector does not go on storing keys whose coefficients cancelled in an addition or subtraction or were multiplied by zero. If it is cut short at any point by a failure of a coefficient operation, of a basis operation, of the stream feeding it or of an allocation, every coefficient is either its old or its new value and the vector keeps working normally.",
 ["histories","fault_sequences","inputs"],"all histories of operations, all coefficient fields and bases, a panic in a coefficient, basis or stream callback, or an allocation failure, at any point of any operation",
 "Tests run three dense operations once each on f32 without any failure; none touches the sparse or wrapped vectors or interrupts an operation.",
 [DV,SV,DI,VT,EX,FF],[("in-place loops",DV+", "+SV),("forwarding of wrapped vectors",DI),("default fused forms",VT),("single-key updates",EX),("floating point fields",FF)],None,["coefficients read back through the public API after every operation"],None)
p("C06","Operands are never altered; interrupted computations can simply be repeated",
 "A vector that an operation only reads (either operand of an operation returning a new vector, or the right-hand operand of an in-place one) keeps all its coefficients, whether the operation completes or is cut short at any point. Operations returning a new vector (copy, negate, add, subtract, scale, divide, product, commutator) return exactly the mathematically defined result, also when repeated after an interruption.",
 ["histories","fault_sequences","inputs"],"all operations returning new vectors, a failure at any callback or allocation inside them, followed by a retry",
 "Tests never compare operands after an operation and never interrupt one.",
 [VT,DV,SV,DI,AL,DT],[("copy then modify",VT),("separate result accumulator","multiply, commutator in "+AL)],None,["all vectors after every operation"],None)
p("C07","Tensor products count every pair of terms exactly once",
 "A tensor product truncated at a degree, whether new, added to or subtracted from an accumulator, in place, scaled or divided, or inside a commutator, contributes the product of every left term and right term whose combined degree is within the bound exactly once, at the concatenated word, and nothing else. If an accumulation is cut short at any point, each such contribution has been made at most once and nothing else in the accumulator has changed.",
 ["inputs","fault_sequences","histories"],"all alphabets, degrees, vector lengths and coefficients, a failure of a coefficient operation at any point of a product",
 "One test multiplies two single letters; no test reaches degree three, unequal or partial degrees, in-place or scaled products, or an interruption.",
 [DT,AL,TB],[("degree-by-degree kernel","multiply_and_add_into_impl and multiply_into_impl in "+DT),("derived forms",AL),("degree offsets",TB)],None,["coefficients of the accumulator by word"],None)
p("C08","Tensor exponential and logarithm survive interruption and retry",
 "For tensors truncated at a maximal degree, the exponential (of an argument without constant term), the fused multiply-by-exponential and the logarithm (the last two taking the argument without its constant term) equal their power series truncated at that degree, up to rounding where coefficients round. This stays true when calls are cut short by failures at any point and repeated, and their arguments are never altered.",
 ["inputs","fault_sequences","histories"],"all tensors over all alphabets and maximal degrees, failures at any callback inside the computation, then retry",
 "No test calls exp, fmexp or log.",
 [FT,AL,DT],[("Horner loops","exp, fmexp, log in "+FT),("in-place scaled product",DT)],None,["coefficients of the result by word"],None)
p("C09","Every coefficient is released exactly once and never used after that",
 "Every coefficient object handed to or created by vectors is released exactly once by the time the vectors holding it are gone, and no operation reads, copies or releases a coefficient that is not alive. This holds also when operations, constructions from streams or products are cut short at any point.",
 ["histories","fault_sequences"],"all histories of vector and tensor operations with a failure at any callback or allocation",
 "Tests use f32/f64, which need no release, and never interrupt; a double release or leak cannot show.",
 [DV,SV,DI,DT],[("unchecked writes on construction",DV),("clear, resize, swap",DV),("raw output cursor of the product kernel",DT)],None,["life cycle of instrumented coefficient objects"],None)
p("C10","Building or filling a vector from a stream uses exactly what was delivered",
 "Building a vector from a stream of key-coefficient pairs yields, at every key, the sum of the coefficients delivered for it before the stream first ended, whatever the order, repetitions, length hints (short of exhausting memory) or later behaviour of the stream; filling an existing vector stores the last coefficient delivered for each key and leaves other keys alone. If the stream dies part way, building yields no vector and an existing vector holds, at each key, its old value or one that was delivered.",
 ["inputs","fault_sequences"],"all streams: any order, repetition, early end, resumption after end, wrong length hint, failure at any element",
 "Tests feed three well-behaved vectors of at most five pairs to one vector type.",
 [DV,SV,DI],[("from_iterator",DV+", "+SV),("insert",DV+", "+SV)],None,["coefficients of the built vector"],None)
p("C11","Rendering to a writer is complete or reports failure",
 "Rendering a dense vector writes each stored coefficient followed by its basis key, in basis order, and rendering a key writes its letters. Whenever the writer (or a coefficient's own rendering) fails, at any byte, rendering stops there and reports the failure, what was written is a prefix of the full text, and rendering the same value again to a working writer gives the full text.",
 ["fault_sequences","inputs"],"all vectors and keys, writers failing or accepting only part at any byte",
 "No test renders anything.",
 [DV,TK,KI],[("Display of dense vectors",DV),("Display and Debug of keys",TK),("key enumeration",KI)],None,["bytes received by the writer and the returned result"],None)
p("C12","Concurrent callers sharing vectors get the sequential results",
 "Threads that concurrently read, copy, combine, multiply, render or enumerate shared vectors and bases, each writing only to vectors of its own, obtain exactly what they would obtain running alone, in every interleaving, for any mix of alphabets and coefficient types. No operation has hidden state shared between callers.",
 ["schedules","histories"],"all interleavings (down to single memory accesses) of several threads working on shared read-only operands",
 "The suite is single-threaded, one process per test.",
 [DV,SV,DT,TB,TK,KI,DI],[("no interior mutability or globals in vectors and tensor bases",DV+", "+TB)],None,["result of every operation of every thread"],None)
p("C13","No safe call reads or writes outside its vectors",
 "Through the safe public API no operation reads or writes memory outside live vectors or aborts the process, even when caller-supplied bases, vectors, coefficient types or streams answer inconsistently or fail, and for vectors of any length (short of exhausting memory). A call that cannot be served may panic, nothing worse.",
 ["inputs","fault_sequences","histories"],"all safe caller-supplied implementations, including ones that answer inconsistently from call to call; vectors of any length",
 "Tests use consistent bases only, and an out-of-bounds access need not change a test's outcome.",
 [DV,DT],[("unchecked indexing on construction",DV),("unchecked degree slices and raw output cursor",DT)],None,["every memory access made by library code (instrumented build)"],None)
p("C14","Sparse results do not depend on the per-process hash seed",
 "The same history of sparse-vector operations gives the same coefficients, the same comparisons and the same set of stored keys under every random hash seed and every hash function the key type may use. Iterating visits every stored coefficient exactly once.",
 ["configurations","histories"],"all hash seeds and key hash quality (including total collision), all histories",
 "No test exercises the sparse vector, and the seed differs on every run, so a failure would be unrepeatable.",
 [SV],[("hash map iteration in in-place operations and equality",SV)],None,["coefficients, equality and iteration of sparse vectors"],None)
# not applicable: pure functions
na="A pure function of its input: "
p("N01","Basis keys, indices and enumeration are mutually inverse",
 "Converting a tensor key to its index and back (and vice versa) is the identity, enumeration yields keys in index order without gaps or repeats, and degree ranges tile the index space.",
 ["inputs"],"all alphabets, keys and indices up to the maximal depth","Tests sample 40 indices of the three-letter alphabet.",[TB,TK,KI],[("index arithmetic",TB),("bit packing",TK)])
p("N02","Tensor keys represent words faithfully",
 "Building, extending, concatenating and decomposing keys agrees with the same operations on words for every word up to the maximal depth, and words beyond it are rejected.",
 ["inputs"],"all alphabets and words","Tests sample a few short words.",[TK],[("bit packing",TK)])
p("N03","Key comparison is a total order consistent with indices",
 "Comparing two keys gives the order of their indices; equal only for equal keys.",["inputs"],"all pairs of keys","Tests sample three pairs.",[TB],[("compare",TB)])
p("N04","Hall basis dimensions follow the necklace formula",
 "The number of Hall elements of each degree is the necklace polynomial of the alphabet width, for every width and degree that fits.",["inputs"],"all widths and degrees","Tests check width 5 up to degree 5.",[DRM],[("Moebius sum",DRM)])
p("N05","Floating-point coefficient fields follow the field operations",
 "Each operation of the f32 and f64 fields equals the IEEE operation, in-place and returning forms agree, and the constants are 0, 1 and -1.",["inputs"],"all pairs of floats","No test.",[FF,CF],[("CoefficientField for f32/f64",FF)])
p("N06","Vector equality and degree agree with the coefficients",
 "The degree of a vector is that of its last stored coordinate, and equal vectors have equal coefficients.",["inputs"],"all vectors","Not tested.",[DV,SV],[("PartialEq, VectorWithDegree",DV)])
open('/verif/properties.jsonl','w').write("\n".join(json.dumps(x) for x in P)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
