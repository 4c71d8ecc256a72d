import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

POLY="include/obake/polynomials/polynomial.hpp"; SER="include/obake/series.hpp"; PS="include/obake/power_series/power_series.hpp"
p("C01","Parallel polynomial multiplication is exact under every schedule",
 "The product of two polynomials is the exact mathematical product (every term present once, with the exact coefficient, no zero coefficient kept) and a well-formed polynomial, whether the multiplication is done sequentially or split over any number of worker threads. The result does not depend on how the work is split, in which order the pieces run, how many threads there are, or where the threads are preempted.",
 ["schedules","inputs","configurations"],"all operand pairs, worker counts, range splits, task orders and preemption points",
 "The tests run a few products on whatever schedule the machine gives; a lost update, a wrong segment boundary or an ordering assumption shows on rare schedules and segment layouts only.",
 [POLY,SER,"include/obake/polynomials/packed_monomial.hpp","include/obake/polynomials/d_packed_monomial.hpp"],
 [("segmented multi-threaded multiplication by homomorphic hash ranges","polynomial.hpp: poly_mul_impl_mt_hm"),("estimation of the product size and segmentation","polynomial.hpp: poly_mul_estimate_product_size"),("sequential fall-back","polynomial.hpp: poly_mul_impl_simple")],
 ["terms, symbol set and segmentation of the result of operator*"])
p("C02","Truncated multiplication keeps exactly the terms within the limit",
 "A multiplication truncated by total degree or by partial degree over a set of symbols yields exactly those terms of the full product whose degree does not exceed the limit, with their exact coefficients. This holds for sequential and parallel execution, for every schedule, and for every representable limit, including negative ones and ones beyond every term.",
 ["schedules","inputs","configurations"],"all operand pairs, limits, symbol subsets, worker counts, splits and interleavings",
 "Tests compare a few truncated products computed on one schedule; the parallel path sorts terms by degree inside each segment and skips ranges, and that only shows for particular degree distributions, segmentations and orders.",
 [POLY,PS],[("sorting of the terms of each segment by degree and early exit","polynomial.hpp: poly_mul_impl_mt_hm / poly_mul_impl_simple with degree arguments"),("truncated_mul and truncated_p_mul entry points","polynomial.hpp")],
 ["result of obake::truncated_mul"])
p("C03","Concurrent use of shared const objects is race free and sequential-equivalent",
 "Any number of threads may at the same time apply non-modifying operations (arithmetic that produces new objects, comparison, degree, evaluation, substitution, truncation, text output to their own streams, copying, exponentiation) to the same polynomials, power series and symbol sets, and work on their own objects, without a data race. Each thread gets the result it would get alone.",
 ["schedules","programs"],"all combinations of const operations on shared operands by several threads, all interleavings",
 "No test calls the library from more than one thread of its own; hidden shared mutable state (caches, thread-local buffers, lazily computed data) would pass every one of them.",
 [SER,POLY,PS,"include/obake/symbols.hpp","src/symbols.cpp","src/series.cpp","include/obake/polynomials/d_packed_monomial.hpp"],
 [("reference-counted immutable symbol sets","series.hpp: detail::ss_fw"),("thread-local scratch vectors in key merging","d_packed_monomial.hpp: key_merge_symbols"),("mutex around the exponentiation cache","series.hpp: series_pow_from_cache")],
 ["results of each simulated caller thread","vector-clock race detector on every instrumented access"])
p("C04","Cached exponentiation is correct, history independent and linearizable",
 "Raising a polynomial or power series to a natural power yields the same value as repeated multiplication (for power series under the truncation of that base), whatever was exponentiated before, whatever else is exponentiated or cleared from the cache at the same time, and whatever earlier exponentiation failed half-way. Clearing the cache at any moment never invalidates a result already returned nor corrupts one in progress, and bases which differ only in symbols, truncation or coefficient values never share results.",
 ["schedules","histories","fault_sequences"],"all histories of concurrent pow/clear calls over related bases, with allocation or coefficient failures at any point",
 "Tests exercise the cache from one thread with successful calls; stale or partially filled cache entries need failures, concurrent clears or look-alike bases.",
 [SER,"src/series.cpp",PS],[("global cache keyed by type and base, protected by one mutex","series.hpp: series_pow_from_cache; series.cpp: get_series_pow_map, clear_series_pow_map"),("hash and identity of bases, including the truncation tag","series.hpp: hasher/comparer; power_series.hpp: tag")],
 ["results of obake::pow"])
p("C05","Exponentiation and cache clearing always complete",
 "Every call that exponentiates a polynomial or clears the exponentiation cache completes in a bounded number of scheduling steps once faults stop, also when several threads or several parallel tasks exponentiate at the same time and when an exponentiation in another thread fails with an exception. No combination of parallel multiplication and exponentiation deadlocks or leaves the cache locked.",
 ["schedules","fault_sequences"],"all interleavings of pow, clear and parallel multiplication over caller threads and tasks; all worker counts",
 "A deadlock needs a worker to pick up a particular task while it waits inside another; the tests never call pow from tasks or from two threads.",
 [SER,"src/series.cpp",POLY],[("cache mutex held while the missing powers are computed","series.hpp: series_pow_from_cache"),("waiting inside parallel algorithms","polynomial.hpp: tbb::parallel_for / parallel_invoke / parallel_sort")],
 ["progress of simulated threads; blocked-thread report"])
p("C06","Symbol sets are shared, immutable and never freed while in use",
 "At any time every series reports exactly the symbol set it was given or computed, however many threads create, merge, copy, move, swap, load and destroy series with equal or different symbol sets. Equal symbol sets compare equal across threads and the last user releases them: nothing is read after release, released twice or leaked.",
 ["schedules","histories"],"all interleavings of creation, merging, copying and destruction of series over overlapping symbol sets",
 "Reference counts and the shared factory only go wrong when the last release meets a new acquisition; single-threaded tests cannot produce that.",
 [SER,"include/obake/symbols.hpp","src/symbols.cpp","include/obake/detail/fw_utils.hpp"],[("flyweight symbol sets","symbols.hpp / series.hpp: ss_fw"),("custom holder","fw_utils.hpp: fw_holder_class")],["get_symbol_set(), simulated heap"])
p("C07","Process-wide per-type storage is created once, fully built, and destroyed once",
 "For each type there is exactly one process-wide instance, whichever threads ask for it first and however often: every caller gets the same, completely constructed and suitably sized object. If creating it fails for lack of memory the caller gets the exception and a later request succeeds; at process exit each instance is destroyed exactly once and its memory released.",
 ["schedules","fault_sequences"],"all interleavings of first requests for one or several types, from one or several client modules, with allocation failure at every point",
 "The suite only reaches the storage through one thread's first use; construction races, failure in the registry and shutdown are invisible to it.",
 ["src/detail/fw_utils.cpp","include/obake/detail/fw_utils.hpp"],[("registry guarded by a mutex","fw_utils.cpp: fw_fetch_storage"),("function-local static reference","fw_utils.hpp: fw_holder_class::get")],
 ["address and state of the instances, destructor count at exit"])
p("C08","Lock guards over flag arrays give mutual exclusion and always release",
 "A flag array starts with all flags clear at every size, and guards on the same flag exclude each other and publish the writes of earlier holders to later ones, on every interleaving and also when the critical section is left by an exception. Guards on different flags never interfere, a waiting thread gets the flag once the others have left, and a failed creation of the array throws and leaks nothing.",
 ["schedules","inputs","fault_sequences"],"all sizes, lock patterns, interleavings and exits by exception",
 "Neither class has a concurrent test here; a weakened memory order, an aliased index or a missed release passes single-threaded use.",
 ["include/obake/detail/atomic_lock_guard.hpp","include/obake/detail/atomic_flag_array.hpp","src/detail/atomic_flag_array.cpp"],
 [("test-and-set with acquire, clear with release","atomic_lock_guard.hpp"),("placement of flags in a byte buffer and initial clear","atomic_flag_array.cpp")],["protected counters; race detector; simulated progress"])
p("C09","A failed value-producing operation leaves no trace",
 "If memory runs out or a coefficient or key operation throws anywhere inside an operation that produces a new polynomial, power series, symbol set or text (sum, difference, product, power, truncation, substitution, evaluation, copy, construction, conversion), then the same exception type reaches the caller, the operands keep their values, nothing leaks, and the same call made again without the fault gives the right result.",
 ["fault_sequences","inputs"],"every operation on generated operands, a failure injected at every allocation and coefficient-operation site reached",
 "Tests never make an allocation or coefficient operation fail.",
 [SER,POLY,PS,"src/symbols.cpp"],[("clean-up guards and by-value results","series.hpp: series_sym_extender, series_default_addsub/mul; series_rref_clearer")],["operands before/after, simulated heap, caught exception"])
p("C10","A failed in-place operation leaves a usable object",
 "If an operation that modifies or consumes its operands (in-place sum/difference/product, rvalue operands, insertion of terms, assignment, re-segmentation, setting a truncation, loading from an archive) fails with an exception at any point, every object involved is still well formed: it satisfies all structural invariants and can be printed, compared, assigned, used in arithmetic and destroyed (an rvalue operand already moved from can at least be assigned to and destroyed). Operands which the operation takes as const are unchanged, and nothing leaks.",
 ["fault_sequences","histories"],"all operation sequences with failures at every allocation, coefficient and stream site",
 "Tests never fail an operation half-way and then keep using the object.",
 [SER,POLY,PS],[("clear-on-error guards","series.hpp: series_rref_clearer and catch blocks; power_series.hpp: catch blocks"),("strong steps per insertion","series.hpp: series_add_term_table")],["structural invariant checker after each step"])
p("C11","A failure in one parallel task cancels the operation cleanly",
 "If any piece of a parallel operation (multiplication, degree, size, table destruction, overflow check) fails by lack of memory or by a throwing coefficient or key, the caller receives one exception after every task has stopped, the operands are unchanged and nothing leaks or hangs. The next operation on the same operands succeeds with the exact result.",
 ["schedules","fault_sequences"],"all schedules combined with a failure at every site inside the parallel region",
 "Tests never fail inside a parallel task.",
 [POLY,SER],[("tasks write only to their own segments; results are discarded on error","polynomial.hpp: poly_mul_impl_mt_hm"),("try/catch around segment multiplication","polynomial.hpp")],["caller's exception, heap, later results"])
p("C12","Archives round-trip, and torn archives never yield malformed objects",
 "Any symbol set, monomial, polynomial, power series (nested ones included) written to a binary or text archive is loaded back identical, including symbols, segmentation-independent content and truncation, into an object that held anything before. Loading from a binary archive that stops early at any byte, or a load whose stream fails or which runs out of memory at any point, throws and leaves the target object well formed and usable, and a series or symbol set holding what it held before or nothing. A torn text archive never yields a malformed object.",
 ["crash_points","fault_sequences","inputs"],"all objects, archive kinds, cut points and I/O failures",
 "Tests round-trip complete archives only.",
 [SER,PS,"include/obake/s11n.hpp","include/obake/symbols.hpp","src/symbols.cpp","include/obake/polynomials/packed_monomial.hpp","include/obake/polynomials/d_packed_monomial.hpp"],
 [("save/load members","series.hpp: series::save/load (clear on failure)"),("flyweight and tag serialization","power_series.hpp, symbols.hpp")],["loaded objects"])
p("C13","Everything saved before a crash is recoverable",
 "When several objects are saved one after another to one archive and the process stops at any point, each object whose bytes had all reached the medium is loaded back equal to what was saved, in order, and reading the first incomplete one throws (from a text archive, whose last token may be torn unnoticed, it throws or yields a well-formed object). A failed save throws or, with a text archive, leaves the stream in a failed state, and never changes the saved object.",
 ["crash_points","histories"],"all sequences of saves and all crash points in the byte stream, short writes and full disks",
 "No test interrupts a save.",
 [SER,PS,"include/obake/s11n.hpp","src/symbols.cpp"],[("const save members writing through the archive","series.hpp: series::save")],["objects read back from the durable prefix"])
p("C14","Text output is complete or the stream reports failure",
 "Inserting a polynomial, power series or monomial into a stream (plain or TeX) produces the same text every time for the same object and stream state; if the sink accepts only part of it, or the stream is in a failed state, what the sink received is a prefix of that text and the stream's state or an exception says so. The text lists the terms in iteration order, the first 50 of them followed by an ellipsis. Formatting through fmt gives the same text or throws. The printed object is unchanged and printing it again to a healthy stream gives the full text.",
 ["fault_sequences","inputs"],"all objects, sink failures at every byte, exception masks and allocation failures",
 "Tests print to healthy string streams.",
 [SER,PS,"src/tex_stream_insert.cpp","src/cf/cf_stream_insert.cpp","src/polynomials/packed_monomial.cpp","src/polynomials/d_packed_monomial.cpp"],[("term-wise formatting into a buffer and insertion","series.hpp: series_stream_terms_impl"),("coefficient insertion","cf_stream_insert.hpp")],["bytes received by the simulated sink"])
p("C15","Integers are rendered exactly, also 128-bit ones and under failures",
 "Converting any built-in integer, including the signed and unsigned 128-bit ones and the extreme values of each type, to text gives its exact decimal representation, whatever the process's locale, and inserting a 128-bit coefficient into a stream (plainly or in TeX form) behaves like inserting that text (width, fill, adjustment, failed or short sinks). If memory runs out the exception reaches the caller and a retry gives the exact text.",
 ["inputs","fault_sequences"],"all values of all integral types, stream states, sink failures and allocation failures",
 "Tests sample values on healthy streams.",
 ["src/detail/to_string.cpp","src/cf/cf_stream_insert.cpp","include/obake/detail/to_string.hpp"],[("digit loop in a stack buffer","to_string.cpp"),("insertion of the string","cf_stream_insert.cpp")],["returned strings; bytes received by the sink"])
p("C16","Stack traces are safe to request anywhere and obey the switch",
 "A stack trace can be requested at any time from any number of threads while others enable or disable trace generation: each request returns either the fixed disabled notice or a table with one numbered row per frame starting at the caller (or that many frames above it as asked), and nothing but out-of-memory is ever thrown. Once generation is disabled no later request of the same thread produces a trace until it is enabled again, and asking to skip more frames than exist gives an empty text (as may a request during which memory runs out; with the libbacktrace implementation a text which explains the failure or an overflowing number of frames may take its place).",
 ["schedules","fault_sequences","inputs"],"all interleavings of requests and switches, all skip values, allocation failure at every point",
 "Tests request traces from one thread with small skip values.",
 ["include/obake/stack_trace.hpp","src/stack_trace.cpp","src/boost_stack_trace.cpp","src/libbacktrace_stack_trace.cpp"],[("atomic switch","stack_trace.cpp"),("table assembly","boost_stack_trace.cpp and libbacktrace_stack_trace.cpp: stack_trace_impl")],["returned text"])
p("C17","The detected hardware concurrency is usable and stable",
 "The number of hardware threads the library works with is never zero, is a number the platform has reported (one where it could report none), and for each thread stays what that thread first saw, whatever the platform reports later and from however many threads it is asked at once.",
 ["configurations","schedules","histories"],"all sequences of platform answers (including failure and change over time) and all interleavings of first calls",
 "Tests run on one machine with one constant answer.",
 ["src/detail/hc.cpp","include/obake/detail/hc.hpp"],[("thread-local cached value with fall-back to 1","hc.cpp")],["returned values per thread"])
p("C18","Structural invariants of series survive every history of operations",
 "After any sequence of public operations on a series, whatever mix of segmentation changes, copies, moves, arithmetic, insertions, conversions and failures came before, the series has no zero coefficients, no incompatible or duplicate keys, every term in the segment its hash selects, a consistent term count and iteration that visits each term exactly once, and its content equals that of a simple map-based model.",
 ["histories","fault_sequences"],"all sequences of operations with injected failures",
 "Tests check single operations from fresh objects.",
 [SER],[("add_term with segment selection","series.hpp: series_add_term*"),("copy/move/resegmentation","series.hpp: series, set_n_segments"),("term visiting","series.hpp: iterator_impl")],["iteration, find, size, _get_s_table"])
p("C19","Releasing objects always succeeds",
 "Destroying, clearing, swapping and moving series never fails, never ends the process and releases everything they own, also when memory is exhausted at that moment, from inside parallel tasks, from several threads at once and during process shutdown in any order of first use. A cleared or moved-to object is immediately usable again.",
 ["fault_sequences","schedules"],"all object states (segmented or not, nested) released under allocation failure, in tasks, and at exit",
 "Tests release objects in a healthy single-threaded process.",
 [SER,"src/series.cpp","src/detail/fw_utils.cpp",PS],[("noexcept clear/swap/move","series.hpp: clear, swap"),("parallel table destruction","series.hpp: ~series"),("static registries","series.cpp, fw_utils.cpp")],["process end status, simulated heap"])
p("C20","Parallel measurements do not depend on the schedule",
 "The degree, low-level byte size and per-term degree data of a polynomial, total or partial, computed with any number of worker threads, any splitting and any order of reduction equal the sequential values; a degree that is not representable is reported by an overflow error, always and only then. Truncations of a segmented series therefore keep exactly the right terms.",
 ["schedules","inputs"],"all segmented series, splits, reduction orders and interleavings",
 "Reductions that combine in the wrong order or with a wrong identity give right answers on most schedules.",
 [SER,POLY,"include/obake/byte_size.hpp"],[("parallel reductions","series.hpp: byte_size; polynomial.hpp: parallel_reduce"),("per-segment degree vectors","polynomial.hpp: make_degree_vector / make_p_degree_vector")],["returned degrees and sizes"])
p("C21","Exponent overflow in parallel multiplication is always reported",
 "If any exponent (or, for monomials of dynamic size, the total degree) of any product of a term of one operand and a term of the other would not be representable in the monomial type, a multiplication throws an overflow error and changes nothing; if all are representable it succeeds. The outcome is the same for sequential and parallel checking, for every split and order, and whether the offending exponents sit in the first, the last or any other term or symbol.",
 ["inputs","schedules"],"all exponent distributions, series sizes on both sides of the parallel threshold, splits and interleavings",
 "Tests have the extreme exponents in small series on the sequential path.",
 ["include/obake/polynomials/packed_monomial.hpp","include/obake/polynomials/d_packed_monomial.hpp",POLY],[("min/max exponent reduction over both ranges","packed_monomial.hpp, d_packed_monomial.hpp: monomial_range_overflow_check")],["exception or result of operator*"])
p("C22","Power series always respect their truncation",
 "No power series ever holds a term beyond its truncation: after construction, setting or unsetting a (total or partial) truncation, arithmetic, exponentiation, assignment, loading, and after any of these failed half-way, in any number of threads. The result of combining two power series with compatible truncations is the full result truncated to the common limit, and incompatible truncation kinds are refused with an exception and no change to const operands.",
 ["histories","schedules","fault_sequences"],"all sequences of power-series operations with total/partial truncations, concurrent threads and failures",
 "Tests combine few truncations, never with failures or threads.",
 [PS],[("truncation tag as shared flyweight","power_series.hpp: trunc tag"),("set_truncation / set_p_truncation, add/mul/pow overloads","power_series.hpp")],["terms' degrees against get_truncation"])
# --- pure properties
def pure(id,title,stmt,files,mech,why):
    p(id,title,stmt,["inputs"],"all inputs",why,files,mech)
pure("C30","Packed exponents are coded and decoded exactly","Packing any sequence of integers within the documented limits into one machine integer and unpacking it returns the same sequence, values outside the limits are refused, and the sum of two codes decodes to the element-wise sum when that is within limits.",["include/obake/kpack.hpp","src/kpack.cpp"],[("mixed-radix coding","kpack.hpp")],"Finite samples of an input space of 2^32/2^64 codes.")
pure("C31","Safe conversions are exact or refuse","A safe conversion between integral, multiprecision and rational types either produces the mathematically equal value or reports failure without modifying the target (or throws, for the casting form).",["include/obake/math/safe_convert.hpp","include/obake/math/safe_cast.hpp"],[("range checks","safe_convert.hpp")],"All value/type pairs cannot be sampled.")
pure("C32","Symbol set merging and index maps are correct","Merging two symbol sets yields their sorted union and insertion maps that, applied to either set, produce the union; index sets select exactly the intersecting symbols and trimming removes exactly the listed ones.",["src/symbols.cpp","include/obake/symbols.hpp"],[("merge_symbol_sets","symbols.cpp")],"Finite examples.")
pure("C33","Differentiation, integration, substitution and evaluation are correct","Differentiation and integration of polynomials are inverse up to terms free of the symbol, evaluation is a ring homomorphism and agrees with substituting constants, for all polynomials and maps.",[POLY,SER,"include/obake/math/diff.hpp"],[("monomial_diff/integrate/subs","polynomial.hpp")],"Finite examples.")
pure("C34","Polynomial arithmetic satisfies the ring laws","Sum and product of polynomials over exact coefficients are associative, commutative and distributive, with symbol sets merged automatically.",[SER,POLY],[("series_default_addsub/mul","series.hpp")],"Finite examples.")
pure("C35","Monomial hashes are homomorphic and consistent with equality","Equal monomials have equal hashes, and where homomorphic hashing is declared the hash of a product is the sum of the hashes.",["include/obake/polynomials/packed_monomial.hpp","include/obake/polynomials/d_packed_monomial.hpp","include/obake/hash.hpp"],[("hash","packed_monomial.hpp")],"Finite examples.")
pure("C36","Concepts and type traits classify types correctly","Each concept or detection trait is satisfied exactly by the types for which the corresponding customisation point call is valid, and customisations take priority in the documented order.",["include/obake/type_traits.hpp","include/obake/ranges.hpp"],[("detection idiom, priority tags","type_traits.hpp")],"Compile-time quantification over all types.")
pure("C37","The pseudo-random generator produces its reference sequence","From each pair of seeds the generator yields the reference xoroshiro128+ sequence.",["include/obake/detail/xoroshiro128_plus.hpp"],[("next","xoroshiro128_plus.hpp")],"Samples of 2^128 states.")
pure("C38","Overflow-checked integral arithmetic is exact or throws","Checked addition and subtraction of machine integers return the exact result or throw an overflow error.",["include/obake/detail/safe_integral_arith.hpp"],[("safe_int_add/sub","safe_integral_arith.hpp")],"Finite samples.")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    n=x["statement"].count('. ')+1
    if n>3: print(x["id"],n)
print(len(P))
