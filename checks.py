"""Which workloads decide which property."""
CHECKS = {
    "C01": dict(
        sources=["mul.cpp"], workloads=[("mul0", 3), ("mul1", 2), ("mul2", 2), ("mul3", 1)],
        probes=["segmented_result", "parallel_sort", "worker_tasks", "mixed_product"],
        rule="Random operand pairs over seven polynomial types and three pairs of types with different coefficients, random segmentation (through the coefficient's reported size), worker count, range splitting and schedule; non-trivial means a product was computed by the segmented parallel path."),
    "C02": dict(
        sources=["tmul.cpp"], workloads=[("tmul0", 1), ("tmul1", 1), ("tmul2", 1), ("tmul3", 1), ("tmul4", 1)],
        probes=["segmented_total", "segmented_partial", "strict_part_kept", "negative_limit", "mixed_product"],
        rule="Random operand pairs over eight polynomial types and three pairs of types with different coefficients, limits below, inside, on and beyond the degree span (negative ones too), total and partial degree over drawn symbol sets (unknown symbols and the empty set too), with random segmentation, worker count, splitting and schedule; non-trivial means the segmented parallel path cut something."),
    "C09": dict(
        sources=["val.cpp"], workloads=[("val%d" % i, 1) for i in range(10)],
        probes=["faulted", "fault_absorbed", "f*g", "pow", "subs", "copy", "conversion", "truncated_mul", "stream", "evaluate"],
        rule="Random sequences of 37 kinds of value-producing operations over nine series types; the sites an operation passes are counted in a clean run, then one of them (or random ones) fails: allocation, coefficient operation or key operation, also in threads which never computed before; then the operation is repeated. Non-trivial means a fault fired."),
    "C10": dict(
        sources=["inp.cpp"], workloads=[("inp%d" % i, 1) for i in range(9)],
        probes=["faulted", "moved_from_operand_reused", "fault_absorbed", "f+=g", "f*=g", "f=g", "add_term", "load", "truncate", "filter"],
        rule="Random sequences of 49 kinds of modifying and consuming operations over nine series types, each with a failure at a drawn site (allocation, coefficient, key); afterwards the objects are checked and used in full. Non-trivial means a fault fired."),
    "C03": dict(
        sources=["shr.cpp"], workloads=[("shr%d" % i, 1) for i in range(6)],
        probes=["f*g", "pow", "truncated_mul", "stream", "load", "copy"],
        rule="Two to four threads apply random sequences of value-producing operations to the same two constant objects and modifying operations to copies of their own (cache cleared or not, references computed before or afterwards so that first uses may coincide; one run in four with failing allocations). Every run is non-trivial: at least two threads share the objects."),
    "C07": dict(
        sources=["fw.cpp"], workloads=[("fw", 2), ("fwraw", 1), ("fwfail", 1)], quick=30,
        probes=["creation_failed", "static_init_contended", "failing_constructor"],
        rule="One to four threads of up to three simulated shared libraries (each with its own copy of the accessor and its static, in part also with type_info objects of its own for the same types) request up to 24 types of different sizes and alignments, any allocation and any construction may fail; in some runs types whose constructors throw (an abort is accepted there by design, an object half built never); then process exit. Non-trivial means at least two threads."),
    "C08": dict(
        sources=["flags.cpp"], workloads=[("flags", 3), ("spin", 1)], quick=30,
        probes=["left_by_exception", "failed_creation", "stalled_holder"],
        rule="Arrays of 1 to 65 537 flags in dirty memory, up to four threads taking nested and single guards around plain data, sections left by exceptions, holders stalled inside for up to half a million steps, failing creations; non-trivial means at least two competing threads."),
    "C15": dict(
        sources=["tostr.cpp"], workloads=[("tostr", 1)], quick=30,
        probes=["concurrent", "rendering_out_of_memory", "insertion_out_of_memory", "short_output", "most_negative_value", "grouping_locale", "tex_form"],
        rule="Border-biased values of all built-in integer types against a long-subtraction reference, also under a global locale which groups digits; stream formatting state, plain and TeX insertion, short/failing/throwing sinks and failing allocations; concurrent renderers. Non-trivial means a fault fired or several threads rendered at once."),
    "C17": dict(
        sources=["hc.cpp"], workloads=[("hc", 1)], quick=20,
        probes=[],
        rule="One to five threads ask repeatedly while the platform's answer follows a drawn script (zero included); non-trivial means at least two threads."),
    "C16": dict(
        sources=["strace.cpp"], workloads=[("strace0", 2), ("strace1", 1)], quick=30, opt=["-O0"], lib_opt=["-O2"],
        probes=["tables", "all_skipped", "notices", "out_of_memory", "two_digit_rows", "deep_trace", "decorated_exceptions", "explained_failure"],
        rule="Both implementations (Boost.Stacktrace and libbacktrace): requests at call depths 0 to 240 with drawn numbers of skipped frames, one to four threads, the switch off, on or toggled meanwhile, failing allocations and symbol look-ups; every table is compared with an independent walk of the stack (and the locations libbacktrace gave). Non-trivial means several threads, a toggled switch or a fault."),
    "C18": dict(
        sources=["hist.cpp:0,1,2,3"], workloads=[("hist%d" % i, 1) for i in range(4)],
        probes=["threads", "failed_step", "refused", "mixed_done", "moved_from"] + ["f=g+h", "f*=g", "add_term", "set_n_segments", "conversion", "mixed f+g", "mixed f+=g", "filter", "trim", "load", "pow"],
        rule="Histories of 2 to 13 steps out of 33 kinds of operations on three polynomials and two with a narrower coefficient (whose conversion may give zero), single-threaded or two to three threads with constant objects in common; every object is compared with a map-based model after every step; half of the histories with failing allocations or coefficient operations, after which the objects are checked and re-read."),
    "C22": dict(
        sources=["hist.cpp:4,5,6,7"], workloads=[("psh%d" % i, 1) for i in range(4)],
        probes=["threads", "failed_step", "refused", "mixed_done", "moved_from"] + ["truncate", "unset_truncation", "make", "pow", "subs", "diff", "f=g*h", "f+=g", "load"],
        rule="Histories of 2 to 13 steps out of 33 kinds of operations on three power series and two with a narrower coefficient, with total and partial truncations (negative limits, unknown symbols), single-threaded or two to three threads with constant objects in common; content and truncation of every object are compared with a model after every step; half of the histories with failing allocations or coefficient operations."),
    "C04": dict(
        sources=["pow.cpp"], workloads=[("pow%d" % i, 1) for i in range(5)],
        probes=["cleared", "tasks_with_pow", "failed_call", "mutex_contended", "user_task_failed"],
        rule="Two to six related bases (equal, other coefficients, other symbols, other truncation, one sign changed) raised to powers 0 to 4 by up to four threads, directly and from parallel loops one of whose tasks may throw, with concurrent clearing of the cache and failing allocations or coefficient operations; every result is compared with model multiplication, and every power again at the end. Non-trivial means several user threads."),
    "C05": dict(
        sources=["pow.cpp:0,1,2,3"], workloads=[("powl%d" % i, 1) for i in range(4)],
        probes=["cleared", "tasks_with_pow", "failed_call", "mutex_contended", "user_task_failed", "worker_tasks"],
        rule="As for C04, with up to eight workers, strongly segmented products and mostly exponentiation inside parallel loops, so that threads which wait inside the locked cache meet tasks which exponentiate; a blocked cycle, a lock never released or more than the bounded number of steps is a violation. Non-trivial means several user threads."),
    "C20": dict(
        sources=["meas.cpp"], workloads=[("meas%d" % i, 1) for i in range(6)],
        probes=["several_callers", "sized", "segmented_product", "nested_product", "degree_overflow", "nested_degree_overflow"],
        rule="Random polynomials over seven types with up to 64 segments (exponents all negative, mixed or not negative; polynomial coefficients whose degrees count), measured by one to three threads at once while the splitting, stealing and worker count are drawn; degrees and sizes are compared with a sequential computation over the terms, also after truncations and multiplications, and next to the largest and smallest degrees which can be represented. Non-trivial means a segmented object."),
    "C21": dict(
        sources=["ovf.cpp"], workloads=[("ovf%d" % i, 1) for i in range(5)],
        probes=["parallel_check", "large_product", "overflow", "representable", "degree_limit", "segmented_product", "truncated"],
        rule="Ranges and operands of twelve monomial types whose extreme exponents (or degrees) add up to a limit minus 2 to plus 2, in the first, last or any term and symbol, or only a limit on the degree is in reach; sizes on both sides of the parallel threshold on either side; the outcome is compared with 128-bit arithmetic and the product with a model. Non-trivial means the parallel check or a multiplication."),
    "C11": dict(
        sources=["par.cpp"], workloads=[("par%d" % i, 1) for i in range(7)],
        probes=["failed", "failed_in_parallel", "one_caller_failed", "product", "product truncated by degree", "product truncated by partial degree", "overflow check", "tasks_cancelled", "task_allocation_failed"],
        rule="Parallel products, truncated products, sizes and overflow checks over seven types; the sites an operation passes are counted in a clean run, then an allocation (the task scheduler's own included), coefficient or key operation fails, once or repeatedly, one kind or several; afterwards nothing may run on (the operands are destroyed at once in some runs), the operands are compared and the operation is repeated; also several callers at once. Non-trivial means a failure inside a segmented operation."),
    "C19": dict(
        sources=["rel.cpp"], workloads=[("rel%d" % i, 1) for i in range(6)],
        probes=["destructor", "clear()", "clear_terms()", "move construction", "move assignment", "swap()", "swap", "clear_series_pow_map()", "destruction in tasks", "cancelled_tasks", "used_again", "released_by_threads", "cache_left_behind", "thread_local_objects", "task_allocation_failed"],
        rule="Histories of destruction, clearing, moves and swaps of polynomials, power series and polynomials with polynomial coefficients (segmented or not) while every (or most) allocations fail, the task scheduler's included, directly, in parallel tasks one of which may throw, from several threads, and at process exit with static, thread-local and cached objects first used in a drawn order; contents are compared with what each object must hold. Every run is non-trivial."),
    "C06": dict(
        sources=["ssets.cpp"], workloads=[("ss%d" % i, 1) for i in range(5)],
        probes=["failed_step", "construction", "copy assignment", "move assignment", "swap", "clear", "sum", "add_symbols", "trim", "load", "exchange with another thread", "destruction", "conversion", "truncate"],
        rule="One to four threads apply random sequences of 18 kinds of operations to flyweights, polynomials and power series of their own over nine symbol sets (few, so that sets are released and acquired again all the time), to constant objects in common and to objects exchanged between threads; in one run of four allocations fail. Every object within reach is compared with the names it must report after every step, and all blocks must be released at the end. Non-trivial means several threads."),
    "C12": dict(
        sources=["ser.cpp:0,1,2,3,4,5,6"], workloads=[("ser%d" % i, 1) for i in range(7)],
        probes=["round trip", "torn archive", "torn near the end", "failing stream", "stream that ends early", "out of memory", "coefficient failure", "threads", "failed", "torn_text_accepted"],
        rule="Random symbol sets, monomials, polynomials, power series and series with polynomial coefficients (segmented, truncated, extreme exponents) written to binary or text archives and loaded, in pieces of drawn size, into objects which held something; the archive is cut at any byte, the stream fails or ends, an allocation or coefficient operation fails at a drawn site; afterwards the target is checked, used and loaded once more. Non-trivial means a fault, or several threads."),
    "C13": dict(
        sources=["ser.cpp:7,8"], workloads=[("log0", 1), ("log1", 1)],
        probes=["crash", "full disk", "failing write", "short write", "out of memory", "crash with a write buffer", "failed", "torn_object", "recovered"],
        rule="One to six objects of seven kinds, some changed and saved again, are written to one archive (binary or text, with or without a write buffer) until a crash, a full disk, a failing or short write or a failing allocation; then the durable prefix (cut at any byte, often at the end of an object or next to it) is read back. Non-trivial means that not everything is durable."),
    "C14": dict(
        sources=["out.cpp"], workloads=[("out%d" % i, 1) for i in range(7)],
        probes=["stream insertion", "TeX form", "coefficient form", "TeX coefficient form", "fmt", "short_output", "more_than_50_terms", "coefficient_failed", "out_of_memory", "write_failed", "fmt_failed", "threads"],
        rule="Random polynomials, power series, series with series as coefficients and monomials printed in five forms with drawn stream flags, widths and exception masks to sinks that are full at any byte, fail, take a part or throw, to streams in a failed state, with failing allocations or coefficients (with an exception, or only a failed stream), in threads which never printed before, and by several threads; the text is compared with an independent formatter. Non-trivial means a fault or several threads."),
}
