"""The table of checks: which monitor, built how, run where."""

import os

CPUS = ("x86-64", "nehalem", "haswell")
# CPUs between those, which select other combinations of the implementations: SSE3, SSSE3, SSE4.1, AVX
BETWEEN = ("nocona", "core2", "penryn", "sandybridge")

# How a monitor is built and run.
MODES = {
    # unoptimised, debug assertions and overflow checks on: the library's own assertions are monitors
    "dbg": dict(flags=["-C", "opt-level=0", "-C", "debug-assertions=on", "-C", "overflow-checks=on"]),
    # assertions off, under AddressSanitizer
    "asan": dict(flags=["-C", "opt-level=1", "-C", "lto=off", "-Zsanitizer=address"]),
    # what users ship, with tracing feature
    "trace": dict(flags=["-C", "opt-level=3", "-C", "lto=off"], features=["trace"],
                  env={"nehalem": {"FASTER_DEBUG_FILE": "named-trace.txt"}}),
    # data races; ThreadSanitizer only understands vectors of 128 bits
    "tsan": dict(flags=["-C", "opt-level=1", "-C", "lto=off", "-Zsanitizer=thread"], wrap=["setarch", "x86_64", "-R"], slow=2),
    # under memcheck, which sees uninitialised memory and addresses no build-time instrumentation sees
    "mc": dict(flags=["-C", "opt-level=1", "-C", "debuginfo=1"], slow=3,
               wrap=["valgrind", "-q", "--error-exitcode=97", "--exit-on-first-error=yes", "--leak-check=no", "--track-origins=no"]),
    # what users ship
    "rel": dict(flags=["-C", "opt-level=3", "-C", "lto=off"]),
}


# the usual plan: a debug build for each CPU, an optimised sanitized one for each vector width
ITER = [(c, "dbg") for c in CPUS] + [("x86-64", "asan"), ("haswell", "asan")]
ITER_THOROUGH = [("nehalem", "asan")] + [(c, "rel") for c in CPUS]


CHECKS = {
    "C01": dict(
        bin="c01", runs=ITER, thorough_runs=ITER_THOROUGH, floor=5000,
        technique="instrumented closures and collected results against a scalar oracle, guard pages, AddressSanitizer",
        note="Every length from 0 to several vectors and random longer ones, for every element type, source and build; lengths and values beyond those are sampled.",
        rule="one case per (element type, source, length); distinct = (kind of map, types, vector width, length)",
    ),
}

CHECKS.update({
    "C02": dict(
        bin="c02", runs=ITER, thorough_runs=ITER_THOROUGH, floor=5000,
        technique="guarded buffers with canaries around every fill, scalar oracle of the contents, AddressSanitizer",
        note="Every input length up to several vectors with exact, longer and shorter buffers; longer inputs are sampled.",
        rule="one case per (consumer, element type, input length, buffer length, source); distinct = (consumer, type, width, length, buffer excess)",
    ),
    "C03": dict(
        bin="c03", runs=ITER, thorough_runs=ITER_THOROUGH, floor=5000,
        technique="instrumented in-place closures over guarded slices, the buffer re-read inside every closure call, AddressSanitizer",
        note="Every slice length up to several vectors, fresh and partially consumed iterators; longer slices are sampled.",
        rule="one case per (element type, length, elements consumed before); distinct the same with the vector width",
    ),
})

CHECKS.update({
    "C04": dict(
        bin="c04", runs=ITER, thorough_runs=ITER_THOROUGH, floor=20000,
        technique="recording closures and recorded next/end streams against the list of vectors the elements dictate",
        note="Every length up to several vectors with defaults different in every lane; longer inputs are sampled.",
        rule="distinct = (element type, vector width, length); each is run through 3 consumers of 7 kinds of iterator",
    ),
    "C05": dict(
        bin="c05", runs=ITER, thorough_runs=ITER_THOROUGH, floor=20000,
        technique="random histories of iterator operations checked step by step against a model (elements, position)",
        note="Histories of up to 12 operations and a final consumer, the standard Iterator methods, slices of over 2^32 elements; positions never go beyond the end of the data (C09 does that).",
        rule="distinct = (sequence of operations, length, vector width)",
    ),
})

CHECKS.update({
    "C06": dict(
        bin="c06", runs=ITER, thorough_runs=ITER_THOROUGH, floor=20000,
        technique="recording closures over zips of every arity against per-input oracles; refusal of every pair of unequal lengths observed",
        note="All arities 2-13 on three element types, all pairs of lengths up to two vectors on every type; mixed element types in fixed combinations.",
        rule="distinct = (element types, arity or kind of source, vector width, length)",
    ),
    "C07": dict(
        bin="c07", runs=ITER, thorough_runs=ITER_THOROUGH, floor=20000,
        technique="recorded stride iterations and random accesses over frozen guarded collections against index arithmetic",
        note="Strides 1 to 33 with lengths around every multiple that matters; other lengths are sampled.",
        rule="distinct = (element type, vector width, stride, length)",
    ),
    "C08": dict(
        bin="c08", runs=ITER, thorough_runs=ITER_THOROUGH, floor=20000,
        technique="recorded pairs and de-interleaved vectors against index arithmetic",
        note="All lengths up to several vectors; values are random with all lanes different.",
        rule="distinct = lane contents for de-interleaving, (element type, vector width, length) for pair iteration",
    ),
})

# Lane-wise results: the optimised builds users ship, whose arithmetic wraps
NUM = [(c, "rel") for c in CPUS] + [("x86-64", "asan"), ("haswell", "asan")]
# and all 32-bit operands, or pairs of 16-bit ones, one after the other
NUM += [(c, "rel", ["sweep"]) for c in CPUS]

CHECKS.update({
    "C10": dict(
        bin="c10", runs=ITER, thorough_runs=ITER_THOROUGH, floor=20000,
        technique="accessors, loads and stores of every vector type over guarded slices against the lanes in memory, at every offset in and out of range",
        note="Every offset of short slices and hostile offsets up to usize::MAX; lane values are edges and samples.",
        rule="distinct = (element type, vector width, slice length, offset) or lane contents",
    ),
})

for _p, _runs, _tech, _note, _rule in (
    ("C11", ITER, "every pattern and merge of every vector type against lane-by-lane oracles, with operands that differ in every byte and offsets up to usize::MAX; AddressSanitizer on the mask table",
     "All partition points of all types; operand values are edges and samples.", "distinct = (type, operands) or (type, partition point)"),
    ("C12", NUM, "every lane result against exact wide arithmetic, over all pairs of edge values, every 8-bit pair, every 16-bit absolute value and samples",
     "8-bit operations are exhausted lane-wise; wider ones take all pairs of 36 edge values, samples, and a part of all 16-bit pairs and 32-bit values (all of them in the thorough tier).", "distinct = (operation's type, operands of the outer lanes)"),
    ("C13", NUM, "every lane, sum and count against exact wide arithmetic; floating-point sums against an error bound",
     "Operands: all pairs of edges, extremes in all lanes, every single bit and lane, samples, sweeps of 16-bit pairs and 32-bit values (all in the thorough tier). Integer overflow is observed in builds without overflow checks.", "distinct = (type, operands of the outer lanes)"),
    ("C14", NUM, "the bytes of every mask against scalar comparison, with operands equal, different, and different in each single bit of each lane",
     "Operands: all pairs of edges (zeroes of both signs, NaN, infinities), single-bit differences, samples, sweeps (all 16-bit pairs in the thorough tier).", "distinct = (type, pattern of equal lanes, operands of the outer lanes)"),
    ("C15", NUM, "every lane of every conversion against exact wide arithmetic, over the limits of both types and all 8- and 16-bit values",
     "8- and 16-bit sources are exhausted lane-wise; wider ones take edges, both sides of every limit, samples and sweeps (all 32-bit values in the thorough tier).", "distinct = (types, outer lanes)"),
    ("C16", NUM, "the bytes of every vector before and after, each byte alone and samples",
     "Every byte position of every type alone, edges, samples and sweeps; big-endian machines are not available.", "distinct = (type, outer lanes)"),
    ("C17", NUM, "every lane against the C library's exact results, or within an error bound where an approximation is promised",
     "Edges, all exponents, ties, values of every magnitude, sweeps (all 32-bit values in the thorough tier); NaN and signed-zero results of min/max and the direction of ties are not judged.", "distinct = (operation, type, outer lanes)"),
):
    CHECKS[_p] = dict(bin=_p.lower(), runs=_runs, thorough_runs=[(c, "rel") for c in BETWEEN if _p != "C11"] + [(c, m) for c in CPUS for m in ("rel", "asan", "dbg") if (c, m) not in _runs and (m != "dbg" or _p in ("C11",))],
                      floor=20000, technique=_tech, note=_note, rule=_rule)

CHECKS["C09"] = dict(
    bin="c09", runs=ITER + [("x86-64", "mc", ["mc"])], thorough_runs=ITER_THOROUGH + [("haswell", "mc", ["mc"])], floor=20000,
    technique="random programs of hostile safe calls over guarded, read-only, tainted inputs; guard pages, canaries, poisoned allocations, AddressSanitizer and valgrind memcheck",
    note="Iterators of every kind, driven by random sequences of calls with offsets and counts up to usize::MAX; user-written implementations of the library's traits which lie about lengths are not part of it.",
    rule="distinct = (kind of iterator, element type, vector width, length, number of calls) or (vector type, length, offset)",
)


def results_of(r):
    """The log of a run: {(type, operation): hashes of the results}."""
    b = open(os.path.join(r["wdir"], "results.bin"), "rb").read()
    out, i = {}, 0
    while i < len(b):
        j = b.index(b"\n", i)
        ty, op, n = b[i:j].decode().rsplit(" ", 2)[0].split(" ", 1)[0], b[i:j].decode().split(" ", 1)[1].rsplit(" ", 1)[0], int(b[i:j].decode().rsplit(" ", 1)[1])
        out[ty, op] = b[j + 1:j + 1 + n]
        i = j + 1 + n
    return out


def differences(a, b, what):
    """Violations for every operation two runs disagree on."""
    ra, rb = results_of(a), results_of(b)
    v = []
    for k in sorted(set(ra) | set(rb)):
        x, y = ra.get(k), rb.get(k)
        if x == y:
            continue
        if x is None or y is None or len(x) != len(y):
            d = "only one of the builds has all results (%s and %s)" % tuple(None if z is None else len(z) // 8 for z in (x, y))
        else:
            at = [i for i in range(0, len(x), 8) if x[i:i + 8] != y[i:i + 8]]
            d = "%d of %d results differ, the first is number %d" % (len(at), len(x) // 8, at[0] // 8)
        v.append(dict(key="%s:%s:%s" % (what, k[0], k[1]), case="%s of %s" % (k[1], k[0]), count=1, cpu=b["cpu"], mode=b["mode"], extra=b["extra"],
                      detail="%s/%s and %s/%s: %s" % (a["cpu"], a["mode"], b["cpu"], b["mode"], d)))
    return v


def same_on_every_cpu(results):
    rs = [r for r in results if os.path.exists(os.path.join(r.get("wdir", ""), "results.bin"))]
    return [v for r in rs[1:] for v in differences(rs[0], r, "differs")]


CHECKS["C18"] = dict(
    bin="c18", runs=[(c, "rel") for c in CPUS + BETWEEN], thorough_runs=[("x86-64", "asan"), ("haswell", "asan")], floor=100000, compare=same_on_every_cpu,
    technique="offline comparison of the recorded results of every operation of every vector type and of pipelines over every iterator between the builds for seven CPUs",
    note="Hundreds of operand pairs (edges against edges, samples) for each operation and type; NaN payloads, rounding ties and the other exceptions the property names are left out.",
    rule="distinct = (type, operation) pairs whose results were compared",
)


def same_in_pairs(results):
    rs = [r for r in results if os.path.exists(os.path.join(r.get("wdir", ""), "results.bin"))]
    return [v for a in rs for b in rs if a["cpu"] == b["cpu"] and a["mode"] == "rel" and b["mode"] == "trace" for v in differences(a, b, "traced")]


CHECKS["C22"] = dict(
    bin="c22", runs=[(c, "rel") for c in CPUS] + [(c, "trace", ["announce"]) for c in CPUS], floor=100000, compare=same_in_pairs,
    technique="offline comparison of the recorded results of every operation and pipeline between builds with and without tracing; announcements on standard output and in the file counted per thread, alone, concurrently and undeliverable",
    note="Every announcing place of the library is reached in every thread; results are compared for hundreds of operand pairs and lengths.",
    rule="distinct = announcing places, and (type, operation) pairs whose results were compared",
)

CHECKS["C20"] = dict(
    bin="c20", runs=ITER, thorough_runs=ITER_THOROUGH, floor=20000,
    technique="fault injection: closures which panic at every call they get, guarded buffers and the iterator inspected and used afterwards, AddressSanitizer",
    note="Every call of every consumer panics once, for lengths around every boundary; user code which panics elsewhere than in closures and scalar iterators is not part of it.",
    rule="distinct = (element type, vector width, length, call that panics); each through 14 consumers",
)

CHECKS["C21"] = dict(
    bin="c21", runs=[(c, "rel") for c in CPUS] + [("x86-64", "tsan", ["tsan"])], thorough_runs=[("x86-64", "dbg"), ("haswell", "asan")], floor=20000,
    technique="threads on neighbouring slices with delays inside their closures, watchers and writers on the elements between them, results against sequential ones, ThreadSanitizer",
    note="The interleavings are those the scheduler and the injected delays give; ThreadSanitizer sees the 128-bit build only.",
    rule="distinct = orders in which the threads had their turns, and (type, width, length, number of pieces, consumer)",
)

CHECKS["C19"] = dict(
    bin="c19", runs=[(c, "rel") for c in CPUS + BETWEEN], thorough_runs=[(c, "dbg") for c in CPUS], floor=5000,
    technique="single-stepping every operation of every vector type and every pipeline: each executed instruction is decoded and its extension looked up",
    note="Instructions of the C library, which chooses its own at run time, are not judged; every path is taken with a few operands only.",
    rule="distinct = (type, operation) pairs observed instruction by instruction",
)
