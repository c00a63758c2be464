"""What each check builds and runs: configurations, workloads, sizes."""


def _f(name, what, features=(), **kw):
    return dict(name=name, what=what, features=list(features), **kw)


LOGS = ["as-std", "as-logs"]
FLAVOURS = {
    f["name"]: f
    for f in [
        _f("dev", "unoptimised, debug assertions and overflow checks on, std, trace-level logging", LOGS),
        _f("devall", "as dev, every capacity from 1 to 255 instantiated", LOGS + ["allcaps"]),
        _f("devbare", "unoptimised, no_std, no logging", []),
        _f("rel", "optimised, debug assertions off, std", ["as-std"], release=True),
        _f("relall", "as rel, every capacity from 1 to 255 instantiated", ["as-std", "allcaps"], release=True),
        _f("relbare", "optimised, no_std", [], release=True),
        _f("rellogs", "optimised, std, trace-level logging", LOGS, release=True),
        _f("devserde", "unoptimised, std, logging, serde", LOGS + ["as-serde"]),
        _f("relserde", "optimised, serde without std", ["as-serde"], release=True),
        _f("devdiesel", "unoptimised, std, logging, diesel", LOGS + ["as-diesel"]),
        _f("reldiesel", "optimised, diesel without std", ["as-diesel"], release=True),
        _f("relfull", "optimised, std, logging, serde, diesel", LOGS + ["as-serde", "as-diesel"], release=True),
        _f("relmix", "optimised, no_std, logging, serde, diesel", ["as-logs", "as-serde", "as-diesel"], release=True),
        _f("devnopanic", "unoptimised, std, the no-panic feature (which optimised builds cannot link)", ["as-std", "as-nopanic"]),
        _f("devquiet", "unoptimised, debug assertions and overflow checks off, std", ["as-std"],
           env={"CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false"}),
        _f("relchk", "optimised, debug assertions and overflow checks on, std, no-panic", ["as-std", "as-nopanic"], release=True,
           env={"CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "true", "CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "true"}),
        _f("relsmall", "optimised for size, one codegen unit, std", ["as-std"], release=True,
           env={"CARGO_PROFILE_RELEASE_OPT_LEVEL": "z", "CARGO_PROFILE_RELEASE_CODEGEN_UNITS": "1", "CARGO_PROFILE_RELEASE_LTO": "fat"}),
        _f("rellog1", "optimised, no_std, logging alone", ["as-logs"], release=True),
        _f("relboth", "optimised, no_std, serde and diesel", ["as-serde", "as-diesel"], release=True),
        _f("relstd2", "optimised, std, serde and diesel", ["as-std", "as-serde", "as-diesel"], release=True),
        _f("asan", "AddressSanitizer, unoptimised, std, logging", LOGS, nightly=True, triple=True, asan=True,
           env={"RUSTFLAGS": "-Zsanitizer=address --cfg asan",
                "ASAN_OPTIONS": "detect_stack_use_after_return=1:detect_leaks=0:abort_on_error=0:halt_on_error=1:symbolize=1"}),
        _f("asanrel", "AddressSanitizer, optimised, std", ["as-std"], nightly=True, triple=True, asan=True, release=True,
           env={"RUSTFLAGS": "-Zsanitizer=address --cfg asan",
                "ASAN_OPTIONS": "detect_stack_use_after_return=1:detect_leaks=0:abort_on_error=0:halt_on_error=1:symbolize=1"}),
        _f("asanfull", "AddressSanitizer, unoptimised, std, logging, serde, diesel", LOGS + ["as-serde", "as-diesel"], nightly=True, triple=True, asan=True,
           env={"RUSTFLAGS": "-Zsanitizer=address --cfg asan",
                "ASAN_OPTIONS": "detect_stack_use_after_return=1:detect_leaks=0:abort_on_error=0:halt_on_error=1:symbolize=1"}),
        _f("msan", "MemorySanitizer, unoptimised, instrumented std, logging", LOGS, nightly=True, triple=True, buildstd=True, optional=True,
           env={"RUSTFLAGS": "-Zsanitizer=memory --cfg msan"}),
        _f("tsan", "ThreadSanitizer, unoptimised, instrumented std", ["as-std"], nightly=True, triple=True, buildstd=True, optional=True,
           env={"RUSTFLAGS": "-Zsanitizer=thread --cfg tsan", "TSAN_OPTIONS": "halt_on_error=1"}),
        _f("cov", "unoptimised, source coverage recorded, std, logging, serde, diesel", LOGS + ["as-serde", "as-diesel"], optional=True, triple=True,
           env={"RUSTFLAGS": "-C instrument-coverage", "LLVM_PROFILE_FILE": "/dev/null"}),
        _f("miri", "Miri, Stacked Borrows, strict provenance, symbolic alignment", ["as-std"], nightly=True, miri=True,
           env={"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-strict-provenance -Zmiri-symbolic-alignment-check"}),
        _f("miriserde", "Miri, Stacked Borrows, serde", ["as-std", "as-serde"], nightly=True, miri=True,
           env={"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-strict-provenance"}),
        _f("miridiesel", "Miri, Stacked Borrows, diesel conversions without SQLite", ["as-std", "as-diesel"], nightly=True, miri=True,
           env={"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-strict-provenance"}),
        _f("miri32", "Miri, 32-bit target (i686)", ["as-std"], nightly=True, miri=True, triple="i686-unknown-linux-gnu",
           env={"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-strict-provenance"}),
        _f("miribe", "Miri, big-endian target (s390x)", ["as-std"], nightly=True, miri=True, triple="s390x-unknown-linux-gnu",
           env={"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-strict-provenance"}),
        _f("miritree", "Miri, Tree Borrows", LOGS, nightly=True, miri=True,
           env={"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-tree-borrows"}),
    ]
}


def r(flavour, mode, count, **kw):
    return dict(flavour=flavour, mode=mode, count=count, **kw)


# workloads whose size is not a matter of how often they are repeated
FIXED = ("exh", "errors", "layout", "brim")

# sweeps over every Unicode scalar value (in blocks of 256): all of them in optimised builds
SWEPT = {"chars": 4352, "glyphs-fmt": 4352, "glyphs-cmp": 4352}


def runs(flavours, modes, scale=1.0, **kw):
    """The same workloads in several configurations; dev builds are slower and get less."""
    out = []
    for f in flavours:
        k = {"d": 1.0, "r": 4.0, "a": 0.25, "m": 0.25, "t": 0.25}[f[0]]
        for m, n in modes:
            n = max(1, int(n * k * (1.0 if m in FIXED else scale)))
            if m in SWEPT:
                n = SWEPT[m] if f[0] == "r" else min(n, SWEPT[m])
            out.append(r(f, m, n, **kw))
    return out


def both(modes, dev="dev", rel="rel", deep=60.0, quick=3.0, more=(), huge=False):
    """quick: dev and optimised builds; thorough: deeper, and in more configurations."""
    q = runs([dev], modes, scale=quick) + runs([rel], modes, scale=quick, seed=500)
    t = runs([dev], modes, scale=deep, big=True) + runs([rel], modes, scale=deep, seed=500, big=True)
    t += runs(["relbare" if rel == "rel" else rel], modes, scale=deep / 3, seed=1000, big=True)
    t += list(more)
    if huge:
        # (without logging, which would format every byte)
        q.append(r(rel, "huge", 20000))
        t += [r(rel, "huge", 2000000), r("relbare", "huge", 500000, seed=1000)]
    return dict(quick=q, thorough=t)


def elsewhere(*modes):
    """The same monitors on targets this machine is not: 32 bits, big-endian."""
    return [r(f, m, n) for f in ("miri32", "miribe") for m, n in modes]


HISTS_ALL = [("hist-construct", 1), ("hist-utf16", 1), ("hist-append", 1), ("hist-insert", 1), ("hist-delete", 1),
             ("hist-drain", 1), ("hist-fmt", 1), ("hist-view", 1)]


def hists(n):
    return [(m, n * k) for m, k in HISTS_ALL]


PLAN = {
    "C01": both([("brim", 1), ("hist", 6000), ("geom", 40), ("exh", 1), ("chars", 20), ("utf16", 60), ("callbacks", 1500), ("evil", 1500),
                 ("views", 3000), ("drains", 600), ("cache", 600)], dev="devall", more=elsewhere(("hist", 120), ("drains", 24), ("cache", 8))),
    "C02": dict(
        quick=runs(["asan"], [("hist", 6000), ("geom", 80), ("evil", 3000), ("callbacks", 3000), ("views", 6000), ("drains", 1500),
                              ("cache", 600), ("cmp", 120), ("utf16", 60), ("index", 40), ("fmt", 1000), ("errors", 1)])
        + [r("asanfull", "serde", 400), r("asanfull", "diesel", 160), r("asanfull", "rawsql", 800)]
        + runs(["rel"], [("hist", 4000), ("evil", 3000), ("callbacks", 3000), ("views", 4000)])
        + [r("msan", "hist", 1600), r("msan", "evil", 800), r("msan", "callbacks", 800), r("msan", "views", 2000), r("msan", "drains", 300),
           r("msan", "herd", 160), r("tsan", "threads", 80), r("rel", "threads", 400), r("rel", "herd", 4000), r("rel", "huge", 20000)]
        + [r("miri", "hist", 64), r("miri", "evil", 24), r("miri", "callbacks", 40), r("miri", "views", 48), r("miri", "drains", 32), r("miri", "index", 2), r("miri", "cmp", 2),
           r("miri", "herd", 16), r("miri", "threads", 16)],
        thorough=runs(["asan", "asanrel"], [("hist", 60000), ("geom", 400), ("evil", 30000), ("callbacks", 30000), ("views", 60000),
                                            ("drains", 15000), ("cache", 6000), ("cmp", 1000), ("utf16", 400), ("index", 400), ("fmt", 10000), ("errors", 1), ("exh", 1), ("chars", 100)])
        + [r("asanfull", "serde", 20000), r("asanfull", "diesel", 8000), r("asanfull", "rawsql", 40000), r("miriserde", "serde", 60), r("miridiesel", "rawsql", 200)]
        + runs(["msan"], [("hist", 60000), ("geom", 200), ("evil", 30000), ("callbacks", 30000), ("views", 40000), ("drains", 8000),
                          ("cache", 3000), ("utf16", 100), ("chars", 20), ("herd", 6000)])
        + runs(["tsan"], [("threads", 12000)])
        + [r("rel", "huge", 1000000)]
        + runs(["dev", "rel"], [("hist", 60000), ("evil", 30000), ("callbacks", 30000), ("views", 40000), ("herd", 6000), ("threads", 1500)])
        + [r(f, m, n) for f in ("miri", "miritree") for m, n in
           [("hist", 500), ("evil", 120), ("callbacks", 200), ("views", 400), ("drains", 300), ("cache", 24), ("herd", 100), ("threads", 80), ("cmp", 4), ("geom", 4), ("hist-utf16", 120)]]
        + elsewhere(("hist", 160), ("evil", 80), ("callbacks", 120), ("views", 80), ("drains", 80), ("herd", 60), ("geom", 3)),
    ),
    "C03": both([("brim", 1), ("hist", 5000), ("herd", 500), ("hist-insert", 2000), ("hist-delete", 2000), ("geom", 60), ("exh", 1), ("chars", 20)], dev="devall", huge=True, more=elsewhere(("hist", 160), ("geom", 3))),
    "C04": both([("brim", 1), ("callbacks", 600), ("hist", 5000), ("hist-insert", 2500), ("hist-delete", 2500), ("hist-fmt", 2000), ("geom", 60), ("exh", 1)], dev="devall", huge=True),
    "C05": both([("brim", 1), ("errors", 1), ("hist", 5000), ("hist-insert", 2500), ("hist-delete", 2500), ("geom", 80), ("exh", 1), ("utf16", 40)], dev="devall", huge=True, more=elsewhere(("hist", 120), ("geom", 3), ("errors", 1))),
    "C06": both([("brim", 1), ("hist", 5000), ("hist-construct", 4000), ("hist-append", 2500), ("hist-insert", 2500), ("geom", 60), ("chars", 20), ("exh", 1)], dev="devall", huge=True),
    "C07": both([("utf16", 250), ("hist-utf16", 3000)], dev="devall", huge=True, more=elsewhere(("hist-utf16", 160))),
    "C08": both([("brim", 1), ("hist", 5000), ("geom", 60), ("exh", 1), ("callbacks", 2000), ("evil", 2000), ("drains", 600), ("views", 2000),
                 ("cmp", 60), ("fmt", 1000), ("cache", 600), ("utf16", 40), ("chars", 10), ("errors", 1)], dev="devall", huge=True),
    "C09": both([("brim", 1), ("hist", 5000), ("geom", 60), ("exh", 1), ("callbacks", 2000), ("drains", 800), ("index", 20), ("views", 2000),
                 ("cmp", 60), ("fmt", 1000), ("cache", 800), ("utf16", 40), ("errors", 1)], dev="devall", huge=True),
    "C10": both([("cmp", 600), ("glyphs-cmp", 40), ("herd", 800), ("cache", 600)], huge=True, more=elsewhere(("cmp", 8))),
    "C11": both([("callbacks", 1500), ("fmt", 12000), ("hist-fmt", 5000), ("glyphs-fmt", 20), ("errors", 1)], quick=16.0, huge=True),
    "C12": both([("index", 60), ("hist-view", 3000), ("glyphs-index", 1)], quick=30.0, more=elsewhere(("index", 4))),
    "C13": both([("drains", 3000), ("hist-drain", 5000), ("hist-delete", 1500)], quick=9.0, more=elsewhere(("drains", 120))),
    "C14": both([("cache", 3000), ("layout", 1)], quick=9.0),
    "C15": dict(special="capacities", **both([("brim", 1), ("layout", 1), ("hist", 8000), ("geom", 60)], dev="devall", rel="rel",
                                             more=runs(["relall"], [("hist", 60000), ("geom", 200), ("brim", 1), ("layout", 1)]))),
    "C16": both([("serde", 2000)], dev="devserde", rel="relserde", quick=2.0, deep=500.0),
    "C17": both([("diesel", 1200), ("rawsql", 6000)], dev="devdiesel", rel="reldiesel", quick=2.0, deep=400.0),
    "C18": dict(
        special="configurations",
        configurations=dict(
            quick=dict(flavours=["rel", "dev", "devbare", "relbare", "rellogs", "relserde", "reldiesel", "relfull", "devserde", "relmix", "devnopanic"], blocks=1000),
            thorough=dict(flavours=["rel", "dev", "devbare", "relbare", "rellogs", "relfull", "relserde", "reldiesel", "devserde", "devdiesel", "relmix", "devnopanic", "devquiet",
                                    "relchk", "relsmall", "rellog1", "relboth", "relstd2"], blocks=4000),
        ),
        quick=runs(["rel", "dev", "devbare", "relbare", "rellogs"], [("errors", 1), ("fmt", 500), ("layout", 1)]),
        thorough=runs(["rel", "dev", "devbare", "relbare", "rellogs", "relfull"], [("errors", 1), ("fmt", 5000), ("layout", 1), ("hist", 5000)]),
    ),
    "C19": both([("callbacks", 6000), ("evil", 2000), ("undisturbed", 500), ("hist-append", 1500), ("hist-construct", 1500)], quick=12.0),
    "C21": dict(special="values", **both([("values", 6000), ("herd", 1500), ("threads", 150), ("callbacks", 1500), ("undisturbed", 1500), ("drains", 600)], quick=4.0, deep=40.0,
                                         more=[r("tsan", "threads", 4000), r("miri", "values", 60), r("miri", "threads", 30), r("miri", "undisturbed", 20)] + elsewhere(("values", 60)))),
    "C20": both([("views", 15000), ("herd", 500), ("threads", 60), ("hist-view", 4000), ("index", 20), ("cache", 300)], quick=12.0, more=elsewhere(("views", 160))),
}

HIST = ("Seeded random histories, geometric sweeps and small-scope enumeration over (capacity, current text, operation, arguments), "
        "each step executed on the real type and judged against a std String model. ")
KEY = ("Distinct = different (type or capacity, current text, operation, arguments), hashed into a 2^24-bit sketch merged over all workers "
       "(a lower bound); removals, trims and clears of an empty text and plain new()/clone() steps are not counted as non-trivial; "
       "steps under Miri are not counted either.")
_SPECIAL = {
    "C10": "Pairs of texts in several types, histories and aliasing states; compared by ==, cmp, partial_cmp, <, <=, >, >=, hash and map lookup. ",
    "C11": "Texts x format specifications (width, fill, alignment, precision, flags), piecewise formatting through fmt::Write, error types. ",
    "C12": "Texts x every kind of u8 range, in and out of bounds, on and off character boundaries. ",
    "C13": "Drains of random texts and ranges, consumed in every way an iterator offers. ",
    "C14": "The same call made on CacheString and on ArrayString<63>, results and texts compared; layout observed. ",
    "C16": "Texts of every size class serialised and deserialised through JSON, bincode, CBOR and hand-written value deserializers. ",
    "C17": "Rows written and read through diesel and in-memory SQLite, bound, filtered, updated, nullable; raw values decoded and binds encoded through the PostgreSQL and MySQL backends. ",
    "C18": "The same seeded workload in each configuration; per-block digests of all outcomes, texts, hashes and renderings compared. ",
    "C19": "Hostile iterators, AsRef<str> values, range bounds and predicates: lying size hints, panics, endless, unfused, changing answers. ",
    "C21": "Strings and drains copied in many ways, originals and copies edited in turn, on one thread and several, inside caller-supplied code; programs with strings in constants, statics, threads, panics. ",
    "C20": "Mutable and shared views of texts in every state, edited in place and read back. ",
    "C02": HIST + "Plus hostile caller-supplied types. Watched by AddressSanitizer, Miri and canaries around each string. ",
}
RULE = {p: _SPECIAL.get(p, HIST) + KEY for p in PLAN}

ASSUME = [
    "holds on the executions observed; nothing is said about executions the workload did not produce",
    "std's String, str, char and Formatter are the oracle and are trusted",
    "x86-64 Linux, the installed stable and nightly toolchains",
]
