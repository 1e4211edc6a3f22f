"""Which harnesses decide which property, and how long they run."""
import os
STUBDIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), "sim", "stub")
SCHED_REAL = ["std::deque/std::optional and all other header code instantiated by the library"]
SCHED_STUB = ["pthread mutex/condvar/rwlock/once, futex, clock, sleep, yield (simulator)", "operator new/delete (simulated heap with redzones, quarantine and injected failures)",
              "atomics (simulator: one global modification order per location, optional stale visible loads)", "threads (fibers scheduled by the recorded decision stream)"]
SCHED_ASSUME = ["simulated threads interleave at atomics, locks, condition variables, element callbacks and (in a part of the runs) plain memory accesses",
                "memory-model exploration covers stale relaxed/acquire loads, not all C++ relaxed behaviours (no load buffering)"]

SEQ_ASSUME = ["one thread; every fault the code can meet in one thread is injected at seeded positions"]
SEQ_STUB = ["operator new/delete (ledger and injected failures)"]

HARNESS = {
    "channel": dict(flavour="S"),
    "exchange": dict(flavour="S"),
    "sync": dict(flavour="S"),
    "limit": dict(flavour="S", fallback=True),
    "pool": dict(flavour="A"),
    "poly": dict(flavour="A"),
    "reloc": dict(flavour="A"),
    "sstring": dict(flavour="A"),
    "flex": dict(flavour="A", cflags=["-I" + STUBDIR]),
    "variant2": dict(flavour="A"),
    "inplace": dict(flavour="A"),
    "defer": dict(flavour="A"),
    "itv": dict(flavour="A"),
    "out": dict(flavour="A", fallback=True),
    "nexti": dict(flavour="A"),
    "ralgo": dict(flavour="A"),
    "ctloop": dict(flavour="A", fallback=True),
    "sandbox": dict(flavour="P", ldflags=["-Wl,--wrap=fork,--wrap=wait,--wrap=wait3,--wrap=wait4,--wrap=waitpid,--wrap=waitid"]),
}


def S(h, q, t, real, stub=()):
    return dict(harness=h, quick=q, thorough=t, real=[real] + SCHED_REAL, stub=SCHED_STUB + list(stub), assume=SCHED_ASSUME)


def A(h, q, t, real, stub=()):
    return dict(harness=h, quick=q, thorough=t, real=[real], stub=SEQ_STUB + list(stub), assume=SEQ_ASSUME)


def PR(h, q, t, real):
    return dict(harness=h, quick=q, thorough=t, real=[real], stub=["failing fork and waitpid, EINTR, core dump flag (stand-ins in front of the real calls)", "sinks of std::cout, std::cerr and a FILE (recording, failing on demand)"],
                assume=["a caller has one thread (precondition of DICE_SANDBOX)", "the parent does nothing while it waits, so the kernel's scheduling of parent and child is not observable"])


CH = "dice::template_library::channel and channel::iterator"
EX = "dice::template_library::exchange_channel"
Q, T = 1500000, 60000000
PARTS = {
    "C01": [S("channel", Q, T, CH)],
    "C02": [S("channel", Q, T, CH)],
    "C03": [S("channel", Q, T, CH)],
    "C04": [S("channel", Q, T, CH)],
    "C05": [S("channel", Q, T, CH)],
    "C06": [S("channel", 1000000, T, CH), S("exchange", 1000000, T, EX)],
    "C07": [S("exchange", 1500000, T, EX)],
    "C08": [S("exchange", 1500000, T, EX)],
    "C09": [S("exchange", 1500000, T, EX)],
    "C10": [S("sync", Q, T, "dice::template_library::mutex, mutex_guard", ["user mutex type with injected lock failures"])],
    "C11": [S("sync", Q, T, "dice::template_library::shared_mutex, shared_mutex_guard", ["user shared mutex type with injected lock failures"])],
    "C12": [S("limit", 400000, T, "dice::template_library::limit_allocator", ["upstream allocator (recording stand-in with injected failures)"])],
    "C13": [A("pool", 600000, 30000000, "dice::template_library::pool, pool_allocator, boost::pool, std containers")],
    "C14": [A("poly", 900000, 40000000, "dice::template_library::polymorphic_allocator, variant2, std containers", ["upstream allocators (recording stand-ins with injected failures)"])],
    "C15": [A("reloc", 900000, 40000000, "offset_ptr_stl_allocator, polymorphic_allocator, limit_allocator, static_string, flex_array, variant2, std and boost containers",
              ["upstream allocators (a relocatable region, recording stand-ins, injected failures)"])],
    "C16": [A("sstring", 900000, 40000000, "dice::template_library::basic_static_string", ["allocators (recording stand-ins with injected failures)"])],
    "C17": [A("flex", 400000, 20000000, "dice::template_library::flex_array in all four modes", ["ankerl::svector (boost::container::small_vector behind the same interface)"])],
    "C18": [A("variant2", 200000, 10000000, "dice::template_library::variant2, visit, get, hash, format")],
    "C19": [A("inplace", 400000, 20000000, "dice::template_library::inplace_polymorphic")],
    "C20": [A("defer", 1000000, 40000000, "ScopeExitGuard, make_scope_*_guard, DICE_DEFER*")],
    "C21": [PR("sandbox", 100000, 4000000, "DICE_SANDBOX, real fork, signals and process exit")],
    "C22": [PR("sandbox", 100000, 4000000, "DICE_SANDBOX, real fork, signals and process exit")],
    "C24": [A("nexti", 800000, 40000000, "next_to_iter, next_back_to_reverse_iter, next_to_range, next_to_view, range()", ["rust-style sources (recording, failing on demand)"])],
    "C26": [A("ralgo", 600000, 30000000, "ranges.hpp algorithms and adaptors, opt_minmax.hpp", ["sources, predicates, comparators, projections, hashes (recording, failing on demand)"])],
    "C25": [A("itv", 150000, 8000000, "dice::template_library::integral_template_variant, visit, get, hash, comparison")],
    "C27": [A("ctloop", 600000, 30000000, "for.hpp, switch_cases.hpp, overloaded.hpp, functional.hpp, memfn.hpp, standard_layout_tuple.hpp, integral_template_tuple.hpp, tuple_algorithm.hpp", ["callbacks and elements (recording, failing on demand)"])],
    "C23": [A("out", 300000, 15000000, "operator<< of format_to_ostream.hpp, fmt_join, DICE_DBG, std::format", ["stream buffers, formatters and ranges (recording, failing on demand)"])],
}
