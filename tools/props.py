# Which scenarios decide which property, and how many executions of each are run in the quick tier.
VARIANTS = {
    "dbg": {"name": "dbg", "flags": [], "rt": True},                # assertions of the library armed
    "rel": {"name": "rel", "flags": ["-DNDEBUG"], "rt": True},      # as users ship it
    "asan": {"name": "asan", "flags": [], "rt": False},             # native threads/one thread, ASan + UBSan
    "asanrel": {"name": "asanrel", "flags": ["-DNDEBUG"], "rt": False},
}
ASSUMPTIONS = [
    "executions are serialised at synchronisation points by the runtime in rt/; code compiled into libstdc++.so is observed only at its pthread/futex/malloc/memcpy calls",
    "memory model: happens-before race detection, reads of older stores injected for atomics (per-location coherence kept), stores are not reordered with later loads beyond that",
]
DBGREL = [{"name": "dbg", "share": 0.6}, {"name": "rel", "share": 0.4}]
RULE = ("Each execution is a seeded random program over the public API on 2-4 threads run under a seeded scheduler (random walk, PCT or burst), with weak-CAS failures, "
        "stale atomic reads, spurious wakeups injected; non-trivial: ")
PROPS = {
    "C01": {"rule": RULE + "operations of different threads overlapped (fifo/handoff scenarios: every execution; locks: more than two grants); distinct by hash of the switch/atomic-access sequence and the operation history.",
            "groups": [{"src": "c01.cpp", "variants": DBGREL, "scenarios": {"mixed": 30000, "hops": 12000, "fifo": 6000, "handoff_view": 40, "locks": 8000}}]},
}
TECH = "runtime monitoring: history oracles + race/lifetime detection on seeded controlled schedules"
NOTE = "Held on the executions explored (seeded random programs and schedules, weak-CAS failures, stale reads, spurious wakeups); no claim beyond them. Trusts the runtime in rt/ and gcc's instrumentation."
NA = {}
def P(pid, src, scen, nontriv, variants=DBGREL, **kw):
    d = PROPS.setdefault(pid, {"rule": RULE + nontriv, "groups": []})
    d["groups"].append({"src": src, "variants": variants, "scenarios": scen})
    d.update(kw)
P("C02", "c02.cpp", {"manual_mixed": 12000, "auto_mixed": 16000, "manual_pingpong": 5000, "auto_pingpong": 5000, "auto_collect": 5000, "manual_collapse": 2500, "auto_collapse": 2500, "manual_visible": 4000, "auto_visible": 4000},
  "waits and operations of several threads overlapped (in the dedicated publish/collect scenarios: every execution); distinct by hash of schedule, atomic access sequence and history.")
P("C03", "c03.cpp", {"manual_mixed": 12000, "auto_mixed": 16000, "manual_herd": 8000, "auto_herd": 10000, "manual_visible": 4000, "auto_visible": 4000, "manual_collapse": 2500, "auto_collapse": 2500, "auto_collect": 5000, "manual_rewait": 400, "auto_rewait": 1500},
  "waits and operations of several threads overlapped (publish/collect/rewait scenarios: every execution); distinct by hash of schedule, atomic access sequence and history.")
P("C04", "c04.cpp", {"run": 30000, "own_latch": 10000, "zero_dec": 200},
  "at least two threads, a waiter and two decrements (own_latch, zero_dec: every execution); distinct by hash of schedule and program.")
P("C05", "c05.cpp", {"mixed": 12000, "mixed_pump": 8000, "stream": 8000, "failing": 3000},
  "operations of several threads overlapped (stream: every execution; failing: an operation threw); distinct by hash of schedule and history.")
P("C06", "c05.cpp", {"closing": 12000, "closing_pump": 8000, "close_race": 10000, "owned": 8000},
  "operations overlapped a close() from another thread (close_race, owned: every execution); distinct by hash of schedule and history.")
P("C07", "c07.cpp", {"mixed": 10000, "mixed_pump": 6000, "stream": 6000, "values": 1000, "failing": 3000},
  "operations of several threads overlapped and something was popped (stream, values: every execution; failing: an operation threw); distinct by hash of schedule and history.")
P("C08", "c07.cpp", {"clearing": 10000, "moving": 12000, "capacity": 6000, "destructors": 3000, "dispatchers": 2000},
  "clearing: operations overlapped and something was popped; moving: something was popped or failed; capacity, destructors, dispatchers: every execution; distinct by hash of schedule and history.")
P("C09", "c09.cpp", {"mixed": 10000, "transfer": 12000, "cross": 8000, "elements": 2000},
  "operations of several threads overlapped and something was popped (cross, elements: every execution); distinct by hash of schedule and history.")
P("C10", "c10.cpp", {"mixed": 12000, "blocking": 10000, "duel": 8000, "values": 400, "failing": 4000, "last_handle": 3000, "destructors": 4000},
  "operations of several threads overlapped (duel, values, failing, last_handle, destructors: every execution); distinct by hash of schedule and history.")
P("C11", "c10.cpp", {"first": 12000, "first_successful": 16000, "all": 12000, "first_types": 2000, "successful_types": 2000, "all_types": 2000},
  "more than one argument (types: every execution); distinct by hash of schedule, outcomes and settling order.")
P("C12", "c12.cpp", {"churn": 4000, "shrink_race": 5000, "blocking": 2000, "drop": 5000, "exhausted": 2000},
  "more than one task ran (shrink_race, drop, exhausted: every execution; blocking: more than one worker); distinct by hash of schedule and task count.")
P("C13", "c13.cpp", {"mixed": 10000, "wake": 8000, "stop_destroy": 6000, "nested": 1500, "throwing": 1000, "amain": 6000},
  "every execution (amain: the main task suspended at least once); distinct by hash of schedule and tasks run.")
NATIVE = [{"name": "asan", "share": 0.6}, {"name": "asanrel", "share": 0.4}]
P("C20", "c20.cpp", {"lazy": 12000, "eager": 8000, "race": 8000},
  "at least one body ran; distinct by hash of schedule and outcomes (policies: by random policy program, an exception escaped; owned: every execution).")
P("C20", "c20n.cpp", {"policies": 4000, "owned": 1500}, PROPS["C20"]["rule"][len(RULE):], NATIVE)
P("C21", "c21.cpp", {"rounds": 8000, "contended": 8000, "duplicate": 4000, "last_child": 8000, "forwarding": 3000},
  "several children and hops between threads (contended: joins and children; duplicate, last_child: every execution); distinct by hash of schedule and program.")
P("C18", "c18.cpp", {"by_value": 6000, "by_const": 4000, "by_ref": 4000, "by_rref": 3000, "mapped": 6000, "streams": 300, "empty": 40},
  "the plan yields more than one value; distinct by hash of the plan and its trace.", NATIVE)
P("C19", "c19.cpp", {"by_value": 14000, "by_const": 8000, "deep": 3000, "empty": 40},
  "the plan yields more than one value (deep: every execution); distinct by hash of schedule and plan.")
P("C31", "c31.cpp", {"tags": 3000},
  "every execution: all tags below every alignment up to 64 (a selection for 128 and 4096) on random aligned addresses; distinct by hash of the addresses.", NATIVE)
P("C32", "c31.cpp", {"guards": 20000},
  "every execution; distinct by hash of the program.", NATIVE)
P("C29", "c29.cpp", {"frames": 16000},
  "every execution (one coroutine kind x allocator x frame size x way to end); distinct by hash of that choice and where it ended.", NATIVE)
P("C25", "c25.cpp", {"reentrant_st": 16000, "reentrant_mt": 12000},
  "more than three emissions; distinct by hash of the program as executed.")
P("C26", "c25.cpp", {"plain": 12000, "nested": 10000, "manager": 10000, "dtor_signal": 5000, "dtor_manager": 5000, "moves_signal": 4000, "moves_manager": 4000},
  "emissions and subscriptions overlapped or there were more than two emissions (dtor: more than two callbacks destroyed; moves: every execution); distinct by hash of schedule, program and calls made.")
P("C17", "c17.cpp", {"tree": 16000, "deep": 2000},
  "more than one task ran; distinct by hash of schedule and task tree.")
P("C22", "c17.cpp", {"bridge": 10000, "blocked": 6000},
  "awaitables completing on other threads; distinct by hash of schedule and program.")
VARIANTS["poly"] = {"name": "poly", "flags": ["-DASYNCPP_FORCE_CUSTOM_STOP_TOKEN=1"], "rt": True}
VARIANTS["polyrel"] = {"name": "polyrel", "flags": ["-DASYNCPP_FORCE_CUSTOM_STOP_TOKEN=1", "-DNDEBUG"], "rt": True}
P("C14", "c14.cpp", {"plain": 8000, "plain_exact": 8000, "busy": 3000, "busy_exact": 3000},
  "more than one entry was invoked (busy: every execution); distinct by hash of schedule and program.")
P("C14", "c14n.cpp", {"default": 60}, "more than one entry was invoked (default: every execution); distinct by hash of schedule and program.", NATIVE)
P("C15", "c14.cpp", {"cancel": 8000, "cancel_exact": 8000, "duel": 10000},
  "more than one entry was invoked (duel: every execution); distinct by hash of schedule and program.",
  [{"name": "dbg", "share": 0.5}, {"name": "rel", "share": 0.3}, {"name": "poly", "share": 0.2}])
POLY = [{"name": "poly", "share": 0.6}, {"name": "polyrel", "share": 0.4}]
P("C16", "c16.cpp", {"handles": 4000, "race": 12000, "duel": 8000, "drop": 8000, "shapes": 300},
  "race: a callback ran; handles, duel, drop, shapes: every execution; distinct by hash of schedule and program.", POLY)
P("C23", "c23.cpp", {"handles_safe": 6000, "handles_unsafe": 4000, "shared": 16000},
  "every execution; distinct by hash of schedule and program.")
P("C24", "c23.cpp", {"cell": 16000, "two_cells": 14000, "publish": 10000, "collide": 200, "hooks": 2000},
  "operations of several threads overlapped (publish, collide, hooks: every execution); distinct by hash of schedule and history.")
P("C30", "c30.cpp", {"matrix": 16000, "provided": 6000, "current": 4000},
  "provided: a coroutine suspended and was resumed elsewhere; matrix, current: every execution; distinct by hash of schedule and program.")
TSF = ["-std=c++20", "-O1", "-g", "-U_FORTIFY_SOURCE", "-fsanitize=thread", "-w"]
PLF = ["-std=c++20", "-O2", "-g", "-U_FORTIFY_SOURCE", "-w"]
RAW = {"fallback": ["-DC28_NO_RAW"]}
VARIANTS["tsan"] = {"name": "tsan", "flags": [], "rt": False, "base": TSF}
VARIANTS["plain"] = {"name": "plain", "flags": [], "rt": False, "base": PLF, **RAW}
VARIANTS["plain0"] = {"name": "plain0", "flags": [], "rt": False, "base": [f.replace("-O2", "-O0") for f in PLF], **RAW}
VARIANTS["plainrel"] = {"name": "plainrel", "flags": ["-DNDEBUG", "-fPIC"], "rt": False, "base": [f.replace("-O2", "-O3") for f in PLF], **RAW}
VARIANTS["clang"] = {"name": "clang", "flags": [], "rt": False, "cxx": "clang++", "base": PLF, **RAW}
VARIANTS["ucontext"] = {"name": "ucontext", "flags": ["-DASYNCPP_FIBER_USE_UCONTEXT=1"], "rt": False, "base": PLF, **RAW}
VARIANTS["ssp"] = {"name": "ssp", "flags": ["-DSAVE_TLS_STACK_PROTECTOR=1", "-fstack-protector-strong"], "rt": False, "base": PLF, **RAW}
P("C27", "c27.cpp", {"tree_st": 6000, "results": 1000, "abandon": 6000, "misuse": 400, "owned": 1000, "tree": 5000, "shallow": 6000, "handoff": 3000},
  "a fiber was suspended (results, misuse, owned: every execution); distinct by hash of schedule and program.")
P("C27", "c27.cpp", {"tree_st": 2000, "results": 400, "abandon": 2000, "misuse": 200, "owned": 400}, PROPS["C27"]["rule"][len(RULE):], NATIVE)
P("C27", "c27t.cpp", {"pool": 1000}, PROPS["C27"]["rule"][len(RULE):], [{"name": "tsan", "share": 1.0}])
C28V = [{"name": n, "share": s} for n, s in (("plain", 0.3), ("plain0", 0.1), ("plainrel", 0.2), ("clang", 0.2), ("ucontext", 0.1), ("ssp", 0.1))]
P("C28", "c28.cpp", {"switches": 30000, "migrate": 15000, "raw": 20000, "stacks": 12000, "guard": 12000, "failures": 12000},
  "switches, migrate, raw: more than two switches; failures: an allocation failed; stacks, guard: every execution; distinct by hash of the program.", C28V)
P("C28", "c28.cpp", {"switches": 2000, "migrate": 1000, "stacks": 1000, "failures": 1000}, PROPS["C28"]["rule"][len(RULE):], [{"name": "asan", "share": 1.0}])
P("C28", "c27t.cpp", {"pool": 600}, PROPS["C28"]["rule"][len(RULE):], [{"name": "tsan", "share": 0.6}, {"name": "asan", "share": 0.4}])
# populations of up to 70000 waiters, handles, children or elements; every check builds its own part of the source
def only(pid, part, variants):
    out = []
    for base, share in variants:
        name = "%s_%d" % (base, part)
        VARIANTS[name] = {**VARIANTS[base], "name": name, "flags": VARIANTS[base]["flags"] + ["-DONLY=%d" % part]}
        out.append({"name": name, "share": share})
    return out
VARIANTS["asanpoly"] = {"name": "asanpoly", "flags": ["-DASYNCPP_FORCE_CUSTOM_STOP_TOKEN=1"], "rt": False}
for _p, _part, _s in (("C01", 1, {"crowd_mutex": 24, "life_mutex": 24}), ("C02", 2, {"life_single": 40}), ("C03", 3, {"crowd_multi": 24, "life_multi": 24}), ("C04", 4, {"crowd_latch": 30}), ("C05", 5, {"crowd_values": 24, "life_values": 24}), ("C06", 5, {"crowd_closing": 24}),
               ("C07", 7, {"crowd_queue": 24, "life_queue": 24}), ("C08", 7, {"crowd_clear": 24}), ("C09", 9, {"crowd_tsq": 20}), ("C10", 10, {"crowd_promise": 20}), ("C12", 12, {"crowd_pool": 10, "life_pool": 6}),
               ("C13", 13, {"crowd_dispatcher": 20}), ("C14", 14, {"crowd_timer": 10}), ("C15", 14, {"crowd_cancel": 10}), ("C16", 16, {"crowd_stop": 30}), ("C20", 20, {"crowd_handles": 24}),
               ("C21", 21, {"crowd_scope": 20, "life_scope": 20}), ("C23", 23, {"crowd_refs": 40}), ("C24", 23, {"crowd_cells": 20, "life_cells": 30}), ("C25", 25, {"crowd_signal": 20, "life_signal": 24}), ("C26", 26, {"crowd_manager": 20}),
               ("C27", 27, {"crowd_fibers": 16, "life_fibers": 16})):
    P(_p, "scale.cpp", _s, PROPS[_p]["rule"][len(RULE):], only(_p, _part, [("asanpoly", 1.0)] if _p == "C16" else [("asan", 0.6), ("asanrel", 0.4)]))
for _p, _s in (("C11", {"crowd_combine": 300}), ("C17", {"long_loop": 40}), ("C18", {"long_generator": 40}), ("C19", {"long_async": 40})):
    P(_p, "long.cpp", _s, PROPS[_p]["rule"][len(RULE):], only(_p, int(_p[1:]), [("plain", 0.4), ("plainrel", 0.3), ("clang", 0.3)]))
# counts above are multiplied by this (default 8) in the quick tier, and by another 20 in the thorough tier
PROPS["C28"]["quick_factor"] = 1
PROPS["C27"]["quick_factor"] = 5
PROPS["C29"]["quick_factor"] = 3
PROPS["C31"]["quick_factor"] = 3
