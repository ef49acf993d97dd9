"""What each check builds and runs."""

VARIANTS = {
    # address sanitizer, assertions on
    "asan": {"cxx": ["-g1", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer"], "ld": ["-fsanitize=address"]},
    # address and undefined behaviour sanitizers
    "ubsan": {"cxx": ["-g1", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
              "ld": ["-fsanitize=address,undefined"]},
    # as released: optimised, assertions off
    "opt": {"cxx": ["-g1", "-O2", "-DNDEBUG"], "ld": []},
    # optimised with assertions
    "opta": {"cxx": ["-g1", "-O2"], "ld": []},
    # range-v3 instead of std::ranges
    "rv3": {"cxx": ["-g1", "-O1", "-DCO_ECS_USE_RANGE_V3", "-fsanitize=address"], "ld": ["-fsanitize=address"]},
    # under the controlled scheduler, with the race detector or the address sanitizer
    "simtsan": {"cxx": ["-g1", "-O1", "-DSIM", "-fsanitize=thread"], "ld": ["-fsanitize=thread"], "sim": ["-DSIM_TSAN"]},
    "simasan": {"cxx": ["-g1", "-O1", "-DSIM", "-fsanitize=address", "-fno-omit-frame-pointer"], "ld": ["-fsanitize=address"],
                "sim": ["-DSIM_ASAN"]},
    "tsan": {"cxx": ["-g1", "-O1", "-fsanitize=thread"], "ld": ["-fsanitize=thread"]},
    # symbols hidden unless exported
    "hidden": {"cxx": ["-g1", "-O0", "-fvisibility=hidden", "-fvisibility-inlines-hidden", "-fsanitize=address"], "ld": ["-fsanitize=address"]},
    "hidden2": {"cxx": ["-O1", "-DNDEBUG", "-fvisibility=hidden"], "ld": []},
    "opt0": {"cxx": ["-O0"], "ld": []},
}

GROUPS = ["-DG=%d" % g for g in range(5)]

HARNESSES = {
    # order matters a little: component ids are handed out in link order, the dummies sit in the middle
    "reg": {"srcs": [("ops_c0.cpp", [GROUPS[0]]), ("ops_c0.cpp", [GROUPS[1]]), ("ops_t0.cpp", [GROUPS[0]]), ("ops_t0.cpp", [GROUPS[1]]),
                     ("ops_dummies.cpp", []), ("ops_t0.cpp", [GROUPS[2]]), ("ops_t0.cpp", [GROUPS[3]]),
                     ("ops_c0.cpp", [GROUPS[2]]), ("ops_c0.cpp", [GROUPS[3]]), ("ops_c0.cpp", [GROUPS[4]]), ("ops_t0.cpp", [GROUPS[4]]), ("reg_main.cpp", [])]},
    "deque": {"srcs": [("deque.cpp", [])]},
    "pool": {"srcs": [("pool.cpp", [])]},
    "conc_reg": {"srcs": [("conc_reg.cpp", [])]},
    "pfor": {"srcs": [("pfor.cpp", [])]},
    "sched": {"srcs": [("sched.cpp", [])]},
    "scale": {"srcs": [("scale.cpp", [])] + [("scale_w.cpp", [g]) for g in GROUPS[:4]]},
    "churn": {"srcs": [("churn.cpp", [])]},
    "hmap": {"srcs": [("hmap.cpp", [])]},
    "sparse": {"srcs": [("sparse.cpp", [])]},
    "alloc": {"srcs": [("alloc.cpp", [])]},
}

# C19: a host library, two client libraries, three plug-ins, and executables that differ in link order
ID_FRIENDS = {0: (1,), 1: (0,), 2: (0,), 3: (2,), 4: (5,), 5: (4, 0), 6: (2,), 7: (1,), 8: (9,), 9: (8, 3)}
ID_SO = ["-shared", "-L@D", "-Wl,-rpath,$ORIGIN"]
ID_EXE = ["-L@D", "-Wl,-rpath,$ORIGIN", "-ldl"]
HARNESSES["ident"] = {
    "cxx": ["-fPIC"],
    "srcs": [("ident_part.cpp", ["-DPART=%d" % k, "-DFRIENDS=" + " ".join("FRIEND(%d)" % f for f in ID_FRIENDS[k])]
              + (["-DHOST"] if k < 2 else []), "p%d" % k) for k in range(10)] + [("ident_main.cpp", [], "main")],
    "products": [
        {"out": "libvfhost.so", "link": ["p0", "p1"] + ID_SO},
        {"out": "libvfc1.so", "link": ["p2"] + ID_SO + ["-lvfhost"]},
        {"out": "libvfc2.so", "link": ["p3"] + ID_SO + ["-lvfc1", "-lvfhost"]},
        {"out": "libvfp1.so", "link": ["p4", "p5"] + ID_SO + ["-lvfhost"]},
        {"out": "libvfp2.so", "link": ["p6"] + ID_SO + ["-lvfc1", "-lvfhost"]},
        {"out": "libvfp3.so", "link": ["p7"] + ID_SO + ["-lvfhost"]},
        {"out": "ident_x1", "link": ["p8", "p9", "main"] + ID_EXE + ["-lvfc2", "-lvfc1", "-lvfhost"]},
        {"out": "ident_x2", "link": ["main", "p9", "p8"] + ID_EXE + ["-lvfhost", "-lvfc1", "-lvfc2"]},
        {"out": "ident_x3", "link": ["p9", "main", "p8", "-rdynamic"] + ID_EXE + ["-lvfc1", "-lvfhost", "-lvfc2"]},
        {"out": "ident", "link": ["main", "p8", "p9", "-Wl,-z,now"] + ID_EXE + ["-lvfhost", "-lvfc2", "-lvfc1"]},
    ],
}

PLAN = {}


def spread(harness, variant, seed, cases, n, modes=("",), salt=0, **kw):
    """n processes with different seeds, cycling through the modes"""
    jobs = []
    for i in range(n):
        args = {"seed": (seed * 1000 + salt * 100 + i) & 0x7fffffff, "cases": cases}
        m = modes[i % len(modes)]
        if m:
            args["mode"] = m
        args.update(kw.get("args", {}))
        j = {"harness": harness, "variant": variant, "args": args}
        j.update({k: v for k, v in kw.items() if k != "args"})
        jobs.append(j)
    return jobs


def plan(prop, evaluations, distinct, rule, assumptions=(), floor=1000):
    def deco(f):
        PLAN[prop] = {"jobs": f, "evaluations": evaluations, "distinct": distinct, "rule": rule,
                      "assumptions": list(assumptions), "floor": floor}
        return f
    return deco


def scale_jobs(seed, tier, what):
    """what: [(variant, mode, cases, args)]"""
    jobs = []
    for i, (variant, mode, cases, args) in enumerate(what):
        k = 1 if tier == "quick" else 25
        kw = {"limit": 3000} if k > 1 else {}
        jobs += spread("scale", variant, seed, cases * k, 1, (mode,), salt=20 + i, args=args, **kw)
    return jobs


def reg_plan(prop, modes, evaluations, distinct, rule, quick=70, variant="asan", assumptions=(), scale=()):
    @plan(prop, evaluations, distinct, rule, assumptions)
    def jobs(tier, seed):
        if tier == "quick":
            return spread("reg", variant, seed, quick, 8, modes) + scale_jobs(seed, tier, scale)
        return (scale_jobs(seed, tier, scale) + spread("reg", variant, seed, quick * 12, 8, modes, limit=3000)
                + spread("reg", "opt", seed, quick * 12, 8, modes, salt=1, limit=3000)
                + spread("reg", "rv3", seed, quick * 4, 8, modes, salt=2, limit=3000)
                + ([] if variant == "ubsan" else spread("reg", "ubsan", seed, quick * 4, 8, modes, salt=3, limit=3000)))


REG_RULE = ("A case is a random history (80 to 900 operations) over 1 to 3 registries, a random palette of component types and "
            "combinations and a random operation mix, compared with an executable model after every operation. ")

SCALE_RULE = ("Additional cases use one identifier 200000 to 17 million times, hold up to 200000 entities, have thousands of component "
              "sets over 160 component types, or fill 66000 storage blocks. ")

STATE_RULE = ("Evaluations: comparisons of everything observable about one entity with the model. Distinct: different "
              "abstract registry states (handles and component sets of all entities) seen.")

reg_plan("C01", ("general", "general", "commands", "transfer", "general", "view", "failure", "general"),
         ["entity_states_compared"], ["registry_states", "scale_histories"], REG_RULE + SCALE_RULE + STATE_RULE,
         scale=[("asan", "many", 2, {"n": 40000}), ("opt", "many", 4, {}), ("asan", "wide", 4, {}), ("opt", "huge", 1, {})],
         assumptions=["generations do not wrap around", "component type names do not collide"])
reg_plan("C02", ("handles", "reserve", "handles", "transfer", "commands", "handles", "general", "reserve"),
         ["entity_states_compared", "op_stale_handle", "op_destroy", "op_reserve", "handles_checked"], ["registry_states", "scale_histories"],
         REG_RULE + SCALE_RULE + "Every handle handed out is recorded for good; stale, foreign and invalid handles are used for every kind of "
         "operation. Evaluations: entity states compared, handles and handle operations checked. Distinct: abstract registry states.",
         scale=[("asan", "reuse", 10, {}), ("opt", "reuse", 24, {}), ("opt", "reuse", 1, {"n": 17000000}), ("opt", "many", 3, {})],
         assumptions=["generations do not wrap around"])
reg_plan("C03", ("view", "view", "general", "view", "view", "transfer", "view", "handles"),
         ["views_compared", "kept_views_iterated_again"], ["registry_states", "scale_histories"],
         REG_RULE + SCALE_RULE + "Every view form is compared with the set of matching entities. Evaluations: complete view iterations compared. "
         "Distinct: abstract registry states.", quick=80,
         scale=[("asan", "wide", 6, {}), ("opt", "wide", 20, {}), ("opt", "many", 4, {})])
reg_plan("C04", ("general", "transfer", "failure", "commands", "general", "transfer", "failure", "general"),
         ["entity_states_compared"], ["registry_states"],
         REG_RULE + "A ledger keyed by address follows every instrumented component object through construction, moves, assignment and "
         "destruction; each case ends with an empty ledger. Evaluations: entity states compared (every value is read through the "
         "ledger). Distinct: abstract registry states.")
reg_plan("C05", ("layout", "layout", "general", "layout", "view", "layout", "transfer", "layout"),
         ["layout_intervals_checked"], ["component_sets"],
         REG_RULE + "Component types have sizes 1 to 16 kB and alignments 1 to 4096. Evaluations: component and handle memory "
         "intervals checked for alignment, overlap and ownership. Distinct: different component sets laid out.",
         variant="ubsan", quick=60)
reg_plan("C06", ("failure", "failure", "failure", "commands", "failure", "transfer", "failure", "failure"),
         ["failed_operations", "command_failures_reported"], ["registry_states"],
         REG_RULE + "Evaluations: operations that were made to fail (dead handles, missing components, sets that do not fit, throwing "
         "constructors and copies, non-copyable components, failing commands), each followed by a comparison of the registries with "
         "the model. Distinct: abstract registry states.")
reg_plan("C07", ("transfer", "transfer", "transfer", "failure", "transfer", "transfer", "transfer", "general"),
         ["op_clone", "op_copy", "op_move"], ["registry_states"],
         REG_RULE + "Evaluations: clones, copies and moves, each followed by a comparison of both registries with the model. "
         "Distinct: abstract registry states.")


def conc_jobs(harness, prop_cases, seed, tier, thorough=12):
    """prop_cases: [(variant, processes, cases, threads, modes)]"""
    jobs = []
    for i, (variant, n, cases, threads, modes) in enumerate(prop_cases):
        if tier == "thorough":
            cases, kw = cases * thorough, {"limit": 3000}
        else:
            kw = {}
        jobs += spread(harness, variant, seed, cases, n, modes, salt=i, threads=threads, **kw)
    return jobs


CONC_RULE = ("The real code runs under a controlled scheduler (one thread at a time, a decision at every operation on an atomic, "
             "mutex, semaphore or thread, seeded random and priority-based strategies, loads may return stale values as far as the "
             "C++ memory model allows) with ThreadSanitizer or AddressSanitizer, and natively. ")


@plan("C10", ["tasks"], ["interleavings", "task_trees"],
      CONC_RULE + "A case is one or two pools with random trees of tasks, parents and waits. Evaluations: tasks executed and checked "
      "(count, callable, completion and visibility at every wait). Distinct: different schedules of the controlled executions plus "
      "different task trees.",
      ["at most 4096 unfinished tasks per submitting thread", "a task is submitted under a task that has not been reused"])
def c10(tier, seed):
    return conc_jobs("pool", [("simtsan", 5, 1500, 1, ("",)), ("simtsan", 2, 4, 1, ("long",)), ("simasan", 3, 1200, 1, ("",)),
                              ("opt", 2, 400, 4, ("", "")), ("asan", 1, 150, 4, ("",)), ("opt", 1, 8, 4, ("long",))], seed, tier)


@plan("C11", ["stolen", "popped"], ["interleavings", "outcomes"],
      CONC_RULE + "A case is one queue with an owner and up to several thieves; every value is pushed once. Evaluations: elements "
      "returned and checked. Distinct: different schedules and outcomes.")
def c11(tier, seed):
    return conc_jobs("deque", [("simtsan", 5, 6000, 1, ("",)), ("simasan", 2, 5000, 1, ("",)), ("opt", 2, 300, 4, ("",)),
                               ("asan", 1, 100, 4, ("",))], seed, tier)


@plan("C16", ["operations", "entries_checked", "maps_compared"], ["histories"],
      "A case is a random history over several hash maps of one instantiation (keys, values, hash functions - some constant or badly "
      "distributed -, initial sizes), with an ordinary map as the model and a ledger of element objects. Evaluations: operations and "
      "entries compared with the model. Distinct: different histories (digest of operations and outcomes).",
      ["element operations do not throw", "bucket counts are powers of two"])
def c16(tier, seed):
    return conc_jobs("hmap", [("ubsan", 6, 250, 1, ("",)), ("opt", 1, 2500, 1, ("",)), ("opta", 1, 2500, 1, ("",))], seed, tier)


@plan("C17", ["entries_checked", "sets_compared", "equal_pairs", "unequal_pairs", "maps_compared"], ["histories"],
      "A case is a random history over sparse maps of one key type (8 to 64 bits, extreme keys included) or over bit sets and component "
      "sets built in different ways, with ordinary maps and sets as models. Evaluations: entries, sets and pairs compared with the "
      "model. Distinct: different histories.")
def c17(tier, seed):
    return conc_jobs("sparse", [("ubsan", 6, 600, 1, ("",)), ("opt", 1, 2500, 1, ("",)), ("opta", 1, 2500, 1, ("",))], seed, tier)


@plan("C18", ["allocations", "frees", "refused", "exhaustions", "temp_operations"], ["histories"],
      "A case is a random sequence of allocations (sizes up to and beyond the buffer and close to overflow, all alignments), frees, "
      "resets and moves on linear and stack allocators over buffers of random length and misalignment, or of temporary allocations on "
      "several threads; returned memory is filled with patterns that are verified later. Evaluations: allocations, frees and refusals "
      "checked. Distinct: different histories.")
def c18(tier, seed):
    return conc_jobs("alloc", [("ubsan", 5, 8000, 1, ("",)), ("opt", 1, 20000, 1, ("",)), ("opta", 1, 20000, 1, ("",)),
                               ("ubsan", 1, 3000, 1, ("temp",))], seed, tier)


CONC_REG = ("A case is up to four rounds on one registry: direct changes, then up to seven threads (ending, staying, or tasks of a pool) at "
            "the same time, then the flush or synchronisation; every handle, component and view is compared with a model of what was "
            "recorded before and after. ")


@plan("C08", ["commands", "commands_applied", "command_failures_reported"], ["histories", "registry_states", "interleavings"],
      CONC_RULE + CONC_REG + "Single-threaded histories come from the registry engine. Evaluations: recorded commands whose effect was "
      "predicted and compared. Distinct: histories, registry states and schedules.",
      ["commands of different threads concern different entities", "one registry at a time has commands outstanding"])
def c08(tier, seed):
    k = 1 if tier == "quick" else 12
    return (spread("reg", "asan", seed, 50 * k, 3, ("commands",), salt=9, **({"limit": 3000} if k > 1 else {}))
            + conc_jobs("conc_reg", [("simtsan", 3, 900, 1, ("commands",)), ("simasan", 1, 900, 1, ("commands",)),
                                     ("asan", 1, 400, 4, ("commands",)), ("tsan", 1, 400, 4, ("commands",)),
                                     ("opt", 1, 2000, 4, ("commands",))], seed, tier))


@plan("C09", ["reservations", "placeholders_used", "op_reserve", "op_sync", "reservations_filled"], ["histories", "registry_states", "interleavings"],
      CONC_RULE + CONC_REG + "Single-threaded histories come from the registry engine. Evaluations: reservations checked for uniqueness, "
      "liveness and use. Distinct: histories, registry states and schedules.",
      ["generations do not wrap around"])
def c09(tier, seed):
    k = 1 if tier == "quick" else 12
    return (spread("reg", "asan", seed, 60 * k, 3, ("reserve",), salt=9, **({"limit": 3000} if k > 1 else {}))
            + scale_jobs(seed, tier, [("opt", "many", 5, {})])
            + conc_jobs("conc_reg", [("simtsan", 3, 1200, 1, ("reserve",)), ("simasan", 1, 1200, 1, ("reserve",)),
                                     ("asan", 1, 200, 4, ("reserve",)), ("tsan", 1, 150, 4, ("reserve",)),
                                     ("opt", 1, 1500, 4, ("reserve",))], seed, tier))


@plan("C15", ["reads", "writes", "states_compared"], ["histories", "interleavings"],
      CONC_RULE + CONC_REG + "Threads read everything through the const interface, reserve, record, write different components or different "
      "entities, or work on registries of their own (component types used for the first time included). Evaluations: reads compared "
      "with the state before the phase, writes compared after it. Distinct: histories and schedules.")
def c15(tier, seed):
    return conc_jobs("conc_reg", [("simtsan", 4, 1500, 1, ("read",)), ("simasan", 1, 1500, 1, ("read",)), ("tsan", 2, 800, 4, ("read",)),
                                  ("asan", 1, 600, 4, ("read",)), ("opt", 1, 3000, 4, ("read",))], seed, tier)


@plan("C12", ["calls"], ["interleavings", "loop_shapes"],
      CONC_RULE + "A case is a pool with parallel loops over ranges and views of different lengths, constness and nesting (inside tasks "
      "and other loops), or one range of up to 12 million elements. Evaluations: calls of the function, each counted and checked against the element it was given. Distinct: "
      "schedules of the controlled executions and shapes of loops.",
      ["parallel loops are started from threads of the pool", "the function does not throw"])
def c12(tier, seed):
    return conc_jobs("pfor", [("simtsan", 5, 450, 1, ("",)), ("simasan", 1, 600, 1, ("",)), ("asan", 1, 800, 4, ("",)),
                              ("opt", 2, 3000, 4, ("",)), ("opta", 1, 2000, 4, ("",)), ("opt", 1, 40, 4, ("big",)), ("asan", 1, 12, 4, ("big",))], seed, tier)


SCHED_RULE = (CONC_RULE + "A case is a random schedule (initialisation systems, up to four stages, 27 signatures of views, registry, command "
              "writers and arguments of the user's own, worker and main-thread systems, functions and wrapped systems) with one to three "
              "executors on one or more registries that run several times. ")


@plan("C13", ["system_runs", "schedule_runs"], ["interleavings", "schedules"],
      SCHED_RULE + "Every system records its runs and checks what it sees of earlier stages; the registry is compared with the model after "
      "every run. Evaluations: system runs checked and schedule runs compared. Distinct: controlled schedules and different schedules "
      "built.", ["systems do not throw", "no commands of other registries are outstanding while an executor runs"])
def c13(tier, seed):
    return conc_jobs("sched", [("simtsan", 5, 450, 1, ("",)), ("simasan", 1, 500, 1, ("",)), ("asan", 1, 900, 4, ("",)),
                               ("opt", 1, 3000, 4, ("",)), ("opta", 1, 2500, 4, ("",))], seed, tier)


@plan("C14", ["system_runs", "overlapping_pairs"], ["interleavings", "schedules"],
      SCHED_RULE + "Every system checks, when it starts, which other systems are running, and announces itself before it does. Evaluations: "
      "system runs and overlapping pairs checked for conflicting access. Distinct: controlled schedules and different schedules built.",
      ["systems access only what their arguments declare"])
def c14(tier, seed):
    return conc_jobs("sched", [("simtsan", 5, 450, 1, ("",)), ("simasan", 1, 500, 1, ("",)), ("asan", 1, 900, 4, ("",)),
                               ("opt", 1, 3000, 4, ("",)), ("opta", 1, 2500, 4, ("",))], seed, tier)


@plan("C19", ["ids_compared", "values_compared"], ["load_histories"],
      "A case is a fresh process: one of four executables (different link orders), three linked and three dlopened libraries (random "
      "order, flags and moment), ten parts that know different subsets of 43 + 1200 component types, with registries already used while "
      "the parts are initialised. Registries are made, filled, queried, modified and freed by random parts and compared with a model. "
      "Evaluations: ids and values compared. Distinct: histories of loading and resulting ids.",
      ["distinct types have distinct names", "libraries stay loaded", "commands are flushed by the binary that recorded them if symbols "
       "are hidden"])
def c19(tier, seed):
    e = {"env": {"ASAN_OPTIONS": "detect_leaks=0:detect_odr_violation=0:exitcode=99"}}
    k = 1 if tier == "quick" else 15
    kw = dict(e, **({"limit": 3000} if k > 1 else {}))
    return (spread("ident", "hidden", seed, 60 * k, 4, salt=1, **kw) + spread("ident", "opt0", seed, 150 * k, 4, salt=4, **kw)
            + (spread("ident", "opt", seed, 250, 2, salt=3, **kw) + spread("ident", "hidden2", seed, 250 * k, 2, salt=2, **kw)
               + spread("ident", "asan", seed, 50 * k, 2, **kw) if k > 1 else []))


@plan("C20", ["rounds_measured", "component_set_block_counts_checked"], ["workloads", "registry_states"],
      "A case repeats a bounded workload (one to four of 14 activities: entity and component churn, failing operations, moves between "
      "registries, reservations, commands of running and ended threads, tasks, parallel loops, schedules, pools, registries) for hundreds "
      "of rounds that each leave the same entities; bytes and blocks allocated, live component objects, threads and entities are compared "
      "between rounds. The registry engine compares the number of storage blocks of component sets with what their entities need. "
      "Evaluations: rounds measured and block counts compared. Distinct: workloads and registry states.",
      ["memory obtained by other means than operator new is not measured"])
def c20(tier, seed):
    k = 1 if tier == "quick" else 12
    kw = {"limit": 3000} if k > 1 else {}
    return (spread("reg", "asan", seed, 40 * k, 4, ("general", "transfer", "failure", "commands"), salt=9, **kw)
            + conc_jobs("churn", [("opt", 2, 90, 2, ("",)), ("opta", 1, 60, 2, ("",)), ("asan", 1, 12, 2, ("",))], seed, tier))
