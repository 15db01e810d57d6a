"""P01: parallel loops under a simulated thread team with seeded chunking and interleaving, against sequential execution."""
from dst import catalog, core, data, seams

RUNS = dict(quick=60000, thorough=5000000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded thread-team scheduler over the parallel loops"
LEVEL_NOTE = ("Seeded search over thread counts, chunkings and preemption points of every parallel loop, compared with sequential execution of the same source; "
              "assumes sequentially consistent element accesses and that the compiled loops follow the source")
RULE = ("a run counts when a simulated team of at least two threads executed a loop of the library; runs are distinct when the sequence of "
        "(thread, quantum) scheduling decisions, the routine and the plan differ")
MEASURE = "distinct (routine, plan, schedule) signatures; every scheduling decision is in the signature"
REAL = ["every numerical routine of finmlkit (interpreted Python source, the same functions Numba compiles)", "numpy"]
STUB = ["Numba's compiler and its OpenMP/workqueue thread team (replaced by the simulated team: seeded static/dynamic/random chunks, preemption before every memory access, "
        "read-modify-write split into load and store, per-thread partials for scalar reductions)"]
ASSUMPTIONS = ["single element loads and stores are atomic and sequentially consistent (no torn 8-byte writes, no weak-memory reordering)",
               "scalar reduction variables are recognised as Numba does (augmented assignment in a prange body) and combined per thread; float results are compared to 1e-9 relative",
               "whole-array operations inside an iteration are one step"]
SHRINK_LISTS = ("ops", "cuts", "ev")
CPU_LIMIT = 60
_PAR = []
SCHEDULES = 3


def setup(scratch):
    import random
    seams.install()
    # which routines run loops on several threads in the code as it is now
    for name in catalog.names():
        e = catalog.ENTRIES[name]
        for s in range(4):
            rng = random.Random(s)
            tape = data.gen_tape(rng, 24)
            p = e.gen(rng, 24)
            before = seams.PRANGE_STATS["loops"]
            with seams.simulating(core.Run({}, s)):
                catalog.outcome(e, data.D(tape), p)
            if seams.PRANGE_STATS["loops"] > before:
                _PAR.append(name)
                break


def gen(rng, tier, idx):
    if _PAR and rng.random() < 0.92:
        name = rng.choice(_PAR)
    else:
        name = rng.choice(catalog.names())
    e = catalog.ENTRIES[name]
    n = max(e.min_n, rng.choice([1, 2, 3, 5, 8, 12, 16, 24, 32, 40 if tier == "quick" else 90]))
    return dict(entry=name, tape=data.gen_tape(rng, n), p=e.gen(rng, n), poison=rng.randrange(4))


def valid_plan(p):
    return len(p["tape"]["ops"]) >= catalog.ENTRIES[p["entry"]].min_n


def execute(run):
    pl = run.plan
    e = catalog.ENTRIES[pl["entry"]]
    with seams.poisoned(pl["poison"]):
        base = catalog.outcome(e, data.D(pl["tape"]), pl["p"])
    run.sig(pl["entry"], len(pl["tape"]["ops"]), pl["tape"]["t0"])
    run.probe("result:" + base[0])
    for s in range(SCHEDULES):
        before = seams.PRANGE_STATS["multi"], seams.PRANGE_STATS["switches"]
        with seams.simulating(run, pl["poison"]):
            got = catalog.outcome(e, data.D(pl["tape"]), pl["p"])
        if seams.PRANGE_STATS["multi"] == before[0]:
            if s == 0:
                run.probe("no-team")
            break
        run.fault("preemption", seams.PRANGE_STATS["switches"] - before[1])
        run.log("schedule", s, got[0])
        run.sub += 1
        d = data.same(list(base), list(got))
        if d:
            raise core.Violation(f"schedule-dependent:{pl['entry']}", f"{pl['entry']}({pl['p']}) sequential vs simulated team: {d}")
