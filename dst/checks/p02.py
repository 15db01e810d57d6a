"""P02: the same computation with freshly allocated memory holding four different kinds of garbage."""
import traceback

from dst import core, data, seams, work

RUNS = dict(quick=20000, thorough=1500000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: allocator fault injection (adversarial contents of fresh memory)"
LEVEL_NOTE = "Seeded search over computations, inputs and input lengths; every run is repeated under four allocator fill patterns and must give identical results; array reads outside bounds are reported too"
RULE = "a run counts when at least one allocation made by the library was filled with garbage; distinct by computation and input"
MEASURE = "distinct (computation, parameters, input tape) whose execution allocated uninitialised memory"
REAL = ["every numerical routine, transform, feature kit, bar builder, label kit and trade preprocessing of finmlkit (interpreted source)", "numpy", "pandas"]
STUB = ["Numba's compiler", "the memory allocator behind numpy.empty / numpy.empty_like (contents chosen by the simulator)"]
ASSUMPTIONS = ["uninitialised memory enters only through numpy.empty, numpy.empty_like, numpy.ndarray and reads outside array bounds (an index outside bounds raises in the interpreted kernel)"]
SHRINK_LISTS = ("ops", "cuts", "ev", "specs", "methods")
SHRINK_MIN = {"specs": 1, "methods": 1}
CPU_LIMIT = 60


def setup(scratch):
    seams.install()


def gen(rng, tier, idx):
    n = rng.choice([0, 0, 1, 1, 2, 2, 3, 4, 5, 7, 9, 12, 16, 24, 32 if tier == "quick" else 80])
    job = work.gen_job(rng, n)
    n = max(n, work.min_n(job))
    return dict(job=job, tape=data.gen_tape(rng, n))


def valid_plan(p):
    return len(p["tape"]["ops"]) >= work.min_n(p["job"])


def _in_kernel(e):
    tb = e.__traceback__
    codes = {k.func.__code__ for k in seams.KERNELS.values()}
    last = None
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(core.REPO):
            last = tb.tb_frame.f_code
        tb = tb.tb_next
    return last in codes


def execute(run):
    pl = run.plan
    job = pl["job"]
    d = data.D(pl["tape"])
    if work.too_big(job, d, None):
        return
    name = work.label(job)
    run.sig(repr(job), repr(pl["tape"]))
    outs = []
    for w in range(4):
        before = seams.POISON_STATS["fills"]
        try:
            shared = work.prepared(job, data.D(pl["tape"]))
        except Exception as e:          # the input itself is refused
            shared = None
            o = ["raised", type(e).__name__]
        if shared is not None:
            with seams.poisoned(w):
                o = work.outcome(job, d, shared)
        fills = seams.POISON_STATS["fills"] - before
        if fills:
            run.nontrivial = True
            run.fault(f"garbage-{w}", fills)
        if o[0] == "raised":
            if len(o) > 2 and o[1] == "IndexError" and _in_kernel(o[2]):
                raise core.Violation(f"out-of-bounds:{name}", f"{job}: {o[2]}\n{core.tb_tail(o[2])}")
            o = o[:2]
            run.probe("raised:" + job["kind"])
        outs.append(o)
        run.log(w, o[0])
    for w in range(1, 4):
        run.sub += 1
        df = data.same(outs[0], outs[w], rtol=1e-12)
        if df:
            raise core.Violation(f"memory-dependent:{name}", f"{job}: garbage pattern 0 vs {w}: {df}")
