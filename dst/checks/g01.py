"""G01: lifetimes of a logging process under a simulated clock, a disk and console that fail, crashes at storage operations, and callers
that ask for loggers at the same time; what reached the console, the log files and the application's own handlers is compared with a model."""
import io
import logging
import logging.handlers
import os
import re
import shutil
import sys
import time as _time
import types

import dotenv.main

from dst import baton, core, data, fresh, seams, work

RUNS = dict(quick=12000, thorough=600000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: simulated clock, log disk and console with injected faults, crashes at storage operations, seeded caller threads"
LEVEL_NOTE = "Seeded search over logging configurations, process lifetimes, clock movements, disk and console faults, crash points and concurrent first users; the records that reached each sink are compared with a reference model"
RULE = "a run counts when at least one record was due at a sink and every sink was compared with the model; distinct by configuration, history, faults and schedule"
MEASURE = "distinct (configuration, lifetimes, fault and crash placement, caller schedule)"
REAL = ["finmlkit.utils.log (interpreted source)", "the logging of the computations run", "Python's logging and its rotating file handler", "python-dotenv"]
STUB = ["the clock of the logging package", "opening, writing and renaming log files (they fail and crash where the run says)", "the console stream", "the thread scheduler"]
ASSUMPTIONS = ["one process at a time writes a log file", "log lines are durable once written (no power loss)"]
SHRINK_LISTS = ("lives", "ev", "first", "ops")
SHRINK_MIN = {"lives": 1, "first": 1}
CPU_LIMIT = 60

NAMES = ["finmlkit.bar.io", "finmlkit.label.kit", "finmlkit", "myapp", "myapp.part", "numba.core", "urllib3"]
LOUD = ("numba", "matplotlib", "pandas", "numpy", "urllib3")
LEVELS = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}
ZONES = ["UTC", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30"]
T0 = 1709895600                                                   # 2024-03-08 11:00 UTC
TOKEN = re.compile(r"<(\d+)>")
BIG = "x" * 9000


class SimOut(io.StringIO):
    """The console."""
    down = False

    def write(self, s):
        if WORLD["gone"]:
            raise core.SimCrash()
        if self.down:
            WORLD["run"].fault("console-write")
            raise BrokenPipeError(32, "simulated: broken pipe")
        return super().write(s)


WORLD = dict(run=None, now=0.0, disk=None, crash=None, files=[], gone=False, ops=0)


def _io(op):
    """A storage operation of the log files."""
    w = WORLD
    w["ops"] += 1
    if w["gone"]:
        raise core.SimCrash()
    if w["crash"] == w["ops"]:
        w["crash"], w["gone"] = None, True
        w["run"].fault("crash@" + op)
        raise core.SimCrash()
    if w["disk"] == op or w["disk"] == "all":
        w["run"].fault("disk@" + op)
        raise OSError(28, "simulated: no space left on device")


class SimRaw(io.FileIO):
    dead = False

    def write(self, b):
        if self.dead:
            return len(b)
        _io("write")
        n = super().write(b)
        os.utime(self.fileno(), (WORLD["now"], WORLD["now"]))
        return n


def sim_open(path, mode="r", buffering=-1, encoding=None, errors=None, **k):
    if "b" in mode or "r" in mode:
        return open(path, mode, buffering, encoding, errors, **k)
    _io("open")
    new = not os.path.exists(path)
    raw = SimRaw(path, mode.replace("t", ""))
    if new:
        os.utime(raw.fileno(), (WORLD["now"], WORLD["now"]))
    f = io.TextIOWrapper(io.BufferedWriter(raw), encoding=encoding, errors=errors, newline=k.get("newline"), write_through=False)
    WORLD["files"].append((raw, f))
    return f


class SimOS:
    def __getattr__(self, a):
        return getattr(os, a)

    @staticmethod
    def rename(a, b):
        _io("rename")
        return os.rename(a, b)

    @staticmethod
    def replace(a, b):
        _io("rename")
        return os.replace(a, b)

    @staticmethod
    def remove(a):
        _io("remove")
        return os.remove(a)
    unlink = remove


class Clock:
    """The time module as the logging package sees it."""
    def __getattr__(self, a):
        return getattr(_time, a)

    @staticmethod
    def time():
        return WORLD["now"]

    @staticmethod
    def time_ns():
        return int(WORLD["now"] * 10 ** 9)

    @staticmethod
    def localtime(t=None):
        return _time.localtime(WORLD["now"] if t is None else t)

    @staticmethod
    def gmtime(t=None):
        return _time.gmtime(WORLD["now"] if t is None else t)

    @staticmethod
    def strftime(f, t=None):
        return _time.strftime(f, _time.localtime(WORLD["now"]) if t is None else t)


LOG = None


def setup(scratch):
    global LOG
    seams.install()
    import finmlkit.utils.log as LOG_
    LOG = LOG_
    baton.instrument({k.func.__code__ for k in seams.KERNELS.values()})
    work.trades_data(data.D(data.gen_tape(__import__("random").Random(1), 3)))


def _level(rng, default):
    return rng.choice([None, None, "DEBUG", "INFO", "WARNING", "ERROR", "debug", "Warning"])


def gen(rng, tier, idx):
    faulty = rng.random() < 0.4
    lives = []
    for li in range(rng.choice([1, 1, 2, 3, 5 if tier == "quick" else 9])):
        life = dict(gap=rng.choice([0, 0, 1, 600, 40000, 90000, 200000, 700000]) if li else rng.choice([0, 3600, 46000, 100000]),
                    env=[rng.choice(["os", "os", "os", "file", "both"]) for _ in range(3)], file=rng.random() < 0.85, flevel=_level(rng, 0), clevel=_level(rng, 0),
                    app=rng.choice(["no"] * 6 + ["handler", "null"]),
                    first=[dict(name=rng.randrange(len(NAMES)), lv=rng.randrange(5)) for _ in range(rng.choice([1, 1, 2, 3]))],
                    ev=[], end=rng.choice(["exit", "exit", "kill"]), crash=rng.choice([0, 0, 0, 1, 2, 3, 5, 9]) if faulty else 0)
        if li and faulty and rng.random() < 0.1:
            life["gap"] = -rng.choice([10, 5000, 90000])
        for _ in range(rng.choice([0, 2, 4, 8, 14])):
            r = rng.random()
            if r < 0.55:
                life["ev"].append(dict(k="log", name=rng.randrange(len(NAMES)), lv=rng.randrange(5), big=rng.random() < 0.08))
            elif r < 0.8:
                life["ev"].append(dict(k="tick", s=rng.choice([0.5, 1, 30, 3600, 20000, 86399, 86400, 172800, 600000])))
            elif r < 0.9:
                life["ev"].append(dict(k="get", n=rng.choice([1, 2, 3])))
            elif faulty:
                life["ev"].append(dict(k="fault", what=rng.choice(["write", "open", "rename", "remove", "all", "console", "none", "none"])))
            if rng.random() < 0.03:
                life["ev"].append(dict(k="job"))
        lives.append(life)
    return dict(lives=lives, zone=rng.randrange(3), path=rng.choice(["abs", "abs", "deep", "plain", "rel"]), faulty=faulty,
                job=work.gen_job(rng, 8, ["bars", "trades", "kit", "label"]), tape=data.gen_tape(rng, 8))


def valid_plan(p):
    return len(p["tape"]["ops"]) >= work.min_n(p["job"]) and all(l["first"] for l in p["lives"])


def _bad(kind, text):
    raise core.Violation(kind, text)


class AppHandler(logging.Handler):
    def __init__(self):
        super().__init__(level=logging.WARNING)
        self.seen = []

    def emit(self, record):
        self.seen.append(record.getMessage())


def _fresh():
    """Logging as a new process finds it."""
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.setLevel(logging.WARNING)
    root.propagate = True
    root.disabled = False
    for lg in list(logging.Logger.manager.loggerDict.values()):
        if isinstance(lg, logging.Logger):
            lg.handlers.clear()
            lg.filters.clear()
            lg.setLevel(logging.NOTSET)
            lg.propagate, lg.disabled = True, False
    logging.disable(logging.NOTSET)


def execute(run):
    root = logging.getLogger()
    kept = dict(h=list(root.handlers), lv=root.level, out=sys.stdout, err=sys.stderr, cwd=os.getcwd(), lt=logging.time, ht=logging.handlers.time,
                ho=logging.handlers.os, dot=dotenv.main.find_dotenv, tz=os.environ.get("TZ"))
    env = {k: os.environ.pop(k, None) for k in ("FMK_LOG_FILE_PATH", "FMK_FILE_LOGGER_LEVEL", "FMK_CONSOLE_LOGGER_LEVEL")}
    dirp = os.path.join(run.scratch, "logs")
    shutil.rmtree(dirp, ignore_errors=True)
    os.makedirs(dirp)
    try:
        _fresh()
        os.chdir(dirp)
        os.environ["TZ"] = ZONES[run.plan["zone"]]
        _time.tzset()
        logging.time = logging.handlers.time = Clock()
        logging.handlers.os = SimOS()
        logging.open = sim_open
        sys.stderr = io.StringIO()
        dotenv.main.find_dotenv = lambda *a, **k: os.path.join(run.scratch, "logs.env")
        WORLD.update(run=run, now=float(T0), disk=None, crash=None, files=[], ops=0)
        _lives(run, dirp)
    finally:
        _end_process(False)
        sys.stdout, sys.stderr = kept["out"], kept["err"]
        logging.time, logging.handlers.time, logging.handlers.os = kept["lt"], kept["ht"], kept["ho"]
        del logging.open
        dotenv.main.find_dotenv = kept["dot"]
        os.chdir(kept["cwd"])
        if kept["tz"] is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = kept["tz"]
        _time.tzset()
        for k, v in env.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        _fresh()
        for h in kept["h"]:
            root.addHandler(h)
        root.setLevel(kept["lv"])
        shutil.rmtree(dirp, ignore_errors=True)


def _end_process(clean):
    WORLD["disk"] = WORLD["crash"] = None
    WORLD["gone"] = False
    if not clean:
        for raw, _ in WORLD["files"]:
            raw.dead = True
    for h in list(logging.getLogger().handlers):
        try:
            if clean:
                h.flush()
                h.close()
        except (OSError, ValueError):
            pass
    for raw, f in WORLD["files"]:
        raw.dead = True
        try:
            f.close()
        except (OSError, ValueError):
            pass
    WORLD["files"] = []
    fresh.restore()
    _fresh()


def _day():
    return _time.strftime("%Y-%m-%d", _time.localtime(WORLD["now"]))


def _path(kind, dirp):
    return {"abs": os.path.join(dirp, "fmk.log"), "deep": os.path.join(dirp, "a", "b", "fmk.log"), "plain": "fmk.log", "rel": "sub/fmk.log"}[kind]


def _eff(v, default):
    return LEVELS[(v or default).upper()]


def _lives(run, dirp):
    pl = run.plan
    path = _path(pl["path"], dirp)
    base = os.path.abspath(path)
    run.sig(repr(pl))
    filed = []                      # (token, day, due: True due once, False may be missing)
    token = [0]
    lines = {}                      # token: logger, level, local time
    strict = True                   # no disk fault and no backward clock so far
    for li, life in enumerate(pl["lives"]):
        if life["gap"] < 0:
            strict = False
            run.fault("clock-back")
        WORLD["now"] += life["gap"]
        run.sim_ns += int(abs(life["gap"]) * 10 ** 9)
        out = sys.stdout = SimOut()
        use_file = life["file"]
        dot = []                    # the settings file of the project; the environment goes first
        for (k, v), how in zip((("FMK_LOG_FILE_PATH", path if use_file else None), ("FMK_FILE_LOGGER_LEVEL", life["flevel"]), ("FMK_CONSOLE_LOGGER_LEVEL", life["clevel"])), life["env"]):
            os.environ.pop(k, None)
            if v is not None:
                if how != "file":
                    os.environ[k] = v
                if how != "os":
                    dot.append(f"{k}={v if how == 'file' else 'ERROR'}")
                    run.probe("settings-file")
        with open(os.path.join(os.path.dirname(dirp), "logs.env"), "w") as f:
            f.write("\n".join(dot) + "\n")
        fl, cl = _eff(life["flevel"], "DEBUG"), _eff(life["clevel"], "INFO")
        app = None
        if life["app"] != "no":
            app = AppHandler() if life["app"] == "handler" else logging.NullHandler()
            logging.getLogger().addHandler(app)
            run.probe("application-configured")
        shown, tolds = [], []       # console and application expectations: (token, due)
        state = dict(console=True, disk=True, app=True)
        crashed = False

        def emit(name, lv, big=False, lg=None):
            token[0] += 1
            lines[token[0]] = (NAMES[name], list(LEVELS)[lv], _time.strftime("%Y-%m-%d %H:%M:%S", _time.localtime(WORLD["now"])))
            t, lvl = token[0], list(LEVELS.values())[lv]
            cells = []
            loud = NAMES[name].split(".")[0] in LOUD
            if app is None:
                if lvl >= cl and not (loud and lvl < 30):
                    shown.append([t, False])
                    cells.append((shown[-1], "console"))
                if use_file and lvl >= fl and not (loud and lvl < 30):
                    filed.append([t, _day(), False])
                    cells.append((filed[-1], "disk"))
            elif lvl >= 30:
                tolds.append([t, False])
                cells.append((tolds[-1], "app"))
            (lg or logging.getLogger(NAMES[name])).log(lvl, "<%d>" + (BIG if big else ""), t)
            for cell, where in cells:
                cell[-1] = state[where]
            run.log("log", t, lvl)

        def first(f):
            def go():
                lg = LOG.get_logger(NAMES[f["name"]])
                if lg is not logging.getLogger(NAMES[f["name"]]):
                    return "other logger"
                emit(f["name"], f["lv"], lg=lg)
            return go

        def ask(n):
            def go():
                return None if LOG.get_logger(NAMES[n]).name == NAMES[n] else "other logger"
            return go
        WORLD["crash"] = WORLD["ops"] + life["crash"] if life["crash"] and use_file and app is None else None
        try:
            team = baton.Team(run, max_switch=120)
            got = team.go([first(f) for f in life["first"]]) if len(life["first"]) > 1 else [_solo(first(life["first"][0]))]
            if len(life["first"]) > 1:
                run.fault("preemption", max(0, team.switches - len(life["first"])))
            _answers(got, f"the first {len(life['first'])} users of life {li} (path {path if use_file else None!r})")
            for e in life["ev"]:
                if e["k"] == "tick":
                    WORLD["now"] += e["s"]
                    run.sim_ns += int(e["s"] * 10 ** 9)
                elif e["k"] == "log":
                    _answers([_solo(lambda: emit(e["name"], e["lv"], e["big"]))], f"a record in life {li}")
                elif e["k"] == "get":
                    team = baton.Team(run, max_switch=60)
                    _answers(team.go([ask((i * 3 + e["n"]) % len(NAMES)) for i in range(e["n"])]), "a later request for a logger")
                elif e["k"] == "fault":
                    if e["what"] == "console":
                        out.down, state["console"] = True, False
                    elif e["what"] == "none":
                        out.down, state["console"], state["disk"] = False, True, True
                        WORLD["disk"] = None
                    else:
                        WORLD["disk"], state["disk"] = e["what"], False
                        strict = False
                else:
                    _job(run, pl, state)
        except core.SimCrash:
            crashed = True
            run.probe("crashed")
        run.sub += 1
        if not crashed:
            out.down, state["console"], state["disk"] = False, True, True
            WORLD["disk"] = None
            try:
                _answers([_solo(lambda: emit(3, 4))], "a record after the faults have stopped")
            except core.SimCrash:
                crashed = True
        text = out.getvalue()
        _lines(text, lines, 2, f"console of life {li}")
        _console(text, shown, f"life {li}: console level {life['clevel']}, file level {life['flevel']}, file {use_file}, application {life['app']}")
        if app is not None:
            mine = [h for h in logging.getLogger().handlers if h is not app]
            if mine:
                _bad("application-handlers", f"life {li}: logging the application had configured got {mine}")
            if logging.getLogger().level != logging.WARNING:
                _bad("application-level", f"life {li}: the application's root level became {logging.getLogger().level}")
            if isinstance(app, AppHandler):
                _console("\n".join(app.seen), tolds, f"life {li}: the application's handler")
        if shown or filed or tolds:
            run.nontrivial = True
        _end_process(life["end"] == "exit" and not crashed)
        _files(base, filed, strict, f"after life {li}", lines)
    run.log("files", sorted(os.path.relpath(os.path.join(d, f), dirp) for d, _, fs in os.walk(dirp) for f in fs))


def _solo(fn):
    try:
        return fn()
    except (core.SimCrash, core.Violation):
        raise
    except Exception as e:
        return ["raised", type(e).__name__, e]


def _answers(got, what):
    for g in got:
        if isinstance(g, list) and g[0] == "raised":
            if isinstance(g[2], (core.SimCrash, core.Violation, core.HarnessError)):
                raise g[2]
            _bad(f"raised:{g[1]}", f"{what}: {g[1]}: {g[2]}\n{core.tb_tail(g[2])}")
        if isinstance(g, str):
            _bad("wrong-logger", f"{what}: {g}")


def _console(text, want, what):
    got = [int(x) for x in TOKEN.findall(text)]
    due = {t for t, d in want if d}
    may = {t for t, _ in want}
    for t in sorted(set(got)):
        if got.count(t) > 1:
            _bad("twice", f"{what}: record {t} appears {got.count(t)} times")
        if t not in may:
            _bad("below-level", f"{what}: record {t} is not due there")
    miss = due - set(got)
    if miss:
        _bad("missing", f"{what}: records {sorted(miss)[:5]} are missing")


def _lines(text, lines, n, what):
    for ln in text.splitlines():
        for t in TOKEN.findall(ln):
            if int(t) in lines and not all(x in ln for x in lines[int(t)][:n]):
                _bad("line", f"{what}: {ln[:120]!r} does not say {lines[int(t)][:n]}")


def _files(base, filed, strict, what, lines):
    d = os.path.dirname(base)
    files = {}
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.startswith("fmk.log"):
                with open(os.path.join(d, f), encoding="utf-8", errors="replace") as h:
                    text = h.read()
                files[f] = [int(x) for x in TOKEN.findall(text)]
                _lines(text, lines, 3, f"{what}: {f}")
            elif not os.path.isdir(os.path.join(d, f)):
                _bad("stray-file", f"{what}: {f}")
    day = {t: dd for t, dd, _ in filed}
    allt = [t for v in files.values() for t in v]
    for t in sorted(set(allt)):
        if allt.count(t) > 1:
            _bad("file-twice", f"{what}: record {t} is in the log files {allt.count(t)} times")
        if t not in day:
            _bad("file-not-due", f"{what}: record {t} is in the log files but not due there")
    days = sorted(set(day.values()))
    if not strict:
        # after a disk fault or a clock set back files may hold several days: nothing written in good times is lost within a week
        if len(days) <= 7:
            miss = [t for t, _, due in filed if due and t not in allt]
            if miss:
                _bad("file-lost", f"{what}: records {miss[:5]} are in no log file")
        return
    if len(files) > 8:
        _bad("not-pruned", f"{what}: {len(files)} log files")
    for f, ts in files.items():
        dd = sorted({day[t] for t in ts})
        if len(dd) > 1:
            _bad("days-mixed", f"{what}: {f} holds records of {dd}")
        m = re.match(r"^fmk\.log\.(\d{4}-\d{2}-\d{2})$", f)
        if f != "fmk.log" and not m:
            _bad("file-name", f"{what}: {f}")
        if m and dd and dd[0] != m.group(1):
            _bad("file-day", f"{what}: {f} holds records of {dd[0]}")
    recent = days[-7:]
    miss = [(t, dd) for t, dd, due in filed if due and dd in recent and t not in allt]
    if miss:
        _bad("file-missing", f"{what}: records {miss[:5]} are in no log file ({ {f: len(v) for f, v in files.items()} })")


def _job(run, pl, state):
    """A computation gives the same result whatever its log records meet."""
    d = data.D(pl["tape"])
    job = pl["job"]
    if work.too_big(job, d, None):
        return
    kept = WORLD["crash"]
    WORLD["crash"] = None
    lv = logging.root.manager.disable
    try:
        logging.disable(100)
        want = work.outcome(job, d)
    finally:
        logging.disable(lv)
    got = work.outcome(job, d)
    WORLD["crash"] = kept
    run.sub += 1
    run.probe(f"job:{want[0]}")
    df = data.same(want[:2], got[:2], rtol=0)
    if df:
        _bad("job-changed", f"{work.label(job)} with logging {state}: {df}")
