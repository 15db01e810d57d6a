"""Seams installed before finmlkit is imported.

* numba.njit / jit / prange : interpreted execution; loops that the library runs on several threads
  (parallel=True with prange) are executed by a simulated thread team whose chunking and interleaving
  the run decides (prange_sim).
* numpy.empty / empty_like  : allocations made by finmlkit code are filled with adversarial garbage
  on demand (the simulated allocator).
* logging                   : records captured, no console.
"""
import ast
import functools
import inspect
import logging
import sys
import textwrap

import numpy as np

from . import core

# ---------------------------------------------------------------------------
KERNELS = {}           # qualified name -> Kernel
STATE = dict(run=None, mode="raw", poison=None, alloc_fail=None)
PRANGE_STATS = dict(loops=0, switches=0, multi=0)


class Kernel:
    def __init__(self, func, opts):
        self.func, self.opts = func, opts
        self.name = f"{func.__module__}.{func.__qualname__}"
        self._gen = None
        self._sim = None
        self._has = None

    @property
    def parallel(self):
        return bool(self.opts.get("parallel"))

    def has_prange(self):
        if self._has is None:
            try:
                t = _tree(self.func)
                self._has = any(isinstance(n, ast.For) and _is_prange(n.iter) for n in ast.walk(t))
            except (OSError, TypeError, SyntaxError):
                self._has = False
        return self._has

    def sim(self):
        if self._sim is None:
            self._sim = _compile(self, simulate=True)
        return self._sim

    def gen(self):
        if self._gen is None:
            self._gen = _compile(self, simulate=False)
        return self._gen


def _my_njit(*args, **opts):
    def deco(func):
        if not inspect.isfunction(func):
            return func
        k = Kernel(func, opts)
        KERNELS[k.name] = k
        if not (k.parallel and func.__closure__ is None):
            func.__dst_kernel__ = k
            return func

        @functools.wraps(func)
        def dispatch(*a, **kw):
            if STATE["mode"] == "sim" and k.has_prange():
                return k.sim()(*a, **kw)
            return func(*a, **kw)
        dispatch.__dst_kernel__ = k
        dispatch.py_func = func
        return dispatch

    if len(args) == 1 and inspect.isfunction(args[0]) and not opts:
        return deco(args[0])
    return deco


# ---------------------------------------------------------------------------
#  AST machinery
# ---------------------------------------------------------------------------
def _tree(func):
    return ast.parse(textwrap.dedent(inspect.getsource(func)))


def _is_prange(node):
    if not isinstance(node, ast.Call):
        return False
    f = node.func
    return (isinstance(f, ast.Name) and f.id == "prange") or (isinstance(f, ast.Attribute) and f.attr == "prange")


def _touches_memory(node):
    return any(isinstance(n, (ast.Subscript, ast.Call)) for n in ast.walk(node))


def _yield():
    return ast.Expr(ast.Yield(None))


def _load(name):
    return ast.Name(name, ast.Load())


def _store(name):
    return ast.Name(name, ast.Store())


class _Body:
    """Rewrites a statement list into a preemptible one: a yield before every statement that touches memory,
    read-modify-write on array elements split into load / yield / store, kernel calls entered step by step."""

    def __init__(self, glob):
        self.glob = glob
        self.n = 0

    def stmts(self, body):
        out = []
        for s in body:
            out.extend(self.stmt(s))
        return out or [ast.Pass()]

    def stmt(self, s):
        if isinstance(s, (ast.If, ast.While)):
            pre = [_yield()] if _touches_memory(s.test) else []
            s.test = self.expr(s.test)
            s.body = self.stmts(s.body)
            s.orelse = self.stmts(s.orelse) if s.orelse else []
            return pre + [s]
        if isinstance(s, ast.For):
            if _is_prange(s.iter):      # nested parallel loops run sequentially inside one thread
                s.iter.func = _load("range")
            s.iter = self.expr(s.iter)
            s.body = self.stmts(s.body)
            s.orelse = self.stmts(s.orelse) if s.orelse else []
            return [s]
        if isinstance(s, (ast.With, ast.Try)):
            s.body = self.stmts(s.body)
            return [s]
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Subscript):
            self.n += 1
            b, i, t = f"__b{self.n}", f"__i{self.n}", f"__t{self.n}"
            out = [_yield()]
            out.append(ast.Assign([_store(b)], self.expr(s.target.value)))
            out.append(ast.Assign([_store(i)], self.index(s.target.slice)))
            out.append(ast.Assign([_store(t)], ast.Call(_load("__dst_copy"), [ast.Subscript(_load(b), _load(i), ast.Load())], [])))
            out.append(_yield())
            out.append(ast.Assign([ast.Subscript(_load(b), _load(i), ast.Store())], ast.BinOp(_load(t), s.op, self.expr(s.value))))
            return out
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr, ast.Return, ast.Assert, ast.Raise)):
            touch = _touches_memory(s)
            for f, v in ast.iter_fields(s):
                if isinstance(v, ast.expr) and f != "annotation":
                    setattr(s, f, self.expr(v))
            if isinstance(s, ast.AnnAssign):
                if s.value is None:
                    return [ast.Pass()]
                s = ast.Assign([s.target], s.value)
            return ([_yield()] if touch else []) + [s]
        return [s]

    def index(self, sl):
        return self.expr(self._slice(sl))

    def _slice(self, sl):
        if isinstance(sl, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(_load("slice"), [sl.lower or none, sl.upper or none, sl.step or none], [])
        if isinstance(sl, ast.Tuple):
            return ast.Tuple([self._slice(e) for e in sl.elts], ast.Load())
        return sl

    def expr(self, e):
        outer = self

        class T(ast.NodeTransformer):
            def visit_Lambda(self, n):
                return n
            visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_Lambda

            def visit_Call(self, n):
                self.generic_visit(n)
                if isinstance(n.func, ast.Name):
                    obj = outer.glob.get(n.func.id)
                    k = getattr(obj, "__dst_kernel__", None)
                    if k is not None and k.func.__closure__ is None:
                        n.func = ast.Call(_load("__dst_gen"), [_load(n.func.id)], [])
                        return ast.YieldFrom(n)
                return n
        return T().visit(e)


def _reduction_step(s):
    """`v = v + x`, `v = max(v, x)`: Numba treats these as reductions, like `v += x`."""
    if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
        return None
    v = s.targets[0].id
    r = s.value
    if isinstance(r, ast.BinOp) and isinstance(r.left, ast.Name) and r.left.id == v and not any(isinstance(n, ast.Name) and n.id == v for n in ast.walk(r.right)):
        return type(r.op)
    if isinstance(r, ast.BinOp) and isinstance(r.op, (ast.Add, ast.Mult)) and isinstance(r.right, ast.Name) and r.right.id == v and not any(isinstance(n, ast.Name) and n.id == v for n in ast.walk(r.left)):
        return type(r.op)
    if isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id in ("max", "min") and len(r.args) == 2:
        hit = [a for a in r.args if isinstance(a, ast.Name) and a.id == v]
        if len(hit) == 1:
            return r.func.id
    return None


def _assigned(stmts):
    plain, aug = set(), {}
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                aug.setdefault(n.target.id, []).append(type(n.op))
            elif _reduction_step(n) is not None:
                aug.setdefault(n.targets[0].id, []).append(_reduction_step(n))
    augnodes = {id(n.target) for s in stmts for n in ast.walk(s) if isinstance(n, ast.AugAssign)}
    augnodes |= {id(n.targets[0]) for s in stmts for n in ast.walk(s) if _reduction_step(n) is not None}
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in augnodes:
                plain.add(n.id)
    return plain, aug


def _compile(k, simulate):
    func = k.func
    glob = func.__globals__
    tree = _tree(func)
    fd = tree.body[0]
    fd.decorator_list = []
    fd.returns = None
    for a in fd.args.args + fd.args.kwonlyargs:
        a.annotation = None
    fd.name = "__dst_" + fd.name
    if simulate:
        counter = [0]

        class P(ast.NodeTransformer):
            def visit_For(self, n):
                if not _is_prange(n.iter):
                    self.generic_visit(n)
                    return n
                counter[0] += 1
                return _team(n, counter[0], glob, fd)
        P().visit(fd)
    else:
        fd.body = [ast.If(ast.Constant(False), [_yield()], [])] + _Body(glob).stmts(fd.body)
    ast.fix_missing_locations(tree)
    # defaults refer to names of the defining module; evaluate there
    ns = dict(__dst_gen=_gen_of, __dst_run_team=run_team, __dst_copy=_copy)
    code = compile(tree, f"<dst:{k.name}>", "exec")
    g = _ChainGlobals(glob, ns)
    loc = {}
    exec(code, g, loc)
    return loc[fd.name]


class _ChainGlobals(dict):
    """A copy of the module globals at compile time plus the simulator's names.  finmlkit kernels only use constants
    and functions from their globals, so a snapshot is enough."""

    def __init__(self, glob, extra):
        super().__init__(glob)
        self.update(extra)


def _copy(x):
    return x.copy() if isinstance(x, np.ndarray) else x


def _gen_of(obj):
    return obj.__dst_kernel__.gen()


_ID = {ast.Add: 0, ast.Sub: 0, ast.Mult: 1, "max": "first", "min": "first"}      # a max/min partial starts from the value before the loop
_OPN = {ast.Add: "+", ast.Sub: "+", ast.Mult: "*", "max": "max", "min": "min"}


def _team(node, idx, glob, fd):
    plain, aug = _assigned(node.body)
    tgt = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
    reds = {nm: ops[0] for nm, ops in aug.items() if nm not in plain and nm not in tgt and len(set(ops)) == 1 and ops[0] in _ID}
    priv = sorted((plain | set(aug)) - set(reds) - tgt)
    reds_l = sorted(reds)
    fp, thr, res = f"__fp{idx}", f"__thr{idx}", f"__res{idx}"
    out = [ast.Assign([_store(fp)], ast.Dict([], []))]

    def guarded_get(name):
        return ast.Try(body=[ast.Assign([ast.Subscript(_load(fp), ast.Constant(name), ast.Store())], _load(name))],
                       handlers=[ast.ExceptHandler(_load("NameError"), None, [ast.Pass()])], orelse=[], finalbody=[])
    for nm in priv + reds_l:
        out.append(guarded_get(nm))
    body = []
    for nm in priv:
        body.append(ast.If(ast.Compare(ast.Constant(nm), [ast.In()], [_load("__fp")]),
                           [ast.Assign([_store(nm)], ast.Subscript(_load("__fp"), ast.Constant(nm), ast.Load()))], []))
    for nm in reds_l:      # thread-private partial result, starting from the identity (an array reduction starts from an array of identities)
        body.append(ast.Assign([_store(nm)], ast.Call(_load("__dst_ident"), [ast.Subscript(_load("__fp"), ast.Constant(nm), ast.Load()),
                                                                            ast.Constant(_ID[reds[nm]])], [])))
    loop = ast.For(node.target, _load("__iters"), _Body(glob).stmts(node.body), [], None)
    body.append(loop)
    for nm in reds_l:
        body.append(ast.Assign([ast.Subscript(_load("__red"), ast.Constant(nm), ast.Store())], _load(nm)))
    for nm in priv:
        body.append(ast.Try(body=[ast.Assign([ast.Subscript(_load("__lo"), ast.Constant(nm), ast.Store())], _load(nm))],
                            handlers=[ast.ExceptHandler(_load("NameError"), None, [ast.Pass()])], orelse=[], finalbody=[]))
    body.append(ast.If(ast.Constant(False), [_yield()], []))
    args = ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in ("__iters", "__fp", "__red", "__lo", "__dst_ident")], kwonlyargs=[], kw_defaults=[], defaults=[])
    out.append(ast.FunctionDef(thr, args, body, [], None, type_params=[]))
    it = node.iter
    it.func = _load("range")
    out.append(ast.Assign([_store(res)], ast.Call(_load("__dst_run_team"), [it, _load(thr), _load(fp),
               ast.Dict([ast.Constant(n) for n in reds_l], [ast.Constant(_OPN[reds[n]]) for n in reds_l])], [])))
    for nm in priv + reds_l:
        out.append(ast.If(ast.Compare(ast.Constant(nm), [ast.In()], [_load(res)]),
                          [ast.Assign([_store(nm)], ast.Subscript(_load(res), ast.Constant(nm), ast.Load()))], []))
    return out


def _ident(x, v):
    if v == "first":
        return x
    if isinstance(x, np.ndarray):
        return np.full_like(x, v)
    if isinstance(x, (bool, np.bool_)):
        return type(x)(v)
    return type(x)(v) if isinstance(x, (int, float, np.number)) else v


QUANTA = (1, 2, 3, 7, 25, 10 ** 9)


def run_team(rng_, thr, fp, reds):
    """A simulated OpenMP-style team: static contiguous chunks or dynamic chunks, preempted at every memory access."""
    run = STATE["run"]
    iters = list(rng_)
    PRANGE_STATS["loops"] += 1
    n = len(iters)
    nthr = min(n, 1 + run.choose(5, "team")) if n else 0
    mode = run.choose(3, "chunking")
    chunks = []
    if nthr:
        if mode == 0:                      # static contiguous
            base, extra = divmod(n, nthr)
            p = 0
            for t in range(nthr):
                q = p + base + (1 if t < extra else 0)
                chunks.append(iters[p:q])
                p = q
        elif mode == 1:                    # dynamic: random small chunks to random threads, each thread keeps its order
            chunks = [[] for _ in range(nthr)]
            p = 0
            while p < n:
                sz = 1 + run.choose(4, "dyn")
                chunks[run.choose(nthr, "dynto")].extend(iters[p:p + sz])
                p += sz
        else:                              # contiguous chunks of random size
            cuts = sorted(run.choose(n + 1, "cut") for _ in range(nthr - 1))
            p = 0
            for q in cuts + [n]:
                chunks.append(iters[p:q])
                p = q
    redvals, los, gens = [], [], []
    for ch in chunks:
        r, lo = {}, {}
        redvals.append(r)
        los.append(lo)
        gens.append(thr(ch, fp, r, lo, _ident))
    live = list(range(len(gens)))
    order = []
    if len(live) > 1:
        PRANGE_STATS["multi"] += 1
        run.nontrivial = True
    while live:
        t = live[run.choose(len(live), "thr")]
        q = QUANTA[run.choose(len(QUANTA), "q")]
        PRANGE_STATS["switches"] += 1
        run.sig(t, q)
        try:
            for _ in range(q):
                next(gens[t])
        except StopIteration:
            live.remove(t)
            order.append(t)
    res = {}
    if los and order:
        for nm, v in los[order[-1]].items():
            res[nm] = v
    for nm, op in reds.items():
        acc = fp[nm]
        for t in order:
            if nm in redvals[t]:
                r = redvals[t][nm]
                acc = acc + r if op == "+" else acc * r if op == "*" else max(acc, r) if op == "max" else min(acc, r)
        res[nm] = acc
    return res


# ---------------------------------------------------------------------------
#  Simulated allocator
# ---------------------------------------------------------------------------
_real_empty, _real_empty_like = np.empty, np.empty_like
POISON_STATS = dict(fills=0)


def _poison(arr, which):
    POISON_STATS["fills"] += 1
    k = arr.dtype.kind
    flat = arr.reshape(-1) if arr.flags.c_contiguous else None
    n = arr.size
    if n == 0:
        return arr
    if k == "f":
        pats = ([1e9 + 0.5, -3.25, 7.75], [-1234.5, 1e-300, 42.0], [np.nan], [np.inf, -np.inf, 0.0, 123456.0])
    elif k in "iu":
        info = np.iinfo(arr.dtype)
        pats = ([info.max - 3, 5, 77], [info.min // 2 if info.min else 11, 3, 1], [1], [0, 99])
    elif k == "b":
        pats = ([True], [False], [True, False], [False, True, True])
    elif k == "c":
        pats = ([1 + 2j], [3j], [np.nan], [0])
    else:
        return arr
    p = np.array(pats[which % 4], dtype=arr.dtype)
    fill = np.resize(p, n)
    if flat is not None:
        flat[:] = fill
    else:
        arr[...] = fill.reshape(arr.shape)
    return arr


def _from_finmlkit():
    return sys._getframe(2).f_globals.get("__name__", "").startswith("finmlkit")


def _empty(*a, **k):
    if STATE["alloc_fail"] is not None and _from_finmlkit():
        STATE["alloc_fail"] -= 1
        if STATE["alloc_fail"] == 0:
            raise MemoryError("injected allocation failure")
    r = _real_empty(*a, **k)
    if STATE["poison"] is not None and _from_finmlkit():
        return _poison(r, STATE["poison"])
    return r


def _empty_like(*a, **k):
    if STATE["alloc_fail"] is not None and _from_finmlkit():
        STATE["alloc_fail"] -= 1
        if STATE["alloc_fail"] == 0:
            raise MemoryError("injected allocation failure")
    r = _real_empty_like(*a, **k)
    if STATE["poison"] is not None and _from_finmlkit():
        return _poison(r, STATE["poison"])
    return r


# ---------------------------------------------------------------------------
class Capture(logging.Handler):
    def __init__(self):
        super().__init__(level=logging.ERROR)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelname, record.getMessage()))


CAPTURE = Capture()
PRINTS = []                                        # what the script printed
_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import os
    if os.environ.get("NUMBA_DISABLE_JIT") != "1":
        raise core.HarnessError("run under NUMBA_DISABLE_JIT=1")
    root = logging.getLogger()
    root.addHandler(CAPTURE)
    root.setLevel(logging.ERROR)
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import numba
    import builtins
    real_print = builtins.print

    def quiet_print(*a, **k):          # kernels print warnings; keep them out of the reports
        who = sys._getframe(1).f_globals.get("__name__", "")
        if who == "binance2h5":
            PRINTS.append(" ".join(str(x) for x in a))
        elif not who.startswith("finmlkit"):
            real_print(*a, **k)
    builtins.print = quiet_print
    from . import baton
    baton.install_locks()
    numba.njit = numba.jit = _my_njit
    numba.prange = range
    np.empty, np.empty_like = _empty, _empty_like
    if core.REPO not in sys.path:
        sys.path.insert(0, core.REPO)
    import finmlkit
    assert os.path.abspath(finmlkit.__file__).startswith(core.REPO + os.sep), finmlkit.__file__


class simulating:
    """with simulating(run): parallel kernels are executed by the simulated thread team."""

    def __init__(self, run, poison=None):
        self.new = dict(run=run, mode="sim" if run is not None else "raw", poison=poison)

    def __enter__(self):
        self.old = dict(STATE)
        STATE.update(self.new)

    def __exit__(self, *a):
        STATE.clear()
        STATE.update(self.old)


class poisoned:
    def __init__(self, which):
        self.which = which

    def __enter__(self):
        self.old = STATE["poison"]
        STATE["poison"] = self.which

    def __exit__(self, *a):
        STATE["poison"] = self.old
