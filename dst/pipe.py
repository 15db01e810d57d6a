"""The Binance pipeline script (scripts/binance2h5.py) in a simulated world: an exchange that publishes monthly archives, a network that fails, a calendar, a disk.

The script is executed as it stands in the tree; `requests`, `tqdm` and `datetime` are what this module hands to it through `import`.
"""
import datetime as _dt
import hashlib
import importlib.util
import io
import os
import re
import sys
import types
import zipfile

import numpy as np
import pandas as pd

from . import core, fresh, hdfsim, procsim, pyfiles, seams

WORLD = [None]
NAME = "binance2h5"
BASES = {"turn": ["2020-11", "2020-12", "2021-01", "2021-02", "2021-03"], "micro": ["2024-11", "2024-12", "2025-01", "2025-02", "2025-03"], "leap": ["2024-01", "2024-02", "2024-03", "2024-04", "2024-05"],
         "century": ["2009-11", "2009-12", "2010-01", "2010-02", "2010-03"]}
LABEL = {"spot": "SPOT", "um": "PERPum", "cm": "PERPcm"}
ALIAS = {"spot": ["spot", "SPOT", "Spot"], "um": ["um", "perpum", "UM", "perp_um", "PERPum", "usdm"], "cm": ["cm", "perpcm", "PERPcm", "coinm"]}


# ---------------------------------------------------------------------------
#  archives
# ---------------------------------------------------------------------------
def gen_month(rng, m, tag, n=None):
    """Rows [dt_us, amount, maker]; the price identifies the row."""
    rows = []
    for _ in range(n or rng.choice([1, 2, 3, 4, 6, 12])):
        rows.append([rng.choice([0, 0, 1, 1000, 1000, 250000, 10 ** 6, 3 * 10 ** 6]), rng.choice([0.001, 1.0, 12.5, 0.25, 1000.0]), rng.randrange(2)])
    off = rng.choice([0, 0, 10 ** 6, rng.randrange(27 * 86400) * 10 ** 6, 27 * 86400 * 10 ** 6 + 86399 * 10 ** 6])
    return dict(m=m, tag=tag, off=min(off, 28 * 86400 * 10 ** 6 - 1000 - sum(r[0] for r in rows)), rows=rows, chk=rng.random() < 0.85, hdr=rng.random() < 0.5, lost=rng.random() < 0.2,
                order=rng.choice([0, 0, 0, 0, 1]))


def micro(mk, ym):
    """The spot market reports microseconds since 2025."""
    return mk == "spot" and ym >= "2025-01"


def truth(base, mk, b, stale=False):
    """(ns, price, amount, side, id) of a month's archive as published (or of a superseded one)."""
    t0 = pd.Timestamp(BASES[base][b["m"]] + "-01").value // 1000 + b["off"]
    out, t, i = [], t0, 10000 * (b["tag"] + 1)
    for k, (dt, am, maker) in enumerate(b["rows"]):
        if k:
            t += dt
            i += 3 if b["lost"] and k == 1 else 1
        out.append((t * 1000 if micro(mk, BASES[base][b["m"]]) else t // 1000 * 1000000, (1000 * (b["tag"] + 1) + k) * 0.5 + (0.25 if stale else 0.0), float(np.float32(am)), -1 if maker else 1, i))
    return out


def rows(base, mk, b):
    return sorted(x[:4] for x in truth(base, mk, b))


def archive(sym, base, mk, b, stale=False, header=None):
    """Bytes of the archive."""
    ym = BASES[base][b["m"]]
    us = micro(mk, ym)
    name = f"{sym}-trades-{ym}"
    tr = truth(base, mk, b, stale)
    lines = []
    for t, px, am, side, i in tr:
        ts = t // 1000 if us else t // 1000000
        lines.append(f"{i},{px:.4f},{am:.4f},{px * am:.4f},{ts},{side < 0}" + (",True" if mk == "spot" else "") if mk == "spot" else f"{i},{px:.4f},{am:.4f},{px * am:.4f},{ts},{'true' if side < 0 else 'false'}")
    if b["order"]:
        lines = lines[1:] + lines[:1]
    if (b["hdr"] and mk != "spot") if header is None else header:
        lines.insert(0, "id,price,qty,quote_qty,time,is_buyer_maker")
    z = io.BytesIO()
    with zipfile.ZipFile(z, "w", zipfile.ZIP_DEFLATED) as f:
        f.writestr(zipfile.ZipInfo(name + ".csv", (2021, 1, 1, 0, 0, 0)), "\n".join(lines) + "\n")
    return z.getvalue()


def digest(b):
    return hashlib.sha256(b).hexdigest()


# ---------------------------------------------------------------------------
#  the exchange and the network
# ---------------------------------------------------------------------------
class Exchange:
    """pub: (symbol, market, ym) -> (zip bytes, stale zip bytes, checksum published)."""

    def __init__(self, run, disk):
        self.run, self.disk = run, disk
        self.pub = {}
        self.faults = {}
        self.n = 0
        self.down_from = None
        self.requests = 0
        self.hit = []                     # faults that really fired in this run of the script

    def publish(self, sym, mk, base, b):
        ym = BASES[base][b["m"]]
        self.pub[(sym, mk, ym)] = (archive(sym, base, mk, b), archive(sym, base, mk, b, stale=True), b["chk"])

    def begin(self, faults=()):
        self.n, self.faults, self.hit = 0, {int(i): k for i, k in faults}, []

    def find(self, url):
        m = re.match(r"^https?://[^/]+/data/(spot|futures/um|futures/cm)/monthly/trades/([^/]+)/([^/]+)$", url)
        if not m:
            return None, None
        mk, sym, f = m.group(1).split("/")[-1], m.group(2), m.group(3)
        m = re.match(r"^(.+)-trades-(\d{4}-\d{2})\.zip(\.CHECKSUM)?$", f)
        if not m or m.group(1) != sym or (sym, mk, m.group(2)) not in self.pub:
            return None, None
        z, st, chk = self.pub[(sym, mk, m.group(2))]
        if m.group(3):
            return ((f"{digest(z)}  {f[:-9]}\n".encode(), None) if chk else None), True
        return (z, st), chk

    def request(self, method, url, headers=None):
        i, self.n = self.n, self.n + 1
        self.requests += 1
        run = self.run
        self.disk.event("net-request", url.rsplit("/", 1)[-1], write=False)
        found, chk = self.find(url)
        k = self.faults.get(i)
        run.log("net", i, method, url.rsplit("/", 1)[-1], k)
        R = REQ
        if k in ("corrupt", "stale", "nolen", "page") and not chk:
            k = "silent"                  # damage that cannot be noticed is not asked for
        if k is not None:
            self.hit.append((i, k, url.rsplit("/", 1)[-1]))
            run.fault("net-" + k)
        if k == "refused":
            raise R.ConnectionError("connection refused (injected)")
        if k == "timeout":
            s = procsim.CURRENT[0]
            if s is not None:
                s.sleep(60)
            raise R.ReadTimeout("read timed out (injected)")
        if k in ("500", "503", "429", "403"):
            return Response(self, url, int(k), b"<html>error</html>", None)
        if k == "404" or found is None:
            return Response(self, url, 404, b"<html>not found</html>", None)
        body, stale = found
        cut = None
        if k == "page":
            body = b"<html><body>Please try again later.</body></html>"
        elif k == "corrupt":
            body = bytearray(body)
            for _ in range(1 + run.choose(3, "bits")):
                body[run.choose(len(body), "byte")] ^= 1 << run.choose(8, "bit")
            body = bytes(body)
        elif k == "stale" and stale is not None:
            body = stale
        elif k in ("cut", "silent", "nolen"):
            cut = run.choose(len(body), "cut")
        return Response(self, url, 200, body, cut, error=k == "cut", length=k != "nolen")


class Headers(dict):
    def get(self, k, default=None):
        return dict.get(self, k.lower(), default)

    def __getitem__(self, k):
        return dict.__getitem__(self, k.lower())

    def __contains__(self, k):
        return dict.__contains__(self, k.lower())


class Response:
    def __init__(self, ex, url, code, body, cut, error=False, length=True):
        self.ex, self.url, self.status_code, self.body, self.cut, self.error = ex, url, code, body, cut, error
        self.headers = Headers({"content-type": "application/octet-stream"})
        if length:
            self.headers["content-length"] = str(len(body))
        self.reason = {200: "OK", 404: "Not Found"}.get(code, "Error")
        self.raw = self.encoding = None
        self.history, self.closed = [], False
        self.elapsed = _dt.timedelta(seconds=1)

    @property
    def ok(self):
        return self.status_code < 400

    def raise_for_status(self):
        if self.status_code >= 400:
            raise REQ.HTTPError(f"{self.status_code} {self.reason} for url: {self.url}", response=self)

    def iter_content(self, chunk_size=1, decode_unicode=False):
        data = self.body if self.cut is None else self.body[:self.cut]
        step = max(1, min(chunk_size or len(data) or 1, len(self.body) // 3 + 1))
        for i in range(0, len(data), step):
            self.ex.disk.event("net-chunk", self.url.rsplit("/", 1)[-1], write=False)
            self.ex.run.sim_ns += 10 ** 8
            yield data[i:i + step]
        if self.error:
            raise REQ.ChunkedEncodingError("connection broken: IncompleteRead (injected)")

    @property
    def content(self):
        return b"".join(self.iter_content(1 << 20))

    @property
    def text(self):
        return self.content.decode("utf-8", "replace")

    def iter_lines(self, *a, **k):
        return iter(self.content.splitlines())

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __bool__(self):
        return self.ok


class Session:
    def __init__(self):
        self.headers, self.adapters, self.params, self.verify, self.trust_env = {}, {}, {}, True, True

    def request(self, method, url, **k):
        return WORLD[0].request(method.upper(), url, k.get("headers"))

    def get(self, url, **k):
        return self.request("GET", url, **k)

    def head(self, url, **k):
        return self.request("HEAD", url, **k)

    def mount(self, *a):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def _requests():
    m = types.ModuleType("requests")

    class RequestException(IOError):
        def __init__(self, *a, response=None, request=None):
            super().__init__(*a)
            self.response, self.request = response, request

    class HTTPError(RequestException):
        pass

    class ConnectionError(RequestException):
        pass

    class Timeout(RequestException):
        pass

    class ConnectTimeout(ConnectionError, Timeout):
        pass

    class ReadTimeout(Timeout):
        pass

    class ChunkedEncodingError(RequestException):
        pass
    ex = types.ModuleType("requests.exceptions")
    for c in (RequestException, HTTPError, ConnectionError, Timeout, ConnectTimeout, ReadTimeout, ChunkedEncodingError):
        c.__module__ = "requests.exceptions"
        setattr(m, c.__name__, c)
        setattr(ex, c.__name__, c)
    ad = types.ModuleType("requests.adapters")
    ad.HTTPAdapter = type("HTTPAdapter", (), {"__init__": lambda self, *a, **k: None})
    m.exceptions, m.adapters, m.Session, m.session, m.Response = ex, ad, Session, Session, Response
    m.get = lambda url, **k: Session().get(url, **k)
    m.head = lambda url, **k: Session().head(url, **k)
    m.request = lambda method, url, **k: Session().request(method, url, **k)
    return m


REQ = _requests()


# ---------------------------------------------------------------------------
#  calendar and progress bars
# ---------------------------------------------------------------------------
TODAY = [_dt.date(2021, 1, 15)]


class SimDate(_dt.date):
    @classmethod
    def today(cls):
        return cls(TODAY[0].year, TODAY[0].month, TODAY[0].day)


class SimDateTime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls(TODAY[0].year, TODAY[0].month, TODAY[0].day, 12, tzinfo=tz)

    today = utcnow = now


POSTFIX = []


class SimTqdm:
    def __init__(self, iterable=None, *a, total=None, **k):
        self.iterable, self.total, self.n = iterable, total, 0

    def __iter__(self):
        for x in self.iterable:
            yield x
            self.n += 1

    def update(self, n=1):
        self.n += n
        procsim.point("pbar")

    def set_postfix(self, *a, **k):
        POSTFIX.append(k)

    def set_postfix_str(self, s="", *a, **k):
        POSTFIX.append({"text": s})

    def set_description(self, *a, **k):
        pass

    def close(self):
        pass

    refresh = clear = reset = lambda self, *a, **k: None

    @staticmethod
    def write(s, *a, **k):
        seams.PRINTS.append(str(s))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


_done = []


def install():
    if _done:
        return _done[0]
    procsim.install()
    seams.install()
    hdfsim.install()
    pyfiles.install()
    import tqdm

    class _View:
        def __init__(self, mod, repl):
            self.__dict__["_mod"], self.__dict__["_repl"] = mod, repl

        def __getattr__(self, k):
            return self._repl[k] if k in self._repl else getattr(self._mod, k)
    sys.modules.setdefault("requests", REQ)
    sys.modules.setdefault("requests.exceptions", REQ.exceptions)
    sys.modules.setdefault("requests.adapters", REQ.adapters)
    tq = _View(tqdm, dict(tqdm=SimTqdm, trange=lambda *a, **k: SimTqdm(range(*a))))
    procsim.VIEWS.update({"requests": REQ, "requests.exceptions": REQ.exceptions, "requests.adapters": REQ.adapters, "tqdm": tq, "tqdm.auto": tq, "datetime": _View(_dt, dict(date=SimDate, datetime=SimDateTime))})
    path = os.path.join(core.REPO, "scripts", "binance2h5.py")
    spec = importlib.util.spec_from_file_location(NAME, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[NAME] = mod
    spec.loader.exec_module(mod)
    _done.append(mod)
    return mod


# ---------------------------------------------------------------------------
#  running it
# ---------------------------------------------------------------------------
class Outcome:
    killed = False
    raised = None
    fired = False

    def __repr__(self):
        return "killed" if self.killed else f"raised {type(self.raised).__name__}: {str(self.raised)[:200]}" if self.raised is not None else "finished"


def start(run, disk, fn, sched=None, fault=None):
    """fn() as the main thread of a program of its own."""
    seams.PRINTS.clear()
    seams.CAPTURE.records.clear()
    POSTFIX.clear()
    fresh.restore()
    o = Outcome()
    disk.arm(fault)
    try:
        with procsim.Sched(run, **(sched or {})):
            try:
                fn()
            except core.SimCrash:
                pass
            except KeyboardInterrupt as e:
                o.raised = e
            except (core.Violation, core.HarnessError, core.RunTimeout):
                raise
            except SystemExit as e:
                if e.code:
                    o.raised = e
            except Exception as e:
                o.raised = e
    except core.SimCrash:
        pass
    finally:
        o.fired, o.kind, o.fired_in = disk.fired, fault["kind"] if fault else None, disk.fired_in
        disk.plan = None
    if disk.dead:
        o.killed = True
        disk.restart()
        run.probe("restart")
    else:
        disk.full = False
        disk.close_handles()
    o.prints = list(seams.PRINTS)
    o.logs = list(seams.CAPTURE.records)
    o.errors = max([int(p["errors"]) for p in POSTFIX if "errors" in p] or [0])
    o.reports = sum(1 for p in o.prints if re.search(r"error|fail|mismatch|warn", p, re.I))
    return o


def main(run, disk, args, sched=None, fault=None):
    mod = install()

    def fn():
        old, sys.argv = sys.argv, ["binance2h5.py"] + [str(a) for a in args]
        try:
            mod.main()
        finally:
            sys.argv = old
    return start(run, disk, fn, sched, fault)


def groups(path, top):
    """Months below /trades or /klines."""
    import tables
    cur, hdfsim.CURRENT[0] = hdfsim.CURRENT[0], None
    try:
        with tables.open_file(path, "r") as f:
            return sorted(k for k in f.root._v_children[top]._v_children) if top in f.root._v_children else []
    finally:
        hdfsim.CURRENT[0] = cur


def reference(base, mk, b):
    """One-second bars of the published trades of a month."""
    from finmlkit.bar.data_model import TradesData
    from finmlkit.bar.kit import TimeBarKit
    r = sorted(truth(base, mk, b), key=lambda x: (x[0], x[4]))
    ts = np.array([x[0] for x in r], dtype=np.int64)
    td = TradesData(ts, np.array([x[1] for x in r]), np.array([x[2] for x in r], dtype=np.float32), side=np.array([x[3] for x in r], dtype=np.int8), dt_index=pd.to_datetime(ts, unit="ns"))
    return TimeBarKit(td, period=pd.Timedelta(seconds=1)).build_ohlcv()
