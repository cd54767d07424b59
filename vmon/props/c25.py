"""C25 purity: histories, repetition, threads, process-wide state."""
import inspect
import multiprocessing as mp
import os
import pickle
import random
import shutil
import sys
import tempfile
import threading
import time
import traceback
import warnings
import zlib

import dask
import numpy as np
import pandas as pd
import xarray as xr

from vmon import catalogue as K
from vmon import core
from vmon import trendlib as L
from vmon.core import HarnessError, Violation
from vmon.props import c24

CASES = {"quick": 2600, "thorough": 12000}
RULE = (
    "each target call is also evaluated in a fork of a process in which momlevel has been imported but never called (pristine baseline); its "
    "result after random histories (other calls, same-shape different values, the same inputs with other options, renamed coordinates, rejected calls, in-place edits of its inputs, scribbling over earlier "
    "results), when repeated, and in concurrent threads with delays injected at momlevel's own lines must equal the baseline; process-wide state is snapshotted around "
    "every call; distinct by feature tuple; interleavings counted by hash of the (thread, line) sequence"
)
ASSUMPTIONS = [
    "private module caches are allowed as long as no result changes",
    "options changed by the import of a third-party module during a call are not attributed to momlevel",
]


# ------------------------------------------------------------------ calls rebuilt from a seed


class Sub:
    """the part of Ctx that builders use"""

    def __init__(self, key):
        self.rng = np.random.default_rng(key)
        self.tmp = None
        self.features = {}

    def note(self, **kw):
        pass

    def pick(self, name, options, p=None):
        return options[int(self.rng.choice(len(options), p=p))]

    def flip(self, name, p=0.5):
        return bool(self.rng.random() < p)

    def count(self, key, n=1):
        pass

    def tmpdir(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix="vmon_")
        return self.tmp

    def close(self):
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)


def b_testdata(ctx):
    from momlevel import test_data as TD
    rng = ctx.rng
    fn = [TD.generate_test_data, TD.generate_test_data_dz, TD.generate_test_data_time, TD.generate_test_data_uv][int(rng.integers(4))]
    kw = {"seed": int(rng.choice([123, 5, 77]))}
    if fn is TD.generate_test_data_time:
        kw["nyears"] = 1
    return K.Call(fn.__name__, fn, [], kw, {}, None)


POOL = K.EVERYTHING + [b_testdata]


def build(key, which, variant):
    """which: index into POOL; variant: 'plain', 'twin', 'renamed', 'bad', 'lazy', 'options<n>'"""
    sub = Sub(key)
    c = POOL[which](sub)
    if c.names:
        c = K.vary(sub, c, f4=True)
    if variant == "twin":
        c = c.mapped(edited)
        edit_files(c)
    elif variant == "renamed" and c.rename is not None:
        try:
            c, _ = c24.renamed(sub, c)
        except core.Skip:
            pass
    elif variant.startswith("options"):
        optioned(c, np.random.default_rng([zlib.crc32(variant.encode())] + list(key)))
    elif variant == "bad" and c.bad:
        c.kwargs.update(c.bad)
    elif variant == "lazy":
        c = c.mapped(lambda o: o.chunk() if o.dims and not (isinstance(o, xr.DataArray) and o.name in o.dims) else o)
    return sub, c


OPTIONS = {
    "eos": ["Wright", "linear"], "equation_of_state": ["Wright", "linear"], "domain": ["local", "global"], "variant": ["steric", "thermosteric", "halosteric"],
    "dtype": ["float32", "float64"], "mode": ["remove", "correct"], "func": ["mean", "min", "max", "std"], "units": ["m", "cm"], "time_units": L.UNITS,
    "output_format": ["residuals", "model", "coeff"], "level": [0.0, 500.0, 3000.0], "patm": [0.0, 101325.0, 2.0e6], "gravity": [9.8, 9.81, 5.0, -9.8],
    "rhozero": [1035.0, 1025.0, 1.0], "time_index": [0, 1, -1], "top": [0.0, 10.0], "bottom": [20.0, 500.0], "days_per_year": [360.0, 365.25, 365.0],
    "days_per_month": [30.0, 31.0], "threshold": [50.0, 500.0, 20000.0], "radius": [6.371e6, 6.378e6, 1.0], "earth_radius": [6371.0, 1.0], "time_axis_year": [1850, 2001, 2004],
    "nyears": [1, 2], "seed": [1, 2, 123], "daysinyear": [360, 365.0], "rho_ref": [None, 1000.0], "calendar": ["noleap", "360_day", "standard"], "frequency": ["M"],
    "apply_mask": [True, False], "fraction": [True, False], "subtract_time_zero": [True, False], "return_model": [True, False], "adjust_negative": [True, False],
    "strict": [True, False], "annual": [False], "symmetric": [True, False], "interp_n2": [True, False], "order": [1], "reference": [None],
}


def optioned(c, rng):
    """the same call with one or two of its options changed, added or dropped"""
    try:
        params = [p for p in inspect.signature(c.fn).parameters.values() if p.name in OPTIONS and p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)][0:]
        params = [p.name for p in params if list(inspect.signature(c.fn).parameters).index(p.name) >= len(c.args)]
    except (TypeError, ValueError):
        return
    for k in [params[i] for i in rng.permutation(len(params))[: int(rng.integers(1, 3))]]:
        if k in c.kwargs and rng.random() < 0.3:
            c.kwargs.pop(k)
        else:
            o = [v for v in OPTIONS[k] if repr(v) != repr(c.kwargs.get(k))] or OPTIONS[k]
            c.kwargs[k] = o[int(rng.integers(len(o)))]


def edited(o):
    """the same object with other values (a new object)"""
    if isinstance(o, xr.Dataset):
        return o.assign({v: edited(o[v]) for v in o.data_vars if o[v].dtype.kind == "f" and o[v].ndim > 1 and v != "areacello"})
    if o.dtype.kind != "f" or o.ndim == 0 or (o.name in o.dims):
        return o
    return o.copy(data=o.values[::-1].copy() * 1.003 if o.name not in ("geolat", "geolon", "wet") else o.values * 1.0)


def edit_in_place(o):
    if isinstance(o, xr.Dataset):
        for v in o.data_vars:
            if o[v].dtype.kind == "f" and o[v].ndim > 1 and v != "areacello":
                edit_in_place_da(o[v])
    elif o.dtype.kind == "f" and o.ndim and o.name not in o.dims:
        edit_in_place_da(o)
    return o


def edit_files(c):
    """rewrites the table of sites the call names, at the same path"""
    path = c.kwargs.get("csv")
    if not isinstance(path, str) or not os.path.isfile(path) or not path.startswith(tempfile.gettempdir()):
        return
    st = os.stat(path)
    df = pd.read_csv(path)
    df["lat"] = df["lat"].values[::-1] * 0.99
    df["lon"] = df["lon"].values[::-1] * 0.98
    df.to_csv(path, index=False)
    os.utime(path, ns=(st.st_atime_ns + 10**10, st.st_mtime_ns + 10**10))


def edit_in_place_da(a):
    if a.name in ("geolat", "geolon", "wet"):
        return
    v = a.values
    v[...] = v[::-1].copy() * 1.003


# ------------------------------------------------------------------ pristine baselines


def portable(r):
    r = K.computed(r)
    return pickle.dumps(r, protocol=4)


def zygote(conn):
    sys.stdout = sys.stderr = open(os.devnull, "w")
    while True:
        try:
            req = conn.recv()
        except EOFError:
            os._exit(0)
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            try:
                sub, c = build(*req)
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        out = ("ok", portable(c()))
                except Exception as e:  # noqa: BLE001
                    out = ("raise", type(e).__name__)
                finally:
                    sub.close()
                data = pickle.dumps(out)
            except BaseException:  # noqa: BLE001
                data = pickle.dumps(("harness", traceback.format_exc()))
            with os.fdopen(wr, "wb") as f:
                f.write(data)
            os._exit(0)
        os.close(wr)
        with os.fdopen(rd, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        conn.send_bytes(data)


Z = {}


def setup(tier):
    a, b = mp.Pipe()
    pid = os.fork()
    if pid == 0:
        a.close()
        try:
            zygote(b)
        finally:
            os._exit(0)
    b.close()
    Z["conn"] = a


def baseline(ctx, key, which, variant):
    if "conn" not in Z:
        setup(ctx.tier)
    Z["conn"].send((key, which, variant))
    kind, val = pickle.loads(Z["conn"].recv_bytes())
    if kind == "harness":
        raise HarnessError(val)
    ctx.count("pristine baselines")
    return (kind, pickle.loads(val)) if kind == "ok" else (kind, val)


# ------------------------------------------------------------------ process-wide state


def rec(o, depth=0):
    if isinstance(o, dict):
        return {str(k): rec(v, depth + 1) for k, v in o.items()} if depth < 6 else "deep"
    return repr(o)


def constants():
    out = {}
    for name, mod in list(sys.modules.items()):
        if name == "momlevel" or name.startswith("momlevel."):
            for k, v in list(vars(mod).items()):
                if k.startswith("_"):
                    continue
                if isinstance(v, (int, float, str, tuple, bool)):
                    out[name + "." + k] = repr(v)
                elif isinstance(v, (list, dict)):
                    out[name + "." + k] = repr(v)
                elif isinstance(v, np.ndarray):
                    out[name + "." + k] = (str(v.dtype), v.shape, v.tobytes())
    return out


def pandas_options():
    return {k: repr(pd.get_option(k)) for k in PD_KEYS}


PD_KEYS = ["mode.chained_assignment", "mode.copy_on_write", "display.max_rows", "display.precision", "mode.use_inf_as_na",
           "compute.use_bottleneck", "compute.use_numexpr", "display.max_columns", "mode.sim_interactive", "future.infer_string"]


def np_state():
    s = np.random.get_state()
    return (s[0], zlib.crc32(s[1].tobytes()), s[2], s[3], s[4])


def snapshot():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pdo = pandas_options()
    return {
        "numpy random state": np_state(),
        "random state": hash(random.getstate()),
        "numpy error settings": dict(np.geterr()),
        "numpy print options": repr(np.get_printoptions()),
        "xarray options": {k: repr(v) for k, v in xr.get_options().items()},
        "dask configuration": rec(dask.config.config),
        "pandas options": pdo,
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "warning filters": [repr(f) for f in warnings.filters],
        "module constants": constants(),
        "switch interval": sys.getswitchinterval(),
        "recursion limit": sys.getrecursionlimit(),
        "standard streams": (id(sys.stdout), id(sys.stderr)),
        "path": list(sys.path),
    }


THIRD = ("xarray options", "dask configuration", "pandas options", "warning filters", "path", "numpy print options", "environment")


def observed(ctx, c, expect_ok=True):
    """runs a call between two snapshots of process-wide state"""
    ctx.ncalls += 1
    before_mods = set(sys.modules)
    before = snapshot()
    try:
        out = ("ok", K.computed(c()))
    except Exception as e:  # noqa: BLE001
        out = ("raise", type(e).__name__, "".join(traceback.format_exception(e))[-2000:])
    after = snapshot()
    ctx.events.append((c.name, out[0] if out[0] == "ok" else "raise:" + out[1]))
    ctx.count("state snapshots compared")
    new = {m.split(".")[0] for m in set(sys.modules) - before_mods} - {"momlevel"}
    for k in before:
        if new and k in THIRD:
            continue
        b, a = before[k], after[k]
        if k in ("module constants", "dask configuration"):
            a = {x: a.get(x) for x in b}
        ctx.check(a == b, f"{c.name} changed the {k}", lambda: f"before {str(b)[:300]} after {str(a)[:300]}")
    return out


# ------------------------------------------------------------------ comparison


def attrs_equal(a, b):
    return repr({str(k): str(v) for k, v in a.items()}) == repr({str(k): str(v) for k, v in b.items()})


def meta(ctx, got, exp, what):
    if isinstance(exp, tuple):
        for g, e in zip(got, exp):
            meta(ctx, g, e, what)
    elif isinstance(exp, xr.Dataset):
        ctx.check(attrs_equal(got.attrs, exp.attrs), f"{what}: attributes", lambda: f"{got.attrs} {exp.attrs}")
        ctx.check(set(got.coords) == set(exp.coords), f"{what}: coordinates", lambda: f"{list(got.coords)} {list(exp.coords)}")
        for v in exp.variables:
            ctx.check(attrs_equal(got[v].attrs, exp[v].attrs) and got[v].dtype == exp[v].dtype, f"{what}: attributes or dtype of {v}")
    elif isinstance(exp, xr.DataArray):
        ctx.check(attrs_equal(got.attrs, exp.attrs) and got.dtype == exp.dtype and got.name == exp.name, f"{what}: attributes, name or dtype",
                  lambda: f"{got.name} {got.attrs} {exp.name} {exp.attrs}")
        ctx.check(set(got.coords) == set(exp.coords), f"{what}: coordinates", lambda: f"{list(got.coords)} {list(exp.coords)}")


def agree(ctx, c, got, exp, what):
    if got[0] != exp[0]:
        ctx.fail(f"{c.name} {what}: {got[0]} instead of {exp[0]}", str(got[1:])[:1500])
    if exp[0] == "raise":
        ctx.check(got[1] == exp[1], f"{c.name} {what}: another exception", f"{got[1]} {exp[1]}")
        return
    ctx.equal_xr(got[1], exp[1], f"{c.name} {what}", rtol=min(c.rtol, 1e-9), atol=c.atol)
    meta(ctx, got[1], exp[1], f"{c.name} {what}")


def scribble(r):
    """overwrites a result in place"""
    if isinstance(r, tuple):
        for x in r:
            scribble(x)
    elif isinstance(r, xr.Dataset):
        for v in r.data_vars:
            scribble(r[v])
        r.attrs["scribble"] = 1
    elif isinstance(r, xr.DataArray):
        scribble(r.values)
        r.attrs["scribble"] = 1
    elif isinstance(r, np.ndarray) and r.dtype.kind == "f" and r.flags.writeable:
        r[...] = -12345.0
    elif isinstance(r, pd.DataFrame):
        r["scribble"] = 1
    elif isinstance(r, list):
        r.append("scribble")


# ------------------------------------------------------------------ delays in threads


class Delays:
    TOOL = 4

    def __init__(self, seed, p):
        self.rnd = random.Random(seed)
        self.p = p
        self.trace = []
        self.ids = {}

    def line(self, code, ln):
        t = self.ids.setdefault(threading.get_ident(), len(self.ids))
        if len(self.trace) < 20000:
            self.trace.append((t, code.co_name, ln))
        if self.rnd.random() < self.p:
            time.sleep(self.rnd.choice((0, 0.0002, 0.001)))

    def __enter__(self):
        m = sys.monitoring
        self.codes = core.ExecMonitor().codes
        m.use_tool_id(self.TOOL, "vmon-delays")
        m.register_callback(self.TOOL, m.events.LINE, self.line)
        for c in self.codes:
            m.set_local_events(self.TOOL, c, m.events.LINE)
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        sys.setswitchinterval(self.old)
        for c in self.codes:
            m.set_local_events(self.TOOL, c, 0)
        m.register_callback(self.TOOL, m.events.LINE, None)
        m.free_tool_id(self.TOOL)

    def switches(self):
        return sum(1 for a, b in zip(self.trace, self.trace[1:]) if a[0] != b[0])


def threads(ctx, plan):
    calls, subs, exps, res = [], [], [], {}
    for p in plan:
        sub, c = build(*p)
        subs.append(sub)
        calls.append(c)
        exps.append(baseline(ctx, *p))
    start = threading.Barrier(len(plan))

    def work(i):
        start.wait()
        try:
            res[i] = ("ok", K.computed(calls[i]()))
        except Exception as e:  # noqa: BLE001
            res[i] = ("raise", type(e).__name__, "".join(traceback.format_exception(e))[-2000:])

    before = snapshot()
    with Delays(int(ctx.rng.integers(1 << 30)), float(ctx.rng.choice([0.02, 0.1, 0.3]))) as d:
        ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(plan))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
    for s in subs:
        s.close()
    if len(res) != len(plan):
        ctx.fail("concurrent calls did not finish")
    after = snapshot()
    ctx.ncalls += len(plan)
    ctx.extra.setdefault("distinct interleavings", set()).add(hash(tuple(d.trace)))
    ctx.count("thread switches between momlevel lines", d.switches())
    for i in range(len(plan)):
        ctx.events.append((calls[i].name, "threaded " + res[i][0]))
        agree(ctx, calls[i], res[i], exps[i], "in concurrent threads")
    for k in ("numpy random state", "random state", "module constants", "environment", "working directory"):
        ctx.check(before[k] == after[k], f"concurrent calls changed the {k}")


# ------------------------------------------------------------------ cases


def key(ctx, j):
    return [int(ctx.seed) & 0x7FFFFFFF, zlib.crc32(b"C25"), int(ctx.index), j]


def case(ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _case(ctx)


def _case(ctx):
    rng = ctx.rng
    mode = ctx.pick("mode", ["history", "options", "scribble", "inplace", "repeat", "threads", "held"], p=[0.27, 0.22, 0.1, 0.12, 0.04, 0.16, 0.09])
    which = int(rng.integers(len(POOL)))
    n = len(POOL)
    target = (key(ctx, 0), which, str(rng.choice(["plain", "plain", "lazy", "bad", "options0"])))
    ctx.note(builder=POOL[which].__name__)
    if mode == "threads":
        k = int(rng.integers(2, 5))
        same = ctx.flip("same function", 0.6)
        plan = [(key(ctx, 0 if same and rng.random() < 0.7 else j), which if same else int(rng.integers(n)), "plain" if j % 2 == 0 else str(rng.choice(["twin", "renamed", "bad", "options1", "options2"])))
                for j in range(k)]
        ctx.note(threads=k)
        threads(ctx, plan)
        return
    exp = baseline(ctx, *target)
    if exp[0] == "raise" and target[2] != "bad":
        # the builder's call itself is rejected: the other checks report that
        ctx.note(baseline="raise")
    subs = []
    try:
        if mode == "history":
            m = int(rng.integers(1, 6))
            names, kept = [], []
            for j in range(1, m + 1):
                if rng.random() < 0.55:
                    p = (key(ctx, 0), which, str(rng.choice(["twin", "renamed", "bad", "lazy", "options1", "options2", "options3", "options4"])))
                else:
                    p = (key(ctx, j), int(rng.integers(n)), str(rng.choice(["plain", "twin", "renamed", "bad"])))
                sub, c = build(*p)
                subs.append(sub)
                names.append(f"{c.name}:{p[2]}")
                r = observed(ctx, c)
                if rng.random() < 0.2:
                    agree(ctx, c, r, baseline(ctx, *p), "in a history")
                if rng.random() < 0.25:
                    kept.append((c, r, p))
                del c, r
            ctx.note(history=m)
            sub, c = build(*target)
            subs.append(sub)
            agree(ctx, c, observed(ctx, c), exp, "after other calls")
            for c, r, p in kept:
                agree(ctx, c, r, baseline(ctx, *p), "kept while other calls ran")
        elif mode == "options":
            # the same inputs with other options, then the target, then one of the others again
            ps = [(key(ctx, 0), which, f"options{j}") for j in range(1, int(rng.integers(2, 5)))]
            for p in ps:
                sub, c = build(*p)
                subs.append(sub)
                observed(ctx, c)
            for p, e in ((target, exp), (ps[0], None)):
                sub, c = build(*p)
                subs.append(sub)
                agree(ctx, c, observed(ctx, c), e or baseline(ctx, *p), "after calls with other options")
        elif mode == "scribble":
            for _ in range(int(rng.integers(1, 3))):
                sub, c = build(*target)
                subs.append(sub)
                r = observed(ctx, c)
                agree(ctx, c, r, exp, "the first time")
                if r[0] == "ok":
                    scribble(r[1])
            sub, c = build(*target)
            subs.append(sub)
            agree(ctx, c, observed(ctx, c), exp, "after an earlier result was overwritten")
        elif mode == "held":
            # a result that is kept must not change while later calls run
            sub, c = build(*target)
            subs.append(sub)
            r = observed(ctx, c)
            for j in range(int(rng.integers(1, 4))):
                p = (target[0], which, str(rng.choice(["twin", "plain", "options1", "options2"]))) if rng.random() < 0.8 else (key(ctx, j + 1), int(rng.integers(n)), "plain")
                sub, c2 = build(*p)
                subs.append(sub)
                observed(ctx, c2)
            agree(ctx, c, r, exp, "kept while other calls ran")
        elif mode == "inplace":
            target = (target[0], which, "plain")
            exp = baseline(ctx, target[0], which, "twin")
            sub, c = build(*target)
            subs.append(sub)
            c = c.mapped(lambda o: o.copy(deep=True))
            observed(ctx, c)
            c.mapped(edit_in_place)
            edit_files(c)
            agree(ctx, c, observed(ctx, c), exp, "after its inputs were edited in place")
        else:
            sub, c = build(*target)
            subs.append(sub)
            for i in range(3):
                agree(ctx, c, observed(ctx, c), exp, "repeated")
    finally:
        for s in subs:
            s.close()
