"""Runner, boundary monitor and verdicts.

A property module (vmon.props.cNN) provides

    CASES = {"quick": n, "thorough": m}
    RULE  = text for the evidence file
    ASSUMPTIONS = [...]
    def case(ctx): ...           # one generated case

`ctx.call` is the boundary monitor: every call into momlevel goes through it and becomes an
event.  `ctx.same` and friends are the oracle comparisons; they raise Violation.
Three verdicts: held (exit 0), violated (exit 1), no answer (exit 2).
"""

import contextlib
import importlib
import importlib.abc
import importlib.machinery
import json
import math
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback
import warnings
import zlib

REPO = os.environ.get("VMON_REPO", "/repo")
SRC = os.path.join(REPO, "src")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = 8
TIME_CAP = {"quick": 500.0, "thorough": 6000.0}


# --------------------------------------------------------------------------- import of the SUT


class _FreshLoader(importlib.machinery.SourceFileLoader):
    """Compiles from source every time: a cached .pyc can never hide a change."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _FreshFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "momlevel" and not fullname.startswith("momlevel."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(
            fullname, [SRC] if fullname == "momlevel" else path
        )
        if spec is not None and isinstance(
            spec.loader, importlib.machinery.SourceFileLoader
        ):
            spec.loader = _FreshLoader(spec.loader.name, spec.loader.path)
        return spec


def load_sut():
    sys.dont_write_bytecode = True
    for f in sys.meta_path:
        if isinstance(f, _FreshFinder):
            break
    else:
        sys.meta_path.insert(0, _FreshFinder())
    import momlevel

    # submodules that only a direct import loads
    importlib.import_module("momlevel.steric")
    f = os.path.abspath(momlevel.__file__)
    assert f.startswith(os.path.abspath(SRC) + os.sep), f
    return momlevel


# --------------------------------------------------------------------------- execution monitor


class ExecMonitor:
    """sys.monitoring on momlevel's own code objects: which functions were entered, which lines ran."""

    TOOL = 3

    def __init__(self):
        self.lines = set()
        self.calls = {}
        self.codes = []
        seen = set()

        def walk(code):
            if code in seen or not code.co_filename.startswith(SRC):
                return
            seen.add(code)
            self.codes.append(code)
            for c in code.co_consts:
                if hasattr(c, "co_code"):
                    walk(c)

        for name, mod in list(sys.modules.items()):
            if name == "momlevel" or name.startswith("momlevel."):
                for obj in list(vars(mod).values()):
                    code = getattr(obj, "__code__", None)
                    if code is not None:
                        walk(code)
        self.total = set()
        for c in self.codes:
            for _, _, ln in c.co_lines():
                if ln is not None and ln != c.co_firstlineno:
                    self.total.add((c.co_filename, ln))

    def start(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "vmon")
        m.register_callback(self.TOOL, m.events.LINE, self._line)
        m.register_callback(self.TOOL, m.events.PY_START, self._start)
        for c in self.codes:
            m.set_local_events(self.TOOL, c, m.events.LINE | m.events.PY_START)

    def _line(self, code, line):
        self.lines.add((code.co_filename, line))
        return sys.monitoring.DISABLE

    def _start(self, code, _off):
        k = os.path.relpath(code.co_filename, SRC) + ":" + code.co_name
        self.calls[k] = self.calls.get(k, 0) + 1


# --------------------------------------------------------------------------- verdict objects


class Violation(Exception):
    def __init__(self, kind, detail=""):
        super().__init__(kind)
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    pass


class Skip(Exception):
    """The generated case lies outside the property's domain; it is not counted."""


def _label(fn):
    if hasattr(fn, "name") and hasattr(fn, "fn"):
        return str(fn.name)
    mod = getattr(fn, "__module__", "") or ""
    name = getattr(fn, "__qualname__", getattr(fn, "__name__", repr(fn)))
    return f"{mod}.{name}"


# Properties whose own oracle looks at buffers, object identity or attributes of the inputs.
NO_DISGUISE = {"C22", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31"}
NO_ATTRS = {"C13", "C15"}


def _layout(rng, a):
    """The same values in another memory layout (and possibly a read-only buffer)."""
    import numpy as np

    k = int(rng.integers(4))
    if k == 0 and a.ndim:
        b = np.asfortranarray(a.copy())
    elif k == 1:
        b = np.empty(a.shape + (2,), dtype=a.dtype)[..., 0]
        b[...] = a
    elif k == 2 and a.ndim:
        b = a[..., ::-1].copy()[..., ::-1]
    else:
        b = a.copy()
    if rng.random() < 0.5:
        b.flags.writeable = False
    return b


def disguise_array(rng, x, attrs=True):
    """A labelled array with the same content that differs in ways no result may depend on."""
    import numpy as np
    import xarray as xr

    y = x.copy(deep=False)
    if isinstance(x.variable._data, np.ndarray) and x.variable._data.dtype.kind in "fiub":
        y = x.copy(deep=False, data=_layout(rng, x.variable._data))
    if rng.random() < 0.4:
        y.encoding = {
            "_FillValue": np.float32(1e20),
            "missing_value": np.float32(1e20),
            "dtype": np.dtype("float32"),
            "scale_factor": 0.01,
            "add_offset": 5.0,
            "source": "/nowhere/ocean.nc",
            "original_shape": tuple(x.shape),
        }
    if attrs and rng.random() < 0.4:
        y.attrs = dict(
            x.attrs, cell_methods="time: mean", interp_method="none", valid_range=[0, 1]
        )
    return y


class Ctx:
    def __init__(self, prop, tier, seed, index):
        import numpy as np

        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.index = index
        self.rng = np.random.default_rng(
            [int(seed) & 0x7FFFFFFF, zlib.crc32(prop.encode()), int(index)]
        )
        self.features = {}
        self.events = []
        self.ncalls = 0
        self.ncompared = 0
        self.nvalues = 0
        self.known = []
        self.extra = {}
        self.tmp = None
        self._drng = np.random.default_rng(
            [7, int(seed) & 0x7FFFFFFF, zlib.crc32(prop.encode()), int(index)]
        )
        self._dmemo = {}
        self._don = prop not in NO_DISGUISE and self._drng.random() < 0.6

    # -- features make cases distinct
    def note(self, **kw):
        for k, v in kw.items():
            self.features[k] = v if isinstance(v, (int, float, str, bool)) else str(v)

    def pick(self, name, options, p=None):
        """Random choice that is recorded as a feature of the case."""
        i = int(self.rng.choice(len(options), p=p))
        v = options[i]
        self.features[name] = v if isinstance(v, (int, float, str, bool)) else str(v)
        return v

    def flip(self, name, p=0.5):
        v = bool(self.rng.random() < p)
        self.features[name] = v
        return v

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    # -- disguise: the same input in another layout, with encoding and attributes of a file
    def _disguise(self, x):
        import numpy as np
        import xarray as xr

        if not isinstance(x, (np.ndarray, xr.DataArray, xr.Dataset)):
            return x
        if type(x) not in (np.ndarray, xr.DataArray, xr.Dataset):
            return x
        hit = self._dmemo.get(id(x))
        if hit is not None:
            return hit[1]
        r = self._drng
        if isinstance(x, xr.DataArray):
            y = disguise_array(r, x, self.prop not in NO_ATTRS)
        elif isinstance(x, xr.Dataset):
            y = x.copy(deep=False)
            for v in list(x.data_vars):
                z = disguise_array(r, x[v], self.prop not in NO_ATTRS)
                y[v] = z.variable
                y[v].encoding = z.encoding
        elif x.dtype.kind in "fiub":
            y = _layout(r, x)
        else:
            y = x
        self._dmemo[id(x)] = (x, y)
        self.count("disguised_inputs")
        return y

    def _dress(self, args, kw):
        if not self._don:
            return args, kw
        return (
            tuple(self._disguise(a) for a in args),
            {k: self._disguise(v) for k, v in kw.items()},
        )

    # -- boundary monitor
    def call(self, fn, *args, **kw):
        """Calls the SUT; an exception is a violation (the inputs are in the domain)."""
        expect = kw.pop("_expect", None)
        label = _label(fn)
        self.ncalls += 1
        args, kw = self._dress(args, kw)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                out = fn(*args, **kw)
            except Exception as e:  # noqa: BLE001
                self.events.append((label, "raise:" + type(e).__name__))
                if expect is not None and isinstance(e, expect):
                    return e
                raise Violation(
                    f"{label} raised {type(e).__name__}",
                    "".join(traceback.format_exception(e))[-3000:],
                ) from None
        self.events.append((label, "ok"))
        if expect is not None:
            raise Violation(
                f"{label} accepted an invalid input", f"result {type(out)}"
            )
        return out

    def rejects(self, fn, *args, **kw):
        kw["_expect"] = kw.pop("_types", (Exception,))
        return self.call(fn, *args, **kw)

    def attempt(self, fn, *args, **kw):
        """Calls the SUT and returns (ok, result or exception); either is acceptable."""
        label = _label(fn)
        self.ncalls += 1
        args, kw = self._dress(args, kw)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                out = fn(*args, **kw)
            except Exception as e:  # noqa: BLE001
                self.events.append((label, "raise:" + type(e).__name__))
                return False, e
        self.events.append((label, "ok"))
        return True, out

    # -- oracle comparisons
    def fail(self, kind, detail=""):
        raise Violation(kind, detail)

    def check(self, cond, kind, detail=""):
        self.ncompared += 1
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)

    def close(self, got, exp, what, rtol=1e-9, atol=0.0):
        """Plain arrays: same shape, same missing pattern, values within tolerance."""
        import numpy as np

        g = np.asarray(got)
        e = np.asarray(exp)
        self.ncompared += 1
        self.nvalues += int(e.size)
        if g.shape != e.shape:
            raise Violation(f"{what}: shape", f"got {g.shape} expected {e.shape}")
        if g.dtype.kind not in "fiubc":
            raise Violation(f"{what}: dtype", f"got {g.dtype}")
        g = g.astype(complex if g.dtype.kind == "c" else float)
        e = e.astype(complex if e.dtype.kind == "c" else float)
        gn, en = np.isnan(g), np.isnan(e)
        if (gn != en).any():
            i = tuple(int(x) for x in np.argwhere(gn != en)[0])
            raise Violation(
                f"{what}: missing values",
                f"at {i} got {g[i]} expected {e[i]} ({int((gn != en).sum())} of {g.size} differ)",
            )
        ok = en | (g == e)
        with np.errstate(all="ignore"):
            ok |= np.abs(g - e) <= (atol + rtol * np.abs(e))
        if not ok.all():
            bad = np.argwhere(~ok)
            i = tuple(int(x) for x in bad[0])
            raise Violation(
                f"{what}: values",
                f"at {i} got {g[i]!r} expected {e[i]!r} ({len(bad)} of {g.size} differ)",
            )

    def same(self, got, exp, dims, what, rtol=1e-9, atol=0.0, coords=None):
        """Labelled result against a plain array given in dimension order `dims`."""
        import numpy as np
        import xarray as xr

        if not isinstance(got, xr.DataArray):
            raise Violation(f"{what}: not a DataArray", str(type(got)))
        if set(got.dims) != set(dims) or len(got.dims) != len(dims):
            raise Violation(f"{what}: dimensions", f"got {got.dims} expected {dims}")
        g = got.transpose(*dims)
        if coords:
            for d, labels in coords.items():
                if labels is None or d not in dims:
                    continue
                if d not in g.coords:
                    raise Violation(f"{what}: coordinate {d} lost", "")
                a = np.asarray(g[d].values)
                if a.shape != np.shape(labels) or not (a == np.asarray(labels)).all():
                    raise Violation(
                        f"{what}: labels of {d}", f"got {a} expected {labels}"
                    )
        if np.ndim(atol):
            atol = np.broadcast_to(atol, np.shape(exp))
        self.close(g.values, exp, what, rtol=rtol, atol=atol)

    def equal_xr(self, a, b, what, rtol=1e-9, atol=1e-12, order=True):
        """Two results (DataArray/Dataset) agree on dims, labels, missing pattern and values."""
        import numpy as np
        import xarray as xr

        if isinstance(a, tuple) or isinstance(b, tuple):
            if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
                raise Violation(f"{what}: kinds differ", f"{type(a)} {type(b)}")
            for i, (x, y) in enumerate(zip(a, b)):
                self.equal_xr(x, y, f"{what}[{i}]", rtol, atol, order)
            return
        if isinstance(b, xr.Dataset):
            if not isinstance(a, xr.Dataset):
                raise Violation(f"{what}: kinds differ", f"{type(a)} {type(b)}")
            if set(a.data_vars) != set(b.data_vars):
                raise Violation(
                    f"{what}: variables", f"{sorted(map(str,a))} {sorted(map(str,b))}"
                )
            for v in b.data_vars:
                self.equal_xr(a[v], b[v], f"{what}.{v}", rtol, atol, order)
            return
        if isinstance(b, xr.DataArray):
            if not isinstance(a, xr.DataArray):
                raise Violation(f"{what}: kinds differ", f"{type(a)} {type(b)}")
            if set(a.dims) != set(b.dims) or (order and a.dims != b.dims):
                raise Violation(f"{what}: dimensions", f"{a.dims} {b.dims}")
            a2 = a.transpose(*b.dims)
            for d in b.dims:
                if (d in a2.coords) != (d in b.coords):
                    raise Violation(f"{what}: coordinate {d}", "present in one only")
                if d in b.coords:
                    x, y = a2[d].values, b[d].values
                    if x.shape != y.shape or not (x == y).all():
                        raise Violation(f"{what}: labels of {d}", f"{x} {y}")
            if b.dtype.kind in "fiubc":
                self.close(a2.values, b.values, what, rtol=rtol, atol=atol)
            else:
                self.ncompared += 1
                x, y = a2.values, b.values
                if x.shape != y.shape or not (x == y).all():
                    raise Violation(f"{what}: values", f"{x} {y}")
            return
        if isinstance(b, np.ndarray) or np.isscalar(b):
            self.close(a, b, what, rtol=rtol, atol=atol)
            return
        import pandas as pd

        if isinstance(b, pd.DataFrame):
            self.ncompared += 1
            try:
                pd.testing.assert_frame_equal(a, b, rtol=max(rtol, 1e-12))
            except AssertionError as e:
                raise Violation(f"{what}: frames differ", str(e)[:500]) from None
            return
        if isinstance(b, (list,)):
            self.check(list(a) == list(b), f"{what}: lists differ")
            return
        raise HarnessError(f"cannot compare {type(b)}")

    def known_finding(self, kid, detail=""):
        self.known.append((kid, detail))

    def tmpdir(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix="vmon_")
        return self.tmp

    def close_tmp(self):
        if self.tmp is not None:
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None


# --------------------------------------------------------------------------- workers


def run_case(mod, prop, tier, seed, index):
    """Returns (ctx, verdict) with verdict None, ('violation', kind, detail) or ('error', text)."""
    ctx = Ctx(prop, tier, seed, index)
    verdict = None
    try:
        mod.case(ctx)
    except Skip:
        verdict = ("skip",)
    except Violation as v:
        verdict = ("violation", v.kind, v.detail)
    except HarnessError:
        verdict = ("error", traceback.format_exc()[-3000:])
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:  # noqa: BLE001
        if ctx.ncalls > 0:
            # the result of a call was so malformed that reading it failed
            verdict = (
                "violation",
                f"result cannot be read ({type(e).__name__})",
                traceback.format_exc()[-3000:],
            )
        else:
            verdict = ("error", traceback.format_exc()[-3000:])
    finally:
        ctx.close_tmp()
    return ctx, verdict


def worker(prop, tier, seed, w, nproc, ncases, deadline, conn):
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    sys.stderr = devnull
    out = {
        "w": w, "done": 0, "skipped": 0, "ncalls": 0, "ncompared": 0, "nvalues": 0,
        "events": {}, "sigs": set(), "samples": [], "known": {}, "violations": [],
        "error": None, "extra": {}, "feat": {},
    }
    try:
        mod = importlib.import_module(f"vmon.props.{prop.lower()}")
        import dask

        dask.config.set(scheduler="synchronous")
        mon = ExecMonitor()
        mon.start()
        if hasattr(mod, "setup"):
            mod.setup(tier)
        for i in range(w, ncases, nproc):
            if time.time() > deadline:
                break
            ctx, verdict = run_case(mod, prop, tier, seed, i)
            out["ncalls"] += ctx.ncalls
            out["ncompared"] += ctx.ncompared
            out["nvalues"] += ctx.nvalues
            for e in ctx.events:
                k = e[0] + " " + e[1]
                out["events"][k] = out["events"].get(k, 0) + 1
            for k, v in ctx.extra.items():
                if isinstance(v, set):
                    out["extra"].setdefault(k, set()).update(v)
                else:
                    out["extra"][k] = out["extra"].get(k, 0) + v
            for kid, det in ctx.known:
                k = out["known"].setdefault(kid, [0, det])
                k[0] += 1
            if verdict is not None and verdict[0] == "skip":
                out["skipped"] += 1
                continue
            out["done"] += 1
            if verdict is None:
                if ctx.ncompared:
                    out["sigs"].add(tuple(sorted(ctx.features.items(), key=str)))
                for k, v in ctx.features.items():
                    if isinstance(v, (str, bool)):
                        kk = f"{k}={v}"
                        out["feat"][kk] = out["feat"].get(kk, 0) + 1
                if len(out["samples"]) < 1:
                    out["samples"].append(
                        {"case": i, "features": ctx.features,
                         "events": [" ".join(e) for e in ctx.events[:12]],
                         "values_compared": ctx.nvalues}
                    )
            elif verdict[0] == "violation":
                out["violations"].append(
                    {"index": i, "kind": verdict[1], "detail": verdict[2],
                     "features": ctx.features,
                     "events": [" ".join(e) for e in ctx.events]}
                )
                if len(out["violations"]) >= 3:
                    break
            else:
                out["error"] = f"case {i}: {verdict[1]}"
                break
        out["lines"] = {(os.path.relpath(f, SRC), ln) for f, ln in mon.lines}
        out["total"] = {(os.path.relpath(f, SRC), ln) for f, ln in mon.total}
        out["fcalls"] = mon.calls
    except BaseException:  # noqa: BLE001
        out["error"] = traceback.format_exc()[-3000:]
    conn.send(out)
    conn.close()


def load_known():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        return {k["id"]: k for k in json.load(f)["known"]}


def run(prop, tier, seed, ncases=None, nproc=NPROC, quiet=False):
    t0 = time.time()
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    load_sut()
    mod = importlib.import_module(f"vmon.props.{prop.lower()}")
    n = ncases or mod.CASES[tier]
    deadline = t0 + TIME_CAP[tier]
    mpc = mp.get_context("fork")
    procs = []
    for w in range(nproc):
        a, b = mpc.Pipe(duplex=False)
        p = mpc.Process(
            target=worker, args=(prop, tier, seed, w, nproc, n, deadline, b)
        )
        p.start()
        b.close()
        procs.append((p, a))
    outs, errors = [], []
    hard = deadline + 200
    for p, a in procs:
        try:
            if a.poll(max(1.0, hard - time.time())):
                outs.append(a.recv())
            else:
                errors.append("worker did not answer in time")
        except EOFError:
            errors.append("worker died")
        if p.is_alive():
            p.join(5)
        if p.is_alive():
            p.kill()
    known_ids = load_known()
    viol, known = [], {}
    ev, feat, extra, fcalls = {}, {}, {}, {}
    sigs, lines, total = set(), set(), set()
    samples = []
    tot = {"done": 0, "skipped": 0, "ncalls": 0, "ncompared": 0, "nvalues": 0}
    for o in outs:
        if o["error"]:
            errors.append(o["error"])
        for k in tot:
            tot[k] += o[k]
        for src, dst in ((o["events"], ev), (o["feat"], feat), (o.get("fcalls", {}), fcalls)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        for k, v in o["extra"].items():
            if isinstance(v, set):
                extra.setdefault(k, set()).update(v)
            else:
                extra[k] = extra.get(k, 0) + v
        sigs |= o["sigs"]
        lines |= o.get("lines", set())
        total |= o.get("total", set())
        samples += o["samples"]
        for v in o["violations"]:
            v["worker"] = o["w"]
            viol.append(v)
        for kid, (c, det) in o["known"].items():
            k = known.setdefault(kid, [0, det])
            k[0] += c
    # a known finding that the file does not list is a violation
    for kid in list(known):
        if kid not in known_ids or known_ids[kid]["property"] != prop:
            viol.append(
                {"index": -1, "worker": -1, "kind": f"unlisted finding {kid}",
                 "detail": known[kid][1], "features": {}, "events": []}
            )
            del known[kid]
    viol.sort(key=lambda v: v["index"])
    printed = 0
    seen = set()
    rdir = os.path.join(HERE, "replays")
    for v in viol:
        if v["kind"] in seen:
            continue
        seen.add(v["kind"])
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{tier}-{seed}-{v['index']}.json")
        with open(path, "w") as f:
            json.dump(
                {"property": prop, "tier": tier, "seed": seed, "nproc": nproc, **v},
                f, indent=1, default=str,
            )
        if printed < 5:
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {v['kind']}: {str(v['detail'])[-400:]}")
            printed += 1
    for kid, (c, det) in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {kid}: {known_ids[kid]['what']} (seen {c} times)")
    for e in errors:
        print(f"ERROR property={prop} {e}")
    observed = tot["ncalls"] > 0 and tot["ncompared"] > 0 and tot["done"] > 0
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": int(seed),
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": tot["done"],
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:4],
            "cases_outside_domain": tot["skipped"],
            "boundary_events": tot["ncalls"],
            "oracle_comparisons": tot["ncompared"],
            "values_compared": tot["nvalues"],
            "events_by_function_and_outcome": dict(sorted(ev.items())),
            "momlevel_functions_entered": dict(sorted(fcalls.items())),
            "momlevel_lines_executed": len(lines & total),
            "momlevel_lines_total": len(total),
            "feature_counts": dict(sorted(feat.items())),
            "observations": {
                k: (len(v) if isinstance(v, set) else v) for k, v in sorted(extra.items())
            },
            "known_findings_seen": {k: c for k, (c, _) in known.items()},
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    if not quiet:
        print(
            f"{prop} {tier} seed={seed}: cases={tot['done']} skipped={tot['skipped']} "
            f"distinct={len(sigs)} events={tot['ncalls']} comparisons={tot['ncompared']} "
            f"violations={len(viol)} wall={time.time()-t0:.1f}s"
        )
    if viol:
        return 1
    if errors or not observed:
        if not observed and not errors:
            print(f"ERROR property={prop} nothing was observed")
        return 2
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    load_sut()
    prop = r["property"]
    mod = importlib.import_module(f"vmon.props.{prop.lower()}")
    import dask

    dask.config.set(scheduler="synchronous")
    real = sys.stdout
    for mode in ("single", "history"):
        idx = (
            [r["index"]]
            if mode == "single"
            else list(range(r["worker"], r["index"] + 1, r["nproc"]))
        )
        last = None
        sys.stdout = open(os.devnull, "w")
        try:
            for i in idx:
                ctx, last = run_case(mod, prop, r["tier"], r["seed"], i)
        finally:
            sys.stdout = real
        if last is not None and last[0] == "violation":
            print(f"reproduced ({mode}): {last[1]}")
            print(last[2])
            print("features:", json.dumps(ctx.features, default=str))
            print(f"VIOLATION property={prop} replay={path}")
            return 1
    print("not reproduced")
    return 0


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--nproc", type=int, default=NPROC)
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.replay)
    return run(a.prop, a.tier, a.seed, a.cases, a.nproc)
