"""C34 the outside world: nothing is written, left open or consulted."""
import contextlib
import decimal
import gc
import hashlib
import io
import locale
import os
import random
import sys
import threading
import time
import warnings

import numpy as np
import pandas as pd
import xarray as xr

from vmon import catalogue as K
from vmon.core import Violation
from vmon.props import c25

CASES = {"quick": 12000, "thorough": 120000}
RULE = (
    "every public call between two looks at the outside world, under an interpreter audit hook: no file opened for writing, created, renamed or removed, "
    "no process, socket or shell; environment variables the package asks for are set to other values; open descriptors and child processes as before; a scratch working directory, home and temporary directory unchanged; "
    "files behind file-backed inputs unchanged byte for byte and their results equal to those of the inputs in memory; no text printed without being asked for; "
    "results equal under another working directory, home, temporary directory, time zone, locale, user options and a directory full of "
    "decoy files; distinct by feature tuple"
)
ASSUMPTIONS = [
    "reading modules, and files below the installation, is not an effect",
    "temporary files of third-party libraries would count; none are used by the present code",
]

WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
BAD = ("os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown", "os.utime", "os.putenv", "os.unsetenv",
       "os.chdir", "os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn", "os.spawn", "os.kill", "os.killpg", "os.setxattr", "os.removexattr", "os.lockf",
       "subprocess.Popen", "socket.connect", "socket.bind", "socket.getaddrinfo", "socket.__new__", "shutil.copyfile", "shutil.move", "shutil.rmtree",
       "shutil.copytree", "shutil.make_archive", "tempfile.mkstemp", "tempfile.mkdtemp", "urllib.Request", "webbrowser.open", "sqlite3.connect", "ftplib.connect",
       "http.client.connect", "smtplib.connect", "signal.pthread_kill", "fcntl.fcntl", "fcntl.flock", "mmap.__new__", "syslog.syslog", "resource.setrlimit")
ALLOWED = tuple({os.path.realpath(p) for p in (sys.prefix, sys.base_prefix, "/usr", "/lib", "/etc", "/proc", "/sys", "/dev/null", "/dev/urandom")})

_on = threading.local()
_log = []
_hooked = [False]


def _hook(event, args):
    if not getattr(_on, "v", False):
        return
    if event == "open":
        path, mode, flags = (tuple(args) + (None, None, None))[:3]
        if isinstance(path, int):
            return
        w = bool(isinstance(mode, str) and set(mode) & set("wax+")) or bool(isinstance(flags, int) and flags & WRITE)
        _log.append(("write" if w else "read", os.fsdecode(path) if isinstance(path, (str, bytes)) else str(path)))
    elif event in BAD:
        _log.append((event, str(args)[:200]))


_keys = set()
_plain = os._Environ.__getitem__


def _getenv(self, key):
    if getattr(_on, "v", False):
        # only what the package itself asks for, not the libraries below it
        f = sys._getframe(1)
        while f is not None and ("collections_abc" in f.f_code.co_filename or "collections.abc" in f.f_code.co_filename or os.path.basename(f.f_code.co_filename) == "os.py"):
            f = f.f_back
        if f is not None and str(f.f_globals.get("__name__", "")).split(".")[0] == "momlevel":
            _keys.add(str(key))
    return _plain(self, key)


def setup(tier):
    os._Environ.__getitem__ = _getenv
    sys.dont_write_bytecode = True
    # imports that third-party modules make on first use happen before the observation starts
    import xarray.coding.cftime_offsets  # noqa: F401
    import netCDF4  # noqa: F401
    import scipy.io  # noqa: F401


def tree(root):
    out = {}
    for base, ds, fs in os.walk(root):
        for n in ds:
            out[os.path.join(base, n)] = "dir"
        for n in fs:
            p = os.path.join(base, n)
            with open(p, "rb") as f:
                out[p] = hashlib.sha1(f.read()).hexdigest()
    return out


def fds():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[n] = os.readlink("/proc/self/fd/" + n)
        except OSError:
            pass
    return out


def state():
    """process-wide state that belongs to the caller"""
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], random.getstate(), os.getcwd(), os.getpriority(os.PRIO_PROCESS, 0), sys.getrecursionlimit(), gc.isenabled(), gc.get_threshold(),
            sys.gettrace(), sys.getprofile(), sys.excepthook is EXC, decimal.getcontext().prec, locale.setlocale(locale.LC_ALL), tuple(sys.path))


EXC = sys.excepthook


def observe(ctx, c, named, verbose=False, label=None):
    """one call under the hook; returns ('ok', result) or ('raise', type name)"""
    if not _hooked[0]:
        sys.addaudithook(_hook)
        _hooked[0] = True
    out, err = io.StringIO(), io.StringIO()
    before = fds()
    mods = set(sys.modules)
    gen = state()
    ctx.ncalls += 1
    with warnings.catch_warnings(), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        warnings.simplefilter("ignore")
        del _log[:]
        _on.v = True
        try:
            r = ("ok", c())
        except Exception as e:  # noqa: BLE001
            r = ("raise", type(e).__name__, str(e)[:200])
        finally:
            _on.v = False
    log = list(_log)
    after = fds()
    ctx.events.append((c.name, r[0] if r[0] == "ok" else "raise:" + r[1]))
    ctx.count("audited events", len(log))
    fresh = bool(set(sys.modules) - mods)
    src = os.path.realpath(os.path.join(os.environ.get("VMON_REPO", "/repo")))
    for ev, what in log:
        if ev == "read":
            p = os.path.realpath(what)
            if p.startswith(ALLOWED) or p.startswith(src) or fresh and not what.endswith(".csv"):
                continue
            ctx.check(p in named, f"{c.name} reads a file it was not given", what)
        elif ev == "write" and os.path.realpath(what) == "/dev/null":
            continue
        else:
            ctx.fail(f"{c.name} acts on the outside world: {ev}", what)
    ctx.ncompared += 1
    left = {k: v for k, v in after.items() if before.get(k) != v and not v.startswith("/proc")}
    if not fresh:
        ctx.check(not left, f"{c.name} leaves descriptors open", lambda: str(left))
    ctx.check(state() == gen, f"{c.name} draws from, or restarts, the process-wide random generators or changes process settings")
    text = out.getvalue() + err.getvalue()
    if r[0] == "ok" and not verbose:
        ctx.check(text == "", f"{c.name} prints", lambda: text[:300])
    elif verbose and r[0] == "ok":
        ctx.check(text != "", f"{c.name} is silent although asked to report")
    return r


ENV = {
    "TZ": ["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Kiritimati", "NZ-12NZDT,M9.5.0,M4.1.0/3"],
    "LANG": ["C", "C.UTF-8", "de_DE.UTF-8"],
    "LC_ALL": ["C", "C.UTF-8", "POSIX"],
    "HOME": None, "TMPDIR": None, "XDG_CACHE_HOME": None, "XDG_CONFIG_HOME": None,
    "MOMLEVEL_EOS": ["linear"], "MOMLEVEL_DATA": ["/nonexistent"], "DEBUG": ["1"], "VERBOSE": ["1"], "PYTHONOPTIMIZE": ["1"], "NO_COLOR": ["1"], "CI": ["1"],
    "USER": ["nobody", "root"], "HOSTNAME": ["elsewhere"],
}
DECOYS = ["us", "global", "us.csv", "global.csv", "us_tide_gauges.csv", "global_tide_gauges.csv", "momlevel.cfg", "config.yaml", ".momlevel", "setup.cfg", "wright.py", "resources"]


@contextlib.contextmanager
def elsewhere(ctx, base):
    """another directory, home, time zone, locale, environment"""
    rng = ctx.rng
    cwd, env, loc = os.getcwd(), dict(os.environ), locale.setlocale(locale.LC_ALL)
    d = os.path.join(base, "away")
    os.makedirs(d, exist_ok=True)
    for n in DECOYS:
        p = os.path.join(d, n)
        if not os.path.exists(p) and rng.random() < 0.6:
            with open(p, "w") as f:
                f.write("name,lat,lon\nDecoy,0.0,0.0\n")
    opts = []
    try:
        os.chdir(d)
        for k in ENV:
            if rng.random() < (0.7 if k == "TZ" else 0.4):
                os.environ[k] = d if ENV[k] is None else str(rng.choice(ENV[k]))
        time.tzset()
        if rng.random() < 0.3:
            with contextlib.suppress(locale.Error):
                locale.setlocale(locale.LC_ALL, str(rng.choice(["C", "C.UTF-8", "POSIX"])))
        stack = contextlib.ExitStack()
        with stack:
            if rng.random() < 0.3:
                stack.enter_context(np.printoptions(precision=2, suppress=True))
                opts.append("print")
            if rng.random() < 0.3:
                stack.enter_context(pd.option_context("display.max_rows", 3, "display.precision", 2))
                opts.append("pandas")
            if rng.random() < 0.3:
                stack.enter_context(xr.set_options(display_width=40, display_style="text"))
                opts.append("xarray")
            if rng.random() < 0.3:
                np.random.seed(int(rng.integers(1000)))
            ctx.note(options=",".join(opts))
            yield
    finally:
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)
        time.tzset()
        locale.setlocale(locale.LC_ALL, loc)


def backed(ctx, c, base):
    """the same call with its datasets read from netCDF files, not loaded"""
    opened, files = [], []

    def f(o):
        ds = o if isinstance(o, xr.Dataset) else None
        name = None
        if ds is None:
            if o.name is None or o.name in o.dims or not o.dims or o.dtype == object:
                return o
            name = o.name
            ds = o.to_dataset(name=name)
        if ds.attrs or True:
            ds = ds.copy()
        p = os.path.join(base, f"in{len(files)}.nc")
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ds.to_netcdf(p)
                back = xr.open_dataset(p, decode_times=xr.coders.CFDatetimeCoder(use_cftime=True) if hasattr(xr, "coders") and hasattr(xr.coders, "CFDatetimeCoder") else True,
                                       **({} if hasattr(xr, "coders") and hasattr(xr.coders, "CFDatetimeCoder") else {"use_cftime": True}))
        except Exception:  # noqa: BLE001
            if os.path.exists(p):
                os.remove(p)
            return o
        # only inputs that a file represents exactly
        same = True
        for v in ds.variables:
            if v not in back.variables or back[v].dtype != ds[v].dtype or not ds[v].equals(back[v]):
                same = False
        if not same:
            back.close()
            os.remove(p)
            return o
        back.close()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            back = xr.open_dataset(p, **({"use_cftime": True}))
        for v in ds.variables:
            back[v].attrs = dict(ds[v].attrs)
        back.attrs = dict(ds.attrs)
        files.append(p)
        opened.append(back)
        return back if name is None else back[name]

    return c.mapped(f), opened, files


def named_files(c):
    out = set()
    for a in list(c.args) + list(c.kwargs.values()):
        if isinstance(a, (str, os.PathLike)) and os.path.exists(os.fspath(a)):
            out.add(os.path.realpath(os.fspath(a)))
    return out


def draw(ctx):
    import momlevel as ml
    rng = ctx.rng
    if ctx.flip("bundled", 0.06):
        c = K.b_gauge(ctx)
        c.kwargs["csv"] = str(rng.choice(["us", "global"]))
        ctx.note(call="bundled " + c.kwargs["csv"])
        return c
    if ctx.flip("generator", 0.06):
        c = c25.b_testdata(ctx)
        ctx.note(call=c.name)
        return c
    if ctx.flip("verbose", 0.05):
        c = K.b_steric(ctx)
        c.kwargs["verbose"] = True
        ctx.note(call="verbose")
        return c
    if ctx.flip("record", 0.1):
        return K.draw(ctx, [K.b_average, K.b_trend, K.b_season])
    assert ml is not None
    return K.draw(ctx)


def case(ctx):
    rng = ctx.rng
    base = ctx.tmpdir()
    c = draw(ctx)
    verbose = bool(c.kwargs.get("verbose"))
    if c.bad and ctx.flip("invalid", 0.15):
        bad = c.mapped(lambda o: o, c.bad)
        observe(ctx, bad, named_files(bad))
        return
    before = tree(base)
    r = observe(ctx, c, named_files(c), verbose)
    if r[0] != "ok":
        ctx.fail(f"{c.name} raised {r[1]}", r[2])
    ctx.check(tree(base) == before, f"{c.name} changed files")
    want = K.computed(r[1])
    asked, old = sorted(_keys), dict(os.environ)
    ctx.count("variables consulted", len(asked))
    for k in asked:
        # variables the package consults must not matter
        for v in ("1", "0", "", "linear", "float64", "us", os.path.join(base, "none")):
            os.environ[k] = v
            try:
                s = observe(ctx, c, named_files(c), verbose)
            finally:
                os.environ.clear()
                os.environ.update(old)
            if s[0] != "ok":
                ctx.fail(f"{c.name} raised {s[1]} with {k}={v}", s[2])
            ctx.equal_xr(K.computed(s[1]), want, f"{c.name} with {k}={v}", rtol=1e-13, atol=0.0)
    how = ctx.pick("how", ["elsewhere", "file-backed"], p=[0.6, 0.4])
    if how == "elsewhere":
        nm = named_files(c)
        with elsewhere(ctx, base):
            away = tree(base)
            s = observe(ctx, c, nm, verbose)
            if s[0] != "ok":
                ctx.fail(f"{c.name} raised {s[1]} in another environment", s[2])
            got = K.computed(s[1])
            ctx.check(tree(base) == away, f"{c.name} changed files in another environment")
        ctx.equal_xr(got, want, f"{c.name} in another environment", rtol=1e-13, atol=0.0)
        return
    b, opened, files = backed(ctx, c, base)
    try:
        ctx.count("file-backed inputs", len(files))
        if not files:
            return
        before = tree(base)
        s = observe(ctx, b, named_files(b) | {os.path.realpath(f) for f in files}, verbose)
        if s[0] != "ok":
            ctx.fail(f"{c.name} raised {s[1]} for file-backed input", s[2])
        got = K.computed(s[1])
        ctx.check(tree(base) == before, f"{c.name} changed the files behind its input")
        ctx.equal_xr(got, want, f"{c.name} of file-backed input", rtol=max(c.rtol, 1e-9), atol=c.atol)
    finally:
        for o in opened:
            o.close()
    assert Violation and rng is not None
