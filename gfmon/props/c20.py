"""C20: purity, determinism, re-entrancy, thread-safety, element-wise evaluation."""
import copy
import gc
import logging
import os
import random
import sys
import threading
import time
import warnings

import mpmath
import numpy as np

from .. import gen, target
from ..catalogue import ENTRIES
from ..core import case

gt = target.load()

CASES = []
RULE = ("Random call histories over a catalogue of all public functions: repeated, interleaved with other (also failing)"
        " calls, with read-only, strided, Fortran-ordered and reversed arrays, from up to 8 threads with forced preemption,"
        " from within user callbacks, after faults injected in user callbacks; batches against single elements."
        "  Non-trivial: at least one array argument or call-back.")
ASSUMPTIONS = ["results are compared to a tight tolerance (memory alignment may change the last bits of BLAS results)",
               "functions based on mpmath share mpmath's global context and are not run concurrently"]
SLOW = ("lattice.fcc", "lattice.sc", "lattice.triangular", "lattice.honeycomb", "lattice.kagome", "basis.pole.gf_from",
        "fourier", "linearprediction", "pade")
BY_NAME = {e.name: e for e in ENTRIES}


# --- observation ------------------------------------------------------------------
def _flat(obj, out=None):
    """Numerical content of a result."""
    out = [] if out is None else out
    if isinstance(obj, np.polynomial.Polynomial):
        out.append(np.asarray(obj.coef))
    elif isinstance(obj, (tuple, list)):
        for oo in obj:
            _flat(oo, out)
    elif hasattr(obj, "__dataclass_fields__"):
        for key in obj.__dataclass_fields__:
            _flat(getattr(obj, key), out)
    elif isinstance(obj, (mpmath.mpf, mpmath.mpc)):
        out.append(np.asarray(complex(obj)))
    else:
        out.append(np.asarray(obj))
    return out


def _arrays(obj, depth=0):
    """All arrays an object holds."""
    if isinstance(obj, np.ndarray):
        return [obj]
    if depth > 4 or callable(obj) or isinstance(obj, (str, bytes, int, float, complex, type(None))):
        return []
    if isinstance(obj, dict):
        obj = tuple(obj.values())
    elif not isinstance(obj, (list, tuple)):
        names = list(getattr(obj, "__dict__", ())) + [n for c in type(obj).__mro__ for n in np.atleast_1d(getattr(c, "__slots__", ()))]
        obj = [getattr(obj, str(n), None) for n in names]
    return [a for o in obj for a in _arrays(o, depth + 1)]


def _overwrite(res, args):
    """Do what the owner of a result is allowed to do."""
    for arr in _arrays(res):
        if arr.size and arr.flags.writeable and arr.dtype.kind in "fci" and not any(arr is a for a in args):
            arr[...] = 77


def _own(obj):
    return [np.array(x) for x in _flat(obj)]


def _state():
    """Observable global state."""
    return {
        "np.geterr": np.geterr(), "np.geterrcall": np.geterrcall(),
        "np.printoptions": repr(sorted(np.get_printoptions().items(), key=str)),
        "warnings.filters": [repr(f) for f in warnings.filters],
        "np.random": tuple(map(repr, np.random.get_state()[:1])) + (np.random.get_state()[1].tobytes(), np.random.get_state()[2]),
        "random": random.getstate()[1][:8], "mp": (mpmath.mp.prec, mpmath.mp.dps), "cwd": os.getcwd(),
        "env": dict(os.environ), "recursion": sys.getrecursionlimit(), "gc": gc.isenabled(),
        "logging": [(n, logging.getLogger(n).level, len(logging.getLogger(n).handlers)) for n in ("", "gftool", "gftool.beb", "gftool.fourier")],
        "switch": round(sys.getswitchinterval(), 9), "showwarning": warnings.showwarning,
    }


def _modules():
    """Digest of the data held by the modules of the package."""
    out = {}
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == "gftool" or name.startswith("gftool.")) or ".tests" in name:
            continue
        for key, val in list(vars(mod).items()):
            if key.startswith("__"):
                continue
            if isinstance(val, np.ndarray):
                out[name, key] = (val.dtype.str, val.shape, val.tobytes())
            elif isinstance(val, (int, float, complex, str, tuple)):
                out[name, key] = repr(val)
            elif callable(val) and getattr(val, "__module__", "").startswith("gftool"):
                out[name, key] = (id(val), repr(getattr(val, "__defaults__", None)), repr(getattr(val, "__kwdefaults__", None)))
    return out


def _changed(mods):
    """Data changed since `mods` was recorded (lazily added caches are nobody's business)."""
    now = _modules()
    return [k for k, v in mods.items() if now.get(k) != v]


def _snap(obj):
    if isinstance(obj, np.ndarray):
        return (obj.shape, obj.dtype.str, obj.strides, obj.flags.writeable, obj.tobytes())
    if isinstance(obj, (list, tuple)):
        return tuple(_snap(o) for o in obj)
    if isinstance(obj, dict):
        return tuple((k, _snap(v)) for k, v in obj.items())
    if hasattr(obj, "__dict__") and not callable(obj):
        return repr(obj)
    return repr(obj) if not callable(obj) else id(obj)


def _same(ctx, label, got, want, rtol):
    ctx.ok(label + ": structure", len(got) == len(want), got=len(got), want=len(want))
    for g, w in zip(got, want):
        if w.dtype.kind in "US":
            ctx.ok(label, np.array_equal(g, w))
            continue
        fin = w[np.isfinite(w)] if w.dtype.kind in "fc" else w
        top = float(np.max(abs(fin))) if fin.size else 0.0
        ctx.close(label, g, w, atol=rtol*top + 1e-300, rtol=rtol)


def _cycle(ctx, only=None):
    """Every function gets its turn."""
    pool = ENTRIES if only is None else [e for e in ENTRIES if only(e)]
    return pool[ctx.seed[2] % len(pool)]


def _pick(rng, only=None):
    pool = ENTRIES if only is None else [e for e in ENTRIES if only(e)]
    return pool[int(rng.integers(len(pool)))]


def _disturb(rng):
    """Other calls, some of them failing half-way."""
    for _ in range(int(rng.integers(1, 4))):
        other = _pick(rng)
        args, kwds = other.make(rng, (2,) if other.batched else ())
        if rng.random() < 0.3:
            kwds = dict(kwds, no_such_argument=1)
        elif rng.random() < 0.3 and args and isinstance(args[0], np.ndarray):
            args = (np.array(["text"]), *args[1:])
        try:
            other.fn(*args, **kwds)
        except Exception:  # noqa: BLE001, S110
            pass


# --- properties -------------------------------------------------------------------
@case(CASES, 2500, 20000)
def pure(ctx, rng):
    """Arguments and global state survive; the answer does not depend on the history or on what is done to results."""
    entry = _cycle(ctx)
    batch = [(), (3,), (2, 2)][int(rng.integers(3))] if entry.batched else ()
    args, kwds = entry.make(rng, batch)
    ctx.tag("pure", entry.name)
    # an unusual environment, which has to survive
    modes = [str(rng.choice(["ignore", "warn"])) for _ in range(4)]
    err = dict(zip(("divide", "over", "under", "invalid"), modes))
    with np.errstate(**err), mpmath.workprec(int(rng.choice([53, 53, 70]))):
        _pure(ctx, rng, entry, args, kwds)
        _refill(ctx, entry, (args, kwds), entry.make(rng, batch))


def _refill(ctx, entry, old, new):
    """Buffers are reused by the caller: the same arrays, filled with other data."""
    args, kwds = old
    values = {**dict(enumerate(new[0])), **new[1]}
    for key, arr in {**dict(enumerate(args)), **kwds}.items():
        val = values.get(key)
        if isinstance(arr, np.ndarray) and isinstance(val, np.ndarray) and val.shape == arr.shape and arr.flags.writeable:
            arr[...] = val
    fresh = copy.deepcopy(old)
    got = _own(ctx.call(entry.fn, *args, **kwds))
    _same(ctx, "refilled buffers", got, _own(ctx.call(entry.fn, *fresh[0], **fresh[1])), entry.rtol)


def _pure(ctx, rng, entry, args, kwds):
    before, state, mods = (_snap(args), _snap(kwds)), _state(), _modules()
    res = ctx.call(entry.fn, *args, **kwds)
    first = _own(res)
    ctx.ok("arguments unchanged", (_snap(args), _snap(kwds)) == before, function=entry.name)
    now = _state()
    ctx.ok("global state unchanged", now == state, function=entry.name, changed=[k for k in now if now[k] != state[k]])
    bad = _changed(mods)
    ctx.ok("module state unchanged", not bad, function=entry.name, changed=bad)
    # results of separate calls are separate objects
    other_args, other_kwds = copy.deepcopy((args, kwds))
    raw = ctx.call(entry.raw, *args, **kwds)
    other = ctx.call(entry.raw, *other_args, **other_kwds)
    ctx.ok("results of separate calls share no memory", not any(
        x.flags.writeable and y.flags.writeable and np.shares_memory(x, y) for x in _arrays(raw) for y in _arrays(other)),
        function=entry.name)
    # overwriting the result must neither reach the arguments nor later results
    _overwrite(res, args)
    _overwrite(raw, args)
    ctx.ok("arguments do not alias the result", (_snap(args), _snap(kwds)) == before, function=entry.name)
    _disturb(rng)
    again = _own(ctx.call(entry.fn, *args, **kwds))
    _same(ctx, "independent of history", again, first, entry.rtol)


class _Logs(logging.Handler):
    """Format everything the package logs."""

    def __init__(self, level):
        super().__init__(level)
        self.seen = 0

    def emit(self, record):
        record.getMessage()
        self.seen += 1

    def __enter__(self):
        self.log = logging.getLogger("gftool")
        self.old = self.log.level, self.log.propagate
        self.log.addHandler(self)
        self.log.setLevel(self.level)
        self.log.propagate = False
        return self

    def __exit__(self, *exc):
        self.log.removeHandler(self)
        self.log.setLevel(self.old[0])
        self.log.propagate = self.old[1]


@case(CASES, 500, 5000)
def log_levels(ctx, rng):
    """Diagnostics are only diagnostics: the answer does not depend on the verbosity."""
    entry = _cycle(ctx) if rng.random() < 0.5 else _cycle(ctx, lambda e: e.callback >= 0)
    args, kwds = entry.make(rng, [(), (3,)][int(rng.integers(2))] if entry.batched else ())
    want = _own(ctx.call(entry.fn, *args, **kwds))
    before = _snap(args), _snap(kwds)
    with _Logs(int(rng.choice([logging.DEBUG, logging.INFO]))) as logs:
        got = _own(ctx.call(entry.fn, *args, **kwds))
    ctx.tag("logged" if logs.seen else "silent", entry.name)
    _same(ctx, "independent of verbosity", got, want, entry.rtol)
    ctx.ok("arguments unchanged", (_snap(args), _snap(kwds)) == before, function=entry.name)


@case(CASES, 1800, 15000)
def layouts(ctx, rng):
    """Memory layout, writability and copies do not matter."""
    entry = _cycle(ctx)
    batch = [(), (3,), (2, 3)][int(rng.integers(3))] if entry.batched else ()
    args, kwds = entry.make(rng, batch)
    want = _own(ctx.call(entry.fn, *args, **kwds))
    how = str(rng.choice(["readonly", "strided", "fortran", "reversed", "swapped", "sub"]))

    def alter(arr):
        if not isinstance(arr, np.ndarray):
            return copy.copy(arr) if isinstance(arr, list) else arr
        if how == "readonly":
            new = arr.copy()
            new.setflags(write=False)
        elif how == "strided" and arr.ndim:
            big = np.full((*arr.shape[:-1], 2*arr.shape[-1]), 99, dtype=arr.dtype)
            new = big[..., ::2]
            new[...] = arr
        elif how == "fortran":
            new = np.array(arr, order="F")
        elif how == "reversed" and arr.ndim:
            new = np.ascontiguousarray(arr[..., ::-1])[..., ::-1]
        elif how == "swapped" and arr.ndim >= 2:
            new = np.ascontiguousarray(np.swapaxes(arr, 0, 1)).swapaxes(0, 1)
        else:
            big = np.zeros(arr.size + 3, dtype=arr.dtype)
            new = big[3:].reshape(arr.shape)
            new[...] = arr
        return new
    ctx.tag("layout", how, entry.name)
    got = _own(ctx.call(entry.fn, *[alter(a) for a in args], **{k: alter(v) for k, v in kwds.items()}))
    _same(ctx, "layout " + how, got, want, max(entry.rtol, 1e-8))


@case(CASES, 2500, 20000)
def elementwise(ctx, rng):
    """A batch gives the results of its elements."""
    entry = _cycle(ctx, lambda e: e.batched)
    batch = [(1,), (4,), (2, 3), (1, 2), (3, 1), (2, 1, 2)][int(rng.integers(6))]
    args, kwds = entry.make(rng, batch)
    ctx.tag("batch", entry.name, batch)
    full = _own(ctx.call(entry.fn, *args, **kwds))
    for arr in full:
        ctx.ok("batch dimensions", arr.shape[:len(batch)] == batch, function=entry.name, shape=arr.shape)
    for idx in np.ndindex(batch):
        one = [a if c is None else a[idx] for a, c in zip(args, entry.core)] + list(args[len(entry.core):])
        if entry.name.startswith("siam"):
            one = [np.asarray(o) for o in one]
        single = _own(ctx.call(entry.fn, *one, **kwds))
        _same(ctx, "batch equals elements", [f[idx] for f in full], single, max(entry.rtol, 1e-8))


# argument carrying the size of the data
SIZED = {"fermi": 0, "bose_fct": 0, "lattice": 0, "pole_gf_z": 2, "pole_gf_d1_z": 2, "pole_gf_tau": 2, "pole_gf_ret_t": 2,
         "pole_gf_tau_b": 2, "pole_gf_moments": 1, "basis.pole.gf_from_moments": 0, "fourier.iw2tau": 0,
         "fourier.tau2": 0, "fourier.tt2z": 1, "matrix.decompose": 0, "density_iw": 1, "density_error": 0,
         "hubbard_dimer": 0, "surface": 0, "siam": 0, "linearprediction": 0, "pade.coefficients": 1,
         "basis.pole.gf_from_z": 1, "basis.pole.gf_from_tau": 0}


def _sized(name):
    keys = [k for k in SIZED if name.startswith(k)]
    return SIZED[max(keys, key=len)] if keys else None


@case(CASES, 1500, 12000)
def mixed_sizes(ctx, rng):
    """The elements of a batch may differ by orders of magnitude without influence on each other."""
    entry = _cycle(ctx, lambda e: e.batched and _sized(e.name) is not None)
    num = int(rng.integers(2, 5))
    args, kwds = entry.make(rng, (num,))
    args = list(args)
    which = _sized(entry.name)
    wide = 3 if entry.name.startswith(("lattice", "hubbard", "surface", "siam")) else 10
    unit = 10.0**rng.uniform(-wide, wide, num)
    if entry.name == "fermi_fct_inv":
        unit = np.minimum(unit, 1)
    if rng.random() < 0.3 and entry.name.startswith(("pole_gf", "fourier", "density_iw", "matrix.decompose")):
        unit[rng.integers(num)] = 0
    args[which] = args[which]*unit.reshape(-1, *[1]*(args[which].ndim - 1))
    if not entry.name.startswith("fourier.iw2tau") and "tau" in entry.name and "moments" in kwds:
        del kwds["moments"]
        kwds.pop("occ", None)
    ctx.tag("sizes", entry.name)
    full = _own(ctx.call(entry.fn, *args, **kwds))
    for idx in range(num):
        one = [a if c is None else a[idx] for a, c in zip(args, entry.core)] + list(args[len(entry.core):])
        if entry.name.startswith("siam"):
            one = [np.asarray(o) for o in one]
        single = _own(ctx.call(entry.fn, *one, **kwds))
        _same(ctx, "batch of different sizes", [f[idx] for f in full], single, max(entry.rtol, 1e-8))


@case(CASES, 1200, 10000)
def chunks(ctx, rng):
    """Large or deeply nested batches give the results of their parts."""
    entry = _cycle(ctx, lambda e: e.batched)
    slow = entry.name.startswith(SLOW)
    nested = rng.random() < 0.3
    if nested:
        batch = [(2, 1, 3, 2), (1, 1, 2, 1, 2), (3, 2, 2)][int(rng.integers(3))]
        cut = int(rng.integers(1, 3)) if batch[0] > 1 else 1
    else:
        batch = (gen.size(rng, 20, 60, 120 if slow else 2500, 0.5),)
        cut = int(rng.integers(1, batch[0]))
    args, kwds = entry.make(rng, batch)
    ctx.tag("chunks", entry.name, len(batch), int(np.log2(batch[0])))
    full = _own(ctx.call(entry.fn, *args, **kwds))
    parts = []
    for sl in (slice(None, cut), slice(cut, None)):
        if len(range(*sl.indices(batch[0]))) == 0:
            continue
        part = [a if c is None else a[sl] for a, c in zip(args, entry.core)] + list(args[len(entry.core):])
        parts.append(_own(ctx.call(entry.fn, *part, **kwds)))
    _same(ctx, "batch equals its parts", full, [np.concatenate(p) for p in zip(*parts)], max(entry.rtol, 1e-8))


def _preempt(seed, prob):
    """Trace function injecting preemption points between the lines of the package."""
    base = os.path.realpath(target.REPO) + "/gftool/"
    draw = random.Random(seed).random

    def local(frame, event, arg):
        if event == "line" and draw() < prob:
            time.sleep(1e-5*draw())
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(base) else None
    return tracer


def _concurrent(ctx, rng, plan, prob):
    """Run the plan (one list of calls per thread) concurrently, compare to the sequential results."""
    nthread = len(plan)
    want = [[_own(e.fn(*a, **k)) for e, a, k in todo] for todo in plan]
    args0 = [[(_snap(a), _snap(k)) for _, a, k in todo] for todo in plan]
    state, mods = _state(), _modules()
    got, errors, order = [[None]*len(t) for t in plan], [], []
    gate = threading.Barrier(nthread)
    old = sys.getswitchinterval()
    seeds = [int(x) for x in rng.integers(1 << 30, size=nthread)]

    def work(me):
        i = 0
        try:
            gate.wait(30)
            sys.settrace(_preempt(seeds[me], prob))
            for i, (e, a, k) in enumerate(plan[me]):
                got[me][i] = _own(e.fn(*a, **k))
                order.append(me)
        except Exception as err:  # noqa: BLE001
            errors.append(f"{plan[me][i][0].name}: {type(err).__name__}: {err}")
        finally:
            sys.settrace(None)
    ths = [threading.Thread(target=work, args=(i,)) for i in range(nthread)]
    sys.setswitchinterval(1e-6)
    try:
        for t in ths:
            t.start()
        for t in ths:
            t.join(300)
    finally:
        sys.setswitchinterval(old)
    ctx.events += sum(len(t) for t in plan)
    ctx.tag("interleaving", hash(tuple(order)))
    ctx.ok("no errors under concurrency", not errors, errors=errors)
    now = _state()
    ctx.ok("global state unchanged", now == state, changed=[k for k in now if now[k] != state[k]],
           functions=sorted({e.name for t in plan for e, _, _ in t})[:8])
    ctx.ok("module state unchanged", not _changed(mods))
    for me, todo in enumerate(plan):
        for i, (e, a, k) in enumerate(todo):
            ctx.ok("shared arguments unchanged", (_snap(a), _snap(k)) == args0[me][i], function=e.name)
            _same(ctx, "concurrent equals sequential", got[me][i], want[me][i], max(e.rtol, 1e-8))


THREADED = [e for e in ENTRIES if e.threads]


@case(CASES, 2*len(THREADED), 12*len(THREADED))
def hammer(ctx, rng):
    """Every function against itself with different arguments, preempted between its lines."""
    entry = THREADED[ctx.seed[2] % len(THREADED)]
    nthread = int(rng.choice([3, 6]))
    reps = 2 if entry.callback >= 0 else 5
    plan = []
    for _ in range(nthread):
        todo = [(entry, *entry.make(rng, (2,) if entry.batched else ())) for _ in range(reps)]
        plan.append(todo)
    ctx.tag("hammer", entry.name, nthread)
    _concurrent(ctx, rng, plan, prob=0.05 if entry.callback >= 0 else 0.4)


@case(CASES, 100, 900)
def threads(ctx, rng):
    """Concurrent mixed calls give the sequential results and leave the global state alone."""
    nthread = int(rng.choice([2, 4, 8]))
    plan = []
    for _ in range(nthread):
        todo = []
        for _ in range(6):
            entry = _pick(rng, lambda e: e.threads)
            todo.append((entry, *entry.make(rng, (5,) if entry.batched else ())))
        plan.append(todo)
    shared = rng.random() < 0.5
    if shared:  # all threads share the same arrays
        plan = [list(plan[0]) for _ in range(nthread)]
    for todo in plan:
        rng.shuffle(todo)
    ctx.tag("threads", nthread, shared)
    _concurrent(ctx, rng, plan, prob=float(rng.choice([0.0, 0.05])))


class Fault(Exception):
    pass


@case(CASES, 400, 4000)
def callbacks(ctx, rng):
    """Re-entrant call-backs and faults inside of call-backs leave no trace."""
    entry = _cycle(ctx, lambda e: e.callback >= 0)
    args, kwds = entry.make(rng, ())
    inner = args[entry.callback]
    want = _own(ctx.call(entry.fn, *args, **kwds))
    state, mods, before = _state(), _modules(), _snap(args[:entry.callback])
    calls = [0]
    nested = _pick(rng, lambda e: e.threads and e.callback < 0)
    nargs, nkwds = nested.make(rng, ())

    def reentrant(*a, **k):
        calls[0] += 1
        if calls[0] % 3 == 1:
            nested.fn(*nargs, **nkwds)
        return inner(*a, **k)
    new = list(args)
    new[entry.callback] = reentrant
    ctx.tag("callback", entry.name)
    got = _own(ctx.call(entry.fn, *new, **kwds))
    _same(ctx, "re-entrant", got, want, entry.rtol)
    stop = int(rng.integers(1, max(2, calls[0] + 1)))
    calls2 = [0]

    def faulty(*a, **k):
        calls2[0] += 1
        if calls2[0] == stop:
            raise Fault
        return inner(*a, **k)
    new[entry.callback] = faulty
    ctx.raises(Fault, entry.fn, *new, **kwds)
    now = _state()
    ctx.ok("state after fault", now == state, changed=[k for k in now if now[k] != state[k]], function=entry.name)
    ctx.ok("modules after fault", not _changed(mods), function=entry.name)
    ctx.ok("arguments after fault", _snap(args[:entry.callback]) == before, function=entry.name)
    _same(ctx, "result after fault", _own(ctx.call(entry.fn, *args, **kwds)), want, entry.rtol)
