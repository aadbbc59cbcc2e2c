"""C27: the value of a result does not depend on the number type or the memory representation of the arguments."""
import warnings

import numpy as np

from .. import target
from ..catalogue import ENTRIES
from ..core import Skip, case
from .c20 import _cycle, _flat

gt = target.load()

CASES = []
RULE = ("All public functions of the catalogue on arguments whose values are exactly representable in two number types:"
        " integers against floats (Python, int64, int32), single against double precision, swapped byte order,"
        " real numbers stored as complex, extended precision; any subset of the arguments is converted."
        "  Non-trivial: at least one argument has been converted and the reference result is finite.")
ASSUMPTIONS = ["a number type the linear algebra or special functions do not know is refused with TypeError; single precision"
               " is compared up to the amplified rounding error of single precision"]
# single precision: differences of frequencies are amplified (continued fractions, non-linear fits), equidistance is refused
NO_SINGLE = ("pade.", "polepade.", "hermpade.", "fourier.tt2z", "fourier.izp2tau", "cpa.solve_fxdocc", "chemical_potential")
NO_COMPLEX = ("lattice.", "fermi_fct_inv", "chemical_potential")


def _own(res):
    return [np.array(x) for x in _flat(res)]


def _is(x, kind):
    return isinstance(x, (np.ndarray, np.generic)) and x.dtype.kind in kind


def _round(x, k):
    """Integer values, stored as before."""
    if _is(x, "fc"):
        return np.round(x*k)
    if isinstance(x, float):
        return float(round(x*k)) or 1.0
    return x


def _single(x):
    if _is(x, "f") and x.dtype == np.float64:
        return x.astype(np.float32)
    if _is(x, "c") and x.dtype == np.complex128:
        return x.astype(np.complex64)
    return x


def _double(x):
    if _is(x, "f"):
        return x.astype(np.float64)
    return x.astype(np.complex128) if _is(x, "c") else x


def _integer(x, rng):
    if isinstance(x, float) and not isinstance(x, np.generic):
        return int(x) if x == int(x) else x
    if _is(x, "f") and np.all(abs(x) < 2**31) and np.all(x == np.round(x)):
        return x.astype([np.int64, np.int64, np.int32][int(rng.integers(3))])
    return x


def _swap(x, rng):
    return x.astype(x.dtype.newbyteorder("S")) if isinstance(x, np.ndarray) and x.dtype.kind in "fci" else x


def _complex(x, rng):
    return x.astype(complex) if _is(x, "f") else x


def _extended(x, rng):
    if _is(x, "f"):
        return x.astype(np.longdouble)
    return x.astype(np.clongdouble) if _is(x, "c") else x


def _reference(entry, args, kwds):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = _own(entry.fn(*_copy(args), **kwds))
    except Exception as exc:
        raise Skip(f"reference fails: {exc!r}") from exc
    if not res or not all(np.all(np.isfinite(x)) for x in res if x.dtype.kind in "fc"):
        raise Skip("reference not finite")
    return res


def _copy(args):
    return [np.copy(x) if isinstance(x, np.ndarray) else x for x in args]


def _some(rng, args, kwds, conv):
    """Convert a non-empty subset of the arguments."""
    slots = [i for i, x in enumerate(args) if conv(x, rng) is not x] + [k for k, x in kwds.items() if conv(x, rng) is not x]
    if not slots:
        raise Skip("nothing to convert")
    num = int(rng.integers(1, len(slots) + 1)) if rng.random() < 0.7 else len(slots)
    pick = [slots[i] for i in rng.permutation(len(slots))[:num]]
    return ([conv(x, rng) if i in pick else x for i, x in enumerate(args)],
            {k: conv(x, rng) if k in pick else x for k, x in kwds.items()}, pick)


def _compare(ctx, label, entry, args, kwds, want, rtol, pick, refuse=()):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = ctx.call(entry.fn, *args, **kwds)
    except refuse as exc:
        ctx.tag(label, entry.name, "refused", type(exc).__name__)
        ctx.ok(label + ": refused", True)
        return
    got = _own(res)
    ctx.ok(label + ": structure", len(got) == len(want), function=entry.name)
    for g, w in zip(got, want):
        if w.dtype.kind not in "fciub":
            continue
        top = float(np.max(abs(w), initial=0))
        ctx.close(label, g, w, rtol=rtol, atol=rtol*top + (1e-35 if label.startswith("single") else 1e-300))


def _make(rng, entry):
    return entry.make(rng, [(), (3,), (2, 2)][int(rng.integers(3))] if entry.batched else ())


@case(CASES, 1500, 40000, skip=0.7)
def integers(ctx, rng):
    """Integer values as Python integers and integer arrays."""
    entry = _cycle(ctx, lambda e: not e.name.startswith("hermpade."))  # sign of null vectors is arbitrary, see C14
    args, kwds = _make(rng, entry)
    k = float(rng.choice([1, 1, 2, 3, 10, 100]))
    args, kwds = [_round(x, k) for x in args], {n: _round(x, k) for n, x in kwds.items()}
    if rng.random() < 0.3:
        args = [x.real if _is(x, "c") else x for x in args]
    want = _reference(entry, args, kwds)
    args, kwds, pick = _some(rng, args, kwds, _integer)
    ctx.tag("integers", entry.name, *pick)
    _compare(ctx, "integer = float", entry, args, kwds, want, max(entry.rtol, 1e-8), pick, refuse=(TypeError,))


@case(CASES, 1200, 25000, skip=0.7)
def single(ctx, rng):
    """Single precision arguments."""
    entry = _cycle(ctx, lambda e: not e.name.startswith(NO_SINGLE))
    args, kwds = _make(rng, entry)
    args, kwds = [_double(_single(x)) for x in args], {n: _double(_single(x)) for n, x in kwds.items()}
    want = _reference(entry, args, kwds)
    args, kwds, pick = _some(rng, args, kwds, lambda x, _: _single(x))
    ctx.tag("single", entry.name, *pick)
    _compare(ctx, "single = double", entry, args, kwds, want, 1e-2, pick)


@case(CASES, 1200, 25000, skip=0.5)
def byteorder(ctx, rng):
    """Arrays as read from files of other machines."""
    entry = _cycle(ctx)
    args, kwds = _make(rng, entry)
    want = _reference(entry, args, kwds)
    args, kwds, pick = _some(rng, args, kwds, _swap)
    ctx.tag("byteorder", entry.name, *pick)
    _compare(ctx, "swapped byte order", entry, args, kwds, want, max(entry.rtol, 1e-8), pick)


@case(CASES, 1200, 25000, skip=0.7)
def real_as_complex(ctx, rng):
    """Real numbers with an explicit zero imaginary part: same value or refused."""
    entry = _cycle(ctx, lambda e: not e.name.startswith(NO_COMPLEX))
    args, kwds = _make(rng, entry)
    want = _reference(entry, args, kwds)
    args, kwds, pick = _some(rng, args, kwds, _complex)
    ctx.tag("complex", entry.name, *pick)
    _compare(ctx, "real = complex", entry, args, kwds, want, max(entry.rtol, 1e-8), pick, refuse=(TypeError,))


@case(CASES, 1200, 25000, skip=0.5)
def extended(ctx, rng):
    """Extended precision arguments: same value or refused."""
    entry = _cycle(ctx)
    args, kwds = _make(rng, entry)
    want = _reference(entry, args, kwds)
    args, kwds, pick = _some(rng, args, kwds, _extended)
    ctx.tag("extended", entry.name, *pick)
    _compare(ctx, "extended = double", entry, args, kwds, want, max(entry.rtol, 1e-8), pick, refuse=(TypeError,))


@case(CASES, 600, 10000)
def large_integers(ctx, rng):
    """Powers of integers leave the range of the integer types."""
    kind = [np.int64, np.int64, np.int32, np.int16, int][int(rng.integers(5))]
    top = {np.int64: 10**7, np.int32: 10**6, np.int16: 3*10**4, int: 10**7}[kind]
    size = int(rng.integers(1, 4))
    ints = np.exp(rng.uniform(0, np.log(top), size)).astype(np.int64)
    scalar = rng.random() < 0.5 or kind is int
    value = kind(ints[0]) if scalar else ints.astype(kind)
    ref = float(ints[0]) if scalar else ints.astype(float)
    pick = int(rng.integers(3))
    ctx.tag("large", kind.__name__, scalar, pick)
    if pick == 0:
        fns = [fn for fn in (getattr(getattr(gt.lattice, name), "dos_moment", None) for name in sorted(dir(gt.lattice))) if fn]
        fn = fns[int(rng.integers(len(fns)))]
        order = int(rng.integers(1, 21))
        try:
            one = fn(order, half_bandwidth=1.0)
        except NotImplementedError:
            order = 2
            one = fn(order, half_bandwidth=1.0)
        ctx.close("moments", ctx.call(fn, order, half_bandwidth=value) + 0*ref, one*ref**order, rtol=1e-13)
    elif pick == 1:
        z = ref*(rng.normal(size=np.shape(ref)) + 1j*rng.uniform(0.2, 2, size=np.shape(ref)))
        for fn in (gt.bethe_gf_d1_z, gt.bethe_gf_d2_z, gt.bethe_gf_z):
            ctx.close("Bethe", ctx.call(fn, z, half_bandwidth=value), fn(z, half_bandwidth=ref), rtol=1e-12)
    else:
        order = np.arange(1, int(rng.integers(2, 24)))
        if rng.random() < 0.5:
            value = ints.tolist()
        elif scalar:
            value, ints = ints[:1].astype(kind if kind is not int else np.int64), ints[:1]
        sign = rng.choice([-1, 1])
        value = [sign*x for x in value] if isinstance(value, list) else sign*value
        wts = rng.normal(size=ints.size)
        got = ctx.call(gt.pole_gf_moments, value, wts, order)
        want = np.sum(wts[:, None]*(sign*ints.astype(np.longdouble))[:, None]**(order - 1), axis=0)
        mag = np.sum(abs(wts)[:, None]*ints.astype(np.longdouble)[:, None]**(order - 1), axis=0)
        ctx.close("pole moments", got, want.astype(float), atol=1e-12*mag.astype(float))
