"""C13: Pade continuation."""
import numpy as np

from .. import gen, target
from ..core import Skip, case

gt = target.load()
P = gt.pade
LD = np.clongdouble

CASES = []
QUICK = 2  # cheap cases: more of them in the quick tier
RULE = ("Random sample points (Matsubara, scattered, real), data (rational functions, noise, random coefficients),"
        " degree ranges, kinds, masks, filter chains, batch shapes and evaluation points; approximants are re-evaluated"
        " independently in extended precision; non-trivial: at least two coefficients.")
ASSUMPTIONS = ["comparison tolerance follows the measured sensitivity to a relative perturbation of the coefficients"]


def _cf(z, z_in, coeff):
    """All truncations of the continued fraction with >=2 coefficients, bottom-up in extended precision."""
    z = np.asarray(z, dtype=LD).reshape(-1)
    z_in = np.asarray(z_in, dtype=LD)
    coeff = np.asarray(coeff, dtype=LD)
    out = []
    for last in range(1, coeff.shape[-1]):
        den = np.ones((*coeff.shape[:-1], z.size), dtype=LD)
        for jj in range(last, 0, -1):
            den = 1 + coeff[..., jj, None]*(z - z_in[jj-1])/den
        out.append(coeff[..., 0, None]/den)
    return np.array(out)


def _cf_tol(rng, z, z_in, coeff, ref, rel=1e-9):
    delta = rel*rng.normal(size=coeff.shape)
    ref2 = _cf(z, z_in, np.asarray(coeff, dtype=LD)*(1 + delta))
    ref3 = _cf(z, z_in, np.asarray(coeff, dtype=LD)*(1 - delta*1j))
    return np.asarray(30*(abs(ref2 - ref) + abs(ref3 - ref)) + 1e-9*abs(ref), dtype=float)


def _zin(rng, n):
    pick = int(rng.integers(0, 3))
    if pick == 0:
        return 1j*np.pi/gen.loguni(rng, 0.5, 5)*(2*np.arange(n) + 1), "matsubara"
    if pick == 1:
        return rng.permutation(np.linspace(-2, 2, n)) + 0.1*rng.normal(size=n)/n + 1j*rng.uniform(0.5, 2, n), "scattered"
    return (rng.permutation(np.linspace(-3, 3, n)) + 0.1*rng.normal(size=n)/n).astype(complex), "real"


def _zout(rng):
    shape = [(5,), (), (2, 3)][int(rng.integers(3))]
    return np.asarray(rng.uniform(-3, 3, shape) + 1j*rng.choice([0.05, 0.5, -0.7])*rng.uniform(0.5, 2, shape))


@case(CASES, 2500, 40000)
def interpolation(ctx, rng):
    """Each approximant interpolates exactly the points it is built from; data in double and extended precision."""
    n = int(rng.integers(2, 8))
    z, zn = _zin(rng, n)
    batch = [(), (), (3,), (2, 2)][int(rng.integers(4))]
    f = rng.normal(size=(*batch, n)) + 1j*rng.normal(size=(*batch, n))
    quad = rng.random() < 0.3
    if quad:
        f = f.astype(LD)
    elif rng.random() < 0.2:
        f = f.real.copy()
    ctx.tag("interp", n, zn, len(batch), f.dtype)
    coeff = ctx.call(P.coefficients, z, f)
    ctx.ok("coefficients", coeff.shape == f.shape and coeff.dtype == (LD if quad else complex), got=coeff.dtype)
    pades = list(ctx.call(P.calc_iterator, z, z, coeff))
    ctx.ok("number of approximants", len(pades) == n - 1, got=len(pades))
    ref = _cf(z, z, coeff)
    tol = _cf_tol(rng, z, z, coeff, ref)
    for k, pade in enumerate(pades):
        good = tol[k, ..., :k+2] < 1e-4  # elsewhere the approximant is ill-conditioned
        diff = np.where(good, pade[..., :k+2] - f[..., :k+2], 0)
        ctx.close("interpolates", diff, 0*diff, atol=np.where(good, tol[k, ..., :k+2], 1))


@case(CASES, 2500, 40000)
def evaluation(ctx, rng):
    """Approximants of arbitrary coefficients are the truncations of the continued fraction."""
    n = gen.size(rng, 2, 14, 60)
    z, zn = _zin(rng, n)
    batch = [(), (), (3,), (2, 2)][int(rng.integers(4))]
    coeff = rng.normal(size=(*batch, n)) + 1j*rng.normal(size=(*batch, n))
    if rng.random() < 0.2:
        coeff = coeff.astype(LD)
    if rng.random() < 0.1:
        coeff[..., int(rng.integers(1, n)):] = 0  # terminated fraction
    zo = _zout(rng)
    ctx.tag("eval", n, zn, len(batch), zo.shape, coeff.dtype)
    pades = list(ctx.call(P.calc_iterator, zo, z, coeff))
    ctx.ok("number of approximants", len(pades) == n - 1, got=len(pades))
    ref = _cf(zo, z, coeff)
    tol = _cf_tol(rng, zo, z, coeff, ref)
    shape = (n - 1, *batch, *zo.shape)
    ctx.close("continued fraction", np.array(pades).reshape(shape), ref.reshape(shape), atol=tol.reshape(shape))


@case(CASES, 2000, 30000)
def rational(ctx, rng):
    """Rational data of matching degree is continued exactly, everywhere."""
    npole = int(rng.integers(1, 5))
    const = rng.random() < 0.4
    n = 2*npole + const
    z, zn = _zin(rng, n)
    if zn == "real":
        z = z + 1j*rng.uniform(0.5, 1.5)
    poles = rng.permutation(np.linspace(-2, 2, npole)) + 0.2*rng.normal(size=npole)/npole - 0.2j*rng.random(npole)
    batch = [(), (2,)][int(rng.integers(2))]
    wgt = rng.uniform(0.3, 1, (*batch, npole))
    c0 = rng.normal()*const

    def fct(x):
        x = np.asarray(x, dtype=LD)
        return c0 + np.sum(wgt[..., None, :]/(x[..., None] - poles), axis=-1)

    f = fct(z)
    if rng.random() < 0.5:
        f = f.astype(complex)
    coeff = ctx.call(P.coefficients, z, f)
    zo = rng.uniform(-3, 3, 6) + 1j*rng.uniform(0.5, 2, 6)
    *_, pade = ctx.call(P.calc_iterator, zo, z, coeff)
    want = fct(zo)
    # sensitivity to rounding of the data
    eps = 1e-15 if f.dtype == complex else 1e-18
    noise = 0
    for _ in range(3):
        pert = P.coefficients(z, f.astype(LD)*(1 + 1e3*eps*rng.normal(size=f.shape)))
        *_, other = P.calc_iterator(zo, z, pert.astype(coeff.dtype))
        noise = np.maximum(noise, abs(other - pade))
    ctx.tag("rational", npole, const, zn, len(batch), f.dtype)
    if not np.max(noise) < 1e-3:
        raise Skip
    ctx.close("rational function", pade, want, atol=np.asarray(np.max(noise)*3 + 1e-11*abs(want), dtype=float))


@case(CASES, 2000, 30000)
def kinds(ctx, rng):
    """Kinds select by the high-frequency behaviour and the number of points."""
    n_min, n_max = int(rng.integers(1, 14)), int(rng.integers(2, 26))
    kind_cls = [P.KindGf, P.KindSelf][int(rng.integers(2))]
    eff = n_min + (n_min % 2 == (0 if kind_cls is P.KindGf else 1))
    ctx.tag("kind", kind_cls.__name__, n_min, n_max)
    if n_max <= eff:
        ctx.raises(ValueError, kind_cls, n_min, n_max)
        return
    kind = ctx.call(kind_cls, n_min, n_max)
    idx = list(range(eff - 1, n_max - 1, 2))
    ctx.ok("indices", list(kind.islice(range(100))) == idx and list(range(100))[kind.slice] == idx
           and len(kind) == len(idx) and all(kind[i] == k for i, k in enumerate(idx)) and kind[-1] == idx[-1],
           got=list(kind.islice(range(100))), want=idx)
    ctx.ok("repr", "start" in repr(kind))
    n = n_max
    z, _ = _zin(rng, n)
    coeff = rng.normal(size=n) + 1j*rng.normal(size=n)
    big = np.array([1e9, 2e9], dtype=LD)
    pades = np.array(list(P.calc_iterator(big, z, coeff.astype(LD))))
    sel = pades[kind.slice]
    ratio = abs(sel[:, 1]/sel[:, 0])
    want = 0.5 if kind_cls is P.KindGf else 1.0
    ctx.close("high-frequency behaviour", ratio.astype(float), np.full(len(sel), want), atol=1e-2)
    ctx.ok("number of points", all(n_min <= k + 2 <= n_max for k in idx), idx=idx)


@case(CASES, 200, 2000)
def bad_kinds(ctx, rng):
    kind_cls = [P.KindGf, P.KindSelf][int(rng.integers(2))]
    n_min = -int(rng.integers(1, 6))
    ctx.raises(ValueError, kind_cls, n_min, int(rng.integers(2, 9)))
    ctx.raises(ValueError, kind_cls, int(rng.integers(5, 9)), int(rng.integers(1, 5)))
    ctx.raises(TypeError, P.KindSelector, 1, 2)
    n = int(rng.integers(2, 6))
    z, _ = _zin(rng, n)
    ctx.tag("bad", kind_cls.__name__)
    ctx.raises(ValueError, P.coefficients, z, rng.normal(size=n + 1) + 0j)
    ctx.raises(ValueError, P.coefficients, z, rng.normal(size=(n, n + 1)) + 0j)


def _std(vals):
    vals = np.asarray(vals)
    n = vals.shape[0]
    if n < 2:
        return np.full(vals.shape[1:], np.nan)
    mean = np.mean(vals, axis=0)
    return np.sqrt(np.sum(abs(vals - mean)**2, axis=0)/(n - 1))


def _own_average(sel, valid, batch, fn=lambda x: x):
    """Average over the selected, valid approximants for each batch element."""
    n_z = sel.shape[-1]
    sel = sel.reshape(sel.shape[0], -1, n_z)
    valid = np.broadcast_to(valid.reshape(valid.shape[0], -1), sel.shape[:2])
    avg = np.empty(sel.shape[1:], dtype=complex)
    err = np.empty(sel.shape[1:], dtype=complex)
    for b in range(sel.shape[1]):
        vals = fn(sel[valid[:, b], b])
        avg[b] = np.mean(vals, axis=0)
        err[b] = _std(np.real(vals)) + (1j*_std(np.imag(vals)) if np.iscomplexobj(vals) else 0)
    return avg.reshape(*batch, n_z), err.reshape(*batch, n_z)


def _setup(rng, n):
    z, zn = _zin(rng, n)
    batch = [(), (), (3,), (2, 2)][int(rng.integers(4))]
    coeff = rng.normal(size=(*batch, n)) + 1j*rng.normal(size=(*batch, n))
    return z, zn, batch, coeff


def _kind(rng, n):
    for _ in range(50):
        n_min, n_max = int(rng.integers(1, n)), int(rng.integers(2, n + 3))
        cls = [P.KindGf, P.KindSelf][int(rng.integers(2))]
        if n_max > n_min + 1:
            return cls(n_min, n_max)
    raise Skip


@case(CASES, 2000, 30000)
def averager(ctx, rng):
    n = int(rng.integers(4, 22))
    z, zn, batch, coeff = _setup(rng, n)
    kind = _kind(rng, n)
    zo = _zout(rng)
    pades = np.array(list(P.calc_iterator(zo, z, coeff)))
    pades = pades.reshape(n - 1, *batch, -1)
    sel = np.array([pades[k] for k in range(kind.start, min(kind.stop, n - 1), 2)])
    if not len(sel):
        raise Skip
    vshape = (len(sel), *batch) if rng.random() < 0.5 else (len(sel),)
    valid = rng.random(vshape) < rng.choice([0.3, 0.6, 1.0])
    ctx.tag("averager", type(kind).__name__, zn, len(batch), zo.shape, len(vshape) > 1)
    mod = rng.random() < 0.5
    if not np.all(np.any(valid, axis=0)):
        ctx.raises(RuntimeError, P.Averager, z, coeff, valid_pades=valid, kind=kind)
        ctx.raises(RuntimeError, P.Mod_Averager, z, coeff, lambda z, p: p, valid_pades=valid, kind=kind)
        return
    ctx.raises(TypeError, P.Averager, z, coeff, valid_pades=valid.astype(int), kind=kind)
    ctx.raises(TypeError, P.Mod_Averager, z, coeff, lambda z, p: p, valid_pades=valid.astype(float), kind=kind)
    arg = valid.tolist() if rng.random() < 0.3 else valid
    zarg = zo.tolist() if rng.random() < 0.3 else zo
    shape = (*batch, *zo.shape)
    if not mod:
        fct = ctx.call(P.Averager, z, coeff, valid_pades=arg, kind=kind)
        want, err = _own_average(sel, valid, batch)
        for _ in range(2):  # repeated evaluation
            res = ctx.call(fct, zarg)
            scale = np.max(abs(sel))
            ctx.close("average", res.x, want.reshape(shape), atol=1e-12*scale)
            ctx.close("deviation", res.err, err.reshape(shape), atol=1e-10*scale)
        return
    vec = rng.random() < 0.5
    if rng.random() < 0.5:
        mod_fct, own, tag = (lambda z, p: p.imag**2), (lambda p: p.imag**2), "real"
        res_scale = np.max(abs(sel))**2
    else:
        mod_fct, own, tag = (lambda z, p, a=1: a*p*z), None, "complex"
        own = lambda p: p*zo.reshape(-1)*(2.0)  # noqa: E731
        res_scale = np.max(abs(sel))*10
    fct = ctx.call(P.Mod_Averager, z, coeff, mod_fct, valid_pades=arg, kind=kind, vectorized=vec)
    ctx.tag("mod", tag, vec)
    res = ctx.call(fct, zarg, **({"a": 2.0} if tag == "complex" else {}))
    want, err = _own_average(sel, valid, batch, own)
    ctx.close("modified average", res.x, want.reshape(shape), atol=1e-11*res_scale)
    ctx.close("modified deviation", res.err, err.reshape(shape), atol=1e-9*res_scale)


@case(CASES, 300, 4000)
def nan_refused(ctx, rng):
    n = int(rng.integers(5, 10))
    z, zn, batch, coeff = _setup(rng, n)
    kind = P.KindGf(1, n)
    coeff[..., int(rng.integers(0, 3))] = np.nan
    n_sel = len(range(kind.start, kind.stop, 2))
    vshape = (n_sel, *batch) if rng.random() < 0.5 else (n_sel,)
    fct = P.Averager(z, coeff, valid_pades=np.ones(vshape, dtype=bool), kind=kind)
    ctx.tag("nan", len(vshape))
    ctx.raises(RuntimeError, fct, np.array([0.3 + 0.1j]))
    fct = P.Mod_Averager(z, coeff, lambda z, p: p, valid_pades=np.ones(vshape, dtype=bool), kind=kind)
    ctx.raises(RuntimeError, fct, np.array([0.3 + 0.1j]))


def _own_neg(pades, thr):
    return np.array([[bool(np.all(p.imag < thr)) for p in row] for row in pades])


def _batched_as_flat(ctx, rng, flt, batched, clear=lambda p: True):
    """Approximants of several functions: every function is filtered on its own."""
    got = ctx.call(flt, iter(batched))
    ctx.ok("batched verdicts", got.shape == batched.shape[:-1], got=got)
    want = np.empty(batched.shape[:-1], dtype=bool)
    for idx in np.ndindex(batched.shape[1:-1]):
        one = batched[(slice(None), *idx)]
        want[(slice(None), *idx)] = ctx.call(flt, iter(one)) if clear(one) else got[(slice(None), *idx)]
    ctx.ok("batched filter judges every function", got.shape == want.shape and np.array_equal(got, want), got=got, want=want)


@case(CASES, 2000, 30000)
def filters(ctx, rng):
    """Filters reject exactly what they document; flat inputs."""
    m, n_z = int(rng.integers(2, 12)), int(rng.integers(1, 6))
    pades = rng.normal(size=(m, n_z)) + 1j*(rng.normal(size=(m, n_z)) - rng.choice([0, 1, 3]))
    if rng.random() < 0.4:  # approximants without imaginary part, and on the threshold
        pades.imag[rng.random(m) < 0.5] = 0
    if rng.random() < 0.3:
        pades.imag[rng.random((m, n_z)) < 0.3] = float(rng.choice([0.5, 0.0, -0.5]))
    thr = float(rng.choice([1e-8, 0.5, -0.5, 0.0]))
    got = ctx.call(P.FilterNegImag(thr), iter(pades))
    ctx.tag("filters", m, n_z)
    ctx.ok("negative imaginary part", np.array_equal(got, [bool(np.all(p.imag < thr)) for p in pades]), got=got)
    ctx.ok("verdict is boolean", got.dtype == bool, dtype=got.dtype)
    batched = rng.normal(size=(m, 2, 3, n_z)) + 1j*rng.normal(size=(m, 2, 3, n_z))
    got = ctx.call(P.FilterNegImag(thr), iter(batched))
    ctx.ok("batched filter", np.array_equal(got, np.all(batched.imag < thr, axis=-1)))
    got = ctx.call(P.FilterNegImag(), iter(pades))
    ctx.ok("default threshold", np.array_equal(got, [bool(np.all(p.imag < 1e-8)) for p in pades]), got=got)
    # number of approximants
    keep = int(rng.integers(1, m + 2))
    bad = np.max(pades.imag, axis=-1)
    rel = rng.random() < 0.5
    if rel:
        frac = float(rng.uniform(0.1, 0.95))
        keep = int(frac*m)
        flt = P.FilterNegImagNum(rel_num=frac)
    else:
        flt = P.FilterNegImagNum(abs_num=keep)
    got = ctx.call(flt, iter(pades))
    ctx.ok("verdict is boolean", got.dtype == bool, dtype=got.dtype)
    if keep >= m:
        want = np.ones(m, dtype=bool)
    else:  # ties between unphysical approximants may be broken either way
        cut = np.sort(bad)[keep - 1] if keep else -np.inf
        ctx.ok("acceptable ones kept", np.all(got[(bad <= 0) | (bad < cut)]), got=got, bad=bad, keep=keep)
        want = max(keep, np.count_nonzero(bad <= 0))
        ctx.ok("number of best kept", np.count_nonzero(got) == want, got=got, bad=bad, keep=keep)
        ctx.ok("worse ones rejected", not np.any(got[(bad > 0) & (bad > cut)]), got=got, bad=bad, keep=keep)
        got = want = np.ones(1)
    ctx.ok("best imaginary parts", np.array_equal(got, want), got=got, want=want, bad=bad, keep=keep)
    _batched_as_flat(ctx, rng, P.FilterNegImagNum(abs_num=max(keep, 1)), batched)
    # high variance
    rel = rng.random() < 0.5
    if rel:
        frac = float(rng.uniform(0.1, 0.95))
        keep, flt = int(frac*m), P.FilterHighVariance(rel_num=frac)
    else:
        keep = int(rng.integers(1, m + 2))
        flt = P.FilterHighVariance(abs_num=keep)
    if keep < 1:
        return
    if keep >= 1:
        _batched_as_flat(ctx, rng, flt, batched, clear=lambda p: _high_variance(p, keep) is not None)
    got = ctx.call(flt, iter(pades))
    ctx.ok("verdict is boolean", got.dtype == bool, dtype=got.dtype)
    ctx.ok("number kept", np.count_nonzero(got) == min(keep, m), got=got, keep=keep)
    verdicts = _high_variance(pades, keep)
    if verdicts is not None:
        ctx.tag("variance", len({v.tobytes() for v in verdicts}))
        ctx.ok("largest deviation from the average goes", any(np.array_equal(got, v) for v in verdicts), got=got, verdicts=verdicts)
    # clear outliers have to go
    n_out = m - keep
    if n_out > 0 and keep > 2*n_out:
        out = rng.choice(m, n_out, replace=False)
        spoiled = 0.1*pades
        spoiled[out] += 1e3*(1 + np.arange(n_out))[:, None]**3
        got = ctx.call(flt, iter(spoiled))
        want = np.ones(m, dtype=bool)
        want[out] = False
        ctx.ok("outliers removed", np.array_equal(got, want), got=got, want=want)


def _high_variance(pades, keep):
    """
    Verdicts of removing approximants, one by one, with the largest distance to the average of the remaining ones.

    Either those removed on the way are rejected, or all but the `keep` closest to the last average.
    None if the order is not clear (rounding).
    """
    m = len(pades)
    if keep >= m:
        return [np.ones(m, dtype=bool)]
    left = list(range(m))
    while len(left) > keep:
        dist = np.sum(abs(pades - np.mean(pades[left], axis=0))**2, axis=-1)
        sort = np.sort(dist)
        if np.any(np.diff(sort) < 1e-8*sort[-1]):
            return None
        left.remove(max(left, key=lambda i: dist[i]))
    greedy = np.isin(np.arange(m), left)
    last = np.zeros(m, dtype=bool)
    last[np.argsort(dist)[:keep]] = True
    return [greedy, last]


def _chain(rng):
    """Filter chain and the own version for a flat set of approximants."""
    out, own = [], []
    for _ in range(int(rng.integers(1, 4))):
        pick = int(rng.integers(4))
        if pick == 0:
            thr = float(rng.choice([1e-8, 0.3, 1.5]))
            out.append(P.FilterNegImag(thr))
            own.append(lambda p, thr=thr: np.all(p.imag < thr, axis=-1))
        elif pick == 1:
            num = int(rng.integers(1, 5))

            def best(p, num=num):
                bad = np.max(p.imag, axis=-1)
                if num >= len(bad):
                    return np.ones(len(bad), dtype=bool)
                ok = bad <= 0
                ok[np.argsort(bad)[:num]] = True
                return ok
            out.append(P.FilterNegImagNum(abs_num=num))
            own.append(best)
        elif pick == 2:  # rule is decided by case `filters`, for single functions
            num = int(rng.integers(1, 5))
            flt = P.FilterHighVariance(abs_num=num)

            def variance(p, num=num, flt=flt):
                if _high_variance(p, num) is None:  # order not clear
                    raise Skip
                return flt(iter(p))
            out.append(flt)
            own.append(variance)
        else:
            # custom filter: real part at the first point
            def custom(it):
                return np.array([p[..., 0].real > -1.0 for p in it])
            out.append(custom)
            own.append(lambda p: p[..., 0].real > -1.0)
    return out, own


@case(CASES, 2000, 30000)
def one_shot(ctx, rng):
    """`averaged` is the average over what filters and kind accept; refuses if nothing is left."""
    n = int(rng.integers(5, 24))
    z, zn, batch, coeff = _setup(rng, n)
    kind = _kind(rng, n)
    zo = _zout(rng).reshape(-1)
    n_use = min(n, kind.stop)
    idx = [k for k in range(kind.start, kind.stop, 2) if k < n_use - 1]
    if not idx:
        raise Skip
    valid_z = None if rng.random() < 0.5 else _zout(rng).reshape(-1)
    kw = {"coeff": coeff, "kind": kind}
    if rng.random() < 0.3:
        f = rng.normal(size=(*batch, n)) + 1j*rng.normal(size=(*batch, n))
        coeff = P.coefficients(z, f)
        kw = {"fct_z": f, "kind": kind}
    if valid_z is not None:
        kw["valid_z"] = valid_z
    used = coeff[..., :n_use]
    if not np.all(np.isfinite(used)):
        raise Skip
    sel = np.array(list(P.calc_iterator(zo, z[:n_use], used)))[idx]
    val = sel if valid_z is None else np.array(list(P.calc_iterator(valid_z, z[:n_use], used)))[idx]
    flat = np.moveaxis(val.reshape(len(idx), -1, val.shape[-1]), 1, 0)
    pick = int(rng.integers(3))
    ok = np.ones((flat.shape[0], len(idx)), dtype=bool)
    if pick == 0:
        fn = P.averaged
    elif pick == 1:
        thr = float(rng.choice([1e-8, 0.5, 2.0]))
        fn, kw["threshold"] = P.avg_no_neg_imag, thr
        ok = np.all(flat.imag < thr, axis=-1)
        if thr == 1e-8 and rng.random() < 0.5:
            del kw["threshold"]
    else:
        fn = P.averaged
        flt, own = _chain(rng)
        if len(flt) == 1 and rng.random() < 0.5:  # single filters see the batched input
            kw["filter_valid"] = flt[0]
        else:
            kw["filter_valid"] = tuple(flt) if rng.random() < 0.5 else flt
        for b in range(flat.shape[0]):
            for o in own:
                if ok[b].any():
                    ok[b, ok[b]] = o(flat[b][ok[b]])
    near = False
    ctx.tag("one shot", pick, type(kind).__name__, len(batch), "fct_z" in kw, valid_z is not None)
    if not np.all(ok.any(axis=-1)):
        ctx.raises(RuntimeError, fn, zo, z, **kw)
        return
    del near
    res = ctx.call(fn, zo, z, **kw)
    valid = ok.T.reshape(len(idx), *batch)
    want, err = _own_average(sel, valid, batch)
    scale = np.max(abs(sel))
    ctx.close("average of accepted approximants", res.x, want, atol=1e-9*scale)
    ctx.close("deviation of accepted approximants", res.err, err, atol=1e-8*scale)


@case(CASES, 500, 8000)
def masked(ctx, rng):
    """Masked coefficients: regular data unchanged, exhausted data terminates with the exact function."""
    batch = [(), (2,), (2, 2)][int(rng.integers(3))]
    if rng.random() < 0.5:
        n = int(rng.integers(2, 6))
        z, zn = _zin(rng, n)
        f = rng.uniform(0.5, 2, (*batch, n))*np.exp(1j*rng.uniform(0, 6, (*batch, n)))
        # own recursion to see whether all intermediate values are regular
        col = f.astype(LD)
        for ii in range(n - 1):
            lead, rest = col[..., ii:ii+1], col[..., ii+1:]
            if not (np.all(abs(lead - rest) > 1e-3) and np.all(abs(rest/lead) < 1e3) and np.all(abs(rest/lead) > 1e-3)):
                raise Skip
            col[..., ii+1:] = (lead/rest - 1)/(z[ii+1:] - z[ii])
        ctx.tag("masked regular", n, zn, len(batch))
        ctx.close("regular data", ctx.call(P.masked_coefficients, z, f), ctx.call(P.coefficients, z, f), rtol=1e-10)
        return
    npole, n = int(rng.integers(1, 4)), int(rng.integers(7, 12))
    z = 1j*np.pi/rng.uniform(1, 3)*(2*np.arange(n) + 1)*0.4 + rng.normal()
    poles = np.linspace(-1, 1, npole) + 0.1*rng.normal(size=npole)
    w = rng.uniform(0.3, 1, (*batch, npole))
    f = np.sum(w[..., None, :]/(z[:, None] - poles), axis=-1)
    coeff = ctx.call(P.masked_coefficients, z, f)
    ctx.tag("masked exhausted", npole, n, len(batch))
    ctx.ok("shape", coeff.shape == f.shape and np.all(np.isfinite(coeff)), coeff=coeff)
    tail = coeff[..., 2*npole:]
    zo = rng.uniform(-2, 2, 5) + 1j*rng.uniform(0.5, 1.5, 5)
    *_, pade = P.calc_iterator(zo, z, coeff)
    want = np.sum(w[..., None, :]/(zo[:, None] - poles), axis=-1)
    # own recursion: only if no coefficient comes close to the cut-off the function has to be exhausted
    col, regular = f.astype(LD), True
    for ii in range(2*npole - 1):
        lead, rest = col[..., ii:ii+1], col[..., ii+1:2*npole]
        quot = abs(rest/lead)
        regular &= bool(np.all(abs(lead - rest) > 1e-3) and np.all(quot < 1e3) and np.all(quot > 1e-3))
        col[..., ii+1:] = (lead/col[..., ii+1:] - 1)/(z[ii+1:] - z[ii])
    if np.all(tail == 0) and regular:
        ctx.close("terminated function", pade, want, rtol=1e-6)
    else:
        ctx.ok("finite", np.all(np.isfinite(pade)))


@case(CASES, 300, 3000)
def long_fractions(ctx, rng):
    """Hundreds of coefficients: numerator and denominator alone exceed the floating point range."""
    n = int(gen.loguni(rng, 100, 900))
    z, zn = _zin(rng, n)
    coeff = (rng.normal(size=n) + 1j*rng.normal(size=n))*gen.loguni(rng, 1, 1e3)
    zo = np.asarray(rng.uniform(-3, 3, 3) + 1j*rng.uniform(0.1, 2, 3))
    ctx.tag("long", n // 200, zn)
    pades = list(ctx.call(P.calc_iterator, zo, z, coeff))
    ctx.ok("number of approximants", len(pades) == n - 1, got=len(pades))
    for last in (n - 1, int(rng.integers(1, n))):
        refs = []
        for delta in (0, 1e-9*rng.normal(size=n), 1e-9j*rng.normal(size=n)):
            cc = np.asarray(coeff, dtype=LD)*(1 + delta)
            den = np.ones(zo.size, dtype=LD)
            for jj in range(last, 0, -1):
                den = 1 + cc[jj]*(zo.astype(LD) - z[jj-1])/den
            refs.append(cc[0]/den)
        tol = np.asarray(30*(abs(refs[1] - refs[0]) + abs(refs[2] - refs[0])) + 1e-9*abs(refs[0]), dtype=float)
        ctx.close("long continued fraction", pades[last-1], refs[0], atol=tol)
