"""C16: linear prediction of time series."""
import warnings

import numpy as np

from .. import gen, target
from ..core import Skip, case

gt = target.load()
L = gt.linearprediction
LD = np.clongdouble

CASES = []
QUICK = 3  # cheap cases: more of them in the quick tier
RULE = ("Sums of 1-5 decaying, undamped and growing exponentials, noise series and random coefficients; orders 1-8, 0-60"
        " predicted steps, single and stacked series, complex and real.  Non-trivial: order at least two.")
ASSUMPTIONS = ["roots stay away from the unit circle by 1e-6 when growing terms are removed",
               "tolerances follow the measured sensitivity to rounding-size noise"]
BATCH = [(), (), (1,), (3,), (2, 2)]


def _roots(rng, n, lo=0.5, hi=0.99):
    ang = (np.arange(n) + 0.7*rng.random(n))*2*np.pi/n + rng.uniform(0, 6.28)
    return rng.uniform(lo, hi, n)*np.exp(1j*ang)


def _series(y, c, t):
    return np.sum(np.asarray(c, dtype=LD)[..., None]*np.asarray(y, dtype=LD)[..., None]**np.asarray(t), axis=-2).astype(complex)


@case(CASES, 700, 10000)
def exponentials(ctx, rng):
    """The covariance method continues exponential sums exactly."""
    n = int(rng.integers(1, 5))
    batch = BATCH[int(rng.integers(5))]
    y = np.array([_roots(rng, n, 0.6, 1.02) for _ in range(int(np.prod(batch)))]).reshape(batch + (n,))
    c = rng.uniform(0.4, 1.5, batch + (n,))*np.exp(1j*rng.uniform(0, 6.28, batch + (n,)))
    order = n + int(rng.choice([0, 0, 0, 1, 2]))
    size = 2*order + int(rng.integers(0, 8))
    num = int(rng.choice([0, 1, 5, 30]))
    x = _series(y, c, np.arange(size))
    if rng.random() < 0.3 and batch == ():  # real series
        x = x.real.copy()
        order = 2*n
        size = 4*n + int(rng.integers(0, 4))
        x = _series(y, c, np.arange(size)).real.copy()
        want = _series(y, c, np.arange(size + num)).real.copy()
    else:
        want = _series(y, c, np.arange(size + num))
    ctx.tag("exp", n, order, batch, num, np.iscomplexobj(x))
    kw = {"rcond": 1e-11} if order != n else {}

    def run(xx):
        return L.predict(x, L.pcoeff_covar(xx, order, **kw)[0], num)

    base = run(x)
    spread = max(np.max(abs(run(x*(1 + 2e-16*rng.normal(size=x.shape))) - base)) for _ in range(2))
    if spread > 1e-6:
        raise Skip
    data = gen.readonly(x) if rng.random() < 0.5 else x
    a, rho = ctx.call(L.pcoeff_covar, data, order, **kw)
    ctx.ok("shapes", a.shape == batch + (order,) and rho.shape == batch, a=a.shape, rho=rho.shape)
    ctx.close("error estimate", rho, np.zeros(batch), atol=1e-12*(size + np.max(abs(a))*np.max(abs(x))*size))
    got = ctx.call(L.predict, data, a, num)
    ctx.ok("data unchanged", np.array_equal(got[..., :size], x))
    ctx.close("prediction", got, want, atol=100*spread + 1e-10)
    stab = np.max(abs(y)) < 0.999
    if stab and (order == n):
        got = ctx.call(L.predict, data, a, num, stable=True)
        ctx.close("stable prediction of decaying series", got, want, atol=1000*spread + 1e-9)


@case(CASES, 700, 10000)
def covariance(ctx, rng):
    """Coefficients minimize the prediction error of arbitrary data."""
    order = gen.size(rng, 1, 8, 40)
    size = max(3, 2*order + gen.size(rng, 0, 15, 400))
    batch = BATCH[int(rng.integers(5))]
    x = rng.normal(size=batch + (size,))
    if rng.random() < 0.7:
        x = x + 1j*rng.normal(size=batch + (size,))
    ctx.tag("covar", order, size - 2*order, batch, x.dtype)
    a, rho = ctx.call(L.pcoeff_covar, x, order)
    for idx in np.ndindex(batch):
        xi = x[idx]
        mat = np.array([[xi[t-k] for k in range(1, order + 1)] for t in range(order, size)])
        res = xi[order:] + mat @ a[idx]
        ctx.close("error estimate", rho[idx], np.linalg.norm(res), rtol=1e-9,
                  atol=1e-11*np.linalg.cond(mat)*np.linalg.norm(xi)*(1 + np.max(abs(a))))
        grad = mat.conj().T @ res
        ctx.close("optimality", grad, 0*grad, atol=1e-11*np.linalg.cond(mat)*np.linalg.norm(mat)**2*(1 + np.max(abs(a[idx]))))
        one, _ = ctx.call(L.pcoeff_covar, xi, order)
        ctx.close("stacked equals single", a[idx], one, rtol=1e-12, atol=1e-12*np.max(abs(one)))
    ctx.raises(ValueError, L.pcoeff_covar, x, size + int(rng.integers(0, 3)))
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        a, _ = ctx.call(L.pcoeff_covar, x, int(rng.integers(size//2 + 1, size)))
    ctx.ok("warns when under-determined", len(rec) >= 1)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        ctx.call(L.pcoeff_covar, x, size//2)
    ctx.ok("no warning when determined", len(rec) == 0, rec=[str(r.message) for r in rec])


@case(CASES, 700, 10000)
def recurrence(ctx, rng):
    """Prediction is the linear recurrence for arbitrary coefficients."""
    order = gen.size(rng, 1, 8, 60)
    size, num = order + gen.size(rng, 0, 6, 300), int(rng.choice([0, 1, 2, 20]))
    batch = BATCH[int(rng.integers(5))]
    x, a = rng.normal(size=batch + (size,)), 0.4*rng.normal(size=batch + (order,))
    if rng.random() < 0.7:
        x, a = x + 1j*rng.normal(size=x.shape), a + 0.4j*rng.normal(size=a.shape)
    ctx.tag("recurrence", order, size - order, num, batch, x.dtype)
    got = ctx.call(L.predict, gen.readonly(x), gen.readonly(a), num)
    want = list(np.moveaxis(x.astype(LD), -1, 0))
    mag = [abs(w) for w in want]
    for _ in range(num):
        want.append(-sum(a[..., k-1]*want[-k] for k in range(1, order + 1)))
        mag.append(sum(abs(a[..., k-1])*mag[-k] for k in range(1, order + 1)))
    want, mag = np.stack(want, axis=-1), np.stack(mag, axis=-1).astype(float)
    ctx.ok("type", got.dtype == x.dtype, got=got.dtype)
    ctx.ok("data unchanged", np.array_equal(got[..., :size], x))
    ctx.close("recurrence", got, want.astype(complex), atol=1e-13*(num + 1)*mag)
    ctx.raises(ValueError, L.predict, x, a, -int(rng.integers(1, 4)), stable=bool(rng.integers(2)))


@case(CASES, 700, 10000, skip=0.35)
def stabilized(ctx, rng):
    """Growing terms are removed, the others kept."""
    order = int(rng.integers(1, 7))
    batch = BATCH[int(rng.integers(5))]
    nb = int(np.prod(batch))
    real = rng.random() < 0.25
    y = np.array([_roots(rng, order, 0.4, 1.0) for _ in range(nb)]).reshape(batch + (order,))
    if real:  # real coefficients, complex series
        y = np.sort(rng.uniform(-1, 1, batch + (order,)), axis=-1) + 0j
        gap = np.diff(y.real, axis=-1)
        if gap.size and np.min(gap) < 0.05:
            raise Skip
    grow = rng.random(batch + (order,)) < 0.4
    y = np.where(grow, y/abs(y)*rng.uniform(1.001, 1.6, y.shape), y)
    if np.min(abs(abs(y) - 1)) < 1e-6 or (real and order > 1 and
                                          np.min(abs(y[..., :, None] - y[..., None, :]) + 9*np.eye(order)) < 0.05):
        raise Skip
    c = rng.normal(size=y.shape) + 1j*rng.normal(size=y.shape)
    size, num = order + int(rng.integers(0, 5)), int(rng.choice([0, 1, 5, 50]))
    pc = np.empty(y.shape, dtype=complex)
    for idx in np.ndindex(batch):
        pc[idx] = np.poly(y[idx])[1:]
    if real:
        pc = pc.real.copy()
    t = np.arange(-size + 1, num + 1)
    x = _series(y, c, t[:size])
    keep = abs(y) <= 1
    want = np.concatenate([x, _series(y, np.where(keep, c, 0), t[size:])], axis=-1)
    ctx.tag("stable", order, int(np.sum(grow)) > 0, batch, num, real)
    cond = max(np.linalg.cond(y[idx][None, :]**-np.arange(order)[:, None]) for idx in np.ndindex(batch))
    if cond > 1e6:
        raise Skip
    got = ctx.call(L.predict, gen.readonly(x), gen.readonly(pc), num, stable=True)
    ctx.ok("shape", got.shape == batch + (size + num,))
    ctx.ok("data unchanged", np.array_equal(got[..., :size], x))
    scale = np.max(abs(c))*order
    ctx.close("growing terms removed", got, want, atol=1e-11*cond**2*scale*(num + 1) + 1e-12)
    bound = np.sum(np.where(keep, abs(c), 0), axis=-1)
    ctx.ok("bounded", np.all(np.max(abs(got[..., size:]), axis=-1, initial=0) <= bound*(1 + 1e-9) + 1e-10*cond**2*scale*(num + 1)))
    if not np.any(grow):
        ctx.close("nothing to remove", ctx.call(L.predict, x, pc, num), got, atol=1e-10*cond**2*scale*(num + 1))


@case(CASES, 60, 600)
def undamped(ctx, rng):
    """A single mode on the unit circle does not grow and has to be kept."""
    y = [1, -1, 1j, -1j, 1.0][int(rng.integers(5))]
    size, num = int(rng.integers(1, 6)), int(rng.integers(1, 30))
    batch = BATCH[int(rng.integers(5))]
    c = rng.normal(size=batch + (1,)) + 1j*rng.normal(size=batch + (1,))
    full = c*np.asarray(y, dtype=complex)**np.arange(size + num)
    ctx.tag("undamped", y, batch)
    pc = np.full(batch + (1,), -y) if rng.random() < 0.7 else np.full(batch + (1,), complex(-y))
    got = ctx.call(L.predict, full[..., :size].copy(), pc, num, stable=True)
    ctx.close("undamped mode kept", got, full, atol=1e-12*(1 + abs(c)))


def _burg(x, order):
    ef, eb = x[1:].astype(LD), x[:-1].astype(LD)
    a = np.array([], dtype=LD)
    rho = np.sum(abs(x.astype(LD))**2)/len(x)
    for _ in range(order):
        k = -2*np.sum(ef*eb.conj())/(np.sum(abs(ef)**2) + np.sum(abs(eb)**2))
        a = np.concatenate([a + k*a[::-1].conj(), [k]])
        rho = rho*(1 - abs(k)**2)
        ef, eb = ef[1:] + k*eb[1:], eb[:-1] + k.conj()*ef[:-1]
    return a.astype(complex), float(rho.real)


@case(CASES, 600, 9000)
def burg(ctx, rng):
    order = gen.size(rng, 1, 7, 50)
    size = order + gen.size(rng, 2, 25, 400)
    batch = BATCH[int(rng.integers(5))]
    pick = int(rng.integers(3))
    x = rng.normal(size=batch + (size,))
    if pick:
        x = x + 1j*rng.normal(size=x.shape)
    if pick == 2:
        t = np.arange(size)
        x = 0.2*x + np.exp(1j*rng.uniform(0, 6)*t - 0.05*t)
    ctx.tag("burg", order, batch, pick)
    a, rho = ctx.call(L.pcoeff_burg, gen.readonly(x), order)
    ctx.ok("shapes", a.shape == batch + (order,) and rho.shape == batch)
    for idx in np.ndindex(batch):
        aw, rw = _burg(x[idx], order)
        ctx.close("Burg coefficients", a[idx], aw, rtol=1e-8, atol=1e-8)
        ctx.close("Burg variance", rho[idx], rw, rtol=1e-7, atol=1e-9)
        if order < 8:
            ctx.ok("roots inside the unit circle", np.all(abs(np.roots(np.r_[1, a[idx]])) <= 1 + 1e-6), a=a[idx])
        ctx.ok("variance bounds", -1e-12 <= rho[idx] <= np.mean(abs(x[idx])**2)*(1 + 1e-12))
    # an undamped oscillation is predicted exactly
    y = np.exp(1j*rng.uniform(0, 6.28))
    c = rng.normal() + 1j*rng.normal()
    xx = c*y**np.arange(size)
    a, rho = ctx.call(L.pcoeff_burg, xx, 1)
    ctx.close("oscillation", ctx.call(L.predict, xx, a, 10), c*y**np.arange(size + 10), atol=1e-11*abs(c)*size)
    ctx.close("oscillation variance", rho, 0.0, atol=1e-11*abs(c)**2)


@case(CASES, 300, 5000)
def exhausted(ctx, rng):
    """Series a lower order predicts exactly: no prediction error is left, further coefficients are irrelevant."""
    period = int(rng.choice([1, 2, 4]))
    wave = {1: [1.0], 2: [1.0, -1.0], 4: [1.0, 1j, -1.0, -1j]}[period]
    amp = 2.0**int(rng.integers(-20, 20))*int(rng.choice([0, 1, 1, 1, -1, 3]))
    if rng.random() < 0.4:
        amp = amp*1j
    size, order = int(rng.integers(8, 40)), int(rng.integers(1, 6))
    num = int(rng.integers(1, 9))
    want = amp*np.array([wave[t % period] for t in range(size + num)])
    if rng.random() < 0.3:  # mixed with a series which has an error
        x = np.stack([want[:size], rng.normal(size=size) + 0*want[:size]])
    else:
        x = want[:size]
    ctx.tag("exhausted", period, order, amp == 0, x.ndim)
    a, rho = ctx.call(L.pcoeff_burg, gen.readonly(x), order)
    ctx.ok("finite coefficients", np.all(np.isfinite(a)) and np.all(np.isfinite(rho)), a=a)
    if x.ndim == 2:
        aw, rw = _burg(x[1], order)
        ctx.close("other series", a[1], aw, rtol=1e-8, atol=1e-8)
        ctx.close("variance of the other series", rho[1], rw, rtol=1e-7, atol=1e-9)
        a, rho, x = a[0], rho[0], x[0]
    ctx.close("no variance", rho, 0.0, atol=1e-12*abs(amp)**2)
    ctx.close("exact prediction", ctx.call(L.predict, x, a, num), want, atol=1e-11*abs(amp))


@case(CASES, 500, 8000)
def companion(ctx, rng):
    n = gen.size(rng, 1, 7, 40)
    batch = BATCH[int(rng.integers(5))]
    a = rng.normal(size=batch + (n + 1,))
    if rng.random() < 0.5:
        a = a + 1j*rng.normal(size=a.shape)
    elif rng.random() < 0.3:
        a = rng.integers(1, 9, size=a.shape)
    ctx.tag("companion", n, batch, a.dtype)
    arg = a.tolist() if rng.random() < 0.3 else a
    mat = ctx.call(L.companion, arg)
    ctx.ok("shape", mat.shape == batch + (n, n))
    want = np.zeros(batch + (n, n), dtype=complex)
    want[..., 0, :] = -a[..., 1:]/a[..., :1]
    for i in range(1, n):
        want[..., i, i-1] = 1
    ctx.close("companion matrix", mat, want, rtol=1e-14)
    roots = np.linalg.eigvals(mat)
    val = sum(a[..., k, None]*roots**(n - k) for k in range(n + 1))
    mag = sum(abs(a[..., k, None])*abs(roots)**(n - k) for k in range(n + 1))
    ctx.close("eigenvalues are roots", val, 0*val, atol=1e-9*mag*max(1, np.max(abs(mat)))**2)
    ctx.raises(ValueError, L.companion, a[..., :1] + 0)
    bad = np.array(a)
    bad.reshape(-1, n + 1)[int(rng.integers(bad.size//(n + 1))), 0] = 0
    ctx.raises(ValueError, L.companion, bad)


@case(CASES, 4, 12, chunk=12)
def root_plot(ctx, rng):
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib.figure import Figure
    import matplotlib.pyplot as plt
    y = np.r_[_roots(rng, 3, 0.3, 0.9), _roots(rng, 2, 1.2, 1.6)]
    axis = Figure().subplots() if rng.random() < 0.5 else None
    used = ctx.call(L.plot_roots, np.poly(y)[1:], axis=axis)
    ctx.ok("axis", used is (plt.gca() if axis is None else axis))
    pts = np.concatenate([np.asarray(col.get_offsets()) for col in used.collections])
    got = pts[:, 0] + 1j*pts[:, 1]
    ctx.ok("all roots are shown", got.size == 5)
    ctx.close("shown roots", np.min(abs(got[:, None] - y), axis=0), np.zeros(5), atol=1e-8)
    plt.close("all")
