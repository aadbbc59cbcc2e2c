"""C09: densities from Matsubara data and the chemical potential search."""
import warnings

import numpy as np

from .. import gen, target
from ..core import case

gt = target.load()

CASES = []
QUICK = 3  # cheap cases: more of them in the quick tier
RULE = ("Random spectra (scalar, batched, matrix), potentials, temperatures, moments and number of frequencies;"
        " monotone occupation functions (smooth, steep, piecewise, far away roots) traced at every evaluation;"
        " non-trivial: non-integer occupations.")
ASSUMPTIONS = ["truncation bound of the Matsubara tail is evaluated from the known spectrum"]


def _spec(rng, batch, wmax):
    n = int(rng.integers(1, 5))
    p = rng.uniform(-wmax, wmax, (*batch, n))
    w = rng.uniform(0.05, 1, (*batch, n))
    return p, w/np.sum(w, axis=-1, keepdims=True)*rng.choice([1.0, 1.0, 0.5, 2.0])


def _fermi(p, beta):
    return 0.5*(1 - np.tanh(0.5*np.asarray(p)*beta))


@case(CASES, 1500, 30000)
def density_iw(ctx, rng):
    batch = [(), (), (3,), (2, 3)][int(rng.integers(4))]
    beta = gen.beta(rng, 0.3, 60)
    wmax = rng.uniform(0.1, 2.0)
    p, w = _spec(rng, batch, wmax)
    n_mom = int(rng.integers(1, 6))
    mom = np.sum(w[..., None, :]*p[..., None, :]**np.arange(n_mom)[:, None], axis=-1)
    exact = np.sum(w*_fermi(p, beta), axis=-1)
    size = np.sum(w, axis=-1)
    kw = {}
    if rng.random() < 0.5:
        n_iw = int(max(24, beta*wmax*rng.uniform(1.5, 5)))
        iws = 1j*np.pi/beta*(2*np.arange(n_iw) + 1)
        n_fit = 0 if rng.random() < 0.6 else int(rng.integers(1, 4))
        if n_fit:
            kw["n_fit"] = n_fit
        wn = abs(iws[-1])
        k = 2*(n_mom//2 + 1)  # next even order of the real part
        lam = max(wmax, 1.0)*1.5  # scale of the auxiliary poles
        bound = 12*size*lam**(k-1)*wn**(1-k)/(k-1)/np.pi
        ctx.tag("matsubara", n_mom, n_fit, len(batch))
    else:
        num = int(max(20, 1.5*beta*wmax/np.pi + 12))
        iws, kw["weights"] = gt.pade_frequencies(num, beta)
        bound = 1e-6*size
        n_fit = 0
        ctx.tag("pade", n_mom, len(batch))
    gf = np.sum(w[..., None, :]/(iws[:, None] - p[..., None, :]), axis=-1)
    if not (n_mom == 1 and np.allclose(size, 1) and rng.random() < 0.5):
        kw["moments"] = mom.tolist() if rng.random() < 0.3 else mom
    got = ctx.call(gt.density_iw, iws, gf, beta, **kw)
    ctx.close("occupation", got, exact, atol=bound + 1e-9*size)


@case(CASES, 700, 14000)
def density_iw_identity(ctx, rng):
    """Any data: density is the Matsubara sum plus what was treated analytically, linear in the data."""
    batch = [(), (), (3,)][int(rng.integers(3))]
    beta = gen.beta(rng, 0.5, 30)
    n_iw = gen.size(rng, 8, 60, 4000, 0.03)
    iws = 1j*np.pi/beta*(2*np.arange(n_iw) + 1)
    n_mom = int(rng.integers(1, 4))
    mom = rng.normal(size=(*batch, n_mom))
    gf = rng.normal(size=(*batch, n_iw)) + 1j*rng.normal(size=(*batch, n_iw))
    wt = rng.uniform(0.5, 2, n_iw)
    zero = ctx.call(gt.density_iw, iws, 0*gf, beta, weights=wt, moments=mom)
    full = ctx.call(gt.density_iw, iws, gf, beta, weights=wt, moments=mom)
    want = 2/beta*np.sum(wt*gf.real, axis=-1)
    ctx.tag("identity", n_mom, len(batch))
    size = 2/beta*np.sum(abs(wt*gf), axis=-1) + abs(zero)
    ctx.close("sum over frequencies", full - zero, want, atol=1e-10*size)
    # default weights are those of Matsubara frequencies
    ctx.close("default weights", ctx.call(gt.density_iw, iws, gf, beta, moments=mom),
              ctx.call(gt.density_iw, iws, gf, beta, weights=np.ones(n_iw), moments=mom), atol=1e-10*size)


@case(CASES, 700, 14000)
def density_potential(ctx, rng):
    """Deprecated `density`: frequency sum relative to the static potential."""
    batch = [(), (3,), (2, 3)][int(rng.integers(3))]
    beta = gen.beta(rng, 0.5, 30)
    n_iw = int(rng.integers(40, 120))
    iw = 1j*np.pi/beta*(2*np.arange(n_iw) + 1)
    pot = rng.normal(size=batch) if batch else float(rng.normal())
    total = bool(batch) and rng.random() < 0.3
    gshape = (n_iw,) if total else (*batch, n_iw)
    gf = rng.normal(size=gshape) + 1j*rng.normal(size=gshape)
    tail = 1/(iw + np.asarray(pot)[..., None])
    ana = _fermi(-np.asarray(pot), beta)
    if total:
        tail, ana = tail.reshape(-1, n_iw).sum(axis=0), ana.sum()
    delta = gf.real - tail.real
    want = 2/beta*np.sum(delta, axis=-1) + ana
    kw = {"total": True} if total else {}
    ctx.tag("density", len(batch), total)
    tol = 1e-11*(2/beta*np.sum(abs(delta), axis=-1) + abs(ana) + 1)
    got = ctx.call(gt.density, gf, pot, beta, return_err=False, **kw)
    ctx.close("density", got, want, atol=tol)
    res = ctx.call(gt.density, gf, pot, beta, **kw)
    ctx.close("density with error", res.x, want, atol=tol)
    ctx.close("error is the estimate of the remainder", res.err, ctx.call(gt.density_error, delta, iw),
              atol=1e-9*np.max(abs(delta))*abs(iw[-1]))
    # threshold instead of error: warns if and only if it is exceeded
    err = np.max(res.err)
    for thresh, expected in ((abs(err)*1.5 + 1e-9, False), (err - 0.1*abs(err) - 1e-9, True)):
        if thresh == 0 or isinstance(thresh, bool):
            continue
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            val = ctx.call(gt.density, gf, pot, beta, return_err=float(thresh), **kw)
        hit = any("inaccurate" in str(r.message) for r in rec)
        ctx.ok("warning iff error exceeds the threshold", hit == expected, err=res.err, thresh=thresh, warned=hit)
        ctx.close("density with threshold", val, want, atol=tol)
    conv = ctx.call(gt.check_convergence, gf, pot, beta, **kw)
    ctx.close("check_convergence", conv, iw.imag**2*delta, atol=1e-10*np.max(abs(iw.imag**2*delta)))
    order = int(rng.integers(1, 4))
    conv = ctx.call(gt.check_convergence, gf, pot, beta, order=order, **kw)
    ctx.close("check_convergence order", conv, iw.imag**order*delta, atol=1e-10*np.max(abs(iw.imag**order*delta)))


@case(CASES, 500, 10000)
def density_matrix(ctx, rng):
    n = int(rng.integers(1, 5))
    beta = gen.beta(rng, 0.5, 20)
    n_iw = int(rng.integers(n + 2, 60))
    iw = 1j*np.pi/beta*(2*np.arange(n_iw) + 1)
    pot = rng.normal(size=(n, n))
    if rng.random() < 0.4:
        pot = pot + 1j*rng.normal(size=(n, n))
    pot = 0.5*(pot + pot.conj().T)
    inv = np.array([np.linalg.inv(np.eye(n)*z + pot) for z in iw])
    tail = np.diagonal(inv, axis1=-2, axis2=-1).T
    ev, vec = np.linalg.eigh(pot)
    ana = np.sum(abs(vec)**2*_fermi(-ev, beta), axis=-1)
    total = rng.random() < 0.3
    gshape = (n_iw,) if total else (n, n_iw)
    gf = rng.normal(size=gshape) + 1j*rng.normal(size=gshape)
    if total:
        tail, ana = tail.sum(axis=0), ana.sum()
    delta = gf.real - tail.real
    want = 2/beta*np.sum(delta, axis=-1) + ana
    kw = {"total": True} if total else {}
    ctx.tag("matrix", n, total, np.iscomplexobj(pot))
    got = ctx.call(gt.density, gf, pot, beta, return_err=False, matrix=True, **kw)
    tol = 1e-10*(2/beta*np.sum(abs(delta), axis=-1) + abs(ana) + 1)
    ctx.close("matrix density", got, want, atol=tol)
    conv = ctx.call(gt.check_convergence, gf, pot, beta, matrix=True, **kw)
    ctx.close("matrix check_convergence", conv, iw.imag**2*delta, atol=1e-9*np.max(abs(iw.imag**2*delta)))
    # exact: non-interacting Green's function of the matrix
    if not total:
        gf = np.diagonal(inv, axis1=-2, axis2=-1).T
        res = ctx.call(gt.density, gf, pot, beta, matrix=True)
        ctx.close("non-interacting matrix density", res.x, ana, atol=1e-9)
        ctx.close("error vanishes", res.err, 0*ana, atol=1e-9)


@case(CASES, 400, 8000)
def error_estimates(ctx, rng):
    """For the assumed decay the estimates bound the truncation error, and are of its order."""
    beta = gen.beta(rng, 0.5, 50)
    n = int(rng.integers(60, 300))
    batch = [(), (3,)][int(rng.integers(2))]
    c = rng.uniform(0.1, 3, batch)
    wall = np.pi/beta*(2*np.arange(400*n) + 1)
    iw = 1j*wall[:n]
    ctx.tag("estimates", len(batch))

    def truth(k):  # sum of the omitted terms, rest by the integral
        return 2/beta*np.sum(wall[n:]**-float(k)) + wall[-1]**(1.0-k)/(k-1)/np.pi

    delta = np.asarray(c)[..., None]*wall[:n]**-2
    for noisy in (True, False):
        est = ctx.call(gt.density_error, delta, iw, noisy=noisy)
        ctx.ok("upper bound 1/w^2", np.all(est >= c*truth(2)*(1 - 1e-9)), est=est, truth=c*truth(2))
        ctx.ok("tight 1/w^2", np.all(est <= 1.2*c*truth(2)), est=est, truth=c*truth(2))
        ctx.close("density_error", est, c/np.pi/wall[n-1], rtol=1e-9)
    for noisy in (True, False):
        est = ctx.call(gt.density_error, -delta, iw, noisy=noisy)
        ctx.ok("upper bound 1/w^2 (negative)", np.all(est >= c*truth(2)*(1 - 1e-9)), est=est, noisy=noisy)
        cplx = -delta*(1 + 0.7j)
        est = ctx.call(gt.density_error, cplx, iw, noisy=noisy)
        ctx.close("only the real part matters", est, c/np.pi/wall[n-1], rtol=1e-9)
    delta = np.asarray(c)[..., None]*wall[:n]**-3
    est = ctx.call(gt.density_error2, -delta if rng.random() < 0.5 else delta + 1j*delta, iw)
    ctx.ok("upper bound 1/w^3", np.all(est >= c*truth(3)*(1 - 1e-9)), est=est, truth=c*truth(3))
    ctx.ok("order of 1/w^3", np.all(est <= 15*c*truth(3)), est=est, truth=c*truth(3))
    # remainder of varying size: the estimate covers the largest of the large frequencies, noise of both signs averages
    amp = np.asarray(c)[..., None]*(1 + 0.5*rng.normal(size=(*batch, n)))
    large = slice(n//2, None)
    est = ctx.call(gt.density_error, amp*wall[:n]**-2, iw, noisy=False)
    ctx.ok("covers the largest remainder 1/w^2", np.all(est*np.pi*wall[n-1] >= np.max(abs(amp[..., large]), axis=-1)*(1 - 1e-9)),
           est=est)
    est = ctx.call(gt.density_error2, amp*wall[:n]**-3, iw)
    ctx.ok("covers the largest remainder 1/w^3",
           np.all(est*2*wall[n-1]**2*np.pi >= np.max(abs(amp[..., large]), axis=-1)*(1 - 1e-9)), est=est)
    est = ctx.call(gt.density_error, amp*wall[:n]**-2, iw, noisy=True)
    mean = [np.mean(amp[..., lo:], axis=-1) for lo in (0, n//2)]
    spread = 8*0.5*np.asarray(c)/np.sqrt(n/2)
    ctx.close("noise averages out", est*np.pi*wall[n-1], abs(mean[0]), atol=spread)
    ctx.ok("never negative", np.all(est >= 0), est=est)


def _monotone(rng):
    """Monotone increasing function with known root, and its inverse slope scale."""
    root = float(rng.choice([0.0, rng.normal(), rng.normal()*10, rng.normal()*1e3]))
    kind = int(rng.integers(0, 8))
    if kind == 6:  # nearly flat: filling inside of a gap
        a = gen.loguni(rng, 1e-22, 1e-3)
        return lambda x: a*(x - root), root, "flat"
    if kind == 7:
        a, w = gen.loguni(rng, 1e-15, 1e-3), gen.loguni(rng, 1e-2, 1e2)
        return lambda x: a*(x - root) + np.clip(np.tanh((abs(x - root) - w)), 0, 1)*np.sign(x - root), root, "gap"
    if kind == 0:
        a = gen.loguni(rng, 1e-2, 1e2)
        return lambda x: np.tanh(a*(x - root)/max(1, abs(root))), root, "tanh"
    if kind == 1:
        a = gen.loguni(rng, 1e-2, 1e2)
        return lambda x: a*(x - root), root, "linear"
    if kind == 2:
        return lambda x: np.arctan(x - root), root, "atan"
    if kind == 3:
        return lambda x: (x - root) if x > root else 3*(x - root), root, "kink"
    if kind == 4:
        return lambda x: np.expm1(np.clip(0.3*(x - root), -50, 50)), root, "exp"
    return lambda x: (x - root)**3, root, "cubic"


@case(CASES, 1500, 30000)
def chemical_potential(ctx, rng):
    fn, root, kind = _monotone(rng)
    log = []

    def occ_root(mu):
        val = fn(mu)
        log.append((float(mu), float(val)))
        return val

    kw = {}
    if rng.random() < 0.7:
        kw["mu0"] = float(rng.choice([rng.normal(), rng.normal()*100, root, root + 1e-3, root - 5]))
    if rng.random() < 0.5:
        kw["step0"] = float(gen.loguni(rng, 1e-2, 1e2))
    if rng.random() < 0.3:
        kw["xtol"] = 1e-9
    if rng.random() < 0.15 and kind not in ("cubic", "flat", "gap"):
        kw["method"] = str(rng.choice(["brentq", "brenth", "toms748"]))
    ctx.tag("mu", kind, "mu0" in kw, "step0" in kw, "xtol" in kw, kw.get("method"))
    d0 = fn(kw.get("mu0", 0.0))
    reach = kw.get("step0", 1.0)*abs(d0)*2.0**95
    try:
        mu = ctx.call(gt.chemical_potential, occ_root, **kw)
    except RuntimeError as err:
        if kind == "cubic" and hasattr(err, "mu"):  # documented: root search in the bracket may fail for triple roots
            ctx.ok("failed root search found a bracket", any(v > 0 for _, v in log) and any(v < 0 for _, v in log))
            return
        ctx.ok("search only fails out of reach", not reach > abs(root - kw.get("mu0", 0.0)), root=root, kw=kw)
        return
    xtol = kw.get("xtol", 2e-12)
    if kind == "cubic":  # values underflow / flat region is the limit
        ctx.ok("root", abs(fn(mu)) <= max(1e-15, abs(fn(mu + 4*xtol)), abs(fn(mu - 4*xtol))), mu=mu)
    else:
        ctx.close("root of the monotone function", mu, root, atol=4*xtol, rtol=1e-14*4)
    # trace: the answer is bracketed by (or one of) the evaluated points
    vals = np.array(log)
    ctx.ok("occupation was evaluated", len(log) > 0)
    if not np.any(vals[:, 1] == 0):
        ctx.ok("both signs observed", np.any(vals[:, 1] > 0) and np.any(vals[:, 1] < 0), log=vals[:8])
        ctx.ok("answer inside of the bracket", vals[vals[:, 1] < 0, 0].max() <= mu + 1e-9*max(1, abs(mu)) + xtol*4
               and mu <= vals[vals[:, 1] > 0, 0].min() + 1e-9*max(1, abs(mu)) + xtol*4, mu=mu)


@case(CASES, 200, 3000)
def fermi_level(ctx, rng):
    """Realistic use: filling of a set of levels."""
    beta = gen.beta(rng, 1, 50)
    eps = np.sort(rng.normal(size=int(rng.integers(1, 12))))*rng.uniform(0.2, 3)
    occ = float(rng.uniform(0.02, 0.98))*eps.size
    mu = ctx.call(gt.chemical_potential, lambda mu: np.sum(gt.fermi_fct(eps - mu, beta)) - occ,
                  mu0=float(rng.normal()), step0=float(gen.loguni(rng, 0.1, 10)))
    ctx.tag("filling", eps.size)
    ctx.close("filling", np.sum(_fermi(eps - mu, beta)), occ, atol=1e-9*eps.size*beta)


@case(CASES, 200, 3000)
def no_root(ctx, rng):
    """Never silently returns a non-root."""
    c = float(rng.uniform(0.1, 1))*rng.choice([-1, 1])
    pick = int(rng.integers(3))
    ctx.tag("no root", pick)
    if pick == 0:
        ctx.raises(RuntimeError, gt.chemical_potential, lambda mu: c, mu0=float(rng.normal()))
    elif pick == 1:
        ctx.raises(RuntimeError, gt.chemical_potential, lambda mu: np.sign(c)*(1.5 + np.sign(c)*np.tanh(mu)))
    else:  # bracket is found, but too few iterations
        ctx.raises(RuntimeError, gt.chemical_potential, lambda mu: np.tanh(mu - 3.3) + 1e-3*(mu - 3.3), mu0=-4.0,
                   maxiter=2)
    nan_at = [lambda mu: np.nan, lambda mu: np.nan if mu > 0.5 else mu - 3,
              lambda mu: np.nan if abs(mu - 3) < 1 else mu - 3][int(rng.integers(3))]
    try:
        mu = ctx.call(gt.chemical_potential, nan_at, mu0=-4.0)
    except Exception:  # noqa: BLE001  refused
        ctx.tag("nan refused")
    else:
        ctx.ok("undefined occupations give no chemical potential", nan_at(mu) == 0 or np.isnan(mu), mu=mu)
    x = float(rng.normal())
    ctx.close("already correct occupation", ctx.call(gt.chemical_potential, lambda mu: mu - x, mu0=x), x, atol=0)
