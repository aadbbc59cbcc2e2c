"""C15: pole-based Pade continuation recovers pole functions."""
import numpy as np

from .. import gen, target
from ..core import Skip, case

gt = target.load()
P = gt.polepade
VAND = {"poly": np.polynomial.polynomial.polyvander, "cheb": np.polynomial.chebyshev.chebvander,
        "legendre": np.polynomial.legendre.legvander}

CASES = []
QUICK = 2  # cheap cases: more of them in the quick tier
RULE = ("Random sums of 0-5 simple poles on or below the real axis with or without constant, sampled at Matsubara"
        " frequencies or at points of the upper half-plane, random weights including masked (weight zero) corrupted"
        " points, all polynomial bases; random noisy data for the least-squares parts.  Non-trivial: at least one pole.")
ASSUMPTIONS = ["well separated poles with residues of order one (recovery is ill-conditioned otherwise)",
               "tolerances follow the measured sensitivity of the recovered function to rounding-size noise"]


def _poles(rng, n):
    """Separated poles in the lower half-plane or on the real axis."""
    real = rng.random() < 0.5
    pos = np.sort(rng.uniform(-1, 1, n)) + 0.8*np.arange(n)
    pos = pos - np.mean(pos) if n else pos
    pls = pos + (0 if real else -1j*rng.uniform(0.05, 0.8, n))
    res = rng.uniform(0.3, 1.2, n)*rng.choice([-1, 1], n)
    if rng.random() < 0.4:
        res = res*np.exp(1j*rng.uniform(0, 6.28, n))
    return np.asarray(pls, dtype=complex), np.asarray(res, dtype=complex), real


def _points(rng, num):
    if rng.random() < 0.6:
        return 1j*np.pi*(2*np.arange(num) + 1)/rng.uniform(4, 20), True
    return rng.uniform(-2, 2, num) + 1j*rng.uniform(0.1, 2, num), False


def _fct(z, pls, res, const=0):
    z = np.asarray(z, dtype=np.clongdouble)
    return np.asarray(np.sum(res/(z[..., None] - pls), axis=-1) + const).astype(complex)


@case(CASES, 900, 14000)
def recovery(ctx, rng):
    n = int(rng.choice([0, 1, 1, 2, 2, 3, 3, 4]))
    degree = 0 if n == 0 else int(rng.choice([-1, -1, 0]))
    pls, res, _ = _poles(rng, n)
    if degree == -1 and abs(np.sum(res)) < 0.2:
        raise Skip
    const = 0
    if degree == 0:
        const = rng.uniform(0.4, 2)*rng.choice([-1, 1])
    real_asymp = True
    if degree == -1:
        real_asymp = bool(abs(np.sum(res).imag) < 1e-14 and rng.random() < 0.5)
    elif rng.random() < 0.3:
        real_asymp, const = False, const + 1j*rng.normal()
    z, axis = _points(rng, 2*n + int(rng.integers(6, 20)))
    f = _fct(z, pls, res, const)
    kw = {"degree": degree, "real_asymp": real_asymp}
    if rng.random() < 0.3:
        kw["rotate"] = bool(rng.integers(2))
    masked = False
    data = f.copy()
    if rng.random() < 0.5:
        kw["weight"] = gen.loguni(rng, 0.3, 3, z.size)
        if rng.random() < 0.5:
            masked = True
            drop = rng.choice(z.size, int(rng.integers(1, 4)), replace=False)
            kw["weight"][drop] = 0
            data[drop] += rng.normal(size=drop.size)*3
    if n and rng.random() < 0.4:
        num = int(rng.integers(1, n + 1))
        kw["moments"] = [np.sum(res*pls**k) for k in range(num)]
    basis = "poly" if rng.random() < 0.7 else str(rng.choice(list(VAND)))
    kw["vandermond"] = VAND[basis]
    ztest = rng.uniform(-2, 2, 8) + 1j*rng.uniform(0.2, 2, 8)
    want = _fct(ztest, pls, res, const)

    def solve(values):
        return P.continuation(z, values, **kw)

    base, spread, rspread = solve(data), 0, 0
    for _ in range(3):
        try:
            pert = solve(data*(1 + 2e-15*rng.normal(size=z.size)))
        except np.linalg.LinAlgError:  # spurious pole on top of a data point
            raise Skip from None
        if pert.poles.size != base.poles.size:
            raise Skip
        spread = max(spread, np.max(abs(pert.eval_polefct(ztest) - base.eval_polefct(ztest))),
                     np.max(abs(pert.eval_zeropole(ztest) - base.eval_zeropole(ztest))))
    if spread > 1e-6:
        raise Skip
    tol = 50*spread + 1e-11
    ctx.tag("recovery", n, degree, axis, basis, masked, "weight" in kw, "moments" in kw, kw.get("rotate"))
    got = ctx.call(P.continuation, z, data, **kw)
    if real_asymp:
        ctx.ok("real asymptote", np.isrealobj(got.amplitude))
    ctx.close("pole function off the data", ctx.call(got.eval_polefct, ztest), want, atol=tol*(1 + abs(want)))
    ctx.close("zero-pole function off the data", ctx.call(got.eval_zeropole, ztest), want, atol=tol*(1 + abs(want)))
    ctx.ok("requested degree", got.zeros.size - got.poles.size == degree, zeros=got.zeros, poles=got.poles)
    amp = const if degree == 0 else np.sum(res)
    ctx.close("amplitude", got.amplitude, amp.real if real_asymp else amp, atol=tol*(1 + abs(amp))*10)
    if "moments" in kw:
        mom = ctx.call(got.moments, np.arange(1, len(kw["moments"]) + 1))
        ctx.close("moments", mom, np.array(kw["moments"]), atol=1e-9*np.max(abs(res))*max(1, np.max(abs(pls)))**n*max(1, n))
    ctx.ok("number of poles", got.poles.size <= n + 1 and got.poles.size >= n, n=n, poles=got.poles)
    if got.poles.size == n and n:
        idx = np.array([np.argmin(abs(got.poles - p)) for p in pls])
        ctx.close("pole positions", got.poles[idx], pls, atol=1e4*tol)
        ctx.close("residues", got.residues[idx], res, atol=1e4*tol)


@case(CASES, 700, 12000, skip=0.4)
def parts(ctx, rng):
    """Each step separately recovers its part of an exact pole function."""
    n = int(rng.integers(1, 6))
    pls, res, _ = _poles(rng, n)
    degree = int(rng.choice([-1, -1, 0, -2]))
    const = 0
    if degree == 0:
        const = rng.uniform(0.5, 2)
    if degree == -2:
        if n < 2:
            raise Skip
        res[-1] -= np.sum(res)
        if abs(res[-1]) < 0.3 or abs(np.sum(res*pls)) < 0.3:
            raise Skip
    elif degree == -1 and abs(np.sum(res)) < 0.3:
        raise Skip
    z, axis = _points(rng, 2*n + int(rng.integers(4, 16)))
    f = _fct(z, pls, res, const)
    # exact zeros from the numerator polynomial
    numer = const*np.poly(pls) if degree == 0 else np.zeros(1)
    for i in range(n):
        numer = np.polyadd(numer, res[i]*np.poly(np.delete(pls, i)))
    numer = numer[len(numer) - (n + degree) - 1:]
    zrs = np.roots(numer)
    if zrs.size > 1 and np.min(abs(zrs[:, None] - zrs) + 10*np.eye(zrs.size)) < 0.2:
        raise Skip
    if zrs.size and (np.max(abs(zrs)) > 5 or np.min(abs(zrs[:, None] - pls)) < 0.1 or np.min(abs(zrs[:, None] - z)) < 0.05):
        raise Skip
    kw = {}
    data = f.copy()
    if rng.random() < 0.5:
        kw["weight"] = gen.loguni(rng, 0.3, 3, z.size)
        if rng.random() < 0.6:
            drop = rng.choice(z.size, 2, replace=False)
            kw["weight"][drop] = 0
            data[drop] += 2*rng.normal(size=2)
    basis = str(rng.choice(list(VAND)))
    vkw = {"vandermond": VAND[basis], **kw}
    ctx.tag("parts", n, degree, axis, basis, "weight" in kw)

    def match(label, fn, want, **extra):
        base = fn(z, data, **extra)
        spread = max(np.max(abs(np.sort_complex(fn(z, data*(1 + 2e-15*rng.normal(size=z.size)), **extra))
                                - np.sort_complex(base)), initial=0) for _ in range(3))
        got = ctx.call(fn, z, data, **extra)
        ctx.ok(label + " count", got.shape == want.shape, got=got, want=want)
        if spread > 1e-5 or want.size == 0:
            return
        pair = abs(got[:, None] - want)
        ctx.close(label, np.min(pair, axis=0), np.zeros(want.size), atol=100*spread + 1e-10)

    pkw = dict(vkw, m=n, n=n + degree)
    if degree == -1 and rng.random() < 0.5:
        del pkw["n"]
    match("poles", P.poles, pls, **pkw)
    zkw = dict(vkw, poles=pls, n=n + degree)
    if degree == -1 and rng.random() < 0.5:
        del zkw["n"]
    match("zeros", P.zeros, zrs, **zkw)
    asym, std = ctx.call(P.asymptotic, z, data, zrs, pls, **kw)
    want = const if degree == 0 else np.sum(res) if degree == -1 else np.sum(res*pls)
    cond = np.max(abs(gt.basis.ZeroPole(zrs, pls).reciprocal(z)))*np.max(abs(f)) + 1
    ctx.close("asymptotic", asym, want, atol=1e-9*cond*10**n)
    ctx.close("standard deviation", std, 0.0, atol=1e-9*cond*10**n)
    mkw = dict(kw)
    num = int(rng.integers(0, n + 1))
    if num:
        mkw["moments"] = [np.sum(res*pls**k) for k in range(num)]
    got, _err = ctx.call(P.residues_ols, z, data - const, pls, **mkw)
    cnd = np.linalg.cond((1/np.subtract.outer(z, pls))[kw.get("weight", np.ones(z.size)) > 0])
    ctx.close("residues", got, res, atol=1e-12*cnd*max(1, np.max(abs(pls)))**n*10)


@case(CASES, 500, 8000)
def counting(ctx, rng):
    """The number of poles is identified; starting guesses only matter for the speed."""
    n = int(rng.integers(1, 4))
    pls, res, _ = _poles(rng, n)
    degree = int(rng.choice([-1, 0]))
    if degree == -1 and abs(np.sum(res)) < 0.3:
        raise Skip
    z = rng.uniform(-2, 2, 2*n + 12) + 1j*rng.uniform(0.1, 2, 2*n + 12)
    f = _fct(z, pls, res, degree + 1.0)
    ctx.tag("count", n, degree)
    lo, hi = n, n + 1
    got = ctx.call(P.number_poles, z, f, degree=degree)
    ctx.ok("number of poles", lo <= got <= hi, n=n, got=got)
    start = int(rng.integers(1, (z.size - degree - 1)//2 + 1))
    got = ctx.call(P.number_poles, z, f, degree=degree, n_poles0=start)
    ctx.ok("number of poles from guess", lo <= got <= hi, n=n, got=got, start=start)
    ctx.raises(ValueError, P.number_poles, z, f, degree=degree, n_poles0=(z.size - degree - 1)//2 + 1 + int(rng.integers(0, 4)))
    ctx.raises(ValueError, P.continuation, z, f, degree=int(rng.integers(1, 4)))
    ctx.raises(ValueError, P.residues_ols, z, f, pls, moments=np.ones(n + int(rng.integers(1, 3))))
    # no rational function of so few degrees matches noise
    noise = rng.normal(size=z.size) + 1j*rng.normal(size=z.size)
    ctx.raises(RuntimeError, P.number_poles, z[:6], np.exp(noise[:6]), degree=-1)


@case(CASES, 400, 6000)
def counting_degrees(ctx, rng):
    """Every difference of degrees is counted, in every basis and with any weights; the search ends."""
    from numpy.polynomial import chebyshev, legendre
    degree = int(rng.integers(-3, 4))
    n = int(rng.integers(max(1, -degree), 5))
    pls, *_ = _poles(rng, n)
    size = 2*n + degree + int(rng.integers(4, 25))
    z = rng.uniform(-1, 1, size) + 1j*rng.uniform(0.1, 1, size)
    zrs = 2*np.exp(2j*np.pi*(np.arange(n + degree) + rng.random())/max(1, n + degree))*rng.uniform(0.8, 1.2, n + degree)
    fct = np.prod(z[:, None] - zrs, axis=-1)/np.prod(z[:, None] - pls, axis=-1)
    kw = {}
    if rng.random() < 0.5:
        kw["vandermond"] = [chebyshev.chebvander, legendre.legvander][int(rng.integers(2))]
    if rng.random() < 0.4:
        kw["weight"] = rng.uniform(0.5, 2, size)
    if rng.random() < 0.5:
        kw["n_poles0"] = int(rng.integers(max(1, -degree), (size - degree - 1)//2 + 1))
    ctx.tag("degree", degree, n, *sorted(kw))
    got = ctx.call(P.number_poles, z, fct, degree=degree, **kw)
    # weak poles below the noise level may be lost, superfluous ones must not appear
    ctx.ok("no superfluous poles", got <= n + 1, n=n, got=got)
    vander = kw.get("vandermond", np.polynomial.polynomial.polyvander)
    scal = kw.get("weight", np.ones(size))

    def smallest(k):  # weakest singular value of the linearised problem
        mat = vander(z, max(k, k + degree, 0) + 1)
        den, num = mat[:, :k+1], mat[:, :k+degree+1]
        norm = scal/np.linalg.norm(np.concatenate((den, num), axis=-1), axis=-1)
        cols = [np.linalg.qr(norm[:, None]*fct[:, None]*den)[0], np.linalg.qr(norm[:, None]*num)[0]]
        sing = np.linalg.svd(np.concatenate(cols, axis=-1), compute_uv=False)
        return sing[-1]/sing[0]
    if n > max(0, -degree) and smallest(n - 1) > 1e-11:
        ctx.tag("all poles matter")
        ctx.ok("all poles counted", got >= n, n=n, got=got, small=smallest(n - 1))


@case(CASES, 700, 12000)
def least_squares(ctx, rng):
    """For arbitrary (noisy) data, residues are the optimal ones and asymptotics the weighted statistics."""
    n = gen.size(rng, 1, 6, 14)
    pls, res, _ = _poles(rng, n)
    z, _ = _points(rng, n + gen.size(rng, 3, 14, 200))
    f = _fct(z, pls, res) + 0.3*(rng.normal(size=z.size) + 1j*rng.normal(size=z.size))
    w = gen.loguni(rng, 0.2, 4, z.size) if rng.random() < 0.6 else None
    ww = np.ones(z.size) if w is None else w
    num = int(rng.integers(0, n + 1))
    mom = rng.normal(size=num)
    ctx.tag("lsq", n, num, w is not None)
    keep = [np.array(x) for x in (z, f, pls, ww, mom)]
    got, err = ctx.call(P.residues_ols, z, f, pls, weight=w, moments=mom.tolist() if rng.random() < 0.5 else mom)
    mat = ww[:, None]/np.subtract.outer(z, pls)
    resid = mat @ got - ww*f
    cond = np.linalg.cond(mat)
    if cond > 1e6:
        raise Skip
    vand = pls[None, :]**np.arange(num)[:, None]
    ctx.close("moments", vand @ got, mom.astype(complex),
              atol=1e-11*cond*(np.max(abs(got)) + 1)*max(1, np.max(abs(pls)))**n*np.ones(num))
    grad = mat.conj().T @ resid
    if num:  # stationary on the constraint surface
        _, _, vh = np.linalg.svd(vand)
        grad = vh[num:] @ grad
    ctx.close("optimality", grad, 0*grad,
              atol=1e-9*cond*np.linalg.norm(mat)*(np.linalg.norm(ww*f) + np.linalg.norm(got)*np.linalg.norm(mat)))
    norm = np.linalg.norm(resid)
    err = np.asarray(err)
    if err.size:
        ctx.ok("residual", np.isclose(err[0], norm, rtol=1e-8, atol=1e-12) or np.isclose(err[0], norm**2, rtol=1e-8, atol=1e-12),
               err=err, norm=norm)
    zrs = rng.normal(size=int(rng.integers(0, n + 1))) - 0.1j
    asym, std = ctx.call(P.asymptotic, z, f, zrs, pls, weight=w)
    ratio = f*np.prod(z[:, None] - pls, axis=-1)/np.prod(z[:, None] - zrs, axis=-1)
    mean = np.sum(ww*ratio)/np.sum(ww)
    var = np.sum(abs(ratio - mean)**2)/(z.size - 1) if w is None else np.sum(ww*abs(ratio - mean)**2)/np.sum(ww)
    ctx.close("asymptotic", asym, mean, atol=1e-11*np.max(abs(ratio)))
    ctx.close("standard deviation", std, np.sqrt(var), atol=1e-10*np.max(abs(ratio)))
    for old, new in zip(keep, (z, f, pls, ww, mom)):
        ctx.ok("inputs unchanged", np.array_equal(old, new))
    # scale of weights is irrelevant
    if w is not None:
        s = float(gen.loguni(rng, 0.1, 10))
        got2, _ = ctx.call(P.residues_ols, z, f, pls, weight=s*w, moments=mom)
        ctx.close("weight scale", got2, got, atol=1e-10*cond*(np.max(abs(got)) + 1))


@case(CASES, 400, 6000)
def nearby_poles(ctx, rng):
    """Nearly coinciding poles: exact data are reproduced to rounding, nothing is regularized away."""
    n = int(rng.integers(1, 4))
    pls, res, _ = _poles(rng, n)
    gap = gen.loguni(rng, 1e-11, 1e-2)
    pls = np.concatenate([pls, pls[:int(rng.integers(1, n + 1))] + gap*np.exp(1j*rng.uniform(0, 6.28))])
    res = np.concatenate([res, rng.normal(size=pls.size - n) + 1j*rng.normal(size=pls.size - n)])
    z, _ = _points(rng, pls.size + int(rng.integers(3, 14)))
    w = gen.loguni(rng, 0.2, 4, z.size) if rng.random() < 0.5 else None
    mat = 1/np.subtract.outer(z, pls)
    f = mat @ res
    num = int(rng.integers(0, 2))
    ctx.tag("nearby", n, pls.size, int(np.log10(gap)), num)
    got, _ = ctx.call(P.residues_ols, z, f, pls, weight=w, moments=[np.sum(res)] if num else ())
    cond = np.linalg.cond(mat if w is None else w[:, None]*mat)
    size = np.linalg.norm(mat)*np.linalg.norm(res)*(1 if w is None else w.max()/w.min())
    ctx.close("exact data are reproduced", mat @ got, f, atol=3e-13*size)
    if cond < 1e11:
        ctx.close("residues", got, res, atol=1e-12*cond*np.linalg.norm(res)*20)


@case(CASES, 400, 6000, skip=0.4)
def symmetric(ctx, rng):
    """Symmetric data: frequencies of both signs, particle-hole symmetric poles, complex conjugate pairs."""
    kind = str(rng.choice(["matsubara", "matsubara", "boson", "real axis"]))
    num = int(rng.integers(8, 20))
    if kind == "real axis":
        z = np.linspace(-1, 1, 2*num + int(rng.integers(2)))*rng.uniform(1.5, 3) + 0j
        n = int(rng.integers(1, 3))
        half = np.sort(rng.uniform(0.1, 1, n)) + 0.8*np.arange(n) - 1j*rng.uniform(0.3, 0.8, n)
        pls = np.concatenate([half, half.conj()])
        wgt = rng.uniform(0.3, 1.2, n)*rng.choice([-1, 1], n)
        res = np.concatenate([wgt, wgt])
        if rng.random() < 0.5:  # odd or even in the frequency
            pls, res = np.concatenate([half, -half.conj()]), np.concatenate([wgt, wgt*rng.choice([-1, 1])])
    else:
        z = 1j*np.pi*(2*np.arange(-num, num) + 1)/rng.uniform(4, 20)
        if kind == "boson":
            z = 1j*np.pi*2*np.arange(-num, num + 1)/rng.uniform(4, 20)
        n = int(rng.integers(1, 3))
        pos = np.sort(rng.uniform(0.2, 1, n)) + 0.8*np.arange(n)
        wgt = rng.uniform(0.3, 1.2, n)
        sign = int(rng.choice([-1, 1, 1]))
        pls, res = np.concatenate([pos, -pos]).astype(complex), np.concatenate([wgt, sign*wgt]).astype(complex)
        if rng.random() < 0.3 and kind != "boson":
            pls, res = np.append(pls, 0), np.append(res, rng.uniform(0.3, 1.2))
    degree = -1
    if abs(np.sum(res)) < 0.2:
        degree = -2
        if abs(np.sum(res*pls)) < 0.2 or pls.size < 2:
            raise Skip
    f = _fct(z, pls, res)
    if rng.random() < 0.3:
        f = f*rng.choice([1j, -1, np.exp(0.3j)])
        res = res*(f[0]/_fct(z, pls, res)[0])
    if rng.random() < 0.2 and kind == "boson":
        z, f = z[z.imag != 0], f[z.imag != 0]
    zrs = np.roots(sum(res[i]*np.poly(np.delete(pls, i)) for i in range(pls.size))[-(pls.size + degree) - 1:])
    if zrs.size and np.min(abs(zrs[:, None] - z)) < 0.03:  # asymptotic is not defined by such points
        raise Skip
    ztest = rng.uniform(-2, 2, 8) + 1j*rng.uniform(1, 2, 8)
    want = _fct(ztest, pls, res)
    kw = {"degree": degree, "real_asymp": False}
    if rng.random() < 0.3:
        kw["weight"] = abs(z) + 0.1
    spread = 0
    try:
        for _ in range(3):
            pert = P.continuation(z, f*(1 + 2e-15*rng.normal(size=z.size)), **kw)
            if pert.poles.size != pls.size:  # spurious poles, maybe at infinity
                raise Skip
            spread = max(spread, np.max(abs(pert.eval_polefct(ztest) - want)), np.max(abs(pert.eval_zeropole(ztest) - want)))
    except np.linalg.LinAlgError:
        raise Skip from None
    if not spread < 1e-6:
        raise Skip
    ctx.tag("symmetric", kind, pls.size, degree, "weight" in kw)
    zr = z/1j if np.all(z.real == 0) else z
    if P.number_poles(zr.real if np.all(zr.imag == 0) else zr, f, degree=degree, weight=kw.get("weight")) != pls.size:
        raise Skip
    got = ctx.call(P.continuation, z, f, **kw)
    tol = 100*spread + 1e-11
    ctx.close("symmetric: pole function", ctx.call(got.eval_polefct, ztest), want, atol=tol*(1 + abs(want)))
    ctx.close("symmetric: zero-pole function", ctx.call(got.eval_zeropole, ztest), want, atol=tol*(1 + abs(want)))


@case(CASES, 500, 8000)
def evaluation(ctx, rng):
    """Pole and zero-pole representation evaluate to their defining formulas."""
    npol, nz = int(rng.integers(1, 6)), 0
    nz = int(rng.integers(0, npol + 1))
    batch = [(), (), (3,), (2, 2)][int(rng.integers(4))]

    def cplx(*shape):
        return rng.normal(size=batch + shape) + 1j*rng.normal(size=batch + shape)
    zrs, pls, res, amp = cplx(nz), cplx(npol), cplx(npol), cplx()
    pade = P.PadeApprox(zeros=zrs, poles=pls, residues=res, amplitude=amp)
    z = cplx()*2
    if batch == () and rng.random() < 0.5:
        z = rng.normal(size=4) + 1j*rng.normal(size=4)
    ctx.tag("eval", npol, nz, batch)
    zz = np.asarray(z)[..., None]
    const = amp if nz == npol else 0
    ctx.close("pole function", ctx.call(pade.eval_polefct, z), const + np.sum(res/(zz - pls), axis=-1), rtol=1e-10,
              atol=1e-10*np.sum(abs(res/(zz - pls)), axis=-1))
    ctx.close("zero-pole function", ctx.call(pade.eval_zeropole, z),
              amp*np.prod(zz - zrs, axis=-1)/np.prod(zz - pls, axis=-1), rtol=1e-10)
    order = np.arange(1, 5)
    ctx.close("moments", ctx.call(pade.moments, order), np.sum(res[..., None]*pls[..., None]**(order - 1), axis=-2),
              rtol=1e-10, atol=1e-10*np.sum(abs(res[..., None]*pls[..., None]**(order - 1)), axis=-2))
