"""C14: Pade and quadratic Hermite-Pade approximants of power series."""
import numpy as np

from .. import gen, target
from ..core import Skip, case

gt = target.load()
H = gt.hermpade
LD = np.clongdouble
Poly = np.polynomial.Polynomial

CASES = []
QUICK = 2  # cheap cases: more of them in the quick tier
RULE = ("Random power series (real, complex, integer, sparse, leading zeros), degrees 0-8, rational and square-root"
        " functions of matching and of lower type, evaluation points as scalars and arrays; non-trivial:"
        " denominator degree at least one.")
ASSUMPTIONS = ["tolerances follow the measured sensitivity to a relative perturbation of the coefficients"]


def _series(rng, size):
    pick = int(rng.integers(0, 6))
    an = rng.normal(size=size)
    if pick == 0:
        an = an + 1j*rng.normal(size=size)
    elif pick == 1:
        an = np.round(3*an).astype(int)
        an[0] = an[0] or 1
    elif pick == 2:
        an[rng.random(size) < 0.4] = 0
        an[0] = 1.0
    elif pick == 3:
        an = an*gen.loguni(rng, 0.3, 3)**np.arange(size)
    elif pick == 4:
        an[0] = 0
    return an


def _arg(rng, an):
    return an.tolist() if rng.random() < 0.3 else gen.readonly(an) if rng.random() < 0.3 else an


def _conv(a, b, n):
    return np.convolve(np.asarray(a, dtype=LD), np.asarray(b, dtype=LD))[:n]


def _pad(a, n):
    return np.r_[a, np.zeros(max(0, n - len(a)))][:n]


@case(CASES, 1500, 30000)
def taylor_matching(ctx, rng):
    num, den = int(rng.integers(0, 8)), int(rng.integers(0, 8))
    lmax = num + den + 1
    an = _series(rng, lmax + int(rng.integers(0, 5)))
    ctx.tag("pade", num, den, an.dtype)
    rp = ctx.call(H.pade, _arg(rng, an), num, den)
    ctx.ok("degrees", rp.denom.coef.size == den + 1 and rp.numer.coef.size == num + 1,
           num=rp.numer.coef.size, den=rp.denom.coef.size)
    q, p = rp.denom.coef, rp.numer.coef
    scale = np.max(abs(an))*np.max(abs(q))*lmax
    ctx.ok("denominator", np.max(abs(q)) > 1e-3, q=q)
    res = _conv(an, q, lmax) - _pad(p, lmax)
    ctx.close("order of approximation", res, 0*res, atol=1e-12*scale)
    # least-squares version
    rp = ctx.call(H.pade_lstsq, _arg(rng, an), num, den)
    q, p = rp.denom.coef, rp.numer.coef
    ctx.ok("lstsq degrees", q.size == den + 1 and p.size == num + 1)
    ctx.ok("lstsq normalization", q[0] == 1, q=q)
    scale = np.max(abs(an))*max(1, np.max(abs(q)))*lmax
    res = _conv(an, q, an.size) - _pad(p, an.size)
    ctx.close("lstsq numerator", res[:num+1], 0*res[:num+1], atol=1e-12*scale)
    if den:
        cols = np.array([[an[i-j] if i >= j else 0 for j in range(den + 1)] for i in range(num + 1, an.size)])
        sv = np.linalg.svd(cols[:, 1:], compute_uv=False)
        if sv[-1] > 1e-6*sv[0]:
            grad = cols[:, 1:].conj().T @ res[num+1:]
            ctx.close("lstsq optimal", grad.astype(complex), 0*grad.astype(complex),
                      atol=1e-10*scale*np.max(abs(an))*an.size)
    # Levinson recursion gives the same function where it is stable
    if den:
        cols = np.array([[an[i-j] if i >= j else 0 for j in range(den)] for i in range(num + 1, lmax)])
        conds = [np.linalg.cond(cols[:k, :k]) for k in range(1, den + 1)]
        if max(conds) < 1e4:
            fp = ctx.call(H.pade, an, num, den, fast=True)
            ctx.tag("fast", den)
            q, p = fp.denom.coef, fp.numer.coef
            ctx.ok("fast normalization", q[-1] == 1 and q.size == den + 1)
            res = _conv(an, q, lmax) - _pad(p, lmax)
            ctx.close("fast order of approximation", res, 0*res,
                      atol=1e-12*np.max(abs(an))*np.max(abs(q))*lmax*max(conds))


@case(CASES, 300, 4000)
def too_short(ctx, rng):
    a, b, c = (int(x) for x in rng.integers(0, 5, 3))
    an = rng.normal(size=int(rng.integers(1, a + b + 1)) if a + b else 0)
    ctx.tag("short", a, b, c)
    if an.size < a + b + 1:
        for fn in (H.pade, H.pade_lstsq, H.pader):
            ctx.raises(ValueError, fn, an, a, b)
    an = rng.normal(size=a + b + c + 1)
    for fn in (H.hermite2, H.hermite2_lstsq, H.Hermite2.from_taylor, H.Hermite2.from_taylor_lstsq):
        ctx.raises(ValueError, fn, an, a, b, c)


def _taylor_ratio(p, q, n):
    """Series of p/q."""
    p, q = _pad(np.asarray(p, dtype=LD), n), _pad(np.asarray(q, dtype=LD), n)
    out = np.zeros(n, dtype=LD)
    for k in range(n):
        out[k] = (p[k] - np.sum(q[1:k+1]*out[:k][::-1]))/q[0]
    return out


def _rational(rng):
    num, den = int(rng.integers(0, 5)), int(rng.integers(1, 5))
    cplx = rng.random() < 0.4
    ang = (np.arange(den) + 0.8*rng.random(den))*2*np.pi/den + rng.uniform(0, 6)
    poles = rng.uniform(0.8, 1.6, den)*np.exp(1j*ang)
    zeros = rng.uniform(0.5, 2, num)*np.exp(1j*rng.uniform(0, 6.28, num))
    if not cplx:
        # real coefficients: conjugate symmetric sets by construction of the polynomial
        poles = np.where(np.arange(den) % 2, -1, 1)*rng.uniform(0.8, 1.6, den)
        zeros = rng.normal(size=num)*1.5
    q = np.polynomial.polynomial.polyfromroots(poles)
    p = np.polynomial.polynomial.polyfromroots(zeros)
    p, q = p/q[0]*rng.uniform(0.5, 2), q/q[0]
    if num and np.min(abs(poles[:, None] - zeros)) < 0.1:
        raise Skip
    if not cplx:
        p, q = p.real, q.real
    return p, q, num, den, poles


@case(CASES, 1200, 24000)
def rational(ctx, rng):
    """Rational functions are reproduced everywhere, also when the requested degrees are larger (robust)."""
    p, q, num, den, poles = _rational(rng)
    extra = int(rng.integers(0, 4))
    size = num + den + 1 + 2*extra
    an = _taylor_ratio(p, q, size)
    an = an.astype(complex) if np.iscomplexobj(q) or np.iscomplexobj(p) else an.real.astype(float)
    z = rng.uniform(0.1, 2.5, 6)*np.exp(1j*rng.uniform(0, 6.28, 6))
    if rng.random() < 0.2:
        z = z[0]
    if np.min(abs(np.asarray(z)[..., None] - poles)) < 0.1:
        raise Skip
    want = Poly(p)(z)/Poly(q)(z)

    def noise(fn, *args, **kw):
        out, base = 0, fn(an, *args, **kw).eval(z)
        for _ in range(3):
            pert = an*(1 + 3e-14*rng.normal(size=an.size))
            out = np.maximum(out, abs(fn(pert, *args, **kw).eval(z) - base))
        return 10*np.max(out) + 1e-11*abs(want)

    ctx.tag("rational", num, den, extra, np.iscomplexobj(an), np.ndim(z))
    for fn, kw in ((H.pade, {}), (H.pade_lstsq, {})):
        tol = noise(fn, num, den, **kw)
        if np.max(tol) < 1e-4:
            got = ctx.call(fn, _arg(rng, an), num, den, **kw)
            ctx.close("rational function", ctx.call(got.eval, z), want, atol=tol)
    # larger degrees: the robust version removes the spurious pole-zero pairs
    rp = ctx.call(H.pader, _arg(rng, an), num + extra, den + extra, rcond=1e-11)
    ctx.ok("degrees not larger than requested", rp.numer.degree() <= num + extra and rp.denom.degree() <= den + extra)
    res = _conv(an, rp.denom.coef, num + den + 1) - _pad(rp.numer.coef, num + den + 1)
    ctx.close("robust order", res.astype(complex), 0*res.astype(complex),
              atol=1e-8*np.max(abs(an))*np.max(abs(rp.denom.coef)))
    cols = np.array([[an[i-j] if i >= j else 0 for j in range(den + 1)] for i in range(num + 1, num + den + 1)])
    sv = np.linalg.svd(cols, compute_uv=False)
    if sv[-1] > 1e-4*sv[0]:
        ctx.ok("deflated to the exact degrees", rp.numer.coef.size == num + 1 and rp.denom.coef.size == den + 1,
               num=rp.numer.coef, den=rp.denom.coef)
        ctx.close("robust function", rp.eval(z), want, atol=1e-5*(1 + np.max(abs(want))))


@case(CASES, 500, 9000)
def robust(ctx, rng):
    """Generic series: same approximant as the plain version; degenerate series."""
    num, den = int(rng.integers(0, 6)), int(rng.integers(0, 6))
    an = _series(rng, num + den + 1 + int(rng.integers(0, 3)))
    ctx.tag("robust", num, den, an.dtype)
    lmax = num + den + 1
    if rng.random() < 0.2:
        an[:num+1] = 0
    rp = ctx.call(H.pader, _arg(rng, an), num, den)
    if not np.any(an[:num+1]):
        ctx.ok("zero function", np.all(rp.numer.coef == 0) and rp.denom.coef[0] == 1)
        return
    ctx.ok("degrees", rp.numer.coef.size <= num + 1 and rp.denom.coef.size <= den + 1)
    cols = np.array([[an[i-j] if i >= j else 0 for j in range(den + 1)] for i in range(num + 1, lmax)]).reshape(den, den + 1)
    sv = np.linalg.svd(cols, compute_uv=False)
    if den == 0 or sv[-1] > 1e-8*sv[0]:
        res = _conv(an, rp.denom.coef, lmax) - _pad(rp.numer.coef, lmax)
        lead = 0
        # leading zeros of the denominator are stripped; the order is reduced accordingly
        full = H.pade(an, num, den).denom.coef
        while lead < full.size and full[lead] == 0:
            lead += 1
        res = res[:lmax - lead]
        ctx.close("order of approximation", res.astype(complex), 0*res.astype(complex),
                  atol=1e-11*np.max(abs(an))*np.max(abs(rp.denom.coef))*lmax)


@case(CASES, 300, 5000)
def units(ctx, rng):
    """Padé approximants of `s*f(c*x)` are those of `f` in other units; powers of two, to introduce no rounding."""
    num, den = int(rng.integers(0, 6)), int(rng.integers(0, 6))
    an = rng.normal(size=num + den + 1 + int(rng.integers(0, 3))) + (1j*rng.normal() if rng.random() < 0.4 else 0)
    generic = rng.random() < 0.7
    if not generic:  # rational function of lower degree: the robust version has to deflate
        p, q, *__ = _rational(rng)
        an = _taylor_ratio(p, q, an.size)
        an = an.astype(complex) if np.iscomplexobj(an) else an.astype(float)
    s = 2.0**int(rng.integers(-300, 300))
    c = 2.0**int(rng.integers(-3, 4))
    z = rng.uniform(0.1, 2.5, 4)*np.exp(1j*rng.uniform(0, 6.28, 4))
    ctx.tag("units", num, den, int(np.log2(s))//60, np.log2(c))
    fn, kw = [(H.pade, {}), (H.pade_lstsq, {}), (H.pader, {}), (H.pader, {"rcond": 1e-11})][int(rng.integers(4))]

    def spread(an_, z_):  # sensitivity to rounding; near the decision of the rank the result is not determined
        out, base_ = 0, fn(an_, num, den, **kw)
        for _ in range(3):
            pert = fn(an_*(1 + 3e-14*rng.normal(size=an_.size)), num, den, **kw)
            if pert.denom.degree() != base_.denom.degree():
                raise Skip
            out = np.maximum(out, abs(pert.eval(z_) - base_.eval(z_)))
        return out, base_
    err, base = spread(an, z)
    if fn is H.pader:
        for fac in (0.03, 30):
            if fn(an, num, den, rcond=kw.get("rcond", 1e-14)*fac).denom.degree() != base.denom.degree():
                raise Skip
    want = base.eval(z)
    if not (np.max(err) < 1e-4*np.min(abs(want))):
        raise Skip
    got = ctx.call(fn, s*an, num, den, **kw)
    ctx.close("amplitude", ctx.call(got.eval, z)/s, want, atol=10*np.max(err) + 1e-11*abs(want))
    # the rank is judged relative to the largest coefficient; least squares of more equations depend on the unit
    if generic and (fn is H.pade or (fn is H.pade_lstsq and an.size == num + den + 1)):
        an_c = an*c**np.arange(an.size)
        got = ctx.call(fn, an_c, num, den, **kw)
        err_c = spread(an_c, z/c)[0]
        if np.max(err_c) < 1e-4*np.min(abs(want)):
            ctx.close("argument", ctx.call(got.eval, z/c), want, atol=100*(np.max(err) + np.max(err_c)) + 1e-9*abs(want))


@case(CASES, 1200, 24000)
def quadratic_order(ctx, rng):
    pd, qd, rd = (int(x) for x in rng.integers(0, 6, 3))
    lmax = pd + qd + rd + 2
    an = _series(rng, lmax + int(rng.integers(0, 4)))
    ctx.tag("herm", pd, qd, rd, an.dtype)
    p, q, r = ctx.call(H.hermite2, _arg(rng, an), pd, qd, rd)
    ctx.ok("degrees", (p.coef.size, q.coef.size, r.coef.size) == (pd + 1, qd + 1, rd + 1))
    ff = _conv(an, an, lmax)
    res = _pad(p.coef, lmax) + _conv(an[:lmax], q.coef, lmax) + _pad(_conv(ff, r.coef, lmax), lmax)
    scale = max(1, np.max(abs(an)))**2*lmax**2
    ctx.ok("not trivial", max(np.max(abs(q.coef)), np.max(abs(r.coef))) > 1e-3)
    ctx.close("order of approximation", res.astype(complex), 0*res.astype(complex), atol=1e-12*scale)
    kw = {}
    if rng.random() < 0.4:
        kw["fix_qr"] = int(rng.integers(-(qd + rd + 2), qd + rd + 2))
    try:
        p, q, r = ctx.call(H.hermite2_lstsq, _arg(rng, an), pd, qd, rd, **kw)
    except np.linalg.LinAlgError:
        raise Skip from None
    ctx.ok("lstsq degrees", (p.coef.size, q.coef.size, r.coef.size) == (pd + 1, qd + 1, rd + 1))
    qr = np.r_[q.coef, r.coef]
    n = an.size
    ff = _conv(an, an, n)
    res = _pad(p.coef, n) + _conv(an, q.coef, n) + _pad(_conv(ff, r.coef, n), n)
    scale *= max(1, np.max(abs(qr)))*n
    if "fix_qr" in kw:
        ctx.ok("fixed coefficient", qr[kw["fix_qr"]] == 1, qr=qr)
    else:
        ctx.ok("one coefficient is fixed", np.any(qr == 1), qr=qr)
    ctx.close("lstsq constant polynomial", res[:pd+1].astype(complex), 0*res[:pd+1].astype(complex), atol=1e-12*scale)
    cols = np.concatenate([np.array([[s[i-j] if i >= j else 0 for j in range(d + 1)] for i in range(pd + 1, n)])
                           for s, d in ((an.astype(LD), qd), (ff, rd))], axis=1).astype(complex)
    fixed = [kw["fix_qr"] % qr.size] if "fix_qr" in kw else np.flatnonzero(qr == 1)
    if len(fixed) == 1:
        rest = np.delete(cols, fixed[0], axis=1)
        sv = np.linalg.svd(rest, compute_uv=False)
        if sv[-1] > 1e-6*sv[0]:
            grad = rest.conj().T @ res[pd+1:].astype(complex)
            ctx.close("lstsq optimal", grad, 0*grad, atol=1e-9*scale*max(1, np.max(abs(ff)))*n)
    if rng.random() < 0.05:
        p, q, r = ctx.call(H.hermite2_lstsq, np.zeros(n), pd, qd, rd)
        ctx.ok("zero degrees", (p.coef.size, q.coef.size, r.coef.size) == (pd + 1, qd + 1, rd + 1))
        ctx.ok("zero series", np.all(p.coef == 0) and np.all(q.coef == 0) and r.coef[0] == 1)


@case(CASES, 1200, 24000)
def branches(ctx, rng):
    """Both branches solve the quadratic equation; the closer one to Pade is chosen."""
    polys = [Poly(rng.normal(size=int(rng.integers(1, 4))) + (1j*rng.normal() if rng.random() < 0.4 else 0))
             for _ in range(3)]
    if rng.random() < 0.1:
        polys[0] = Poly([0.0])
    if rng.random() < 0.2:  # strong cancellation
        polys[0] = 1e-10*polys[0]
    p, q, r = polys
    shape = [(), (5,), (2, 2)][int(rng.integers(3))]
    z = rng.normal(size=shape)
    if rng.random() < 0.6:
        z = z + 1j*rng.normal(size=shape)
    if shape == () and rng.random() < 0.5:
        z = z.item() if isinstance(z, np.ndarray) else z
    pade = gt.basis.RatPol(Poly(rng.normal(size=2)), Poly([1.0, 0.3]))
    herm = H.Hermite2(p=p, q=q, r=r, pade=pade)
    pz, qz, rz = (np.asarray(x(np.asarray(z, dtype=LD))) for x in (p, q, r))
    disc = np.sqrt(qz**2 - 4*pz*rz)
    if np.min(abs(rz)) < 1e-3 or np.min(abs(disc)) < 1e-4*np.max(abs(qz) + 1):
        raise Skip
    plus, minus = ctx.call(herm.eval_branches, z)
    ctx.tag("branches", shape, np.iscomplexobj(z))
    rp, rm = (-qz + disc)/2/rz, (-qz - disc)/2/rz
    # cancellation-free reference
    rp2 = np.where(abs(rp) < abs(rm), pz/rz/np.where(rm == 0, 1, rm), rp)
    rm2 = np.where(abs(rm) < abs(rp), pz/rz/np.where(rp == 0, 1, rp), rm)
    tolp = 1e-11*(abs(rp2) + 0) + 1e-9*(abs(qz)/abs(disc))*abs(rp2) + 1e-300
    tolm = 1e-11*(abs(rm2) + 0) + 1e-9*(abs(qz)/abs(disc))*abs(rm2) + 1e-300
    near = abs(disc.real) < 1e-6*abs(disc)  # next to the cut of the square root only the pair is defined
    if not np.any(near):
        ctx.close("plus branch", plus, rp2.astype(complex), atol=tolp.astype(float))
        ctx.close("minus branch", minus, rm2.astype(complex), atol=tolm.astype(float))
    ctx.close("sum of branches", plus + minus, (-qz/rz).astype(complex),
              atol=(1e-9*abs(qz/rz) + 1e-9*(abs(rp) + abs(rm))).astype(float))
    got = ctx.call(herm.eval, z)
    pd = pade.eval(z)
    dp, dm = abs(plus - pd), abs(minus - pd)
    want = np.where(dp < dm, plus, minus)
    sure = abs(dp - dm) > 1e-9*(dp + dm)
    ctx.close("branch next to Pade", np.where(sure, got, 0), np.where(sure, want, 0), rtol=1e-12)
    ret = H._Hermite2Ret(p=p, q=q, r=r) if hasattr(H, "_Hermite2Ret") else None
    if ret is not None:
        got = np.asarray(ctx.call(ret.eval, z))
        one = (np.asarray(plus).imag <= 0) != (np.asarray(minus).imag <= 0)
        want = np.where(np.asarray(plus).imag <= 0, plus, minus)
        ctx.close("retarded branch", np.where(one, got, 0), np.where(one, want, 0), rtol=1e-12)
        ctx.ok("one of the branches", np.all(np.isclose(got, plus, rtol=1e-11, atol=0) | np.isclose(got, minus, rtol=1e-11, atol=0)))
        # both retarded: the one closer to the axis; none: the one less unphysical
        pim, mim = np.asarray(plus).imag, np.asarray(minus).imag
        both = (pim <= 0) & (mim <= 0)
        none = (pim > 0) & (mim > 0)
        want = np.where(both, np.where(pim >= mim, plus, minus), np.where(pim <= mim, plus, minus))
        sure = (both | none) & (abs(pim - mim) > 1e-9*(abs(pim) + abs(mim)))
        ctx.close("branch of smaller imaginary part", np.where(sure, got, 0), np.where(sure, want, 0), rtol=1e-11)


@case(CASES, 300, 5000)
def leading_zero(ctx, rng):
    """Where the quadratic term vanishes exactly one branch is `-p/q`, the other one is at infinity."""
    z0 = float(rng.integers(-4, 5))/4
    shape = [(), (1,), (5,), (2, 3)][int(rng.integers(4))]
    rest = Poly(rng.integers(1, 5, size=int(rng.integers(1, 3))).astype(float))
    r = Poly([-z0, 1.0])*rest if rng.random() < 0.8 else Poly([0.0])
    cplx = 1j*rng.normal() if rng.random() < 0.4 else 0
    p, q = Poly(rng.normal(size=2) + cplx), Poly(rng.normal(size=int(rng.integers(1, 3))) - cplx)
    z = rng.normal(size=shape) + (1j*rng.normal(size=shape) if rng.random() < 0.5 else 0)
    hit = np.ones(shape, dtype=bool) if r.coef.size == 1 else np.asarray(rng.random(shape) < 0.6)
    z = np.where(hit, z0, z) if r.coef.size > 1 else z
    pz, qz, rz = (np.asarray(x(z)) for x in (p, q, r))
    if not np.any(hit) or np.any(rz[hit] != 0) or np.min(abs(qz)) < 1e-2 or np.min(abs(rz[~hit]), initial=1) < 1e-2:
        raise Skip
    ctx.tag("leading zero", shape, r.coef.size, np.iscomplexobj(z), bool(cplx))
    far = np.min(abs(np.sqrt(qz**2 - 4*pz*rz + 0j))) > 1e-3
    finite = -pz/qz
    herm = H.Hermite2(p=p, q=q, r=r, pade=gt.basis.RatPol(p, -q))
    with np.errstate(all="ignore"):
        plus, minus = ctx.call(herm.eval_branches, z)
        got = ctx.call(herm.eval, z)
    pair = np.stack([plus, minus])
    ctx.ok("one finite branch", np.all(np.sum(np.isfinite(pair), axis=0)[hit] == 1), plus=plus, minus=minus)
    ctx.close("finite branch", np.where(hit, np.where(np.isfinite(plus), plus, minus), 0), np.where(hit, finite, 0), rtol=1e-12)
    ctx.close("finite branch next to Pade", np.where(hit, got, 0), np.where(hit, finite, 0), rtol=1e-12)
    if far and np.any(~hit):  # the other points are not affected
        pl, mi = np.where(hit, 0, plus), np.where(hit, 0, minus)
        for x in (pl, mi):
            res = np.where(hit, 0, pz + qz*x + rz*x**2)
            ctx.close("other points", res, 0*res, atol=1e-9*(abs(pz) + abs(qz*x) + abs(rz*x**2)))


def _algebraic(rng):
    """Random quadratic p + q f + r f^2 = 0 and the series of the branch through a chosen value."""
    pd, qd, rd = (int(x) for x in rng.integers(1, 4, 3))
    f0 = rng.uniform(0.5, 1.5)
    r = 0.4*rng.normal(size=rd + 1)
    q = 0.4*rng.normal(size=qd + 1)
    r[0] = rng.uniform(0.5, 1)
    f1 = f0 + rng.choice([-1, 1])*rng.uniform(1.0, 2.0)  # the other branch
    q[0] = -r[0]*(f0 + f1)
    p = 0.4*rng.normal(size=pd + 1)
    p[0] = r[0]*f0*f1
    return p, q, r, f0


def _taylor_alg(p, q, r, f0, n):
    p, q, r = (_pad(np.asarray(x, dtype=LD), n) for x in (p, q, r))
    f = np.zeros(n, dtype=LD)
    f[0] = f0
    slope = q[0] + 2*r[0]*f0
    for k in range(1, n):
        f[k] = 0
        ff = np.convolve(f, f)[:n]
        res = p[k] + np.sum(q[:k+1]*f[:k+1][::-1]) + np.sum(r[:k+1]*ff[:k+1][::-1])
        f[k] = -res/slope
    return f


@case(CASES, 800, 16000)
def algebraic(ctx, rng):
    """Square-root functions of matching type are reproduced on the branch of the series."""
    p, q, r, f0 = _algebraic(rng)
    pd, qd, rd = p.size - 1, q.size - 1, r.size - 1
    n = pd + qd + rd + 2
    extra = int(rng.integers(0, 3))
    an = _taylor_alg(p, q, r, f0, n + extra).real.astype(float)
    # distance to the next branch point
    disc = Poly(q)**2 - 4*Poly(p)*Poly(r)
    rad = np.min(abs(np.r_[disc.roots(), Poly(r).roots() if rd else 9, 5.0]))
    z = 0.25*rad*rng.uniform(0.1, 1, 5)*np.exp(1j*rng.uniform(0, 6.28, 5))
    if rng.random() < 0.3:
        z = z.real
    pz, qz, rz = Poly(p)(z + 0j), Poly(q)(z + 0j), Poly(r)(z + 0j)
    root = np.sqrt(qz**2 - 4*pz*rz)
    roots = np.stack([(-qz + root)/2/rz, (-qz - root)/2/rz])
    taylor = np.polynomial.Polynomial(_taylor_alg(p, q, r, f0, 40).astype(complex))(z)
    want = np.where(abs(roots[0] - taylor) < abs(roots[1] - taylor), roots[0], roots[1])

    def noise(fn):
        out, base = 0, fn(an, pd, qd, rd).eval(z)
        for _ in range(3):
            out = np.maximum(out, abs(fn(an*(1 + 3e-14*rng.normal(size=an.size)), pd, qd, rd).eval(z) - base))
        return 10*np.max(out) + 1e-10

    ff = _conv(an, an, an.size)
    cols = np.concatenate([np.array([[s[i-j] if i >= j else 0 for j in range(d + 1)] for i in range(pd + 1, an.size)])
                           for s, d in ((an.astype(LD), qd), (ff, rd))], axis=1).astype(complex)
    sv = np.linalg.svd(cols, compute_uv=False)
    if sv[cols.shape[1] - 2] < 1e-8*sv[0]:  # series does not determine the polynomials
        raise Skip
    ctx.tag("algebraic", pd, qd, rd, extra)
    n_checked = 0
    for fn in (H.Hermite2.from_taylor, H.Hermite2.from_taylor_lstsq):
        tol = noise(fn)
        if tol > 1e-4:
            continue
        n_checked += 1
        herm = ctx.call(fn, _arg(rng, an), pd, qd, rd)
        got = ctx.call(herm.eval, z)
        ctx.close("algebraic function", got, want, atol=tol)
        ctx.close("scalar argument", ctx.call(herm.eval, z[0]), want[0], atol=tol)
        # the Pade approximant used for the branch has the order of its coefficients
        pa = herm.pade
        order = pa.numer.coef.size + pa.denom.coef.size - 1
        ctx.ok("Pade uses the available coefficients", n - 2 <= order <= n, order=order, n=n)
        if fn == H.Hermite2.from_taylor_lstsq:
            order = pa.numer.coef.size  # the remaining coefficients are only fitted
        res = _conv(an, pa.denom.coef, order) - _pad(pa.numer.coef, order)
        ctx.close("order of the Pade", res.astype(complex), 0*res.astype(complex),
                  atol=1e-6*np.max(abs(an))*np.max(abs(pa.denom.coef)))
    if not n_checked:
        raise Skip


@case(CASES, 400, 6000)
def constructors(ctx, rng):
    """`Hermite2.from_taylor*` hold the polynomials of the corresponding functions, options are passed on."""
    pd, qd, rd = (int(x) for x in rng.integers(1, 5, 3))
    an = rng.normal(size=pd + qd + rd + 2 + int(rng.integers(0, 6)))
    if rng.random() < 0.4:
        an = an + 1j*rng.normal(size=an.size)
    kw = {}
    if rng.random() < 0.6:
        kw["fix_qr"] = int(rng.integers(-(qd + rd + 2), qd + rd + 2))
    if rng.random() < 0.5:
        kw["rcond"] = float(rng.choice([1e-13, 1e-2, 0.3]))
    ctx.tag("constructors", pd, qd, rd, sorted(kw))
    classes = [c for c in (H.Hermite2, getattr(H, "_Hermite2Ret", None)) if c is not None and hasattr(c, "from_taylor")]
    for cls in classes:
        for meth, fn, opt in (("from_taylor", H.hermite2, {}), ("from_taylor_lstsq", H.hermite2_lstsq, kw)):
            if not hasattr(cls, meth):
                continue
            want = fn(an, p_deg=pd, q_deg=qd, r_deg=rd, **opt)
            herm = ctx.call(getattr(cls, meth), an, deg_p=pd, deg_q=qd, deg_r=rd, **opt)
            for name, ref in zip("pqr", want):
                ref, got = ref.coef, getattr(herm, name).coef
                ctx.ok("degree", got.shape == ref.shape, cls=cls.__name__, meth=meth)
                ctx.close("polynomial " + name, got, ref, rtol=1e-9, atol=1e-9*np.max(abs(ref)))
            z = 0.3*(rng.normal(size=3) + 1j*rng.normal(size=3))
            branches_ = np.stack(ctx.call(herm.eval_branches, z))
            val = ctx.call(herm.eval, z)
            ctx.ok("a branch", np.all(np.min(abs(branches_ - val), axis=0) <= 1e-12*np.max(abs(branches_), axis=0)), val=val, branches=branches_)
    for fix in (qd + rd + 2, qd + rd + 2 + int(rng.integers(1, 9))):
        ctx.raises(ValueError, H.hermite2_lstsq, an, pd, qd, rd, fix_qr=fix)


@case(CASES, 600, 10000, skip=0.6)
def cutoffs(ctx, rng):
    """Singular values below the relative cut-off do not contribute to the solution."""
    an = _series(rng, int(rng.integers(9, 15)))
    unit = 2.0**rng.integers(-30, 31)
    if rng.random() < 0.4:  # nearly rational: small singular values
        k = int(rng.integers(1, 3))
        x = rng.uniform(-0.9, 0.9, k)
        an = np.sum(rng.normal(size=(k, 1))*x[:, None]**np.arange(an.size), axis=0)
        an = an + 10.0**rng.uniform(-9, -3)*rng.normal(size=an.size)
    quad = rng.random() < 0.5
    n = an.size
    if quad:
        pd, qd, rd = (int(x) for x in rng.integers(1, 4, 3))
        if pd + qd + rd + 2 > n:
            raise Skip
        ff = _conv(an, an, n)
        mat = np.concatenate([np.array([[t[i-j] if i >= j else 0 for j in range(d + 1)] for i in range(pd + 1, n)])
                              for t, d in ((an.astype(LD), qd), (ff, rd))], axis=1)
        mat = mat.astype(complex if np.iscomplexobj(an) else float)
        fix = int(rng.integers(qd + rd + 2))
    else:
        num, den = (int(x) for x in rng.integers(1, 5, 2))
        if num + den + 1 > n:
            raise Skip
        mat = np.array([[an[i-j] if i >= j else 0 for j in range(den + 1)] for i in range(num + 1, n)])
        fix = 0
    rest = np.delete(mat, fix, axis=1)
    u, sv, vh = np.linalg.svd(rest, full_matrices=False)
    if sv[0] == 0 or sv.size < 2:
        raise Skip
    ratio = np.maximum(sv/sv[0], 1e-16)
    gaps = np.flatnonzero((ratio[1:] < 0.5*ratio[:-1]) & (ratio[:-1] > 1e-10))
    if gaps.size == 0:
        raise Skip
    cut = int(gaps[rng.integers(gaps.size)])
    rcond = float(np.sqrt(ratio[cut]*ratio[cut+1]))
    vec = -(vh[:cut+1].conj().T/sv[:cut+1]) @ (u[:, :cut+1].conj().T @ mat[:, fix])
    want = np.insert(vec, fix, 1)
    ctx.tag("cutoff", quad, cut + 1 < sv.size, np.iscomplexobj(an))
    tol = 1e-11*max(1, np.max(abs(want)))*sv[0]/sv[cut]/(1 - 2*ratio[cut+1]/ratio[cut] + 1e-2)
    if quad:  # the equation is not homogeneous in the series
        p, q, r = ctx.call(H.hermite2_lstsq, _arg(rng, an), pd, qd, rd, rcond=rcond, fix_qr=fix)
        got = np.r_[q.coef, r.coef]
    else:
        rp = ctx.call(H.pade_lstsq, _arg(rng, an*unit), num, den, rcond=rcond)
        got = rp.denom.coef
    ctx.close("truncated solution", got.astype(complex), want.astype(complex), atol=100*tol)
