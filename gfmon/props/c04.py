"""C04: statistics functions are exact over their whole domain."""
import mpmath
import numpy as np
from mpmath import mp

from .. import gen, target
from ..core import Skip, case

gt = target.load()
from gftool import statistics as st  # noqa: E402

CASES = []
RULE = ("Energies with beta*eps spread over 1e-300..1e6 of both signs (real, complex, integer, all array forms), beta"
        " over ten decades, index arrays, Padé orders; non-trivial: finite arguments away from poles.")
ASSUMPTIONS = ["50-digit mpmath evaluation of the mathematical definition is the reference"]


def _beta(rng):
    pick = rng.integers(0, 5)
    if pick == 0:
        return int(rng.integers(1, 1000))
    if pick == 1:
        return [1, 1.0, 2.0, 0.5][int(rng.integers(4))]
    if pick == 2:
        return np.float64(gen.loguni(rng, 1e-6, 1e6))
    return float(gen.loguni(rng, 1e-4, 1e5))


def _energies(rng, beta, n=8):
    """Real energies with beta*eps in all regimes, incl. neighbourhoods of switching points."""
    kind = int(rng.integers(0, 7))
    sign = rng.choice([-1.0, 1.0], n)
    if kind == 0:
        x = rng.uniform(-5, 5, n)
    elif kind == 1:
        x = sign*gen.loguni(rng, 1e-300, 1e-3, n)
    elif kind == 2:
        x = sign*rng.uniform(20, 50, n)
    elif kind == 3:
        x = sign*rng.uniform(650, 760, n)
    elif kind == 4:
        x = sign*gen.loguni(rng, 1e3, 1e6, n)
    elif kind == 5:
        return np.concatenate([[0.0], rng.uniform(-3, 3, n-1)])/float(beta), "zero"
    else:
        x = sign*gen.loguni(rng, 1e-3, 700, n)
    return x/float(beta), ["mid", "tiny", "cancel", "overflow", "huge", "", "log"][kind]


def _ref(fn, vals, beta):
    with mp.workdps(50):
        out = []
        for v in vals:
            # the product is what the function can see: use the exact product of the floats
            zz = mp.mpc(complex(v)) if np.iscomplexobj(v) else mp.mpf(float(v))
            r = fn(zz, mp.mpf(float(beta)))
            out.append(complex(r) if isinstance(r, mp.mpc) else float(r))
        return np.array(out)


def _cond(vals, beta):
    """Relative error from rounding beta*eps once: eps_mach*|beta*eps|."""
    return 8e-16*(4 + abs(np.asarray(vals)*float(beta)))


@case(CASES, 2500, 50000)
def fermi(ctx, rng):
    beta = _beta(rng)
    eps, kind = _energies(rng, beta)
    arg, shape, vals, tag = gen.form(rng, eps)
    ctx.tag("fermi", kind, tag)
    got = np.asarray(ctx.call(gt.fermi_fct, arg, beta))
    want = _ref(lambda e, b: 1/(mp.exp(b*e) + 1), vals, beta).reshape(shape)
    ctx.close("Fermi function", got, want, rtol=_cond(vals, beta).reshape(shape), atol=1e-307)
    ctx.ok("Fermi function in [0, 1]", np.all((got >= 0) & (got <= 1)), got=got)
    d1 = np.asarray(ctx.call(gt.fermi_fct_d1, arg, beta))
    want = _ref(lambda e, b: -b/((mp.exp(b*e) + 1)*(mp.exp(-b*e) + 1)), vals, beta).reshape(shape)
    ctx.close("derivative of the Fermi function", d1, want, rtol=_cond(vals, beta).reshape(shape)*2, atol=1e-300*float(beta))


@case(CASES, 2000, 40000)
def fermi_complex(ctx, rng):
    beta = _beta(rng)
    re, kind = _energies(rng, beta)
    im = rng.choice([-1.0, 1.0], re.size)*gen.loguni(rng, 1e-6, 50, re.size)/float(beta)
    if rng.random() < 0.2:
        im = np.zeros_like(im)
    eps = re + 1j*im
    # poles at odd multiples of i*pi/beta
    x = eps*float(beta)
    dist = np.hypot(x.real, np.remainder(x.imag, 2*np.pi) - np.pi)
    eps = eps[dist > 1e-2]
    if eps.size == 0:
        raise Skip
    arg, shape, vals, tag = gen.form(rng, eps)
    ctx.tag("fermi complex", kind, tag)
    got = np.asarray(ctx.call(gt.fermi_fct, arg, beta))
    want = _ref(lambda e, b: 1/(mp.exp(b*e) + 1), vals, beta).reshape(shape)
    ctx.close("complex Fermi function", got, want, rtol=1e-12 + 20*_cond(vals, beta).reshape(shape), atol=1e-306)


@case(CASES, 1500, 30000)
def fermi_inverse(ctx, rng):
    beta = _beta(rng)
    f = np.concatenate([gen.loguni(rng, 1e-300, 0.5, 4), 1 - gen.loguni(rng, 1e-15, 0.5, 3), [0.5]])
    arg, shape, vals, tag = gen.form(rng, f[rng.permutation(f.size)])
    ctx.tag("inverse", tag)
    got = np.asarray(ctx.call(gt.fermi_fct_inv, arg, beta))
    want = _ref(lambda x, b: mp.log((1-x)/x)/b, vals, beta).reshape(shape)
    ctx.close("inverse Fermi function", got, want, rtol=1e-13, atol=1e-15/float(beta))
    back = np.asarray(ctx.call(gt.fermi_fct, got, beta))
    ctx.close("f(f^-1(x)) = x", back, vals.reshape(shape), rtol=1e-11)


@case(CASES, 2500, 50000)
def bose(ctx, rng):
    beta = _beta(rng)
    if rng.random() < 0.6:
        eps, kind = _energies(rng, beta)
        eps = eps[eps != 0]
    else:
        re, kind = _energies(rng, beta)
        im = rng.choice([-1.0, 1.0], re.size)*gen.loguni(rng, 1e-3, 30, re.size)/float(beta)
        eps = re + 1j*im
        x = eps*float(beta)
        y = np.remainder(x.imag, 2*np.pi)
        eps = eps[np.hypot(x.real, np.minimum(y, 2*np.pi - y)) > 1e-3]
    if eps.size == 0:
        raise Skip
    arg, shape, vals, tag = gen.form(rng, eps)
    if rng.random() < 0.1:
        arg, shape, vals, tag = list(eps), eps.shape, eps, "list"
    ctx.tag("bose", kind, tag, vals.dtype)
    got = np.asarray(ctx.call(gt.bose_fct, arg, beta))
    want = _ref(lambda e, b: 1/mp.expm1(b*e), vals, beta).reshape(shape)
    rt = _cond(vals, beta).reshape(shape)
    if np.iscomplexobj(vals):
        x = vals*float(beta)
        y = np.remainder(x.imag, 2*np.pi)
        near = np.hypot(x.real, np.minimum(y, 2*np.pi - y)).reshape(shape)
        rt = 1e-12 + 20*rt*(1 + 1/near)
    ctx.close("Bose function", got, want, rtol=rt, atol=1e-306)


@case(CASES, 800, 12000)
def integers(ctx, rng):
    """Integer energies and inverse temperatures are numbers like any other."""
    beta = int(rng.integers(1, 9))
    eps = rng.integers(-30, 30, 6)
    ctx.tag("integers", beta)
    f = ctx.call(gt.fermi_fct, eps, beta)
    ctx.close("Fermi integer", f, _ref(lambda e, b: 1/(mp.exp(b*e) + 1), eps, beta), rtol=1e-12)
    d = ctx.call(gt.fermi_fct_d1, eps, beta)
    ctx.close("Fermi d1 integer", d, _ref(lambda e, b: -b/((mp.exp(b*e) + 1)*(mp.exp(-b*e) + 1)), eps, beta),
              rtol=1e-12)
    eps = eps[eps != 0]
    if eps.size:
        got = ctx.call(gt.bose_fct, eps, beta)
        ctx.close("Bose integer", got, _ref(lambda e, b: 1/mp.expm1(b*e), eps, beta), rtol=1e-12)
        one = ctx.call(gt.bose_fct, int(eps[0]), beta)
        ctx.close("Bose integer scalar", one, got[0], rtol=1e-15)


@case(CASES, 1500, 30000)
def matsubara(ctx, rng):
    beta = _beta(rng)
    n = rng.integers(-10**int(rng.integers(1, 9)), 10**int(rng.integers(1, 9)), 9)
    pick = int(rng.integers(6))
    if pick == 0:
        arg, ns = int(n[0]), n[0]
    elif pick == 1:
        arg, ns = n.tolist(), n
    elif pick == 2:
        arg = range(int(rng.integers(0, 40)))
        ns = np.array(arg, dtype=int)
        arg = np.arange(len(arg)) if len(arg) == 0 else arg
    elif pick == 3:
        arg = ns = n.reshape(3, 3).astype(np.int32)
        ns = ns.astype(int)
    elif pick == 4:
        arg = ns = np.arange(int(rng.integers(1, 200)))
    else:
        arg = ns = n
    ctx.tag("matsubara", pick)
    ns = np.asarray(ns)
    with mp.workdps(40):
        pi_b = mp.pi/mp.mpf(float(beta))
        ferm = np.array([float((2*int(k) + 1)*pi_b) for k in ns.ravel()]).reshape(ns.shape)
        bos = np.array([float(2*int(k)*pi_b) for k in ns.ravel()]).reshape(ns.shape)
    got = ctx.call(gt.matsubara_frequencies, arg, beta)
    ctx.ok("purely imaginary", np.all(np.real(got) == 0))
    ctx.close("fermionic Matsubara", got, 1j*ferm, rtol=1e-13)
    got = ctx.call(gt.matsubara_frequencies_b, arg, beta)
    ctx.ok("purely imaginary", np.all(np.real(got) == 0))
    ctx.close("bosonic Matsubara", got, 1j*bos, rtol=1e-13)
    ctx.raises(TypeError, gt.matsubara_frequencies, ns + 0.5, beta)
    ctx.raises(TypeError, gt.matsubara_frequencies_b, ns + 0.5, beta)


def _confrac(x, order):
    """Continued fraction of the Fermi function truncated at `order` levels."""
    y = (x/2)**2
    frac = mp.mpf(2*order - 1)
    for k in range(order-1, 0, -1):
        frac = (2*k - 1) + y/frac
    return mp.mpf(1)/2 - x/4/frac


@case(CASES, 500, 6000)
def pade(ctx, rng):
    """Poles and residues of the truncated continued fraction of the Fermi function."""
    num = int([1, 2, 3, rng.integers(1, 12), rng.integers(1, 80)][int(rng.integers(5))])
    beta = _beta(rng)
    izp, res = ctx.call(gt.pade_frequencies, num, beta)
    ctx.tag("pade", min(num, 40))
    b = float(beta)
    ctx.ok("shapes", izp.shape == (num,) and res.shape == (num,), izp=izp.shape, res=res.shape)
    ctx.ok("residues real", not np.iscomplexobj(res))
    ctx.ok("purely imaginary, positive, ascending", np.all(izp.real == 0) and np.all(izp.imag > 0)
           and np.all(np.diff(izp.imag) > 0), izp=izp)
    ctx.ok("relative residues at least one", np.all(res > 1 - 1e-6), res=res)
    # first frequencies are Matsubara frequencies with unit residue, later ones lie beyond them
    ctx.ok("frequencies not below Matsubara", np.all(izp.imag*b >= np.pi*(2*np.arange(num)+1)*(1 - 1e-7)) or num < 2,
           izp=izp)
    with mp.workdps(60):
        xs = [complex(rng.uniform(-8, 8), rng.uniform(-8, 8)), complex(rng.uniform(-50, 50), 0),
              complex(rng.uniform(-300, 300), rng.uniform(-20, 20))]
        for x in xs:
            dist = np.min(np.abs(np.subtract.outer([x], np.concatenate([izp, -izp])*b)))
            if dist < 0.3:
                continue
            want = complex(_confrac(mp.mpc(x), 2*num))
            got = 0.5 - np.sum(res*(1/(x - izp*b) + 1/(x + izp*b)))
            size = 0.5 + np.sum(abs(res*(1/(x - izp*b) + 1/(x + izp*b))))
            ctx.close("partial fractions = continued fraction", got, want, atol=1e-9*size)
    # Fermi function itself where the order suffices
    x = rng.uniform(-1, 1)*max(0.5, 0.9*num)
    approx = 0.5 - np.sum(res*2*x/(x*x + (izp.imag*b)**2))
    if num >= 5:
        ctx.close("approximates the Fermi function", approx, float(1/(mp.exp(x) + 1)), atol=1e-6)


@case(CASES, 400, 6000)
def large_orders(ctx, rng):
    num = int(rng.integers(60, 160))
    beta = _beta(rng)
    izp, res = ctx.call(gt.pade_frequencies, num, beta)
    import scipy.linalg as sl
    m = 2*num
    k = np.arange(1, m)
    off = 0.5/np.sqrt((2*k - 1.0)*(2*k + 1.0))
    ev, vec = sl.eigh_tridiagonal(np.zeros(m), off)
    sel = ev > 0
    zz = (1/ev[sel])[::-1]
    rr = (vec[0, sel]**2/(4*ev[sel]**2))[::-1]
    ctx.tag("pade large", num//10)
    ctx.close("Padé frequencies", izp.imag*float(beta), zz, rtol=1e-8)
    ctx.close("Padé residues", res, rr, rtol=1e-6)
