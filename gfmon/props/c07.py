"""C07: Matsubara Fourier transforms reproduce known functions and invert each other."""
import logging

import numpy as np

from .. import gen, target
from ..core import case

gt = target.load()
from gftool import fourier as ft  # noqa: E402

CASES = []
RULE = ("Random Matsubara/imaginary-time data (pure noise for the discrete formulas, pole functions for the accuracy"
        " oracle), grid sizes of both parities from 1 point, beta over four decades, moments, fit sizes, batches;"
        " non-trivial: non-zero data.")
ASSUMPTIONS = ["hermitian Green's functions (real in imaginary time) as documented",
               "accuracy oracle bounds the truncated Matsubara tail / linear-interpolation error analytically"]


def _batch(rng):
    return [(), (), (3,), (2, 2)][int(rng.integers(4))]


def _wn(n, beta):
    return np.pi/beta*(2*np.arange(n) + 1)


def _dft_sum(gf, beta, n_tau):
    """(1/beta) sum over positive and negative frequencies of hermitian data."""
    tau = np.linspace(0, beta, n_tau)
    phase = np.exp(-1j*np.outer(_wn(gf.shape[-1], beta), tau))
    return 2/beta*(gf @ phase).real


@case(CASES, 700, 12000)
def discrete_iw2tau(ctx, rng):
    n = int([1, 2, 3, rng.integers(1, 40), rng.integers(20, 200)][int(rng.integers(5))])
    batch = _batch(rng)
    beta = gen.beta(rng, 1e-2, 1e3)
    gf = rng.normal(size=(*batch, n)) + 1j*rng.normal(size=(*batch, n))
    ctx.tag("iw2tau_dft", min(n, 20), len(batch))
    got = ctx.call(ft.iw2tau_dft, gf, beta)
    size = 2/beta*np.sum(abs(gf), axis=-1, keepdims=True)
    ctx.ok("real", not np.iscomplexobj(got))
    ctx.close("Matsubara sum", got, _dft_sum(gf, beta, 2*n + 1), atol=1e-12*size*np.sqrt(n))
    ctx.close("antiperiodic without jump", got[..., 0], -got[..., -1], atol=1e-12*size[..., 0]*np.sqrt(n))
    # the soft version continues the data to zero: same for data that already vanished
    soft = ctx.call(ft.iw2tau_dft_soft, gf, beta)
    ctx.ok("soft: shape", soft.shape == (*batch, 2*n + 1), shape=soft.shape)
    gf0 = gf.copy()
    gf0[..., -1] = 0
    soft0 = ctx.call(ft.iw2tau_dft_soft, gf0, beta)
    ctx.close("soft: no tail to add", soft0, _dft_sum(gf0, beta, 2*n + 1), atol=1e-12*size*np.sqrt(n))
    # the tail is a cosine proportional to the last point, hitting zero
    k = np.arange(1, n + 1)
    ext = np.concatenate([gf, gf[..., -1:]*np.cos(0.5*np.pi*k/n)**2], axis=-1)
    ctx.close("soft: cosine tail", soft, _dft_sum(ext, beta, 2*n + 1), atol=1e-11*size*np.sqrt(n))


def _lin_integral(g, tau, iw):
    """Exact integral of the piecewise linear interpolation times exp(iw*tau)."""
    x, w = np.polynomial.legendre.leggauss(32)
    h = tau[1] - tau[0]
    out = np.zeros((*g.shape[:-1], iw.size), complex)
    for xi, wi in zip((x+1)/2, w/2):
        gi = g[..., :-1]*(1 - xi) + g[..., 1:]*xi
        ti = tau[:-1] + xi*h
        out += wi*h*(gi @ np.exp(np.multiply.outer(ti, iw)))
    return out


@case(CASES, 700, 12000)
def discrete_tau2iw(ctx, rng):
    m = int([1, 2, 3, rng.integers(2, 40), rng.integers(20, 150)][int(rng.integers(5))])
    batch = _batch(rng)
    beta = gen.beta(rng, 1e-2, 1e3)
    g = rng.normal(size=(*batch, m + 1))
    tau = np.linspace(0, beta, m + 1)
    h = beta/m
    ctx.tag("tau2iw", m % 2, min(m, 20), len(batch))
    size = h*np.sum(abs(g), axis=-1, keepdims=True)
    got = ctx.call(ft.tau2iw_dft, g, beta)
    n = got.shape[-1]
    ctx.ok("number of frequencies", n == m // 2 + m % 2 if m % 2 else n == m//2, n=n, m=m)
    iw = 1j*_wn(n, beta)
    want = h*(g[..., :-1] @ np.exp(np.multiply.outer(tau[:-1], iw)))
    ctx.close("dft sum", got, want, atol=1e-12*size*np.sqrt(m))
    lin = ctx.call(ft.tau2iw_ft_lin, g, beta)
    ctx.ok("same frequencies", lin.shape == got.shape, lin=lin.shape, dft=got.shape)
    # linear interpolation of the antiperiodic continuation to [-beta, beta]
    ext = np.concatenate([-g[..., :-1], g], axis=-1)
    want = 0.5*_lin_integral(ext, np.linspace(-beta, beta, 2*m + 1), iw)
    ctx.close("linear interpolation integral", lin, want, atol=1e-10*size*np.sqrt(m))
    g[..., -1] = -g[..., 0]  # no jump: plain integral over [0, beta]
    lin = ctx.call(ft.tau2iw_ft_lin, g, beta)
    ctx.close("linear interpolation integral (continuous)", lin, _lin_integral(g, tau, iw),
              atol=1e-10*size*np.sqrt(m))


@case(CASES, 700, 12000)
def discrete_tau2iv(ctx, rng):
    m = int([2, 2, 3, rng.integers(2, 40), rng.integers(20, 150)][int(rng.integers(5))])
    batch = _batch(rng)
    beta = gen.beta(rng, 1e-2, 1e3)
    g = rng.normal(size=(*batch, m + 1))
    tau = np.linspace(0, beta, m + 1)
    h = beta/m
    size = h*np.sum(abs(g), axis=-1, keepdims=True)
    trapz = h*(np.sum(g, axis=-1) - 0.5*(g[..., 0] + g[..., -1]))
    lin = ctx.call(ft.tau2iv_ft_lin, g, beta)
    n = lin.shape[-1]
    ctx.ok("number of frequencies", n == m//2 + 1, n=n, m=m)
    iv = 2j*np.pi/beta*np.arange(n)
    ctx.tag("tau2iv", m % 2, min(m, 20), len(batch))
    exact = _lin_integral(g, tau, iv)
    ctx.close("linear interpolation integral", lin, exact, atol=1e-10*size*np.sqrt(m))
    dft = ctx.call(ft.tau2iv_dft, g, beta)
    want = h*(g[..., :-1] @ np.exp(np.multiply.outer(tau[:-1], iv)))
    want[..., 0] = trapz
    ctx.close("dft sum", dft, want, atol=1e-12*size*np.sqrt(m))
    # removing the jump analytically
    full = ctx.call(ft.tau2iv, g, beta)
    ctx.close("linear part is exact in linear interpolation", full, exact, atol=1e-10*size*np.sqrt(m))
    full = ctx.call(ft.tau2iv, g, beta, fourier=ft.tau2iv_dft)
    g1 = (g[..., -1] - g[..., 0])[..., None]
    shifted = g - g1*tau/beta
    want = h*(shifted[..., :-1] @ np.exp(np.multiply.outer(tau[:-1], iv)))
    want[..., 0] = trapz
    want[..., 1:] += g1/iv[1:]
    ctx.close("dft after removing the jump", full, want, atol=1e-11*size*np.sqrt(m))


def _pole_fct(rng, batch, wmax):
    n = int(rng.integers(1, 5))
    p = rng.uniform(-wmax, wmax, (*batch, n))
    w = rng.uniform(0, 1, (*batch, n))
    return p, w/np.sum(w, axis=-1, keepdims=True)*rng.uniform(0.5, 2)


@case(CASES, 600, 12000)
def iw2tau_accuracy(ctx, rng):
    batch = _batch(rng)
    beta = gen.beta(rng, 0.5, 30)
    wmax = rng.uniform(0.1, 1.5)
    p, w = _pole_fct(rng, batch, wmax)
    n_iw = max(32, int(beta*wmax*rng.uniform(4, 20)))
    iw = 1j*_wn(n_iw, beta)
    gf = np.sum(w[..., None, :]/(iw[:, None] - p[..., None, :]), axis=-1)
    tau = np.linspace(0, beta, 2*n_iw + 1)
    ref = gt.pole_gf_tau(tau, p[..., None, :], w[..., None, :], beta)
    n_mom = int(rng.integers(1, 6))
    mom = np.sum(w[..., None, :]*p[..., None, :]**np.arange(n_mom)[:, None], axis=-1)
    n_fit = 0 if rng.random() < 0.6 else int(rng.integers(1, 4))
    soft = rng.random() < 0.3
    kw = {}
    if n_fit:
        kw["n_fit"] = n_fit
    if soft:
        kw["fourier"] = ft.iw2tau_dft_soft
    default = n_mom == 1 and not batch and rng.random() < 0.5
    if default:
        scale = 1/np.sum(w)
        gf, ref, mom, w = gf*scale, ref*scale, mom*scale, w*scale
    else:
        kw["moments"] = mom.tolist() if rng.random() < 0.3 else mom
    got = ctx.call(ft.iw2tau, gf, beta, **kw)
    ctx.tag("iw2tau", n_mom, n_fit, soft, len(batch))
    # truncated tail of the remainder; the auxiliary poles are O(1)
    w_n = _wn(1, beta)[0]*(2*n_iw + 1)
    m_abs = np.sum(abs(w), axis=-1)*max(1.0, wmax)**(n_mom + 1)
    if n_fit == 0:
        k = n_mom + 1
        bound = 15*m_abs/np.pi*w_n**(1-k)/(k - 1)*max(1, 1/w_n)
        if soft:
            bound = bound*4
    else:  # fitted moments are never worse than a fixed number of decades below the signal
        bound = 15*m_abs/np.pi*w_n**(-n_mom)/n_mom*max(1, 1/w_n)
    ctx.close("G(tau)", got, ref, atol=np.asarray(bound)[..., None] + 1e-9)
    # the analytically treated part carries the jump exactly
    ctx.close("jump G(0)+G(beta) = -m_1", got[..., 0] + got[..., -1], -mom[..., 0], atol=1e-9*np.sum(abs(w), axis=-1))


@case(CASES, 600, 12000)
def iw2tau_structure(ctx, rng):
    """Any data: result = transformed remainder + the analytic function that was removed."""
    batch = _batch(rng)
    beta = gen.beta(rng, 0.1, 50)
    n_iw = int(rng.integers(12, 80))
    iw = 1j*_wn(n_iw, beta)
    gf = (rng.normal(size=(*batch, n_iw)) + 1j*rng.normal(size=(*batch, n_iw)))/abs(iw)
    n_mom = int(rng.integers(1, 5))
    mom = rng.normal(size=(*batch, n_mom))
    n_fit = int(rng.integers(0, 3))
    log = []

    def recorder(rem, beta):
        log.append(rem.copy())
        return ft.iw2tau_dft(rem, beta)

    got = ctx.call(ft.iw2tau, gf, beta, moments=mom, fourier=recorder, n_fit=n_fit)
    ctx.tag("structure", n_mom, n_fit, len(batch))
    ctx.ok("back-end called once", len(log) == 1)
    removed = gf - log[0]
    analytic = got - _dft_sum(log[0], beta, 2*n_iw + 1)
    # `analytic` is the exact imaginary time function of `removed`: integrate it back
    size = np.max(abs(analytic), axis=-1, keepdims=True) + np.max(abs(removed), axis=-1, keepdims=True)/beta
    tau = np.linspace(0, beta, 2*n_iw + 1)
    iw0 = iw[:2]
    h = tau[1]
    f = analytic[..., None, :]*np.exp(np.multiply.outer(iw0, tau))
    w = np.ones(tau.size)
    w[1:-1:2], w[2:-1:2] = 4, 2
    back = np.sum(f*w, axis=-1)*h/3
    ctx.close("removed part corresponds to added part", back, removed[..., :2], atol=size*beta*2*(3*h)**2)
    ctx.close("jump is the first moment", got[..., 0] + got[..., -1], -mom[..., 0],
              atol=(1e-5 if n_fit else 1e-9)*(size[..., 0] + abs(mom[..., 0])))
    if n_fit == 0:  # high-frequency expansion of what is treated analytically
        expand = np.sum(mom[..., None, :]*iw[:, None]**-np.arange(1.0, n_mom + 1), axis=-1)
        wide = abs(iw) > 5
        tol = 20*np.sum(abs(mom), axis=-1)[..., None]*abs(iw)**-(n_mom + 1.0)
        if np.any(wide):
            ctx.close("analytic part has the given moments", removed[..., wide], expand[..., wide],
                      atol=tol[..., wide] + 1e-14)
    # linear
    s = float(rng.uniform(0.5, 3))
    got2 = ctx.call(ft.iw2tau, s*gf, beta, moments=s*mom, fourier=recorder, n_fit=n_fit)
    ctx.close("linear", got2, s*got, atol=(1e-5 if n_fit else 1e-9)*s*size)


class _Warnings(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.seen = []

    def emit(self, record):
        self.seen.append(record.getMessage())

    def __enter__(self):
        self.log = logging.getLogger("gftool")
        self.old = self.log.propagate
        self.log.propagate = False
        self.log.addHandler(self)
        return self.seen

    def __exit__(self, *exc):
        self.log.removeHandler(self)
        self.log.propagate = self.old


@case(CASES, 600, 10000)
def tau2iw_structure(ctx, rng):
    """Any data: result = transformed remainder + the exact transform of the analytic function that was removed."""
    batch = _batch(rng)
    beta = gen.beta(rng, 2, 30) + 1  # smaller values: the residues of the fit cancel
    m = 2*int(rng.integers(150, 300))
    tau = np.linspace(0, beta, m + 1)
    p, w = _pole_fct(rng, batch, 1.0)
    g = gt.pole_gf_tau(tau, p[..., None, :], w[..., None, :], beta)
    noise = float(rng.choice([0, 1e-6, 1e-2, 1]))
    g = g + noise*rng.normal(size=g.shape)
    jump = -g[..., 0] - g[..., -1]
    n_mom = int(rng.integers(1, 5))
    mom = rng.normal(size=(*batch, n_mom))
    agree = rng.random() < 0.6
    if agree:
        mom[..., 0] = jump
    elif batch and rng.random() < 0.5:  # a single contradicting element
        keep = np.ones(batch, dtype=bool).reshape(-1)
        keep[int(rng.integers(keep.size))] = False
        mom[..., 0] = np.where(keep.reshape(batch), jump, mom[..., 0] + 0.1*np.sign(mom[..., 0] - jump))
    kw = {"moments": mom} if not agree or rng.random() < 0.8 else {}
    if rng.random() < 0.6:
        kw["n_pole"] = (n_mom if "moments" in kw else 1) + int(rng.integers(0, 3))
    log = []

    def recorder(rem, beta):
        log.append(rem.copy())
        return ft.tau2iw_ft_lin(rem, beta)

    with _Warnings() as warned:
        got = ctx.call(ft.tau2iw, g, beta, fourier=recorder, **kw)
    ctx.tag("tau2iw structure", n_mom, agree, sorted(kw), len(batch), noise)
    ctx.ok("contradicting first moment is reported", bool(warned) == (not agree), warned=warned, mom=mom, jump=jump)
    ctx.ok("back-end called once", len(log) == 1)
    removed = g - log[0]
    size = np.max(abs(removed), axis=-1, keepdims=True) + np.max(abs(mom[..., :1]))
    analytic = got - ft.tau2iw_ft_lin(log[0], beta)
    iw = 1j*_wn(3, beta)
    h = tau[1]
    wgt = np.ones(tau.size)
    wgt[1:-1:2], wgt[2:-1:2] = 4, 2
    back = np.sum(removed[..., None, :]*np.exp(np.multiply.outer(iw, tau))*wgt, axis=-1)*h/3
    # Simpson's rule; the removed poles are O(1), unless the given moments ask for more
    scale = 1 + np.max(abs(mom)) + 6*np.pi/beta
    ctx.close("removed part corresponds to added part", analytic[..., :3], back,
              atol=size*beta*((scale*h)**4/50 + 1e-8))
    if "moments" in kw:
        ctx.close("jump of the removed part", -removed[..., 0] - removed[..., -1], mom[..., 0], atol=1e-7*size[..., 0])
        big = 1j*_wn(got.shape[-1], beta)
        ctx.close("moments of the removed part", analytic[..., -1]*big[-1], np.sum(
            mom*big[-1]**-np.arange(0., n_mom), axis=-1), atol=30*size[..., 0]*n_mom*abs(np.max(abs(mom))/big[-1])
            + 100*size[..., 0]*abs(big[-1])**-n_mom + 1e-7*size[..., 0])
    else:
        ctx.close("jump of the removed part", removed[..., 0] + removed[..., -1], -jump, atol=1e-7*size[..., 0])


@case(CASES, 120, 1500)
def large_grids(ctx, rng):
    """Large grids of any size: direct sums for some of the results."""
    n = gen.size(rng, 150, 400, 6000, 0.7)
    batch = [(), (2,)][int(rng.integers(2))]
    beta = gen.beta(rng, 1e-1, 1e3)
    gf = rng.normal(size=(*batch, n)) + 1j*rng.normal(size=(*batch, n))
    ctx.tag("large", int(np.log2(n)), n % 2, len(batch))
    pick = np.r_[0, 1, n - 1, n, 2*n - 1, 2*n, rng.integers(0, 2*n + 1, 12)]
    size = 2/beta*np.sum(abs(gf), axis=-1, keepdims=True)
    wn = np.pi*np.outer(2*np.arange(n) + 1, pick)/(2*n)
    want = 2/beta*(gf @ np.exp(-1j*wn)).real
    got = ctx.call(ft.iw2tau_dft, gf, beta)
    ctx.ok("size", got.shape == (*batch, 2*n + 1), shape=got.shape)
    ctx.close("iw2tau", got[..., pick], want, atol=1e-11*size*np.sqrt(n))
    m = n + int(rng.integers(2))
    g = rng.normal(size=(*batch, m + 1))
    h = beta/m
    size = h*np.sum(abs(g), axis=-1, keepdims=True)
    fermi = ctx.call(ft.tau2iw_dft, g, beta)
    lin = ctx.call(ft.tau2iw_ft_lin, g, beta)
    num = fermi.shape[-1]
    ctx.ok("number of frequencies", num == (m + 1)//2 and lin.shape == fermi.shape, n=num, m=m)
    pick = np.r_[0, 1, num//2, num - 1, rng.integers(0, num, 8)]
    phase = np.exp(1j*np.pi/m*np.outer(np.arange(m), 2*pick + 1))
    ctx.close("tau2iw dft", fermi[..., pick], h*(g[..., :-1] @ phase), atol=1e-11*size*np.sqrt(m))
    ext = np.concatenate([-g[..., :-1], g], axis=-1)
    iw = 1j*np.pi/beta*(2*pick + 1)
    want = 0.5*_lin_integral(ext, np.linspace(-beta, beta, 2*m + 1), iw)
    ctx.close("tau2iw linear", lin[..., pick], want, atol=1e-9*size*np.sqrt(m))
    bose, lin = ctx.call(ft.tau2iv_dft, g, beta), ctx.call(ft.tau2iv_ft_lin, g, beta)
    num = lin.shape[-1]
    ctx.ok("number of bosonic frequencies", num == m//2 + 1 and bose.shape == lin.shape, n=num, m=m)
    pick = np.r_[1, num//2, num - 1, rng.integers(1, num, 8)]
    phase = np.exp(1j*np.pi/m*np.outer(np.arange(m), 2*pick))
    ctx.close("tau2iv dft", bose[..., pick], h*(g[..., :-1] @ phase), atol=1e-11*size*np.sqrt(m))
    want = _lin_integral(g, np.linspace(0, beta, m + 1), 2j*np.pi/beta*pick)
    ctx.close("tau2iv linear", lin[..., pick], want, atol=1e-9*size*np.sqrt(m))


@case(CASES, 500, 10000)
def tau2iw_accuracy(ctx, rng):
    batch = _batch(rng)
    beta = gen.beta(rng, 0.5, 30)
    wmax = rng.uniform(0.1, 1.5)
    p, w = _pole_fct(rng, batch, wmax)
    m = 2*max(32, int(beta*wmax*rng.uniform(4, 16))) + int(rng.integers(0, 2))
    tau = np.linspace(0, beta, m + 1)
    g = gt.pole_gf_tau(tau, p[..., None, :], w[..., None, :], beta)
    n_mom = int(rng.integers(1, 4))
    mom = np.sum(w[..., None, :]*p[..., None, :]**np.arange(n_mom)[:, None], axis=-1)
    kw = {}
    pick = int(rng.integers(4))
    if pick == 1:
        kw["moments"] = mom
    elif pick == 2:
        kw["moments"], kw["n_pole"] = mom, n_mom + int(rng.integers(0, 6))
    elif pick == 3:
        kw["n_pole"] = int(rng.integers(1, 8))
    dft = rng.random() < 0.3
    if dft:
        kw["fourier"] = ft.tau2iw_dft
    got = ctx.call(ft.tau2iw, g, beta, **kw)
    iw = 1j*_wn(got.shape[-1], beta)
    ref = np.sum(w[..., None, :]/(iw[:, None] - p[..., None, :]), axis=-1)
    ctx.tag("tau2iw acc", pick, n_mom, dft, len(batch))
    h = beta/m
    lam = max(1.0, wmax)
    # error of piecewise linear interpolation: h^2/8 max|g''| per unit length of the decay
    bound = 0.1*h**2*lam**2*np.sum(abs(w), axis=-1)[..., None]*min(beta, 4/lam + beta)*2
    if dft:
        bound = bound*2 + 0.5*h**2*lam*np.sum(abs(w), axis=-1)[..., None]*4
        sel = abs(iw)*h < 1
        ctx.close("G(iw) by dft", got[..., sel], ref[..., sel], atol=bound + 1e-10)
    else:
        ctx.close("G(iw)", got, ref, atol=bound + 1e-10)


@case(CASES, 400, 8000)
def tau2iv_accuracy(ctx, rng):
    batch = _batch(rng)
    beta = gen.beta(rng, 0.5, 20)
    n = int(rng.integers(1, 4))
    p = rng.uniform(0.1, 1.5, (*batch, n))
    w = rng.uniform(-1, 1, (*batch, n))
    m = 2*int(rng.integers(40, 200)) + int(rng.integers(0, 2))
    tau = np.linspace(0, beta, m + 1)
    g = gt.pole_gf_tau_b(tau, p[..., None, :], w[..., None, :], beta)
    got = ctx.call(ft.tau2iv, g, beta)
    iv = 2j*np.pi/beta*np.arange(got.shape[-1])
    ref = np.sum(w[..., None, :]/(iv[:, None] - p[..., None, :]), axis=-1)
    ctx.tag("tau2iv acc", len(batch), m % 2)
    h = beta/m
    scale = np.sum(abs(w)*(1 + 1/(p*beta)), axis=-1)[..., None]
    ctx.close("bosonic G(iv)", got, ref, atol=0.25*h**2*scale*1.5**2*beta + 1e-10)
    got = ctx.call(ft.tau2iv, g, beta, fourier=ft.tau2iv_dft)
    sel = abs(iv)*h < 0.5
    ctx.close("bosonic G(iv) dft", got[..., sel], ref[..., sel], atol=0.4*h**2*scale*1.5**2*beta + 1e-10)


@case(CASES, 300, 6000)
def round_trip(ctx, rng):
    batch = _batch(rng)
    beta = gen.beta(rng, 0.5, 10)
    p, w = _pole_fct(rng, batch, 1.0)
    n_iw = int(rng.integers(100, 200))
    iw = 1j*_wn(n_iw, beta)
    gf = np.sum(w[..., None, :]/(iw[:, None] - p[..., None, :]), axis=-1)
    mom = np.sum(w[..., None, :]*p[..., None, :]**np.arange(4)[:, None], axis=-1)
    gtau = ctx.call(ft.iw2tau, gf, beta, moments=mom)
    back = ctx.call(ft.tau2iw, gtau, beta, moments=mom, n_pole=5)
    ctx.tag("round", len(batch))
    h = beta/(2*n_iw)
    ctx.ok("grid sizes invert", back.shape == gf.shape, back=back.shape, gf=gf.shape)
    ctx.close("tau2iw(iw2tau(G)) = G", back, gf, atol=h**2*beta*np.sum(abs(w), axis=-1)[..., None]*0.05 + 1e-8)


@case(CASES, 160, 3200)
def pade_frequency_transform(ctx, rng):
    beta = gen.beta(rng, 2, 20)
    num = int(rng.integers(24, 40))
    izp, resid = gt.pade_frequencies(num, beta)
    p, w = _pole_fct(rng, (), 1.2)
    tau = np.linspace(0, beta, int(rng.integers(101, 300)))
    gz = np.sum(w/(izp[:, None] - p), axis=-1)
    gtau = gt.pole_gf_tau(tau, p, w, beta)
    n_mom = int(rng.integers(1, 4))
    mom = np.sum(w*p**np.arange(n_mom)[:, None], axis=-1)
    size = np.sum(w)
    ctx.tag("izp", n_mom)
    got = ctx.call(ft.izp2tau, izp, gz, tau, beta, moments=mom.tolist() if rng.random() < 0.3 else mom)
    ctx.close("izp2tau", got, gtau, atol=1e-3*size)
    ctx.ok("real", not np.iscomplexobj(got))
    kw = {"moments": mom} if rng.random() < 0.6 else {}
    got = ctx.call(ft.tau2izp, gtau, beta, izp, **kw)
    ctx.close("tau2izp", got, gz, atol=1e-3*size)
    # the occupation is one more constraint, the weight does not matter for exact data
    occ = float(np.sum(w/(1 + np.exp(beta*p))))
    weight = gen.loguni(rng, 0.5, 2, tau.size)
    got = ctx.call(ft.tau2izp, gtau, beta, izp, moments=mom[:1], occ=occ, weight=weight)
    ctx.close("tau2izp with occupation", got, gz, atol=1e-3*size)
    got = ctx.call(ft.tau2izp, gtau, beta, izp, moments=mom[:1], weight=weight)
    ctx.close("tau2izp weighted", got, gz, atol=1e-3*size)
    few = np.resize(mom, 2)
    ctx.raises(ValueError, ft.tau2izp, gtau, beta, izp[:2], moments=few, occ=occ)
    ctx.raises(ValueError, ft.tau2izp, gtau, beta, izp[:1], moments=few)
    ctx.raises(ValueError, ft.izp2tau, izp[:1], gz[:1], tau, beta, moments=few)


@case(CASES, 20, 400)
def pade_frequency_moments(ctx, rng):
    """The moments handed to `tau2izp` are constraints: noise does not leak into the tail (median, some fits are ill conditioned)."""
    beta = gen.beta(rng, 2, 20)
    izp, __ = gt.pade_frequencies(int(rng.integers(4, 8)), beta)
    p, w = _pole_fct(rng, (), 1.2)
    w = w/np.sum(w)
    tau = np.linspace(0, beta, int(rng.integers(101, 300)))
    gtau = gt.pole_gf_tau(tau, p, w, beta)
    n_mom = int(rng.integers(1, 4))
    mom = np.sum(w*p**np.arange(n_mom)[:, None], axis=-1)
    kw = {"occ": float(np.sum(w/(1 + np.exp(beta*p))))} if rng.random() < 0.5 else {}
    z = np.concatenate([izp, [1e3j, 1e4j]])
    ctx.tag("izp moments", n_mom, bool(kw))
    first, second = [], []
    for _ in range(9):
        got = ctx.call(ft.tau2izp, gtau + rng.normal(size=tau.size)*1e-2, beta, z, moments=mom, **kw)
        first.append(abs(got[-1]*1e4j - mom[0]))
        if n_mom > 1:
            second.append(abs((got[-2]*1e3j - mom[0])*1e3j - mom[1]))
    ctx.close("first moment", np.median(first), 0.0, atol=4e-4)
    if n_mom > 1:
        ctx.close("second moment", np.median(second), 0.0, atol=1.0)


@case(CASES, 12, 300)
def narrow_spectrum(ctx, rng):
    """The spread of the fitted poles adapts to the data: narrow spectra are reproduced accurately (median)."""
    errs = []
    ctx.tag("narrow")
    for _ in range(9):
        beta = rng.uniform(5, 15)
        width = gen.loguni(rng, 0.02, 0.3)
        p, w = width*rng.uniform(-1, 1, 3), rng.dirichlet(np.ones(3))
        izp, __ = gt.pade_frequencies(10, beta)
        tau = np.linspace(0, beta, int(rng.integers(40, 300)))
        gtau = gt.pole_gf_tau(tau, p, w, beta)
        gz = gt.pole_gf_z(izp, p, w)
        errs.append((np.max(abs(ctx.call(ft.tau2izp, gtau, beta, izp) - gz))/np.max(abs(gz)),
                     np.max(abs(ctx.call(ft.izp2tau, izp, gz, tau, beta) - gtau))))
    ctx.close("adaptive spread", np.median(errs, axis=0), np.zeros(2), atol=1e-7)
