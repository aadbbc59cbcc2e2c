"""C26: results are covariant under a change of units; transforms and fits are linear in their data."""
import warnings

import numpy as np

from .. import gen, lat, target
from ..core import Skip, case

gt = target.load()
from gftool import basis, beb, cpa, fourier, hermpade, linalg, linearprediction, matrix, pade, polepade, siam  # noqa: E402

CASES = []
RULE = ("Every closed-form or linear public function on random arguments, once as drawn and once with all energies,"
        " temperatures, times (or the amplitude of the data) multiplied by a power of two between 2^-100 and 2^100;"
        " random superpositions of data for linear maps.  Non-trivial: the result is finite and not zero.")
ASSUMPTIONS = ["powers of two commute with rounding, so only the code's own rounding order contributes;"
               " no intermediate over- or underflow between 2^-100 and 2^100"]

POLE = basis.pole
QUICK = 8  # cheap cases: more of them in the quick tier


def _unit(rng):
    k = int(rng.integers(-100, 101)) if rng.random() < 0.6 else int(rng.choice([-100, -40, -30, -27, 27, 30, 40, 100]))
    return 2.0**k, k


def _cz(rng, n, lo=1e-2):
    """Frequencies away from the real axis (in units of the band)."""
    return rng.normal(size=n) + 1j*gen.loguni(rng, lo, 5, n)*rng.choice([-1, 1], n)


FNS = {}


def entry(name, power, rtol=1e-10, atol=1e-12):
    def deco(fn):
        FNS[name] = fn, power, rtol, atol
        return fn
    return deco


# --- lattices -------------------------------------------------------------------------------------------------------
LATTICE = [n for n in ("bethe", "bethez", "onedim", "rectangular", "square", "triangular", "honeycomb", "kagome", "lieb",
                       "box", "sc", "bcc", "fcc") if hasattr(gt.lattice, n)]


@case(CASES, 500, 60000)
def lattices(ctx, rng):
    name, kw = lat.pick(rng, LATTICE)
    mod = lat.module(name)
    D = float(rng.uniform(0.3, 3))
    s, k = _unit(rng)
    kind = str(rng.choice(["gf", "gf", "dos", "mom"] + (["d1", "d2", "ret", "inv"] if name in ("bethe", "bethez", "box") else [])))
    z = lat.draw_re(rng, name, D, kw, 6) + 1j*D*gen.loguni(rng, 1e-3, 10, 6)*rng.choice([-1, 1], 6)
    if kind == "gf":
        fn, args, power = lat.gf_fn(name, rng), (z,), -1
    elif kind == "dos":
        x = lat.draw_re(rng, name, D, kw, 8)
        pts = lat.special_points(name, D, kw)
        x = x[np.min(abs(np.subtract.outer(x, pts)), axis=-1) > 1e-6*D]
        if not x.size:
            raise Skip
        fn, args, power = lat.dos_fn(name, rng), (x,), -1
    elif kind == "mom":
        if not hasattr(mod, "dos_moment"):
            raise Skip
        m = int(rng.integers(0, 6))
        kwm = {a: v for a, v in kw.items() if a != "scale"}
        try:
            r0 = np.asarray(ctx.call(mod.dos_moment, m, half_bandwidth=D, **kwm), dtype=float)
        except NotImplementedError:
            raise Skip from None
        r1 = np.asarray(ctx.call(mod.dos_moment, m, half_bandwidth=D*s, **kwm), dtype=float)
        ctx.tag("lattice", name, kind, np.sign(k))
        ctx.close("units: moments", r1/s**m, r0, rtol=1e-12)
        return
    else:
        fname = {"d1": "gf_d1_z", "d2": "gf_d2_z", "ret": "gf_ret_t", "inv": "gf_z_inv"}[kind]
        if not hasattr(mod, fname):
            raise Skip
        fn, power = getattr(mod, fname), {"d1": -2, "d2": -3, "ret": 0, "inv": 1}[kind]
        args = (z,)
        if kind == "ret":
            args = (gen.loguni(rng, 1e-3, 1e3, 6)/D,)
        if kind == "inv":
            args = (np.asarray(mod.gf_z(z, D, **kw)),)
    ctx.tag("lattice", name, kind, np.sign(k))
    apow = -1 if kind in ("ret", "inv") else 1
    if kind == "ret" and rng.random() < 0.5:
        c = float(rng.uniform(-2, 2))
        if name in ("bethe", "box"):  # the centre is given in units of the half-bandwidth
            kw = dict(kw, center=c)
    r0 = np.asarray(ctx.call(fn, *args, half_bandwidth=D, **kw))
    r1 = np.asarray(ctx.call(fn, *[a*s**apow for a in args], half_bandwidth=D*s, **kw))
    size = np.max(abs(r0)) if kind == "ret" else abs(r0)
    ctx.close(f"units: {kind}", r1/s**power, r0, rtol=0, atol=1e-9*size + 1e-300)


# --- functions ------------------------------------------------------------------------------------------------------
@entry("fermi", 0)
def _(rng, n):
    eps, beta, f = rng.normal(size=n), gen.beta(rng), rng.choice([gt.fermi_fct, gt.bose_fct])
    if rng.random() < 0.3:
        eps = eps + 0.3j*rng.normal(size=n)/beta
    return lambda s: f(eps*s, beta=beta/s)


@entry("fermi_d1", -1)
def _(rng, n):
    eps, beta = rng.normal(size=n), gen.beta(rng)
    return lambda s: gt.fermi_fct_d1(eps*s, beta=beta/s)


@entry("fermi_inv", 1)
def _(rng, n):
    f, beta = rng.random(n), gen.beta(rng)
    return lambda s: gt.fermi_fct_inv(f, beta=beta/s)


@entry("matsubara", 1)
def _(rng, n):
    idx, beta, f = rng.integers(-99, 99, n), gen.beta(rng), rng.choice([gt.matsubara_frequencies, gt.matsubara_frequencies_b])
    return lambda s: f(idx, beta=beta/s)


@entry("pade_frequencies", 1)
def _(rng, n):
    beta = gen.beta(rng)
    return lambda s: gt.pade_frequencies(n + 1, beta=beta/s)[0]


def _poles(rng, n, batch=()):
    return rng.normal(size=(*batch, n)), rng.normal(size=(*batch, n))


@entry("pole_z", -1)
def _(rng, n):
    (p, r), z = _poles(rng, n), _cz(rng, 5)
    pick = rng.integers(3)
    if pick == 0:
        return lambda s: gt.pole_gf_z(z*s, p*s, r)
    if pick == 1:
        return lambda s: basis.PoleFct(poles=p*s, residues=r).eval_z(z*s)
    return lambda s: basis.PoleGf(poles=p*s, residues=r).eval_z(z*s)


@entry("pole_d1", -2)
def _(rng, n):
    (p, r), z = _poles(rng, n), _cz(rng, 5)
    return lambda s: gt.pole_gf_d1_z(z*s, p*s, r)


@entry("pole_tau", 0)
def _(rng, n):
    (p, r), beta = _poles(rng, n), gen.beta(rng)
    tau = beta*rng.random(5)
    pick = rng.integers(4)
    if pick == 0:
        return lambda s: gt.pole_gf_tau(tau/s, p*s, r, beta=beta/s)
    if pick == 1:
        return lambda s: gt.pole_gf_tau_b(tau/s, abs(p)*s, r, beta=beta/s)
    if pick == 2:
        return lambda s: gt.pole_gf_ret_t(tau/s, p*s, r)
    return lambda s: basis.PoleGf(poles=p*s, residues=r).occ(beta/s)


@entry("pole_moments", 0)
def _(rng, n):
    p, r = _poles(rng, n)
    order = rng.integers(1, 8, 4)
    return lambda s: gt.pole_gf_moments(p*s, r, order)/s**(order - 1.0)


@entry("from_moments", -1, rtol=1e-7, atol=1e-9)
def _(rng, n):
    n, w, z = int(rng.integers(1, 6)), float(rng.uniform(0.5, 2)), _cz(rng, 5, 0.5)
    mom = rng.normal(size=n)
    return lambda s: POLE.gf_from_moments(mom*s**np.arange(n), width=w*s).eval_z(z*s)


@entry("from_z", -1, rtol=1e-7, atol=1e-9)
def _(rng, n):
    w, z = float(rng.uniform(0.5, 2)), _cz(rng, 5, 0.5)
    iws = gt.matsubara_frequencies(range(20), beta=7.0)
    data = rng.normal(size=20) + 1j*rng.normal(size=20)
    nm = int(rng.integers(0, 3))
    mom = rng.normal(size=nm)
    return lambda s: POLE.gf_from_z(iws*s, data/s, n_pole=4, moments=mom*s**np.arange(nm), width=w*s).eval_z(z*s)


@entry("from_tau", -1, rtol=1e-7, atol=1e-9)
def _(rng, n):
    w, z, beta = float(rng.uniform(0.5, 2)), _cz(rng, 5, 0.5), 7.0
    data = rng.normal(size=31)
    nm = int(rng.integers(0, 3))
    mom = rng.normal(size=nm)
    kw = {"occ": float(rng.random())} if rng.random() < 0.3 else {}
    return lambda s: POLE.gf_from_tau(data, n_pole=4, beta=beta/s, moments=mom*s**np.arange(nm), width=w*s, **kw).eval_z(z*s)


@entry("transforms to tau", 0)
def _(rng, n):
    beta = gen.beta(rng)
    data = rng.normal(size=n + 3) + 1j*rng.normal(size=n + 3)
    pick = rng.integers(4)
    f = [fourier.iw2tau_dft, fourier.iw2tau_dft_soft][pick % 2]
    if pick == 2:  # only the 1/z moment: the pole is at zero
        return lambda s: fourier.iw2tau(data/s, beta=beta/s)
    return lambda s: f(data/s, beta=beta/s)


@entry("transforms to frequencies", -1)
def _(rng, n):
    beta = gen.beta(rng)
    data = rng.normal(size=2*n + 5)
    f = [fourier.tau2iw_dft, fourier.tau2iw_ft_lin, fourier.tau2iv_dft, fourier.tau2iv_ft_lin, fourier.tau2iv,
         fourier.tau2iw][int(rng.integers(6))]
    return lambda s: f(data, beta=beta/s)


@entry("laplace", -1)
def _(rng, n):
    tt = np.linspace(0, rng.uniform(1, 20), 2*n + 3)
    g = rng.normal(size=tt.size) + 1j*rng.normal(size=tt.size)
    z = rng.normal(size=4) + 1j*rng.random(4)
    f = [fourier.tt2z_trapz, fourier.tt2z_simps, fourier.tt2z_lin, fourier.tt2z][int(rng.integers(4))]
    return lambda s: f(tt/s, g, z*s)


@entry("siam", -1)
def _(rng, n):
    e0, eb, v, z = rng.normal(), rng.normal(size=n), rng.random(n), _cz(rng, 5)
    return lambda s: siam.gf0_loc_z(z*s, e0*s, eb*s, v*s*s)


@entry("siam hybridization", 1)
def _(rng, n):
    eb, v, z = rng.normal(size=n), rng.random(n), _cz(rng, 5)
    return lambda s: siam.hybrid_z(z*s, eb*s, v*s*s)


@entry("siam time", 0)
def _(rng, n):
    e0, eb, v, tt, beta = np.array(rng.normal()), rng.normal(size=n), rng.random(n), 5*rng.random(4), gen.beta(rng)
    pick = rng.integers(3)
    if pick == 0:
        return lambda s: siam.gf0_loc_ret_t(tt/s, e0*s, eb*s, v*s)
    f = [siam.gf0_loc_gr_t, siam.gf0_loc_le_t][pick - 1]
    return lambda s: f(tt/s, e0*s, eb*s, v*s, beta=beta/s)


@entry("models", -1)
def _(rng, n):
    z, t, u, e = _cz(rng, 5), rng.uniform(0.1, 2), rng.uniform(0, 4), rng.normal(size=2)
    pick = rng.integers(3)
    kind = str(rng.choice(["+", "-"]))
    if pick == 0:
        return lambda s: gt.hubbard_dimer_gf_z(z*s, hopping=t*s, interaction=u*s, kind=kind)
    if pick == 1:
        return lambda s: gt.surface_gf_zeps(z*s, eps=e[0]*s, hopping_nn=t*s)
    return lambda s: matrix.gf_2x2_z(z*s, eps0=e[0]*s, eps1=e[1]*s, hopping=t*s)


@entry("Hubbard I", 1)
def _(rng, n):
    z, u, occ = _cz(rng, 5), rng.normal(), rng.random()
    return lambda s: gt.hubbard_I_self_z(z*s, u*s, occ)


@entry("matrix", 1, rtol=1e-9, atol=1e-10)
def _(rng, n):
    m = rng.normal(size=(n, n)) + 1j*rng.normal(size=(n, n))
    pick = rng.integers(4)
    kind = [None, "full"][int(rng.integers(2))]
    kw = {} if kind is None else {"kind": kind}
    if pick == 0:
        h = m + m.T.conj()
        return lambda s: matrix.decompose_her(h*s).reconstruct(**kw)
    if pick == 1:
        return lambda s: matrix.decompose_mat(m*s).reconstruct(**kw)
    if pick == 2:
        h = m + m.T.conj()
        return lambda s: np.sort(matrix.decompose_her(h*s).eig)
    c = m + m.T
    return lambda s: matrix.decompose_sym(c*s).reconstruct(**kw)


def _hilbert(s, D=1.0):
    return lambda z: gt.bethe_gf_z(z, half_bandwidth=D*s)


@entry("cpa equations", 1, rtol=1e-9)
def _(rng, n):
    z, self_z, e = _cz(rng, 5, 0.1), 0.0, rng.normal(size=3)
    self_z = rng.normal(size=5) - 1j*np.sign(z.imag)*rng.random(5)
    c = rng.dirichlet(np.ones(3))
    pick = rng.integers(3)
    if pick == 0:
        return lambda s: s*s*np.asarray(cpa.gf_cmpt_z(z*s, self_z*s, e*s, hilbert_trafo=_hilbert(s)))
    f = [cpa.self_root_eq, cpa.self_fxdpnt_eq][pick - 1]
    return lambda s: f(self_z*s, z*s, e*s, c, hilbert_trafo=_hilbert(s))


@entry("beb equations", 1, rtol=1e-8, atol=1e-10)
def _(rng, n):
    z, e = _cz(rng, 4, 0.1), rng.normal(size=2)
    c = rng.dirichlet(np.ones(2))
    hop = np.array([[1.0, 0.3], [0.3, rng.uniform(0.3, 0.9)]])
    dec = beb.SpectralDec.from_hamiltonian(hop) if hasattr(beb, "SpectralDec") else None
    self_z = np.zeros((4, 2, 2), dtype=complex)
    self_z[:, [0, 1], [0, 1]] = rng.normal(size=(4, 2)) - 1j*np.sign(z.imag)[:, None]*rng.random((4, 2))
    pick = rng.integers(2)
    if pick == 0 or dec is None:
        return lambda s: s*s*np.asarray(beb.gf_loc_z(z*s, self_z*s, hop, hilbert_trafo=_hilbert(s)))
    return lambda s: beb.self_root_eq(self_z*s, z*s, e*s, c, dec, hilbert_trafo=_hilbert(s))


@entry("density", 0, rtol=1e-9, atol=1e-11)
def _(rng, n):
    (p, r), beta = _poles(rng, n), 5.0
    if rng.random() < 0.5:
        iws = gt.matsubara_frequencies(range(40), beta=beta)
        g = gt.pole_gf_z(iws, p, r)
        return lambda s: gt.density_iw(iws*s, g/s, beta=beta/s, moments=[np.sum(r)])
    izp, rp = gt.pade_frequencies(12, beta=beta)
    g = gt.pole_gf_z(izp, p, r)
    return lambda s: gt.density_iw(izp*s, g/s, beta=beta/s, weights=rp, moments=[np.sum(r)])


@entry("zero-pole", 0, rtol=1e-9)
def _(rng, n):
    n = min(n, 6)
    zer, pol, z = rng.normal(size=n), rng.normal(size=n), _cz(rng, 5, 0.1)
    return lambda s: basis.ZeroPole(zer*s, pol*s, 1.3).eval(z*s)


@entry("Padé interpolation", -1, rtol=1e-6, atol=1e-8)
def _(rng, n):
    n = 2*int(rng.integers(1, 5))
    p, r = _poles(rng, n//2)
    zin = 1j*np.arange(1, n + 1) + rng.normal(size=n)*0.3
    z = _cz(rng, 4, 0.3)
    def run(s):
        co = pade.coefficients(zin*s, fct_z=gt.pole_gf_z(zin, p, r)/s)
        return list(pade.calc_iterator(z*s, zin*s, co))[-1]
    return run


@entry("residues", 0, rtol=1e-6, atol=1e-8)
def _(rng, n):
    n = int(rng.integers(1, 5))
    p = rng.normal(size=n) - 1j*rng.random(n)
    z = 1j*np.linspace(0.5, 5, 20)
    data = rng.normal(size=20) + 1j*rng.normal(size=20)
    return lambda s: polepade.residues_ols(z*s, data/s, p*s)[0]


def _named(fun, name):
    """Evidence shows which map was observed for which data."""
    data = [c.cell_contents for c in fun.__closure__ or ()]
    data = [d for d in data if isinstance(d, (np.ndarray, np.generic, float, int, str))]

    def run(arg, *_):
        return fun(arg)
    run.__qualname__ = name
    return lambda ctx, arg: np.asarray(ctx.call(run, arg, *data))


@case(CASES, 1500, 150000)
def functions(ctx, rng):
    name = str(rng.choice(sorted(FNS)))
    make, power, rtol, atol = FNS[name]
    fun = _named(make(rng, gen.size(rng, 1, 8, 60)), name)
    s, k = _unit(rng)
    ctx.tag("function", name, np.sign(k))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r0, r1 = fun(ctx, 1.0), fun(ctx, s)
    if not np.all(np.isfinite(r0)):
        raise Skip
    ctx.close(f"units: {name}", r1*s**-power, r0, rtol=rtol, atol=atol*np.max(abs(r0), initial=0))


# --- amplitude and superposition ---------------------------------------------------------------------------------------
LIN = {}


def linear(name, rtol=1e-9):
    def deco(fn):
        LIN[name] = fn, rtol
        return fn
    return deco


def _draw(rng, n, cplx):
    return rng.normal(size=n) + (1j*rng.normal(size=n) if cplx else 0)


@linear("iw -> tau")
def _(rng, n):
    beta, f = gen.beta(rng), [fourier.iw2tau_dft, fourier.iw2tau_dft_soft][int(rng.integers(2))]
    return lambda x: f(x, beta=beta), [_draw(rng, n + 2, True) for _ in range(2)]


@linear("iw -> tau with moments")
def _(rng, n):
    beta, nm = float(rng.uniform(1, 20)), int(rng.integers(1, 4))
    return (lambda x: fourier.iw2tau(x[nm:], beta=beta, moments=x[:nm].real),
            [np.concatenate([_draw(rng, nm, False), _draw(rng, n + 2, True)]) for _ in range(2)])


@linear("tau -> frequencies")
def _(rng, n):
    f = [fourier.tau2iw_dft, fourier.tau2iw_ft_lin, fourier.tau2iv_dft, fourier.tau2iv_ft_lin, fourier.tau2iv,
         fourier.tau2iw][int(rng.integers(6))]
    beta = gen.beta(rng)
    return lambda x: f(x, beta=beta), [_draw(rng, 2*n + 3, False) for _ in range(2)]


@linear("tau -> iw with moments", rtol=1e-7)
def _(rng, n):
    beta, nm = float(rng.uniform(1, 20)), int(rng.integers(1, 4))
    def run(x):
        gf_tau, mom = x[nm:], x[:nm].copy()
        mom[0] = -gf_tau[0] - gf_tau[-1]
        return fourier.tau2iw(gf_tau, beta=beta, moments=mom)
    return run, [_draw(rng, 2*n + 9 + nm, False) for _ in range(2)]


@linear("time -> frequency")
def _(rng, n):
    tt = np.linspace(0, rng.uniform(1, 20), n + 2)
    z = rng.normal(size=4) + 1j*rng.random(4)
    f = [fourier.tt2z_trapz, fourier.tt2z_simps, fourier.tt2z_lin, fourier.tt2z][int(rng.integers(4))]
    return lambda x: f(tt, x, z), [_draw(rng, tt.size, rng.random() < 0.7) for _ in range(2)]


@linear("pole functions")
def _(rng, n):
    p, beta = rng.normal(size=n), gen.beta(rng)
    tau, z, pick = beta*rng.random(4), _cz(rng, 4), int(rng.integers(6))
    return ([lambda r: gt.pole_gf_z(z, p, r), lambda r: gt.pole_gf_d1_z(z, p, r), lambda r: gt.pole_gf_tau(tau, p, r, beta=beta),
             lambda r: gt.pole_gf_ret_t(tau, p, r), lambda r: gt.pole_gf_moments(p, r, [1, 2, 3]),
             lambda r: gt.pole_gf_tau_b(tau, abs(p), r, beta=beta)][pick], [_draw(rng, n, rng.random() < 0.3) for _ in range(2)])


@linear("pole fit to moments", rtol=1e-7)
def _(rng, n):
    num, w = int(rng.integers(1, 6)), float(rng.uniform(0.5, 2))
    return lambda x: POLE.gf_from_moments(x, width=w).residues, [_draw(rng, num, False) for _ in range(2)]


@linear("pole fit to iw", rtol=1e-6)
def _(rng, n):
    iws, w, nm = gt.matsubara_frequencies(range(20), beta=7.0), float(rng.uniform(0.5, 2)), int(rng.integers(0, 4))
    return (lambda x: POLE.gf_from_z(iws, x[nm:], n_pole=4, moments=x[:nm].real, width=w).residues,
            [np.concatenate([_draw(rng, nm, False), _draw(rng, 20, True)]) for _ in range(2)])


@linear("pole fit to tau", rtol=1e-6)
def _(rng, n):
    w, nm = float(rng.uniform(0.5, 2)), int(rng.integers(0, 4))
    return (lambda x: POLE.gf_from_tau(x[nm:], n_pole=4, beta=7.0, moments=x[:nm], width=w).residues,
            [_draw(rng, 30 + nm, False) for _ in range(2)])


@linear("residues", rtol=1e-6)
def _(rng, n):
    num = int(rng.integers(1, 5))
    p, z = rng.normal(size=num) - 1j*rng.random(num), 1j*np.linspace(0.5, 5, 20)
    nm = int(rng.integers(0, num))
    kw = {"weight": rng.uniform(0.5, 2, 20)} if rng.random() < 0.3 else {}
    return (lambda x: polepade.residues_ols(z, x[nm:], p, moments=x[:nm], **kw)[0],
            [_draw(rng, 20 + nm, True) for _ in range(2)])


@linear("constrained least squares", rtol=1e-7)
def _(rng, n):
    num = int(rng.integers(2, 6))
    nc = int(rng.integers(1, num))
    a, c = _draw(rng, (num + 3, num), rng.random() < 0.5), _draw(rng, (nc, num), rng.random() < 0.5)
    if np.linalg.cond(a) > 1e3 or np.linalg.cond(c) > 1e3:
        raise Skip
    cplx = rng.random() < 0.5
    return (lambda x: linalg.lstsq_ec(a, x[nc:], c, x[:nc]), [_draw(rng, num + 3 + nc, cplx) for _ in range(2)])


@linear("prediction")
def _(rng, n):
    order = int(rng.integers(1, 5))
    co = 0.4*_draw(rng, order, rng.random() < 0.5)
    return lambda x: linearprediction.predict(x, co, 8), [_draw(rng, order + 6, True) for _ in range(2)]


@linear("density", rtol=1e-9)
def _(rng, n):
    beta = float(rng.uniform(1, 20))
    iws = gt.matsubara_frequencies(range(n + 3), beta=beta)
    return (lambda x: gt.density_iw(iws, x[1:], beta=beta, moments=x[:1].real),
            [np.concatenate([_draw(rng, 1, False), _draw(rng, n + 3, True)]) for _ in range(2)])


@case(CASES, 1200, 100000)
def superposition(ctx, rng):
    """Linear maps: real superposition of arbitrary (noisy) data, amplitudes of any size."""
    name = str(rng.choice(sorted(LIN)))
    make, rtol = LIN[name]
    fun, (x, y) = make(rng, gen.size(rng, 1, 9, 300))
    fun = _named(fun, name)
    a, b = rng.normal(size=2)
    (s, k), mode = _unit(rng), rng.random() < 0.5
    ctx.tag("linear", name, mode)
    fx = fun(ctx, x)
    if mode:
        ctx.close(f"amplitude: {name}", fun(ctx, x*s)/s, fx, rtol=0, atol=rtol*np.max(abs(fx)))
        ctx.ok("zero data", np.all(fun(ctx, 0*x) == 0))
        return
    fy, fxy = fun(ctx, y), fun(ctx, a*x + b*y)
    want = a*fx + b*fy
    ctx.close(f"superposition: {name}", fxy, want, rtol=0, atol=rtol*(abs(a)*np.max(abs(fx)) + abs(b)*np.max(abs(fy))))


# --- amplitude of data for non-linear approximants ---------------------------------------------------------------------
@case(CASES, 400, 8000)
def amplitude(ctx, rng):
    """The unit of the data drops out of prediction coefficients and denominators."""
    s, k = _unit(rng)
    n = int(rng.integers(8, 20))
    x = np.cumsum(_draw(rng, n, rng.random() < 0.6))
    pick = int(rng.integers(6))
    ctx.tag("amplitude", pick, np.sign(k))
    order = int(rng.integers(1, 4))
    if pick == 0:
        f = lambda s: linearprediction.pcoeff_covar(x*s, order)[0]  # noqa: E731
    elif pick == 1:
        f = lambda s: linearprediction.pcoeff_burg(x*s, order)[0]  # noqa: E731
    elif pick == 2:
        f = lambda s: hermpade.pade(x*s, order, order).eval(0.3 + 0.2j)/s  # noqa: E731
    elif pick == 3:
        f = lambda s: hermpade.pade_lstsq(x*s, order, order).eval(0.3 + 0.2j)/s  # noqa: E731
    elif pick == 4:
        p, r = _poles(rng, 3)
        zin, z = 1j*np.arange(1, 7) + rng.normal(size=6)*0.3, _cz(rng, 4, 0.3)
        f = lambda s: list(pade.calc_iterator(z, zin, pade.coefficients(zin, gt.pole_gf_z(zin, p, r)*s)))[-1]/s  # noqa: E731
    else:
        zin = 1j*np.arange(1, n + 1)
        f = lambda s: polepade.asymptotic(zin, x*s, zeros=x[:2], poles=x[2:4])[0]/s  # noqa: E731
    f = _named(f, f"amplitude {pick}")
    r0, r1 = f(ctx, 1.0), f(ctx, s)
    ctx.close(f"amplitude {pick}", r1, r0, rtol=1e-6, atol=1e-6*np.max(abs(r0)))
