"""Catalogue of the public functions with well-conditioned argument generators.

`make(rng, batch)` returns `(args, kwds)`; an argument with core dimension `c`
(`core[i]`) has shape `batch + <c dims>`, `None` marks shared arguments.
"""
from dataclasses import dataclass

import numpy as np

from . import target

gt = target.load()


@dataclass
class Entry:
    name: str
    fn: object
    make: object
    core: tuple = ()
    batched: bool = False
    threads: bool = True
    rtol: float = 1e-9
    callback: int = -1
    raw: object = None      # the function itself, if `fn` only observes a part of its result


ENTRIES = []


def add(name, fn, make, core=(), batched=True, **kw):
    kw.setdefault("raw", getattr(fn, "raw", fn))
    ENTRIES.append(Entry(name, fn, make, core, batched, **kw))


def _z(rng, shape, scale=1.0):
    return scale*(rng.normal(size=shape) + 1j*rng.uniform(0.05, 2, shape)*rng.choice([-1, 1], shape))


def _zu(rng, shape):
    return rng.normal(size=shape) + 1j*rng.uniform(0.1, 2, shape)


def _c(rng, shape):
    return rng.normal(size=shape) + 1j*rng.normal(size=shape)


# --- lattices ---------------------------------------------------------------
LATT = ["bcc", "bethe", "box", "fcc", "honeycomb", "kagome", "lieb", "onedim", "sc", "square", "triangular"]
for _name in LATT:
    _mod = getattr(gt.lattice, _name)
    for _fn in ("gf_z", "hilbert_transform", "gf_d1_z", "gf_d2_z", "stress_trafo"):
        if hasattr(_mod, _fn):
            add(f"lattice.{_name}.{_fn}", getattr(_mod, _fn),
                lambda rng, batch: ((_z(rng, batch),), {"half_bandwidth": float(rng.uniform(0.5, 2))}), (0,))
    add(f"lattice.{_name}.dos", _mod.dos,
        lambda rng, batch: ((rng.uniform(-1.3, 1.3, batch),), {"half_bandwidth": 1.1}), (0,))
    add(f"lattice.{_name}.dos_moment", _mod.dos_moment,
        lambda rng, batch: ((int(rng.integers(1, 9)),), {"half_bandwidth": float(rng.uniform(0.5, 2))}), batched=False)
    if hasattr(_mod, "dos_mp"):
        add(f"lattice.{_name}.dos_mp", _mod.dos_mp,
            lambda rng, batch: ((float(rng.uniform(-1, 1)),), {"half_bandwidth": 1.1}), batched=False, threads=False)
    if hasattr(_mod, "gf_ret_t"):
        add(f"lattice.{_name}.gf_ret_t", _mod.gf_ret_t,
            lambda rng, batch: ((rng.uniform(-1, 9, batch),), {"half_bandwidth": 1.3, "center": 0.2}), (0,))
add("lattice.sc.gf_z_mp", gt.lattice.sc.gf_z_mp, lambda rng, batch: ((complex(_zu(rng, ())),), {"half_bandwidth": 1.5}),
    batched=False, threads=False)
add("lattice.bethe.gf_z_inv", gt.lattice.bethe.gf_z_inv,
    lambda rng, batch: ((0.7*_z(rng, batch),), {"half_bandwidth": 1.2}), (0,))
for _fn in ("gf_z", "dos"):
    add(f"lattice.bethez.{_fn}", getattr(gt.lattice.bethez, _fn), lambda rng, batch, _fn=_fn: (
        (_z(rng, batch) if _fn == "gf_z" else rng.uniform(-1, 1, batch),),
        {"half_bandwidth": 1.2, "coordination": int(rng.integers(3, 9))}), (0,))
for _fn in ("gf_z", "dos", "hilbert_transform"):
    add(f"lattice.rectangular.{_fn}", getattr(gt.lattice.rectangular, _fn), lambda rng, batch, _fn=_fn: (
        (rng.uniform(-1.2, 1.2, batch) if _fn == "dos" else _z(rng, batch),),
        {"half_bandwidth": 1.2, "scale": float(rng.uniform(1, 3))}), (0,))

# --- statistics, poles --------------------------------------------------------
for _fn in ("fermi_fct", "fermi_fct_d1"):
    add(_fn, getattr(gt, _fn), lambda rng, batch: ((rng.normal(size=batch)*4, float(rng.uniform(0.3, 20))), {}), (0, None))
add("fermi_fct complex", gt.fermi_fct, lambda rng, batch: ((_c(rng, batch), 3.1), {}), (0, None))
add("bose_fct", gt.bose_fct, lambda rng, batch: ((rng.normal(size=batch)*4*rng.choice([0, 1, 1], batch), 2.5), {}), (0, None))
add("fermi_fct_inv", gt.fermi_fct_inv, lambda rng, batch: ((rng.uniform(0.05, 0.95, batch), 2.5), {}), (0, None))
for _fn in ("matsubara_frequencies", "matsubara_frequencies_b"):
    add(_fn, getattr(gt, _fn), lambda rng, batch: ((rng.integers(-9, 99, batch), 7.5), {}), (0, None))
add("pade_frequencies", gt.pade_frequencies, lambda rng, batch: ((int(rng.integers(1, 12)), 7.5), {}), batched=False)


def _pw(rng, batch, num=4):
    return rng.normal(size=batch + (num,)), rng.normal(size=batch + (num,))


add("pole_gf_z", gt.pole_gf_z, lambda rng, batch: ((_z(rng, batch), *_pw(rng, batch)), {}), (0, 1, 1))
add("pole_gf_d1_z", gt.pole_gf_d1_z, lambda rng, batch: ((_z(rng, batch), *_pw(rng, batch)), {}), (0, 1, 1))
add("pole_gf_tau", gt.pole_gf_tau, lambda rng, batch: ((rng.uniform(0, 3, batch), *_pw(rng, batch), 3.0), {}), (0, 1, 1, None))
add("pole_gf_ret_t", gt.pole_gf_ret_t, lambda rng, batch: ((rng.uniform(-2, 3, batch), *_pw(rng, batch)), {}), (0, 1, 1))
add("pole_gf_tau_b", gt.pole_gf_tau_b, lambda rng, batch: (
    (rng.uniform(0, 3, batch), rng.uniform(0.1, 2, (*batch, 3)), rng.normal(size=(*batch, 3)), 3.0), {}), (0, 1, 1, None))
add("pole_gf_moments", gt.pole_gf_moments, lambda rng, batch: ((*_pw(rng, batch), np.arange(1, 4)), {}), (1, 1, None))
def _eval(fn):
    def run(*args, **kwds):
        return np.stack([fn(*args, **kwds).eval_z(z) for z in (1j, 0.3 + 0.5j)], axis=-1)
    run.__qualname__, run.__module__, run.raw = fn.__qualname__, fn.__module__, fn
    return run


add("basis.pole.gf_from_moments", _eval(gt.basis.pole.gf_from_moments),
    lambda rng, batch: ((rng.normal(size=(*batch, 3)),), {"width": 1.3}), (1,))
add("basis.pole.gf_from_moments default", _eval(gt.basis.pole.gf_from_moments),
    lambda rng, batch: ((rng.normal(size=(*batch, 3)),), {}), (1,))


def _fromz(rng, batch):
    iws = gt.matsubara_frequencies(np.arange(40), 10.0)
    gf = np.sum(rng.random((*batch, 1, 3))/(iws[:, None] - rng.uniform(-1, 1, (*batch, 1, 3))), axis=-1)
    return (iws, gf), {"n_pole": 4, "moments": np.array([1.0]) if rng.random() < 0.5 else (),
                       "weight": abs(iws) if rng.random() < 0.5 else None}



add("basis.pole.gf_from_z", _eval(gt.basis.pole.gf_from_z), _fromz, (None, 1), rtol=1e-6)


def _gtau(rng, batch, num=65, beta=5.0):
    tau = np.linspace(0, beta, num)
    pls = rng.uniform(-2, 2, batch + (3,))
    wgt = rng.random(batch + (3,)) + 0.1
    wgt /= wgt.sum(axis=-1, keepdims=True)
    return np.sum(-wgt[..., None]*np.exp(-pls[..., None]*tau)/(1 + np.exp(-beta*pls[..., None])), axis=-2)


def _giw(rng, batch, num=64, beta=5.0):
    iws = 1j*np.pi/beta*(2*np.arange(num) + 1)
    pls = rng.uniform(-2, 2, batch + (3,))
    return np.mean(1/(iws - pls[..., None]), axis=-2)


add("basis.pole.gf_from_tau", _eval(gt.basis.pole.gf_from_tau), lambda rng, batch: (
    (_gtau(rng, batch),), {"n_pole": 4, "beta": 5.0, "moments": (1.0,), "occ": bool(rng.integers(2))}), (1,), rtol=1e-6)
add("basis.pole.gf_from_tau default", _eval(gt.basis.pole.gf_from_tau), lambda rng, batch: (
    (_gtau(rng, batch),), {"n_pole": 4, "beta": 5.0}), (1,), rtol=1e-6)

# --- fourier ------------------------------------------------------------------
for _fn in ("iw2tau_dft", "iw2tau_dft_soft", "iw2tau"):
    add("fourier." + _fn, getattr(gt.fourier, _fn), lambda rng, batch: ((_giw(rng, batch),), {"beta": 5.0}), (1,))
add("fourier.iw2tau fit", gt.fourier.iw2tau, lambda rng, batch: (
    (_giw(rng, batch),), {"beta": 5.0, "n_fit": 2, "moments": np.ones(1)}), (1,), rtol=1e-7)
for _fn in ("tau2iv_dft", "tau2iv_ft_lin", "tau2iv", "tau2iw_dft", "tau2iw_ft_lin", "tau2iw"):
    add("fourier." + _fn, getattr(gt.fourier, _fn), lambda rng, batch: ((_gtau(rng, batch),), {"beta": 5.0}), (1,), rtol=1e-7)
add("fourier.tau2iw fit", gt.fourier.tau2iw, lambda rng, batch: (
    (_gtau(rng, batch),), {"beta": 5.0, "n_pole": 5, "moments": np.ones(1)}), (1,), rtol=1e-6)


def _izp(rng, batch):
    izp, rp = gt.pade_frequencies(20, beta=5.0)
    pls = rng.uniform(-2, 2, batch + (3,))
    return (izp, np.mean(1/(izp - pls[..., None]), axis=-2)), {"tau": np.linspace(0, 5, 11), "beta": 5.0}


add("fourier.izp2tau", gt.fourier.izp2tau, lambda rng, batch: _izp(rng, ()), batched=False, rtol=1e-5)
add("fourier.tau2izp", gt.fourier.tau2izp, lambda rng, batch: (
    (_gtau(rng, ()), 5.0, gt.pade_frequencies(10, beta=5.0)[0]), {"moments": np.ones(1)}), batched=False, rtol=1e-5)


def _tt(rng, batch, num=61):
    tt = np.linspace(0, 12, num)
    y = rng.uniform(-1, 1, batch + (3,)) - 0.3j
    return tt, -1j*np.mean(np.exp(-1j*y[..., None]*tt), axis=-2)


for _fn in ("tt2z_trapz", "tt2z_simps", "tt2z_lin", "tt2z"):
    add("fourier." + _fn, getattr(gt.fourier, _fn),
        lambda rng, batch: ((*_tt(rng, batch), _zu(rng, 4)), {}), (None, 1, None))
add("fourier.tt2z_pade", gt.fourier.tt2z_pade, lambda rng, batch: ((*_tt(rng, (), 12), _zu(rng, 4)), {}), batched=False, rtol=1e-5)
add("fourier.tt2z_herm2", gt.fourier.tt2z_herm2, lambda rng, batch: ((*_tt(rng, (), 12), _zu(rng, 4)), {}), batched=False, rtol=1e-5)
add("fourier.tt2z_lpz", gt.fourier.tt2z_lpz, lambda rng, batch: ((*_tt(rng, (), 30), _zu(rng, 4)), {"order": 3}), batched=False, rtol=1e-5)

# --- matrices -----------------------------------------------------------------


def _her(rng, batch, num=3):
    mat = _c(rng, batch + (num, num))
    return mat + np.swapaxes(mat, -1, -2).conj()


def _sym(rng, batch, num=3):
    mat = _c(rng, batch + (num, num))
    return mat + np.swapaxes(mat, -1, -2)


def _full(fn):
    """Phases of eigenvectors are arbitrary: observe eigenvalues and reconstruction."""
    def run(mat):
        dec = fn(mat)
        return np.sort_complex(dec.eig), dec.reconstruct(), dec.reconstruct(kind="diag"), dec.reconstruct(eig=dec.eig**2)
    run.__qualname__ = fn.__qualname__
    run.__module__ = fn.__module__
    run.raw = fn
    return run


add("matrix.decompose_her", _full(gt.matrix.decompose_her), lambda rng, batch: ((_her(rng, batch),), {}), (2,))
add("matrix.decompose_sym", _full(gt.matrix.decompose_sym), lambda rng, batch: ((_sym(rng, batch),), {}), (2,), rtol=1e-7)
add("matrix.decompose_mat", _full(gt.matrix.decompose_mat), lambda rng, batch: ((_c(rng, batch + (3, 3)),), {}), (2,), rtol=1e-7)
add("matrix.construct_gf", gt.matrix.construct_gf,
    lambda rng, batch: ((_c(rng, (3, 3)), _c(rng, 3), _c(rng, (3, 3))), {}), batched=False)
add("matrix.gf_2x2_z", gt.matrix.gf_2x2_z, lambda rng, batch: (
    (_zu(rng, batch), rng.normal(size=batch), rng.normal(size=batch), rng.normal(size=batch)), {}), (0, 0, 0, 0))
add("linalg.orth_compl", lambda mat: (lambda p: np.swapaxes(p, -1, -2).conj() @ p)(gt.linalg.orth_compl(mat)),
    lambda rng, batch: ((_c(rng, batch + (5, 2)),), {}), (2,), raw=gt.linalg.orth_compl)
add("linalg.lstsq_ec", gt.linalg.lstsq_ec,
    lambda rng, batch: ((_c(rng, (7, 4)), _c(rng, 7), _c(rng, (2, 4)), _c(rng, 2)), {}), batched=False)

# --- CPA / BEB ----------------------------------------------------------------


def _hilbert(xi):
    return gt.bethe_hilbert_transform(xi, half_bandwidth=1.0)


def _cpa(rng, batch):
    num = 3
    conc = rng.random(num) + 0.2
    return (_zu(rng, 4), rng.normal(size=num), conc/conc.sum(), _hilbert), {}


add("cpa.solve_root", gt.cpa.solve_root, _cpa, batched=False, rtol=1e-5, callback=3)
add("cpa.gf_cmpt_z", gt.cpa.gf_cmpt_z, lambda rng, batch: (
    (_zu(rng, 4), -0.1j*rng.random(4), rng.normal(size=3), _hilbert), {}), batched=False, callback=3)
for _fn in ("self_root_eq", "self_fxdpnt_eq"):
    add("cpa." + _fn, getattr(gt.cpa, _fn), lambda rng, batch: (
        (-0.1j*rng.random(4), _zu(rng, 4), rng.normal(size=3), np.array([0.2, 0.3, 0.5]), _hilbert), {}), batched=False, callback=4)
add("cpa.solve_fxdocc_root", gt.cpa.solve_fxdocc_root, lambda rng, batch: (
    (gt.matsubara_frequencies(np.arange(32), 5.0), np.array([-0.3, 0.4]), np.array([0.4, 0.6]), _hilbert),
    {"beta": 5.0, "occ": 0.45}), batched=False, rtol=1e-4, callback=3)


def _beb(rng, batch):
    hop = _her(rng, (), 2).real + 2*np.eye(2)
    return (_zu(rng, 3), rng.normal(size=2), np.array([0.4, 0.6]), hop, _hilbert), {}


add("beb.solve_root", gt.beb.solve_root, _beb, batched=False, rtol=1e-5, callback=4)
add("beb.gf_loc_z", gt.beb.gf_loc_z, lambda rng, batch: (
    (_zu(rng, 3), -0.1j*np.eye(2)[None] + 0.1*_her(rng, (3,), 2), _her(rng, (), 2).real + 2*np.eye(2), _hilbert), {}),
    batched=False, rtol=1e-7, callback=3)

# --- densities ------------------------------------------------------------------
add("density_iw", gt.density_iw, lambda rng, batch: (
    (gt.matsubara_frequencies(np.arange(64), 5.0), _giw(rng, batch)), {"beta": 5.0}), (None, 1))
add("density_iw fit", gt.density_iw, lambda rng, batch: (
    (gt.matsubara_frequencies(np.arange(64), 5.0), _giw(rng, batch)), {"beta": 5.0, "n_fit": 2}), (None, 1), rtol=1e-7)
add("density", gt.density, lambda rng, batch: ((_giw(rng, ()),), {"potential": float(rng.normal()), "beta": 5.0}), batched=False)
add("density matrix", gt.density, lambda rng, batch: (
    (np.moveaxis(np.array([np.diag(np.linalg.inv(z*np.eye(2) + h)) for h in [_her(rng, (), 2)]
                           for z in gt.matsubara_frequencies(np.arange(32), 5.0)]), 0, -1),),
    {"potential": _her(rng, (), 2), "beta": 5.0, "matrix": True}), batched=False)
add("density_error", gt.density_error, lambda rng, batch: (
    (rng.normal(size=batch + (40,)), gt.matsubara_frequencies(np.arange(40), 5.0)), {"noisy": bool(rng.integers(2))}), (1, None))
add("density_error2", gt.density_error2, lambda rng, batch: (
    (rng.normal(size=batch + (40,)), gt.matsubara_frequencies(np.arange(40), 5.0)), {}), (1, None))
add("check_convergence", gt.check_convergence, lambda rng, batch: (
    (_giw(rng, ()),), {"potential": float(rng.normal()), "beta": 5.0, "order": int(rng.integers(1, 4))}), batched=False)
add("chemical_potential", gt.chemical_potential, lambda rng, batch: (
    ((lambda mu, x=float(rng.normal()): float(np.tanh(mu - x))),), {"mu0": float(rng.normal())}), batched=False, rtol=1e-7, callback=0)
add("hubbard_dimer_gf_z", gt.hubbard_dimer_gf_z, lambda rng, batch: ((_z(rng, batch), 0.7, 2.1), {"kind": str(rng.choice(["+", "-"]))}), (0, None, None))
add("hubbard_I_self_z", gt.hubbard_I_self_z, lambda rng, batch: (
    (_z(rng, batch), rng.uniform(1, 2, batch), rng.random(batch)), {}), (0, 0, 0))
add("surface_gf_zeps", gt.surface_gf_zeps, lambda rng, batch: ((_z(rng, batch), rng.normal(size=batch), 0.7), {}), (0, 0, None))

# --- SIAM -----------------------------------------------------------------------
add("siam.gf0_loc_z", gt.siam.gf0_loc_z, lambda rng, batch: (
    (_z(rng, batch), rng.normal(size=batch), rng.normal(size=batch + (3,)), rng.random(batch + (3,))), {}), (0, 0, 1, 1))
add("siam.hybrid_z", gt.siam.hybrid_z, lambda rng, batch: (
    (_z(rng, batch), rng.normal(size=batch + (3,)), rng.random(batch + (3,))), {}), (0, 1, 1))
add("siam.hamiltonian_matrix", gt.siam.hamiltonian_matrix, lambda rng, batch: (
    (np.asarray(rng.normal(size=batch)), rng.normal(size=batch + (3,)), _c(rng, batch + (3,))), {}), (0, 1, 1))
for _fn in ("gf0_loc_ret_t", "gf0_loc_gr_t", "gf0_loc_le_t"):
    add("siam." + _fn, getattr(gt.siam, _fn), lambda rng, batch, _fn=_fn: (
        (np.asarray(rng.normal(size=batch)*3), np.asarray(rng.normal(size=batch)), rng.normal(size=batch + (3,)), _c(rng, batch + (3,))),
        {} if _fn == "gf0_loc_ret_t" else {"beta": 3.0}), (0, 0, 1, 1))

# --- linear prediction, Pade -------------------------------------------------------
add("linearprediction.companion", gt.linearprediction.companion, lambda rng, batch: ((rng.normal(size=batch + (4,)),), {}), (1,))
add("linearprediction.pcoeff_covar", gt.linearprediction.pcoeff_covar, lambda rng, batch: ((_c(rng, batch + (16,)), 3), {}), (1, None))
add("linearprediction.pcoeff_burg", gt.linearprediction.pcoeff_burg, lambda rng, batch: ((_c(rng, batch + (16,)), 3), {}), (1, None))
add("linearprediction.predict", gt.linearprediction.predict, lambda rng, batch: (
    (_c(rng, batch + (6,)), 0.3*_c(rng, batch + (3,))), {"num": 5, "stable": bool(rng.integers(2))}), (1, 1), rtol=1e-7)
add("hermpade.pade", gt.hermpade.pade, lambda rng, batch: ((rng.normal(size=9), 3, 4), {}), batched=False, rtol=1e-6)
add("hermpade.pade_lstsq", gt.hermpade.pade_lstsq, lambda rng, batch: ((rng.normal(size=12), 3, 4), {}), batched=False, rtol=1e-6)
add("hermpade.pader", gt.hermpade.pader, lambda rng, batch: ((rng.normal(size=9), 3, 4), {}), batched=False, rtol=1e-6)
add("hermpade.hermite2", gt.hermpade.hermite2, lambda rng, batch: ((rng.normal(size=9), 2, 2, 2), {}), batched=False, rtol=1e-6)
add("hermpade.hermite2_lstsq", gt.hermpade.hermite2_lstsq, lambda rng, batch: ((rng.normal(size=12), 2, 2, 2), {}), batched=False, rtol=1e-6)


def _herm_eval(an, z):
    return gt.hermpade.Hermite2.from_taylor(an, 2, 2, 2).eval(z)


add("hermpade.Hermite2", _herm_eval, lambda rng, batch: ((rng.normal(size=9), _zu(rng, 4)), {}), batched=False, rtol=1e-5)


def _padein(rng, batch, num=12):
    z = 1j*np.pi*(2*np.arange(num) + 1)/5
    return z, np.mean(1/(z - rng.uniform(-2, 2, batch + (3,))[..., None]), axis=-2)


add("pade.coefficients", gt.pade.coefficients, lambda rng, batch: (_padein(rng, batch, 5), {}), (None, 1), rtol=1e-5)
add("pade.averaged", gt.pade.averaged, lambda rng, batch: (
    (_zu(rng, 5), _padein(rng, ())[0]), {"fct_z": _padein(rng, ())[1] + 1e-6*rng.normal(size=12), "kind": gt.pade.KindGf(6, 12)}),
    batched=False, rtol=1e-3)
add("pade.avg_no_neg_imag", gt.pade.avg_no_neg_imag, lambda rng, batch: (
    (rng.normal(size=4) + 0.5j, _padein(rng, ())[0]), {"fct_z": _padein(rng, ())[1] + 1e-6*rng.normal(size=12), "kind": gt.pade.KindGf(6, 12)}),
    batched=False, rtol=1e-3)
add("polepade.continuation", lambda *a, **k: gt.polepade.continuation(*a, **k).eval_polefct(np.array([1j, 0.5 + 0.3j])),
    lambda rng, batch: ((_padein(rng, (), 16)), {"moments": [1.0]}), batched=False, rtol=1e-4, raw=gt.polepade.continuation)
add("polepade.residues_ols", lambda *a, **k: gt.polepade.residues_ols(*a, **k)[0], lambda rng, batch: (
    (*_padein(rng, (), 16), np.array([-1.0, 0.1, 1.2])), {"moments": [1.0], "weight": rng.random(16) + 0.1}), batched=False, raw=gt.polepade.residues_ols)
add("polepade.asymptotic", gt.polepade.asymptotic, lambda rng, batch: (
    (*_padein(rng, (), 16), np.array([0.5, 1.3]), np.array([-1.0, 0.1, 1.2])), {}), batched=False)
add("basis.ZeroPole", lambda z, a, b: (gt.basis.ZeroPole(a, b, 1.5).eval(z), gt.basis.ZeroPole(a, b, 1.5).reciprocal(z)),
    lambda rng, batch: ((_z(rng, batch), rng.normal(size=batch + (2,)), rng.normal(size=batch + (3,))), {}), (0, 1, 1))
