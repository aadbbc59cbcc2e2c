"""C23: documented errors are raised on the invalid side of each boundary, valid input is accepted in all forms."""
from functools import partial

import numpy as np

from .. import bands, gen, target
from ..catalogue import ENTRIES
from ..core import Skip, case

gt = target.load()
ft, L, M, P, H = gt.fourier, gt.linearprediction, gt.matrix, gt.pade, gt.hermpade
bp = gt.basis.pole

CASES = []
QUICK = 3  # cheap cases: more of them in the quick tier
RULE = ("Every documented error condition from both sides of its boundary (the last accepted and the first refused size,"
        " degree, order, spacing, half plane, asymmetry), with random sizes and batches; every public function with"
        " Python/numpy scalars, 0-d, empty, single-precision and nested arrays.  Non-trivial: a call which has to raise or a"
        " valid call in an unusual form.")
ASSUMPTIONS = ["conditions the code guards with `assert` may raise AssertionError or ValueError",
               "plain lists are only passed where the documentation and the code accept them"]
GUARD = (AssertionError, ValueError)
BATCH = [(), (), (2,), (2, 3)]


def _batch(rng):
    return BATCH[int(rng.integers(len(BATCH)))]


def _c(rng, shape):
    return rng.normal(size=shape) + 1j*rng.normal(size=shape)


@case(CASES, 300, 4000)
def companion(ctx, rng):
    batch, n = _batch(rng), int(rng.integers(2, 7))
    a = rng.normal(size=(*batch, n)) + 0.5
    if rng.random() < 0.5:
        a = a*1j + 0.1
    a[..., 0] = np.where(a[..., 0] == 0, 1, a[..., 0])*10.0**rng.integers(-200, 1)
    ctx.tag("companion", len(batch), n)
    res = ctx.call(L.companion, a)
    ctx.ok("valid polynomial accepted", res.shape == (*batch, n-1, n-1), shape=res.shape)
    ctx.raises(ValueError, L.companion, a[..., :1])
    ctx.raises(ValueError, L.companion, a[..., :0])
    bad = a.copy()
    bad.reshape(-1, n)[int(rng.integers(bad.reshape(-1, n).shape[0])), 0] = 0
    ctx.raises(ValueError, L.companion, bad)


@case(CASES, 200, 3000)
def prediction(ctx, rng):
    batch, n = _batch(rng), int(rng.integers(3, 12))
    x = _c(rng, (*batch, n)) if rng.random() < 0.5 else rng.normal(size=(*batch, n))
    ctx.tag("prediction", len(batch), n, x.dtype)
    for fn in (L.pcoeff_covar, L.pcoeff_burg):
        order = n - 1 if rng.random() < 0.5 else int(rng.integers(1, n))
        if fn is L.pcoeff_burg:
            order = min(order, 3)
        a, rho = ctx.call(fn, x, order)
        ctx.ok("largest order accepted", a.shape == (*batch, order), shape=a.shape)
    for over in (0, 1, int(rng.integers(2, 9))):
        ctx.raises(ValueError, L.pcoeff_covar, x, n + over)
    coef = 0.1*rng.normal(size=(*batch, 2))
    for stable in (False, True):
        same = ctx.call(L.predict, x, coef, 0, stable=stable)
        ctx.close("no step", same, x, rtol=1e-14)
        one = ctx.call(L.predict, x, coef, 1, stable=stable)
        ctx.ok("one step", one.shape == (*batch, n+1), shape=one.shape)
        ctx.raises(ValueError, L.predict, x, coef, -1, stable=stable)
        ctx.raises(ValueError, L.predict, x, coef, -int(rng.integers(2, 9)), stable=stable)


@case(CASES, 300, 4000)
def asymmetric(ctx, rng):
    """Symmetry checks: one element of one matrix of the stack is enough."""
    batch, n = _batch(rng), int(rng.integers(2, 6))
    mat = _c(rng, (*batch, n, n))
    her = rng.random() < 0.5
    mat = mat + np.swapaxes(mat.conj() if her else mat, -1, -2)
    mat = mat*float(gen.loguni(rng, 1e-2, 1e3))
    fn = M.decompose_her if her else M.decompose_sym
    dec = ctx.call(fn, mat)
    ctx.ok("valid matrix accepted", dec.eig.shape == (*batch, n), shape=dec.eig.shape)
    ctx.tag("her" if her else "sym", len(batch), n)
    ctx.call(fn, mat, check=True)
    bad = mat.copy()
    flat = bad.reshape(-1, n, n)
    i, (r, c) = int(rng.integers(len(flat))), rng.choice(n, 2, replace=False)
    flat[i, r, c] += float(rng.choice([1e-2, 0.1, 1, 5])*np.max(abs(mat)))*(1j if rng.random() < 0.5 else 1)
    ctx.raises(ValueError, fn, bad)
    ctx.raises(ValueError, fn, bad, check=True)
    if her:
        bad = mat.copy()
        bad.reshape(-1, n, n)[i, r, r] += 0.1j*np.max(abs(mat))
        ctx.raises(ValueError, fn, bad)
        ctx.raises(ValueError, fn, _c(rng, (n, n)) + 1j*np.eye(n))
    dec = ctx.call(fn, bad, check=False)
    ctx.ok("check can be turned off", dec.eig.shape == (*batch, n), shape=dec.eig.shape)


@case(CASES, 400, 6000)
def time_grid(ctx, rng):
    """Equidistant up to rounding is accepted, anything else is refused."""
    n = int(rng.integers(6, 200))
    tmax = float(gen.loguni(rng, 1e-3, 1e4))
    kind = int(rng.integers(4))
    dt = tmax/(n - 1)
    tt = [np.linspace(0, tmax, n), np.arange(n)*dt, np.cumsum(np.full(n, dt)) - dt, np.arange(n)*1.0*dt][kind]
    tt[0] = 0
    batch = _batch(rng)
    g = np.broadcast_to(-1j*np.exp(-5*tt/tmax - 1j*tt*3/tmax), (*batch, n))
    z = (rng.normal(size=3) + 1j*rng.uniform(0.5, 5, 3))/tmax
    ctx.tag("grid", kind, len(batch))
    which = int(rng.integers(2))
    res = ctx.call([ft.tt2z_lin, ft.tt2z_trapz][which], tt, g, z)
    ctx.ok("equidistant grid accepted", res.shape == (*batch, 3), shape=res.shape)
    if n < 40:
        res = ctx.call(ft.tt2z_lpz, tt, g, z, order=2)
        ctx.ok("equidistant grid accepted", res.shape == (*batch, 3), shape=res.shape)
    bad = tt.copy()
    j = int(rng.integers(1, n - 1)) if rng.random() < 0.7 else n - 1
    bad[j] += dt*float(rng.choice([-0.4, 0.3, 0.05, 0.01]))
    for fn in (ft.tt2z_lin, ft.tt2z_pade, ft.tt2z_herm2, ft.tt2z_lpz):
        ctx.raises(ValueError, fn, bad, g, z)
    geometric = tmax*(np.geomspace(1, 2, n) - 1)
    for fn in (ft.tt2z_lin, ft.tt2z_pade, ft.tt2z_herm2, ft.tt2z_lpz):
        ctx.raises(ValueError, fn, geometric, g, z)
    for fn in (ft.tt2z_pade, ft.tt2z_herm2, ft.tt2z_lpz):
        shift = float(rng.choice([dt, -dt, tmax, 1e-3*dt]))
        if fn is not ft.tt2z_lpz:
            ctx.raises(GUARD, fn, tt + shift, g, z)
        if fn is ft.tt2z_pade:
            ctx.raises(GUARD, fn, tt[:-1], g, z)
        ctx.raises(ValueError, fn, tt, g, z, quad=str(rng.choice(["", "romberg", "trap", "simpson3", "lin"])))


@case(CASES, 300, 4000)
def half_planes(ctx, rng):
    n = int(rng.integers(5, 40))
    tt = np.linspace(0, float(rng.uniform(1, 20)), n)
    g = -1j*np.exp(-tt - 0.3j*tt)
    z = rng.normal(size=4) + 1j*rng.uniform(0.1, 2, 4)
    if rng.random() < 0.3:
        z = z.real + 0j if rng.random() < 0.5 else np.where(rng.random(4) < 0.5, z, z.real)
    fn = [ft.tt2z_lin, ft.tt2z_trapz, ft.tt2z_simps][int(rng.integers(3))]
    ctx.tag("halfplane", fn.__name__)
    ctx.call(ft.tt2z, tt, g, z, laplace=fn)
    res = ctx.call(ft.tt2z, -tt, g.conj(), z.conj(), laplace=fn)
    ctx.ok("advanced accepted", np.all(np.isfinite(res)) and res.shape == (4,), res=res)
    low = z.copy()
    k = int(rng.integers(4))
    low[k] = low[k].real - 1j*float(rng.choice([1e-6, 0.1, 1]))
    ctx.raises(ValueError, ft.tt2z, tt, g, low, laplace=fn)
    ctx.raises(ValueError, ft.tt2z, -tt, g, low.conj(), laplace=fn)
    shift = tt - tt[1]*float(rng.uniform(0.1, 3))
    if np.any(z.imag > 0):
        ctx.raises(ValueError, ft.tt2z, shift, g, z, laplace=fn)
        ctx.raises(ValueError, ft.tt2z, shift, g, z.conj(), laplace=fn)


@case(CASES, 300, 4000)
def series(ctx, rng):
    """Padé type approximants need as many Taylor coefficients as they have unknowns."""
    p, q, r = (int(x) for x in rng.integers(0, 5, 3))
    an = rng.normal(size=60)*0.8**np.arange(60)
    ctx.tag("series", p, q)
    need = p + q + 1
    for fn in (H.pade, H.pader, H.pade_lstsq):
        ctx.call(fn, an[:need], p, q)
        if need > 1:
            ctx.raises(ValueError, fn, an[:need-1], p, q)
            ctx.raises(ValueError, fn, an[:int(rng.integers(1, need))], p, q)
    need = p + q + r + 2
    for fn in (H.hermite2, H.hermite2_lstsq):
        ctx.call(fn, an[:need], p, q, r)
        ctx.raises(ValueError, fn, an[:need-1], p, q, r)
        ctx.raises(ValueError, fn, an[:int(rng.integers(1, need))], p, q, r)


@case(CASES, 300, 4000)
def fit_constraints(ctx, rng):
    """As many moments as poles are fine, one more is refused."""
    n_pole = int(rng.integers(1, 7))
    batch = _batch(rng)
    beta = float(rng.uniform(1, 20))
    iws = gt.matsubara_frequencies(np.arange(64), beta)
    pls = rng.uniform(-1, 1, (*batch, 1, 4))
    gz = np.mean(1/(iws[:, None] - pls), axis=-1)
    tau = np.linspace(0, beta, 129)
    gtau = np.mean(-np.exp(-pls*tau[:, None])/(1 + np.exp(-beta*pls)), axis=-1)
    mom = np.mean(pls**np.arange(n_pole + 3)[:, None], axis=-1)
    ctx.tag("fit", n_pole, len(batch))
    for which in range(4):
        fn = [bp.gf_from_z, bp.PoleGf.from_z, bp.gf_from_tau, bp.PoleGf.from_tau][which]
        args = (iws, gz) if which < 2 else (gtau,)
        kw = {"n_pole": n_pole} if which < 2 else {"n_pole": n_pole, "beta": beta}
        few = int(rng.integers(0, n_pole + 1))
        res = ctx.call(fn, *args, moments=mom[..., :few], **kw)
        ctx.ok("admissible number of moments", res.poles.shape[-1] == n_pole, poles=res.poles.shape)
        for over in (1, 2):
            ctx.raises(ValueError, fn, *args, moments=mom[..., :n_pole + over], **kw)
        if which >= 2:
            ctx.call(fn, *args, moments=mom[..., :n_pole - 1], occ=True, **kw)
            ctx.raises(ValueError, fn, *args, moments=mom[..., :n_pole], occ=True, **kw)


@case(CASES, 300, 4000)
def bosonic(ctx, rng):
    batch, n = _batch(rng), int(rng.integers(1, 5))
    beta = float(rng.uniform(0.5, 20))
    tau = rng.uniform(0, beta, batch)
    poles, res = gen.loguni(rng, 1e-6, 10, (*batch, n)), rng.normal(size=(*batch, n))
    if rng.random() < 0.5:
        poles = poles + 1j*rng.normal(size=poles.shape)
    got = ctx.call(gt.pole_gf_tau_b, tau, poles, res, beta)
    ctx.ok("positive poles accepted", np.shape(got) == batch and np.all(np.isfinite(got)), got=got)
    ctx.tag("bosonic", len(batch), n, poles.dtype.kind)
    for edge in (0.0, beta):
        ctx.call(gt.pole_gf_tau_b, edge, poles, res, beta)
        ctx.call(gt.pole_gf_tau, edge, poles.real, res, beta)
    for val in (0.0, -1e-12, -float(rng.uniform(0, 3))):
        bad = poles.copy()
        flat = bad.reshape(-1)
        flat[int(rng.integers(flat.size))] = val + (1j if bad.dtype.kind == "c" else 0)
        ctx.raises(ValueError, gt.pole_gf_tau_b, tau, bad, res, beta)
    for out in (-1e-3, beta*1.001, beta + 1, -beta):
        t = np.append(np.linspace(0, beta, 4), out)
        ctx.raises(GUARD, gt.pole_gf_tau_b, t, poles.reshape(-1, n)[0], res.reshape(-1, n)[0], beta)
        p0, r0 = poles.reshape(-1, n)[0], res.reshape(-1, n)[0]
        t = rng.permutation(t)
        ctx.raises(GUARD, gt.pole_gf_tau, t, p0.real, r0, beta)
        ctx.raises(GUARD, bp.gf_tau, t, p0.real, r0, beta)
        ctx.raises(GUARD, bp.PoleGf(poles=p0.real, residues=r0).eval_tau, t, beta)
        ctx.raises(GUARD, bp.gf_tau, float(out), p0.real, r0, beta)


MOMENTS = [n for n in bands.LATTICES if n not in ("box", "rectangular", "bethez")]


@case(CASES, 300, 3000)
def unknown_moments(ctx, rng):
    name = MOMENTS[ctx.seed[2] % len(MOMENTS)]
    mod = getattr(gt.lattice, name)
    D = gen.half_bandwidth(rng)
    known = sorted(mod.dos_moment_coefficients)
    top = max(known)
    ctx.tag("moments", name)
    for m in (1, 2, top):
        val = ctx.call(mod.dos_moment, m, half_bandwidth=D)
        ctx.ok("tabulated moment", np.isfinite(val), m=m)
    m = top + int(rng.integers(1, 30))
    if m % 2 and name in ("bcc", "bethe", "honeycomb", "lieb", "onedim", "sc", "square"):
        ctx.ok("odd moments vanish", ctx.call(mod.dos_moment, m, half_bandwidth=D) == 0, m=m)
        m += 1
    ctx.raises(NotImplementedError, mod.dos_moment, m, half_bandwidth=D)


@case(CASES, 200, 2000)
def choices(ctx, rng):
    """Selectors of kinds, branches and grids."""
    z = _c(rng, 3) + 3j
    word = str(rng.choice(["*", "", "plus", "+-", "0", "1", "++", " +"]))
    ctx.tag("choices", word)
    ctx.raises(ValueError, gt.hubbard_dimer_gf_z, z, 1.0, 2.0, kind=word)
    for kind in "+-":
        ctx.call(gt.hubbard_dimer_gf_z, z, 1.0, 2.0, kind=kind)
    for coord in (1, 0, -2):
        ctx.raises(GUARD, gt.lattice.bethez.gf_z, z, half_bandwidth=1, coordination=coord)
        ctx.raises(GUARD, gt.lattice.bethez.dos, z.real, half_bandwidth=1, coordination=coord)
    ctx.call(gt.lattice.bethez.gf_z, z, half_bandwidth=1, coordination=2)
    for fn in (gt.matsubara_frequencies, gt.matsubara_frequencies_b):
        ctx.raises(TypeError, fn, float(rng.integers(0, 9)) + 0.5, beta=3.0)
        ctx.call(fn, np.int64(rng.integers(-9, 9)), beta=3.0)
        ctx.call(fn, np.arange(3, dtype=np.uint8), beta=3)
    # Padé selection
    for cls in (P.KindGf, P.KindSelf):
        n_min = int(rng.integers(1, 9))
        ctx.raises(ValueError, cls, n_min, n_min)
        ctx.raises(ValueError, cls, n_min + 3, n_min)
        ctx.raises(ValueError, cls, -n_min, 4 + n_min)
        ctx.call(cls, n_min, n_min + 4)
    n = int(rng.integers(3, 9))
    fz, zi = _c(rng, (2, n)), 1j*(1 + np.arange(n))
    ctx.call(P.coefficients, zi, fz)
    ctx.raises(ValueError, P.coefficients, zi, fz[..., :-1])
    ctx.raises(ValueError, P.coefficients, zi[:-1], fz)
    # linear algebra
    rows = int(rng.integers(1, 6))
    ctx.call(gt.linalg.orth_compl, _c(rng, (rows + 1, rows)))
    ctx.raises(ValueError, gt.linalg.orth_compl, _c(rng, (rows, rows + 1)))
    ctx.raises(ValueError, gt.linalg.orth_compl, _c(rng, (2, rows, rows + 2)))


@case(CASES, 120, 1500)
def unsolvable(ctx, rng):
    """A root search which did not converge is reported, never returned."""
    hilbert = partial(gt.bethe_hilbert_transform, half_bandwidth=1.0)
    z = rng.normal(size=5)*0.5 + 0.05j
    eps, conc = np.array([-0.8, 0.9]), np.array([0.45, 0.55])
    pick = ctx.seed[2] % 4
    ctx.tag("unsolvable", pick)
    opts = {"options": {"maxiter": 1, "fatol": 1e-14}}
    if pick == 0:
        ctx.raises(RuntimeError, gt.cpa.solve_root, z, eps, conc, hilbert, **opts)
        ctx.raises(RuntimeError, gt.cpa.solve_root, z, eps, conc, hilbert, restricted=False, **opts)
        ctx.call(gt.cpa.solve_root, z + 0.5j, 0.3*eps, conc, hilbert)
    elif pick == 1:
        iws = gt.matsubara_frequencies(np.arange(64), 20.0)
        ctx.raises(RuntimeError, gt.cpa.solve_fxdocc_root, iws, eps, conc, hilbert, beta=20.0, occ=0.7, **opts)
        res = ctx.call(gt.cpa.solve_fxdocc_root, iws, 0.3*eps, conc, hilbert, beta=20.0, occ=0.5)
        ctx.ok("solution has the frequencies' shape", res.self_cpa.shape == iws.shape, shape=res.self_cpa.shape)
    elif pick == 2:
        hop = np.array([[1.0, 0.3], [0.3, 1.2]])
        ctx.raises(RuntimeError, gt.beb.solve_root, z, eps, conc, hop, hilbert, **opts)
        res = ctx.call(gt.beb.solve_root, z + 0.5j, 0.3*eps, conc, hop, hilbert)
        ctx.ok("solution is a matrix", res.shape == (5, 2, 2), shape=res.shape)
    else:
        c = float(rng.choice([-1, 1])*rng.uniform(0.1, 2))
        ctx.raises(RuntimeError, gt.chemical_potential, lambda mu: c, mu0=float(rng.normal()))
        x0 = float(rng.normal())
        mu = ctx.call(gt.chemical_potential, lambda mu: np.tanh(mu - x0), mu0=float(rng.normal()))
        ctx.ok("root found", abs(mu - x0) < 1e-4, mu=mu, x0=x0)


# --- valid inputs -----------------------------------------------------------------
def _lower(arr):
    return arr.astype({"c": np.complex64, "f": np.float32, "i": np.int32}[arr.dtype.kind]) if isinstance(arr, np.ndarray) else arr


def _leaves(obj, out=None):
    out = [] if out is None else out
    if isinstance(obj, (tuple, list)):
        for oo in obj:
            _leaves(oo, out)
    else:
        out.append(np.asarray(obj))
    return out


FORMS = [e for e in ENTRIES if e.batched and e.core]
NPARRAY = ("siam.", "linearprediction.", "fourier.", "density", "basis.pole.", "matrix.", "linalg.", "pade.", "hermpade.")


@case(CASES, 1400, 14000)
def forms(ctx, rng):
    """Scalar, 0-d, empty, single precision and nested batches of each function."""
    entry = FORMS[ctx.seed[2] % len(FORMS)]
    pick = int(rng.integers(5))
    if pick == 0:  # scalars
        args, kwds = entry.make(rng, ())
        kind = int(rng.integers(3))
        if entry.name.startswith(NPARRAY) and kind == 0:
            kind = 2
        conv = [lambda x: x.item(), lambda x: x[()], lambda x: np.asarray(x)][kind]
        cargs = [conv(np.asarray(a)) if c == 0 and np.ndim(a) == 0 else a for a, c in zip(args, entry.core)]
        cargs += args[len(entry.core):]
        ctx.tag(entry.name, "scalar", kind)
        got = _leaves(ctx.call(entry.fn, *cargs, **kwds))
        big = [np.asarray(a)[None] if c is not None else a for a, c in zip(args, entry.core)] + list(args[len(entry.core):])
        want = _leaves(ctx.call(entry.fn, *big, **kwds))
        for g, w in zip(got, want):
            ctx.ok("scalar has the shape of the element", g.shape == w.shape[1:], got=g.shape, want=w.shape)
            ctx.close("scalar equals array element", g, w[0], rtol=max(entry.rtol, 1e-9), atol=1e-12*(1 + np.nanmax(abs(w), initial=0)))
    elif pick == 1:
        if any(c not in (0, None) for c in entry.core):
            raise Skip
        shape = [(0,), (0, 2), (3, 0)][int(rng.integers(3))]
        args, kwds = entry.make(rng, shape)
        ctx.tag(entry.name, "empty", shape)
        for g in _leaves(ctx.call(entry.fn, *args, **kwds)):
            ctx.ok("empty batch gives empty result", g.shape[:len(shape)] == shape, got=g.shape, want=shape)
    elif pick == 2:
        args, kwds = entry.make(rng, (3,))
        low = [_lower(a) for a in args]
        ctx.tag(entry.name, "single")
        got = _leaves(ctx.call(entry.fn, *low, **kwds))
        want = _leaves(ctx.call(entry.fn, *args, **kwds))
        for g, w in zip(got, want):
            ctx.ok("single precision accepted", g.shape == w.shape, got=g.shape, want=w.shape)
    else:
        shape = [(2, 1, 3), (1, 1, 1, 2), (1,), (2, 2)][int(rng.integers(4))]
        args, kwds = entry.make(rng, shape)
        ctx.tag(entry.name, "batch", shape)
        for g in _leaves(ctx.call(entry.fn, *args, **kwds)):
            ctx.ok("batch shape leads the result", g.shape[:len(shape)] == shape, got=g.shape, want=shape)


# --- arguments left out -------------------------------------------------------
def _fermi_data(rng, n=12):
    beta = float(rng.uniform(1, 20))
    iws = 1j*np.pi/beta*(2*np.arange(n) + 1)
    pole, wgt = rng.normal(size=3), rng.uniform(0.1, 1, 3)
    return beta, iws, np.sum(wgt/(iws[:, None] - pole), axis=-1)


def _x_iw(rng, keys):
    beta, iws, gf = _fermi_data(rng)
    return {k: {"iws": iws, "gf_iw": gf, "beta": beta, "potential": float(rng.normal())}[k] for k in keys}


def _x_tau(rng):
    beta = float(rng.uniform(1, 20))
    tau = np.linspace(0, beta, 2*int(rng.integers(10, 20)) + 1)
    return {"gf_tau": gt.pole_gf_tau(tau, rng.uniform(-1, 1, 2), np.full(2, 0.5), beta), "beta": beta}


def _x_fit(rng):
    z = 1j*np.linspace(0.3, 5, 20)
    return {"z": z, "gf_z": _c(rng, 20), "n_pole": int(rng.integers(2, 6))}


def _x_series(rng, names, n=12):
    return {"an": rng.normal(size=n), **{k: int(rng.integers(1, 3)) for k in names}}


def _x_time(rng):
    tt = np.linspace(0, 5, 41)
    return {"tt": tt, "gf_t": np.exp(-(0.3 + 1j)*tt)*-1j, "z": rng.normal(size=3) + 1j*rng.uniform(0.5, 1, 3)}


def _x_cpa(rng):
    c = float(rng.uniform(0.2, 0.8))
    return {"z": rng.normal(size=2) + 1j*rng.uniform(0.5, 1, 2), "e_onsite": rng.normal(size=2)*0.3, "concentration": np.array([c, 1 - c]),
            "hilbert_trafo": partial(gt.bethe_hilbert_transform, half_bandwidth=1.0)}


def _x_polepade(rng):
    z = 1j*np.linspace(0.2, 6, 24)
    pole, wgt = rng.uniform(-1, 1, 3), rng.uniform(0.2, 1, 3)
    return {"z": z, "fct_z": np.sum(wgt/(z[:, None] - pole), axis=-1)}


def _x_beb(rng):
    a = rng.normal(size=(2, 2))
    z = rng.normal(size=3) + 1j*rng.uniform(0.5, 1, 3)
    return {"z": z, "self_beb_z": np.eye(2)*(0.1*rng.normal(size=2) - 0.3j), "hopping": a + a.T + 3*np.eye(2),
            "hilbert_trafo": partial(gt.bethe_hilbert_transform, half_bandwidth=1.0)}


def _x_lin(rng):
    return {"x": np.cos(0.3*np.arange(20)) + 0.1*rng.normal(size=20), "order": 4}


#: documented defaults: function, required arguments by name (in order), optional arguments (in order, True: also by position)
OMIT = []
for _name in ("bethe", "onedim", "square", "triangular", "honeycomb", "kagome", "lieb", "sc", "bcc", "fcc"):
    OMIT.append((f"lattice.{_name}.dos_mp", lambda rng: {"eps": float(rng.uniform(-0.6, 0.9))}, {"half_bandwidth": 1}, True))
for _name in ("gf_z", "gf_z_mp"):
    OMIT.append((f"lattice.sc.{_name}", lambda rng: {"z": complex(rng.normal(), rng.uniform(0.1, 1))}, {"half_bandwidth": 1}, True))
OMIT += [
    ("lattice.sc.hilbert_transform", lambda rng: {"xi": complex(rng.normal(), rng.uniform(0.1, 1))}, {"half_bandwidth": 1}, True),
    ("lattice.sc.dos", lambda rng: {"eps": rng.uniform(-1, 1, 3)}, {"half_bandwidth": 1}, True),
    ("lattice.box.gf_ret_t", lambda rng: {"tt": rng.uniform(0, 9, 3), "half_bandwidth": 1.3}, {"center": 0}, True),
    ("lattice.bethe.gf_ret_t", lambda rng: {"tt": rng.uniform(0, 9, 3), "half_bandwidth": 1.3}, {"center": 0}, True),
    ("density_iw", lambda rng: _x_iw(rng, ["iws", "gf_iw", "beta"]), {"weights": 1., "moments": (1.,), "n_fit": 0}, True),
    ("density", lambda rng: _x_iw(rng, ["gf_iw", "potential", "beta"]), {"return_err": True, "matrix": False, "total": False}, True),
    ("check_convergence", lambda rng: _x_iw(rng, ["gf_iw", "potential", "beta"]), {"order": 2, "matrix": False, "total": False}, True),
    ("density_error", lambda rng: {"delta_gf_iw": rng.uniform(0.1, 1, 20), "iw_n": 1j*np.arange(1, 40, 2)}, {"noisy": True}, True),
    ("fourier.iw2tau", lambda rng: _x_iw(rng, ["gf_iw", "beta"]), {"moments": (1.,), "fourier": ft.iw2tau_dft, "n_fit": 0}, True),
    ("fourier.tau2iw", _x_tau, {"n_pole": None, "moments": None, "fourier": ft.tau2iw_ft_lin}, True),
    ("fourier.tau2iv", _x_tau, {"fourier": ft.tau2iv_ft_lin}, True),
    ("fourier.tt2z", _x_time, {"laplace": ft.tt2z_lin}, True),
    ("fourier.tt2z_pade", _x_time, {"degree": -1, "pade": gt.hermpade.pade, "quad": "trapz"}, True),
    ("fourier.tt2z_herm2", _x_time, {"herm2": gt.hermpade.Hermite2.from_taylor, "quad": "trapz"}, True),
    ("fourier.tt2z_lpz", _x_time, {"order": None, "quad": "trapz"}, True),
    ("basis.pole.gf_from_moments", lambda rng: {"moments": rng.normal(size=4)}, {"width": 1.}, True),
    ("basis.pole.gf_from_z", _x_fit, {"moments": (), "width": 1., "weight": None}, True),
    ("basis.pole.gf_from_tau", lambda rng: {"gf_tau": _x_tau(rng)["gf_tau"], "n_pole": 4, "beta": 3.1},
     {"moments": (), "occ": False, "width": 1., "weight": None}, True),
    ("hermpade.pade", lambda rng: _x_series(rng, ["num_deg", "den_deg"]), {"fast": False}, True),
    ("hermpade.pade_lstsq", lambda rng: _x_series(rng, ["num_deg", "den_deg"]), {"rcond": None, "fix_q": None}, True),
    ("hermpade.hermite2_lstsq", lambda rng: _x_series(rng, ["p_deg", "q_deg", "r_deg"], 20), {"rcond": None, "fix_qr": None}, True),
    ("linearprediction.pcoeff_covar", _x_lin, {"rcond": None}, True),
    ("linearprediction.predict", lambda rng: {"x": rng.normal(size=9), "pcoeff": np.array([0.4, 0.3j]), "num": 5}, {"stable": False}, True),
    ("matrix.gf_2x2_z", lambda rng: {"z": _c(rng, 3) + 3j, "eps0": 0.3, "eps1": -0.2, "hopping": 0.7}, {"hilbert_trafo": None}, True),
    ("hubbard_dimer_gf_z", lambda rng: {"z": _c(rng, 3) + 3j, "hopping": 0.8, "interaction": 1.7}, {"kind": "+"}, True),
    ("linalg.lstsq_ec", lambda rng: {"a": rng.normal(size=(7, 4)), "b": rng.normal(size=7), "c": rng.normal(size=(2, 4)), "d": rng.normal(size=2)},
     {"rcond": None}, True),
    ("cpa.solve_root", _x_cpa, {"self_cpa_z0": None, "restricted": True}, True),
    ("polepade.number_poles", _x_polepade, {"degree": -1, "weight": None, "n_poles0": None}, False),
    ("polepade.continuation", _x_polepade,
     {"degree": -1, "weight": None, "moments": (), "vandermond": np.polynomial.polynomial.polyvander, "rotate": True, "real_asymp": True}, True),
    ("beb.gf_loc_z", _x_beb, {"diag": True, "rcond": None}, True),
    ("pade.FilterNegImag", lambda rng: {}, {"threshold": 1e-8}, True),
    ("chemical_potential", lambda rng: {"occ_root": partial(lambda x0, mu: np.tanh(mu - x0), float(rng.normal()))}, {"mu0": 0.0, "step0": 1.0}, True),
]


def _flat(obj):
    """Numbers of any result, objects with arrays as attributes included."""
    if callable(obj) and not hasattr(obj, "coef"):
        edge = np.array([[-1j, 1e-8j*0.5], [-1j, 1e-8j*2.0], [-1j, 1.0 + 0j]])
        return [np.asarray(obj(iter(edge)), dtype=float)]
    if isinstance(obj, (tuple, list)):
        return [x for o in obj for x in _flat(o)]
    for names in (("zeros", "poles", "residues", "amplitude"), ("poles", "residues"), ("numer", "denom"), ("coef",)):
        if all(hasattr(obj, k) for k in names):
            return [x for k in names for x in _flat(getattr(obj, k))]
    if isinstance(obj, np.ndarray) or np.isscalar(obj):
        return [np.asarray(obj)]
    return [np.asarray(complex(obj))]


@case(CASES, 10*len(OMIT), 60*len(OMIT))
def omitted_arguments(ctx, rng):
    """Arguments left out have their documented default; by keyword and by position is the same."""
    name, make, optional, positional = OMIT[ctx.seed[2] % len(OMIT)]
    fn = gt
    for part in name.split("."):
        fn = getattr(fn, part)
    args = make(rng)
    ctx.tag(name)
    want = _flat(ctx.call(fn, *args.values()))
    n = int(rng.integers(len(optional) + 1)) if rng.random() < 0.5 else len(optional)
    some = list(rng.permutation(len(optional)))[:n]
    calls = [("required by keyword", (), args), ("default by keyword", tuple(args.values()), {k: v for i, (k, v) in enumerate(optional.items()) if i in some})]
    if positional:
        calls.append(("default by position", tuple(args.values()) + tuple(optional.values())[:n], {}))
    for label, aa, kw in calls:
        got = _flat(ctx.call(fn, *aa, **kw))
        ctx.ok("same structure", len(got) == len(want), fn=name, how=label)
        for g, w in zip(got, want):
            ctx.close(label, g, w, rtol=1e-9, atol=1e-9*np.max(abs(w), initial=0))
