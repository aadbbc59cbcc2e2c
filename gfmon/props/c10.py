"""C10: coherent potential approximation."""
from functools import partial

import numpy as np

from .. import gen, target
from ..core import Skip, case

gt = target.load()
cpa = gt.cpa

CASES = []
RULE = ("Random alloys (1-4 components, weak to strong disorder, complex local self-energies, batched levels and"
        " concentrations), lattices, frequencies (Matsubara, complex contour, close to the real axis), starting"
        " guesses and solvers; non-trivial: at least two different components.")
ASSUMPTIONS = ["solutions are judged within the residual tolerance the solver was asked for",
               "fixed-occupation results within the truncation error of the frequency sum"]

FATOL = 6.1e-6  # default of scipy.optimize.root


def _hilbert(rng):
    """(transform given to the code, own reference, name)."""
    d = float(rng.choice([1.0, 0.5, 2.0, rng.uniform(0.3, 3)]))
    pick = int(rng.integers(0, 5))
    if pick == 0:
        ref = lambda z: 1/(np.sqrt(z - d)*np.sqrt(z + d))  # noqa: E731
        return partial(gt.onedim_gf_z, half_bandwidth=d), ref, d, "onedim"
    if pick == 1:
        ref = lambda z: np.log((z + d)/(z - d))/2/d  # noqa: E731
        return partial(gt.lattice.box.gf_z, half_bandwidth=d), ref, d, "box"
    ref = lambda z: 2/(z + np.sqrt(z - d)*np.sqrt(z + d))  # noqa: E731
    if pick == 2:
        return ref, ref, d, "own bethe"
    return partial([gt.bethe_gf_z, gt.bethe_hilbert_transform][pick - 3], half_bandwidth=d), ref, d, "bethe"


def _alloy(rng, batch, d, strong=2.0):
    n = gen.size(rng, 1, 5, 12)
    e = rng.uniform(-1, 1, (*batch, n))*d*rng.uniform(0.05, strong)
    c = rng.uniform(0.02, 1, (*batch, n) if rng.random() < 0.5 else (n,))
    if rng.random() < 0.15:
        c = np.round(c, 1) + (np.sum(np.round(c, 1), axis=-1, keepdims=True) == 0)
    c = c/np.sum(c, axis=-1, keepdims=True)
    return e, c


def _freq(rng, d):
    nz = gen.size(rng, 1, 24, 300, 0.04)
    pick = int(rng.integers(0, 3))
    if pick == 0:
        beta = gen.loguni(rng, 1, 60)/d
        return 1j*np.pi/beta*(2*np.arange(nz) + 1), "matsubara"
    re = rng.uniform(-3, 3, nz)*d
    if pick == 1:
        return re + 1j*d*gen.loguni(rng, 0.05, 3, nz), "contour"
    return np.sort(re) + 1j*d*gen.loguni(rng, 1e-4, 5e-2), "line"


def _residue(sig, z, e, c, hil):
    """Difference 1/G - 1/<G_i>, own formula."""
    g = hil(z - sig)
    cmpt = 1/(1/g[..., None] + sig[..., None] - e)
    avg = np.sum(c*cmpt, axis=-1)
    return 1/g - 1/avg, g, cmpt, avg


def _solve_ref(z, e, c, hil):
    """Fixed-point iteration, own implementation; keeps the solution causal."""
    sig = np.sum(e*c, axis=-1) + 0j*z
    for _ in range(4000):
        r, *__ = _residue(sig, z, e, c, hil)
        if np.max(abs(r)) < 1e-13:
            break
        sig = sig + r
    return sig, np.max(abs(r))


@case(CASES, 1200, 24000)
def equations(ctx, rng):
    """Component Green's function, root and fixed-point equation for arbitrary media."""
    hil, ref, d, name = _hilbert(rng)
    batch = [(), (), (2, 1), (3, 1)][int(rng.integers(4))]
    e, c = _alloy(rng, batch, d)
    z, zname = _freq(rng, d)
    shape = np.broadcast_shapes(z.shape, batch)
    sig = d*(rng.normal(size=shape) - 1j*abs(rng.normal(size=shape)))
    if rng.random() < 0.3:
        e = e - 1j*d*rng.uniform(0, 0.5, (*shape, e.shape[-1]))
    ctx.tag("eq", name, zname, e.shape[-1], len(batch), np.iscomplexobj(e))
    r, g, cmpt, avg = _residue(sig, z, e, c, ref)
    tol = 1e-9*(1/abs(g) + abs(sig) + np.max(abs(e), axis=-1) + abs(r))*(1 + 1/abs(avg/g))
    got = ctx.call(cpa.gf_cmpt_z, z, sig, e, hil)
    ctx.close("component Green's function", got, cmpt, rtol=1e-8,
              atol=1e-9*abs(cmpt)**2*(1/abs(g) + abs(sig) + np.max(abs(e)))[..., None])
    conc = c.tolist() if rng.random() < 0.3 else c
    root = ctx.call(cpa.self_root_eq, sig, z, e, conc, hil)
    ctx.close("root equation", root, r, rtol=1e-7, atol=10*tol)
    fix = ctx.call(cpa.self_fxdpnt_eq, sig, z, e, conc, hil)
    ctx.close("fixed-point equation", fix, sig + r, rtol=1e-7, atol=10*tol)


@case(CASES, 600, 9000)
def restricted_equation(ctx, rng):
    """Equation restricted to the physical half-plane: unchanged inside, no roots outside."""
    hil, ref, d, name = _hilbert(rng)
    batch = [(), (), (2, 1)][int(rng.integers(3))]
    e, c = _alloy(rng, batch, d)
    z, zname = _freq(rng, d)
    shape = np.broadcast_shapes(z.shape, batch)
    sig = d*(rng.normal(size=shape) - 1j*abs(rng.normal(size=shape)))
    exact = rng.random() < 0.3
    if exact:  # residual vanishes where the imaginary part is cut
        sig = np.full(shape, float(rng.normal())*d + 0j)
        e = np.broadcast_to(sig.real[..., None], (*shape, e.shape[-1])).copy()
    share = float(rng.choice([0, 0.2, 0.8, 1.0]))
    out = rng.random(shape) < share
    dist = np.where(out, d*gen.loguni(rng, 1e-4, 3, shape), 0)
    ctx.tag("restricted", name, zname, e.shape[-1], len(batch), exact, bool(np.any(out)), bool(np.all(out)))
    clipped = np.where(out, sig.real, sig)
    r, g, _cmpt, avg = _residue(clipped, z, e, c, ref)
    tol = 1e-8*(1/abs(g) + abs(clipped) + np.max(abs(e), axis=-1) + abs(r))*(1 + 1/abs(avg/g))
    got = ctx.call(cpa.restrict_self_root_eq, clipped + 1j*dist, z, e, c, hil)
    ctx.close("physical part", np.where(out, 0, got), np.where(out, 0, r), rtol=1e-7, atol=tol)
    ctx.ok("unphysical residuals are enlarged", np.all(~out | (abs(got) >= abs(r) - tol)), got=got, r=r)
    ctx.ok("unphysical points are no roots", np.all(~out | (abs(got) > 1e-5*dist)), got=got, dist=dist)
    if exact:
        return
    ctx.ok("direction is kept", np.all(~out | ((got*r.conj()).real >= -tol*abs(got))), got=got, r=r)


def _start(rng, z, e, c, shape):
    sig = np.broadcast_to(np.sum(e*c, axis=-1), shape) + 0j
    return sig - 1j*abs(rng.normal(size=shape))*0.1


@case(CASES, 600, 9000)
def solution(ctx, rng):
    hil, ref, d, name = _hilbert(rng)
    batch = [(), (), (), (2, 1)][int(rng.integers(4))]
    strong = float(rng.choice([0.3, 1.0, 2.0]))
    e, c = _alloy(rng, batch, d, strong)
    if batch and rng.random() < 0.3:  # the same components in alloys of different concentration
        e = e[0, 0]
        c = rng.uniform(0.02, 1, (*batch, e.size))
        c = c/np.sum(c, axis=-1, keepdims=True)
    z, zname = _freq(rng, d)
    shape = np.broadcast_shapes(z.shape, batch)
    if rng.random() < 0.2:
        e = e - 1j*d*rng.uniform(0, 0.3, (*shape, e.shape[-1]))
    kw, fatol = {}, FATOL
    if rng.random() < 0.5:
        fatol = 1e-10
        kw["options"] = {"fatol": fatol}
    pick = rng.random()
    restricted = True
    if pick < 0.2:
        kw["restricted"] = restricted = False
    elif pick < 0.36:
        kw["method"] = str(rng.choice(["krylov", "anderson", "df-sane"]))
        if kw["method"] == "df-sane":  # other criterion of convergence
            kw["options"] = {"ftol": 0, "fatol": 1e-9, "maxfev": 4000}
            fatol = 1e-8
    if rng.random() < 0.3:
        kw["self_cpa_z0"] = _start(rng, z, e, c, shape)
        if rng.random() < 0.4:  # one starting point for all frequencies or all alloys
            kw["self_cpa_z0"] = [kw["self_cpa_z0"].reshape(-1)[0], kw["self_cpa_z0"][..., :1],
                                 kw["self_cpa_z0"].reshape(-1, shape[-1])[0]][int(rng.integers(3))]
    if rng.random() < 0.3:
        kw["restricted"] = restricted
    conc = c.tolist() if rng.random() < 0.3 and "self_cpa_z0" not in kw else c
    ctx.tag("solve", name, zname, e.shape[-1], len(batch), strong, restricted, kw.get("method"), np.iscomplexobj(e))
    easy = strong <= 0.3 and np.min(z.imag) > 0.3*d and restricted and "method" not in kw and "options" not in kw
    try:
        sig = ctx.call(cpa.solve_root, z, e, conc, hil, **kw)
    except (RuntimeError, OverflowError):  # no convergence of the scipy solver
        if easy:
            ctx.ok("weak disorder is solvable", False, strong=strong, z=z)
        raise Skip from None
    ctx.ok("shape", sig.shape == shape, got=sig.shape, want=shape)
    if restricted:
        phys = sig.real + 1j*np.minimum(sig.imag, 0)
        ctx.ok("restricted to the physical half-plane", np.all(sig.imag <= 1.1e3*fatol), sig=sig)
    else:
        phys = sig
    r, g, cmpt, avg = _residue(phys, z, e, c, ref)
    # clipping and rounding of the self-energy are amplified by the scattering
    shift = 1e-7*d
    slope = abs(_residue(phys - 1j*shift, z, e, c, ref)[0] - r)/shift
    noise = abs(_residue(phys, z, e, c, lambda x: ref(x)*(1 + 1e-7))[0] - r)/1e-7*4e-15
    ctx.close("coherent potential condition", r, 0*r, atol=3*fatol + 1e-8*fatol/FATOL + noise
              + 2*slope*(np.maximum(sig.imag if restricted else 0, 0) + 1e-14*abs(phys)))
    gtol = (4*fatol + 1e-11)*abs(g)**2 + 1e-10*abs(g)
    got = ctx.call(cpa.gf_cmpt_z, z, phys, e, hil)
    # the deviation of the components is amplified by the local scattering
    ctx.close("average of components", np.sum(c*got, axis=-1), g, atol=gtol)
    if restricted:
        ctx.ok("causal", np.all(cmpt.imag <= 1e-9*abs(cmpt)), cmpt=cmpt)
    # the causal solution is unique; compare where the own iteration converges
    if restricted and fatol < 1e-9 and np.min(z.imag) > 0.1*d:
        want, err = _solve_ref(z, e, c, ref)
        if err < 1e-12:
            ctx.tag("unique", name)
            ctx.close("effective medium", phys, want, atol=1e-6*d)


@case(CASES, 200, 2000)
def limits(ctx, rng):
    hil, _ref, d, name = _hilbert(rng)
    z, zname = _freq(rng, d)
    pick = int(rng.integers(0, 3))
    ctx.tag("limit", pick, name, zname)
    n = 1 if pick == 0 else int(rng.integers(2, 5))
    if pick < 2:  # single / identical components
        e0 = float(rng.normal())*d
        e = np.full(n, e0)
        c = rng.uniform(0.1, 1, n)
        c /= c.sum()
        sig = ctx.call(cpa.solve_root, z, e, c, hil, options={"fatol": 1e-10})
        ctx.close("clean limit", sig, np.full(z.shape, e0 + 0j), atol=1e-9*d)
        return
    e = rng.normal(size=n)*0.3
    c = rng.uniform(0.1, 1, n)
    c /= c.sum()
    z = z.real + 1j*np.maximum(z.imag, 0.3)
    try:
        sig = ctx.call(cpa.solve_root, z, e, c, lambda x: 1/x, options={"fatol": 1e-10})
    except RuntimeError:
        raise Skip from None
    ctx.close("atomic limit", 1/(z - sig), np.sum(c/(z[:, None] - e), axis=-1), rtol=1e-5)


@case(CASES, 150, 2000)
def fixed_occupation(ctx, rng):
    hil, ref, d, name = _hilbert(rng)
    beta = gen.loguni(rng, 2, 25)/d
    batch = [(), (), (2, 1)][int(rng.integers(3))]
    e, c = _alloy(rng, (), d, 1.0)
    if batch:
        e = rng.uniform(-1, 1, (2, 1, e.shape[-1]))*d*0.6
        c = np.stack([c, c[::-1]]) if rng.random() < 0.5 else c
    nb = 2 if batch else 1
    occ = float(rng.uniform(0.1, 0.9))*nb
    kw = {}
    pade = rng.random() < 0.4
    if pade:
        iws, wt = gt.pade_frequencies(max(30, int(beta*d*2.5)), beta)
        kw["weights"] = wt
        bound = 2e-5
    else:
        n_iw = int(max(60, 8*beta*d))
        iws = 1j*np.pi/beta*(2*np.arange(n_iw) + 1)
        wt = np.ones(n_iw)
        width = 2.5*d + np.max(abs(e)) + 2
        bound = 2e-5 + 0.3*nb*width**3/abs(iws[-1])**3/3/np.pi
    if rng.random() < 0.3:
        kw["mu0"] = float(rng.normal())*0.3*d
    if rng.random() < 0.2:
        kw["restricted"] = False
    if rng.random() < 0.3:
        kw["n_fit"] = int(rng.integers(1, 3))
    e_inf, fatol = e, FATOL
    cc = np.asarray(c)[..., None, :]
    shape = np.broadcast_shapes(iws.shape, batch)
    if rng.random() < 0.25:  # local self-energy of the components, vanishing at high frequencies
        v2, pos = rng.uniform(0, 0.3, e.shape[-1])*d**2, rng.normal(size=e.shape[-1])*0.3*d
        e = e + v2/(iws[:, None] - pos)
        bound += 0.3*nb*d**2/abs(iws[-1])**2
    if rng.random() < 0.25:  # starting guess containing the chemical potential
        kw.setdefault("mu0", 0.0)
        kw["self_cpa_iw0"] = (np.broadcast_to(np.sum(cc*e, axis=-1) - kw["mu0"], shape)
                              + d*rng.uniform(-0.1, 0.1) - 0.05j*d*rng.random())
    if rng.random() < 0.2:
        fatol = 1e-8
        kw["options"] = {"fatol": fatol}
    ctx.tag("fxdocc", name, e.shape[-1], len(batch), pade, "mu0" in kw, kw.get("restricted", True), kw.get("n_fit"),
            np.iscomplexobj(e), "self_cpa_iw0" in kw, "options" in kw)
    try:
        sig, mu = ctx.call(cpa.solve_fxdocc_root, iws, e if batch or rng.random() < 0.5 else e.tolist(), c, hil, beta,
                           occ=occ, **kw)
    except RuntimeError:
        raise Skip from None
    ctx.ok("shape", sig.shape == shape, got=sig.shape)
    r, g, *__ = _residue(sig, iws, e - mu, cc, ref)
    ctx.close("coherent potential condition", r, 0*r, atol=4*fatol)
    m2 = np.sum(cc*(e_inf - mu), axis=-1)  # exact second moment of the average Green's function
    m2 = np.broadcast_to(m2, (*shape[:-1], 1))[..., 0]
    tail = 1/(iws - m2[..., None])
    n = np.sum(2/beta*np.sum(wt*(g - tail).real, axis=-1) + 0.5*(1 - np.tanh(0.5*beta*m2)))
    if pade:  # subtracting the first moments: Pade sum is exact up to exponentially small terms
        bound += 1e-6
    ctx.close("requested occupation", n, occ, atol=bound)
    if kw.get("restricted", True) and rng.random() < 0.3 and not batch:
        try:
            other = ctx.call(cpa.solve_root, iws, np.asarray(e) - mu, c, hil, options={"fatol": 1e-9})
        except RuntimeError:
            return
        ctx.close("same medium as with known chemical potential", sig, other, atol=2e-3*d)
