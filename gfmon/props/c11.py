"""C11: Blackman-Esterling-Berk formalism."""
from functools import partial

import numpy as np

from .. import gen, target
from ..core import Skip, case

gt = target.load()
beb, cpa = gt.beb, gt.cpa

CASES = []
RULE = ("Random alloys (1-3 components, positive/indefinite/rank-deficient symmetric hopping, complex local"
        " self-energies), lattices, frequencies, effective media, batch shapes; the lattice average is integrated"
        " numerically as reference; non-trivial: at least two components or scaled hopping.")
ASSUMPTIONS = ["solutions are judged within the residual tolerance the solver was asked for",
               "the reference integral of the density of states is a Gauss quadrature (converged off the real axis)"]

FATOL = 6.1e-6


def _lattice(rng):
    """Hilbert transform and Gauss quadrature of the same density of states."""
    d = float(rng.choice([1.0, 0.5, 2.0, rng.uniform(0.4, 2.5)]))
    n = 1500
    k = np.arange(1, n + 1)
    pick = int(rng.integers(0, 3))
    if pick == 0:
        x, w = np.cos(np.pi*k/(n + 1)), 2/(n + 1)*np.sin(np.pi*k/(n + 1))**2
        fn = [gt.bethe_gf_z, gt.bethe_hilbert_transform][int(rng.integers(2))]
        return partial(fn, half_bandwidth=d), d*x, w, d, "bethe"
    if pick == 1:
        x, w = np.cos(np.pi*(k - 0.5)/n), np.full(n, 1/n)
        return partial(gt.onedim_gf_z, half_bandwidth=d), d*x, w, d, "onedim"
    x, w = np.polynomial.legendre.leggauss(240)
    return partial(gt.lattice.box.gf_z, half_bandwidth=d), d*x, w/2, d, "box"


def _hopping(rng, n):
    """Hermitian hopping whose rank is well defined: no eigenvalue close to the default cut-off."""
    while True:
        t, name = _draw_hopping(rng, n)
        t = 0.5*(t + t.conj().T)
        ev = abs(np.linalg.eigvalsh(t))
        if not np.any((ev > 0.3*n*np.finfo(float).eps*ev.max()) & (ev < 1e-8*ev.max())):
            return t, name


def _draw_hopping(rng, n):
    t, name = _hopping_any(rng, n)
    if rng.random() < 0.2 and name != "ones":
        t, name = -t, "minus-" + name
    if rng.random() < 0.35 and n > 1:  # Hermitian hopping with phases
        if rng.random() < 0.5 or name == "ones":
            phase = np.exp(2j*np.pi*rng.random(n))
            t, name = phase[:, None]*t*phase.conj(), "gauge-" + name
        elif name.endswith(("positive", "indefinite", "definite")):
            a = rng.normal(size=(n, n))*rng.uniform(0.2, 1)*np.max(abs(t))
            t, name = t + 0.5j*(a - a.T), "complex-indefinite"
        else:
            a = rng.normal(size=(n, max(1, n - 1))) + 1j*rng.normal(size=(n, max(1, n - 1)))
            t, name = a @ a.conj().T, "complex-deficient"
    if "ones" in name:
        return t, name
    if name != "ones":  # keep the band-width of the order of one, such that the quadrature is converged
        t = t/np.max(abs(np.linalg.eigvalsh(t)))*rng.uniform(0.3, 1.4)
    return t, name


def _hopping_any(rng, n):
    pick = int(rng.integers(0, 7))
    if pick == 6:  # components without hopping between them
        t = np.diag(rng.uniform(0.3, 1.4, n)*rng.choice([-1, 1], n, p=[0.3, 0.7]))
        if n > 2 and rng.random() < 0.5:
            t[0, 1] = t[1, 0] = rng.normal()
        return t, "sparse"
    if pick == 0:
        return np.ones((n, n))*float(rng.choice([1.0, rng.uniform(0.3, 1)]))/max(1, n - 1), "ones"
    if pick == 1:
        xi = rng.uniform(0.3, 1.5, n)
        return np.outer(xi, xi), "rank1"
    if pick == 2 and n > 2:
        a = rng.normal(size=(n, n - 1))
        return a @ a.T/n, "deficient"
    if pick == 3:
        t = rng.uniform(0.2, 1.2, (n, n))
        return 0.5*(t + t.T), "positive"
    if pick == 4:
        t = rng.normal(size=(n, n))
        return 0.5*(t + t.T), "indefinite"
    a = rng.normal(size=(n, n))
    return a @ a.T/n + 0.1*np.eye(n), "definite"


def _local(z, sig, t, x, w):
    """sum_k w_k [z - sig - x_k t]^-1."""
    n = t.shape[-1]
    a = z[..., None, None]*np.eye(n) - sig
    out = np.zeros_like(a + 0j)
    for lo in range(0, x.size, 250):
        m = a[..., None, :, :] - x[lo:lo+250, None, None]*t
        out += np.einsum("k,...kij->...ij", w[lo:lo+250], np.linalg.inv(m))
    return out


def _sigma(rng, shape, n, d):
    """Random dissipative effective medium."""
    h = rng.normal(size=(*shape, n, n))*d
    g = rng.normal(size=(*shape, n, n))*np.sqrt(d)*0.6
    if rng.random() < 0.4:
        h = h + 1j*rng.normal(size=h.shape)*d
        g = g + 1j*rng.normal(size=h.shape)*np.sqrt(d)*0.6
    h = 0.5*(h + np.swapaxes(h, -1, -2).conj())
    return h - 1j*(g @ np.swapaxes(g, -1, -2).conj() + 0.1*d*np.eye(n))


@case(CASES, 1200, 20000)
def local_gf(ctx, rng):
    """Local Green's function matrix for arbitrary media is the average over the lattice."""
    hil, x, w, d, name = _lattice(rng)
    n = gen.size(rng, 1, 4, 7)
    t, tname = _hopping(rng, n)
    shape = [(), (3,), (2, 2), (1,)][int(rng.integers(4))]
    z = rng.uniform(-2, 2, shape)*d + 1j*d*gen.loguni(rng, 0.1, 2, shape)
    sig = _sigma(rng, () if rng.random() < 0.2 else shape, n, d)
    ctx.tag("local", name, tname, n, shape)
    want = _local(np.asarray(z), sig, t, x, w)
    z = np.asarray(z)
    targ = t.tolist() if rng.random() < 0.3 else t
    tol = 3e-9*np.max(abs(want), axis=(-1, -2))
    got = ctx.call(beb.gf_loc_z, z, sig, targ, hil, diag=False)
    ctx.close("local matrix", got, want, atol=tol[..., None, None])
    got = ctx.call(beb.gf_loc_z, z, sig, targ, hil)
    ctx.close("local diagonal", got, np.diagonal(want, axis1=-2, axis2=-1), atol=tol[..., None])
    if tname.endswith(("definite", "positive", "indefinite")):
        ev, vec = np.linalg.eigh(t)
        small = ev.copy()
        small[np.argmin(abs(ev))] = 0
        if n > 1 and np.max(abs(small)) > 0 and np.min(abs(ev)) < 0.5*np.max(abs(ev)):
            rc = 1.5*np.min(abs(ev))/np.max(abs(ev))
            keep = abs(ev) > np.max(abs(ev))*rc
            cut = (vec*np.where(keep, ev, 0)) @ vec.conj().T
            want = _local(z, sig, cut, x, w)
            got = ctx.call(beb.gf_loc_z, z, sig, t, hil, rcond=rc)
            ctx.close("cut-off hopping", got, np.diagonal(want, axis1=-2, axis2=-1),
                      atol=3e-9*np.max(abs(want)))
            got = ctx.call(beb.gf_loc_z, z, sig, t, hil, rcond=rc, diag=False)
            ctx.close("cut-off hopping, matrix", got, want, atol=3e-9*np.max(abs(want)))
            unit = 10.0**rng.integers(-12, 13)  # relative cut-off
            cutted = ctx.call(beb.SpecDec(*gt.matrix.decompose_her(t*unit)).truncate, rcond=rc)
            ctx.close("cut-off truncation", cutted.reconstruct(kind="full")/unit, cut, atol=1e-11*np.max(abs(t)))
            ctx.ok("cut-off rank", cutted.eig.size == np.sum(keep) and cutted.is_trunacted == (np.sum(keep) < n),
                   got=cutted.eig, keep=keep)
    # decomposition of the hopping
    dec = beb.SpecDec(*gt.matrix.decompose_her(t))
    us, sq, suh = ctx.call(dec.partition, return_sqrts=True)
    ctx.close("partition", us @ suh, t, atol=1e-12*np.max(abs(t))*n)
    ctx.close("square roots", sq**2, dec.eig, atol=1e-12*np.max(abs(t)))
    us2, suh2 = ctx.call(dec.partition)
    ctx.close("partition without roots", us2 @ suh2, t, atol=1e-12*np.max(abs(t))*n)
    tr = ctx.call(dec.truncate)
    rank = np.linalg.matrix_rank(t)
    ctx.ok("rank", tr.eig.size == rank and tr.is_trunacted == (rank < n), got=tr.eig, rank=rank)
    ctx.close("truncation", tr.reconstruct(), t, atol=1e-12*np.max(abs(t))*n)


@case(CASES, 800, 12000)
def root_equation(ctx, rng):
    """Root equation for arbitrary media: difference of inverse local and average Green's function."""
    hil, x, w, d, name = _lattice(rng)
    n = int(rng.integers(1, 4))
    t, tname = _hopping(rng, n)
    z = rng.uniform(-2, 2, 3)*d + 1j*d*gen.loguni(rng, 0.1, 2, 3)
    sig = _sigma(rng, (3,), n, d)
    e = rng.normal(size=n)*d
    c = rng.uniform(0.1, 1, n)
    c /= c.sum()
    dec = beb.SpecDec(*gt.matrix.decompose_her(t)).truncate()
    ctx.tag("root", name, tname, n)
    got = ctx.call(beb.self_root_eq, sig.copy(), z, e, c, dec, hil)
    inv = np.linalg.inv(_local(z, sig, t, x, w))
    avg = (np.diagonal(inv, axis1=-2, axis2=-1) + np.diagonal(sig, axis1=-2, axis2=-1) - e)/c
    want = inv - avg[..., None]*np.eye(n)
    scale = np.max(abs(inv)) + np.max(abs(avg))
    ctx.close("root equation", got, want, atol=1e-6*scale*max(1, np.max(np.linalg.cond(inv))*1e-3))


@case(CASES, 500, 8000)
def restricted_equation(ctx, rng):
    """Equation restricted to dissipative diagonals: unchanged inside, no roots outside."""
    hil, _x, _w, d, name = _lattice(rng)
    n = int(rng.integers(1, 4))
    t, tname = _hopping(rng, n)
    shape = [(3,), (2, 2), (1,)][int(rng.integers(3))]
    z = rng.uniform(-2, 2, shape)*d + 1j*d*gen.loguni(rng, 0.5, 3, shape)
    sig = _sigma(rng, shape, n, d)
    e = rng.normal(size=n)*d
    c = rng.uniform(0.1, 1, n)
    c /= c.sum()
    idx = np.arange(n)
    out = rng.random((*shape, n)) < float(rng.choice([0, 0.2, 0.6, 1.0]))
    exact = n == 1 and rng.random() < 0.5
    if exact:  # residual vanishes where the imaginary part is cut
        sig[..., 0, 0] = e[0]
    dist = np.where(out, d*gen.loguni(rng, 1e-4, 3, out.shape), 0)
    ctx.tag("restricted", name, tname, n, exact, bool(np.any(out)), bool(np.all(out)))
    clipped = sig.copy()
    clipped[..., idx, idx] = np.where(out, sig[..., idx, idx].real, sig[..., idx, idx])
    arg = clipped.copy()
    arg[..., idx, idx] += 1j*dist
    dec = beb.SpecDec(*gt.matrix.decompose_her(t)).truncate()
    want = ctx.call(beb.self_root_eq, clipped.copy(), z, e, c, dec, hil)
    if not np.all(np.isfinite(want)):
        raise Skip
    scale = np.max(abs(want)) + d + np.max(abs(z)) + np.max(abs(sig))
    tol = 1e-9*scale*(1 + 1/np.min(c))
    got = ctx.call(beb.restrict_self_root_eq, arg, z, e, c, dec, hil)
    mask = np.zeros(want.shape, dtype=bool)
    mask[..., idx, idx] = out
    ctx.close("physical part", np.where(mask, 0, got), np.where(mask, 0, want), atol=tol)
    gd, wd = got[..., idx, idx], want[..., idx, idx]
    ctx.ok("unphysical residuals are enlarged", np.all(~out | (abs(gd) >= abs(wd) - tol)), got=gd, want=wd)
    ctx.ok("unphysical points are no roots", np.all(~out | (abs(gd) > 1e-5*dist)), got=gd, dist=dist)
    if not exact:
        ctx.ok("direction is kept", np.all(~out | ((gd*wd.conj()).real >= -tol*abs(gd))), got=gd, want=wd)


@case(CASES, 800, 12000)
def solution(ctx, rng):
    hil, x, w, d, name = _lattice(rng)
    n = int(rng.choice([1, 2, 2, 2, 3]))
    t, tname = _hopping(rng, n)
    if tname == "indefinite" and rng.random() < 0.5:
        raise Skip
    strong = float(rng.choice([0.3, 0.8, 1.5]))
    batch = [(), (), (2, 1)][int(rng.integers(3))]
    e = rng.uniform(-1, 1, (*batch, n))*d*strong
    c = rng.uniform(0.1, 1, (*batch, n) if rng.random() < 0.5 else (n,))
    if batch and rng.random() < 0.3:  # the same components in alloys of different concentration
        e, c = e[0, 0], rng.uniform(0.1, 1, (*batch, n))
    c /= c.sum(axis=-1, keepdims=True)
    nz = int(rng.integers(1, 6))
    if rng.random() < 0.5:
        z = 1j*np.pi*d/gen.loguni(rng, 2, 15)*(2*np.arange(nz) + 1)
    else:
        z = rng.uniform(-2, 2, nz)*d + 1j*d*gen.loguni(rng, 0.1, 2, nz)
    shape = np.broadcast_shapes(z.shape, batch)
    if rng.random() < 0.2:
        e = e - 1j*d*rng.uniform(0, 0.3, (*shape, n))
    kw, fatol = {}, FATOL
    if rng.random() < 0.5:
        fatol = 1e-9
        kw["options"] = {"fatol": fatol}
    restricted = True
    if rng.random() < 0.2:
        kw["restricted"] = restricted = False
    if rng.random() < 0.2:
        kw["self_beb_z0"] = _sigma(rng, (), n, d*0.2)
    ctx.tag("solve", name, tname, n, strong, restricted, len(batch), "self_beb_z0" in kw, np.iscomplexobj(e))
    if rng.random() < 0.25:  # explicit cut-off of the hopping; reference with the hopping cut by hand
        ev, vec = np.linalg.eigh(t)
        size = np.sort(abs(ev))/np.max(abs(ev))
        if n > 1 and 1e-3 < size[0] < 0.6*size[1] and rng.random() < 0.7:
            kw["rcond"] = float(np.sqrt(size[0]*size[1]))
            ref_t = (vec*np.where(abs(ev) > kw["rcond"]*np.max(abs(ev)), ev, 0)) @ vec.conj().T
        else:
            kw["rcond"], ref_t = 1e-8, t
    else:
        ref_t = t
    targ = t.tolist() if rng.random() < 0.2 else t
    easy = strong <= 0.3 and np.min(z.imag) > 0.5*d and tname in ("ones", "rank1", "definite") and not kw
    try:
        sig = ctx.call(beb.solve_root, z, e, c, targ, hil, **kw)
    except (RuntimeError, OverflowError, ValueError, np.linalg.LinAlgError) as err:
        if easy or not (isinstance(err, RuntimeError) or "Jacobian" in str(err) or "infs" in str(err)
                        or isinstance(err, (OverflowError, np.linalg.LinAlgError))):
            raise
        raise Skip from None
    ctx.ok("shape", sig.shape == (*shape, n, n), got=sig.shape)
    idx = np.arange(n)
    phys = sig.copy()
    if restricted:
        dia = sig[..., idx, idx]
        ctx.ok("restricted to the physical half-plane", np.all(dia.imag <= 1.1e3*fatol), dia=dia)
        phys[..., idx, idx] = dia.real + 1j*np.minimum(dia.imag, 0)
    elif np.any(phys[..., idx, idx].imag > 1e-9):
        raise Skip  # unphysical solution, reference not applicable
    gloc = _local(np.broadcast_to(z, shape), phys, ref_t, x, w)
    if np.max(np.linalg.cond(gloc)) > 1e6:
        raise Skip
    inv = np.linalg.inv(gloc)
    avg = (inv[..., idx, idx] + phys[..., idx, idx] - e)/c
    res = inv - avg[..., None]*np.eye(n)
    ctx.close("matrix self-consistency", res, 0*res,
              atol=4*fatol + 3e-9*np.max(abs(inv)) + 1e-10*np.max(np.linalg.cond(gloc))*np.max(abs(inv)))
    got = ctx.call(beb.gf_loc_z, np.broadcast_to(z, shape), phys, ref_t, hil)
    gtol = (4*fatol*np.max(abs(gloc), axis=(-1, -2))**2 + 1e-7*np.max(abs(gloc), axis=(-1, -2)))[..., None]
    ctx.close("local Green's function", got, gloc[..., idx, idx], atol=gtol)
    want = c/(inv[..., idx, idx] + phys[..., idx, idx] - e)
    ctx.close("component average", got, want, atol=20*gtol)
    full = ctx.call(beb.gf_loc_z, np.broadcast_to(z, shape), phys, ref_t, hil, diag=False)
    ctx.close("diagonal in the components", full*(1 - np.eye(n)), 0*full, atol=20*gtol[..., None])
    if restricted:
        ctx.ok("causal", np.all(got.imag <= 1e-8 + 20*gtol), got=got)


@case(CASES, 300, 4000)
def cpa_limit(ctx, rng):
    """Equal hopping: average Green's function and components of the CPA."""
    hil, _x, _w, d, name = _lattice(rng)
    n = int(rng.integers(1, 4))
    e = rng.uniform(-1, 1, n)*d*rng.uniform(0.1, 1)
    c = rng.uniform(0.1, 1, n)
    c /= c.sum()
    z = rng.uniform(-2, 2, 4)*d + 1j*d*gen.loguni(rng, 0.2, 2, 4)
    ctx.tag("cpa", name, n)
    scale = float(rng.choice([1.0, rng.uniform(0.5, 1.5)]))
    try:
        sig = ctx.call(beb.solve_root, z, e, c, scale*np.ones((n, n)), hil, options={"fatol": 1e-9})
        ref = ctx.call(cpa.solve_root, z/scale, e/scale, c, hil, options={"fatol": 1e-9})
    except (RuntimeError, OverflowError):
        raise Skip from None
    except ValueError as err:
        if "Jacobian" in str(err):
            raise Skip from None
        raise
    gf = ctx.call(beb.gf_loc_z, z, sig, scale*np.ones((n, n)), hil)
    want = c*cpa.gf_cmpt_z(z/scale, ref, e/scale, hil)/scale
    ctx.close("CPA limit", gf, want, atol=1e-5*np.max(abs(want)))
    ctx.close("CPA average", np.sum(gf, axis=-1), hil(z/scale - ref)/scale, atol=1e-5*np.max(abs(want)))


@case(CASES, 300, 4000)
def limits(ctx, rng):
    hil, _x, _w, d, name = _lattice(rng)
    z = rng.uniform(-2, 2, 4)*d + 1j*d*gen.loguni(rng, 0.3, 2, 4)
    pick = int(rng.integers(2))
    ctx.tag("limit", pick, name)
    opt = {"options": {"fatol": 1e-9}}
    if pick == 0:  # a single component is the clean lattice with scaled hopping
        t, e = float(rng.uniform(0.3, 2)), float(rng.normal())*d
        sig = ctx.call(beb.solve_root, z, np.array([e]), np.array([1.0]), np.array([[t]]), hil, **opt)
        ctx.close("clean self-energy", sig[..., 0, 0], np.full(4, e + 0j), atol=1e-6*d)
        gf = ctx.call(beb.gf_loc_z, z, sig, np.array([[t]]), hil)
        ctx.close("clean lattice", gf[..., 0], hil((z - e)/t)/t, rtol=1e-5)
    else:  # no dispersion
        n = int(rng.integers(1, 4))
        e = rng.normal(size=n)*d
        c = rng.uniform(0.1, 1, n)
        c /= c.sum()
        t, tname = _hopping(rng, n)
        ev = np.linalg.eigvalsh(t)
        if np.min(abs(ev)) < 1e-3*np.max(abs(ev)):
            raise Skip
        try:
            sig = ctx.call(beb.solve_root, z, e, c, t, lambda x: 1/x, **opt)
        except (RuntimeError, ValueError):
            raise Skip from None
        gf = ctx.call(beb.gf_loc_z, z, sig, t, lambda x: 1/x)
        ctx.close("atomic limit", gf, c/(z[:, None] - e), atol=1e-5*np.max(abs(1/z.imag)))
