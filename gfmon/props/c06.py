"""C06: pole fits honour their constraints and are optimal."""
import numpy as np

from .. import gen, target
from ..core import Skip, case

gt = target.load()
from gftool.basis import pole as bp  # noqa: E402

CASES = []
QUICK = 6  # cheap cases: more of them in the quick tier
RULE = ("Random data (exactly representable, noisy, pure noise), random moments, number of poles, widths, weights, batch"
        " shapes; non-trivial: fits with more data than poles and a non-vanishing residual or at least one constraint.")
ASSUMPTIONS = ["optimality is decided by the normal equations projected on the null space of the constraints"]


def _cheb(num, width):
    k = np.arange(1, num + 1)
    return np.asarray(width)*np.cos((2*k - 1)*np.pi/(2*num))[::-1]


def _check_poles(ctx, poles, num, width):
    want = _cheb(num, width)
    ctx.close("poles are Chebyshev nodes of the width", np.sort(poles, axis=-1), np.sort(want, axis=-1),
              rtol=1e-9, atol=1e-11*np.max(abs(want), initial=1e-3))


def _moment_check(ctx, label, poles, resid, moments):
    k = np.arange(moments.shape[-1])
    if k.size == 0:
        return
    poles, resid = np.asarray(poles), np.asarray(resid)
    vander = poles[..., None, :]**k[:, None]
    got = np.sum(vander*resid[..., None, :], axis=-1)
    size = np.sum(abs(vander)*abs(resid[..., None, :]), axis=-1)
    size = np.maximum(size, np.max(size, axis=-1, keepdims=True))
    ctx.close(label, got, np.broadcast_to(moments, got.shape), atol=1e-11*size + 1e-300)


def _none_width(moments, num):
    moments = np.asarray(moments)
    if moments.shape[-1] <= 1:
        return 1.0
    second = abs(moments[..., 1:2])
    return np.where(second >= 0.1, second/np.max(_cheb(num, 1.0)), 1.0)


@case(CASES, 1500, 30000)
def from_moments(ctx, rng):
    num = int(rng.integers(1, 9))
    batch = [(), (), (3,), (2, 3), (1, 2)][int(rng.integers(5))]
    mom = rng.normal(size=(*batch, num))*2.0**rng.integers(-2, 3)
    if rng.random() < 0.3:
        mom[..., 0] = 1
    if rng.random() < 0.3 and num > 1:
        mom[..., 1] *= 10.0**rng.uniform(-4, -1)
    if rng.random() < 0.2:
        mom = np.round(mom).astype(int)
    pick = int(rng.integers(4))
    width = [None, 1.0, float(gen.loguni(rng, 0.2, 5)), 2][pick]
    kw = {} if pick == 1 else {"width": width}
    arg = mom.tolist() if rng.random() < 0.3 else mom
    fn = [bp.gf_from_moments, bp.PoleFct.from_moments, bp.PoleGf.from_moments][int(rng.integers(3))]
    gf = ctx.call(fn, arg, **kw)
    ctx.tag("from_moments", num, pick, len(batch), mom.dtype)
    ctx.ok("shape", np.shape(gf.residues) == (*batch, num), shape=np.shape(gf.residues))
    w = width if width is not None else _none_width(mom, num)
    _check_poles(ctx, gf.poles, num, w)
    _moment_check(ctx, "moments reproduced", gf.poles, gf.residues, mom)
    obj = bp.PoleFct(*gf)
    mom2 = ctx.call(obj.moments, np.arange(1, num + 1))
    size = np.sum(abs(gf.residues), axis=-1, keepdims=True)*np.maximum(1, np.max(abs(gf.poles)))**num
    ctx.close("moments() of the fit", mom2, mom, atol=1e-10*size + 1e-300)


def _kkt(ctx, label, A, b, C, x):
    """x minimizes |Ax-b| subject to Cx fixed."""
    cond = 1.0
    if C.shape[0]:
        _, s, vh = np.linalg.svd(C, full_matrices=True)
        null = vh[C.shape[0]:].T
        cond = s[0]/s[-1]  # rounding of the null space
    else:
        null = np.eye(A.shape[1])
    if null.shape[1] == 0:
        return
    r = A @ x - b
    AN = A @ null
    un, sn, _ = np.linalg.svd(AN, full_matrices=False)
    keep = sn > 1e-11*sn[0] if sn.size and sn[0] > 0 else np.zeros(0, bool)
    proj = un[:, keep].T @ r
    ref = np.linalg.norm(b) + np.linalg.norm(A @ np.diag(x)) + 1e-300
    # directions of tiny singular value rotate by rounding
    rot = 1e-14*np.linalg.norm(r)*sn[0]/sn[keep]*np.sqrt(b.size) if np.any(keep) else 0
    ctx.close(label, proj/ref, 0*proj, atol=1e-9*max(1, b.size/40, 1e-4*cond) + rot/ref)


def _data(rng, shape):
    return rng.normal(size=shape)


@case(CASES, 900, 16000)
def from_z(ctx, rng):
    n_z = gen.size(rng, 8, 40, 1200)
    n_pole = int(rng.integers(1, 8))
    n_mom = int(rng.integers(0, min(n_pole, 4) + 1))
    batch = [(), (), (2,), (3, 2)][int(rng.integers(4))]
    beta = gen.beta(rng, 1, 30)
    zpick = int(rng.integers(3))
    if zpick == 0:
        z = 1j*np.pi/beta*(2*np.arange(n_z) + 1)
    elif zpick == 1:
        z = rng.normal(size=n_z) + 1j*rng.uniform(0.3, 2, n_z)
    else:
        z = rng.normal(size=(*batch, n_z)) + 1j*rng.uniform(0.3, 2, (*batch, n_z))
    p, w = rng.normal(size=(*batch, 1, 5)), rng.normal(size=(*batch, 1, 5))
    gf = np.sum(w/(z[..., None] - p), axis=-1)
    noise = [0, 1e-3, 1.0][int(rng.integers(3))]
    gf = gf + noise*(rng.normal(size=gf.shape) + 1j*rng.normal(size=gf.shape))
    mom = np.sum(w*p**np.arange(n_mom)[:, None], axis=-1)
    if noise == 1.0:
        mom = mom + rng.normal(size=mom.shape)
    wpick = int(rng.integers(4))
    weight = [None, abs(z)**rng.integers(1, 3), gen.loguni(rng, 0.1, 10, n_z),
              gen.loguni(rng, 0.1, 10, (*batch, n_z))][wpick]
    pick = int(rng.integers(3))
    width = [None, 1.0, float(gen.loguni(rng, 0.5, 4))][pick]
    kw = {"moments": mom} if n_mom or rng.random() < 0.5 else {}
    if not kw:
        n_mom = 0
    elif not batch and rng.random() < 0.3:
        kw["moments"] = mom.tolist()
    if weight is not None:
        kw["weight"] = weight
    fn = [bp.gf_from_z, bp.PoleFct.from_z, bp.PoleGf.from_z][int(rng.integers(3))]
    got = ctx.call(fn, z, gf, n_pole=n_pole, width=width, **kw)
    ctx.tag("from_z", n_mom, wpick, pick, zpick, len(batch), noise)
    ctx.ok("shape", got.residues.shape == (*batch, n_pole), shape=got.residues.shape)
    ctx.ok("causal: real residues", not np.iscomplexobj(got.residues))
    w_ = width if width is not None else (_none_width(mom, n_pole) if n_mom > 1 else 1.0)
    _check_poles(ctx, got.poles, n_pole, w_)
    _moment_check(ctx, "moments honoured", got.poles, got.residues, mom[..., :n_mom])
    for idx in np.ndindex(*batch):
        poles = np.broadcast_to(got.poles, (*batch, n_pole))[idx]
        zi = np.broadcast_to(z, (*batch, n_z))[idx]
        A = 1/(zi[:, None] - poles)
        A = np.concatenate([A.real, A.imag])
        b = np.concatenate([gf[idx].real, gf[idx].imag])
        if weight is not None:
            wi = np.broadcast_to(weight, (*batch, n_z))[idx]
            A, b = A*np.r_[wi, wi][:, None], b*np.r_[wi, wi]
        C = poles**np.arange(n_mom)[:, None]
        _kkt(ctx, "least squares optimal", A, b, C, got.residues[idx])


def _tau_mat(tau, poles, beta):
    p = poles
    e = np.where(p >= 0, -tau[:, None], beta - tau[:, None])*p
    return -np.exp(e)/(1 + np.exp(-abs(p)*beta))


@case(CASES, 900, 16000)
def from_tau(ctx, rng):
    n_tau = gen.size(rng, 10, 60, 2100)
    n_pole = int(rng.integers(1, 8))
    n_mom = int(rng.integers(0, min(n_pole, 4) + 1))
    use_occ = n_mom < n_pole and rng.random() < 0.4
    batch = [(), (), (2,), (3, 2)][int(rng.integers(4))]
    beta = gen.beta(rng, 0.5, 50)
    tau = np.linspace(0, beta, n_tau)
    p, w = rng.normal(size=(*batch, 4)), rng.uniform(0, 1, (*batch, 4))
    gf = np.array([_tau_mat(tau, p[i], beta) @ w[i] for i in np.ndindex(*batch)]).reshape(*batch, n_tau)
    noise = [0, 1e-3, 1.0][int(rng.integers(3))]
    gf = gf + noise*rng.normal(size=gf.shape)
    mom = np.sum(w[..., None, :]*p[..., None, :]**np.arange(n_mom)[:, None], axis=-1)
    occ = [0.0, 0, 0.25, 1.0, 1, float(rng.uniform(0, 2))][int(rng.integers(6))]
    width = float(gen.loguni(rng, 0.5, 4)) if rng.random() < 0.6 else 1.0
    wpick = int(rng.integers(3))
    weight = [None, gen.loguni(rng, 0.1, 10, n_tau), gen.loguni(rng, 0.1, 10, (*batch, n_tau))][wpick]
    kw = {} if weight is None else {"weight": weight}
    if n_mom:
        kw["moments"] = mom
    if use_occ:
        kw["occ"] = occ
    if width != 1.0:
        kw["width"] = width
    if use_occ:  # the constraints have to be independent (f - 1/2 is odd, so are the odd moments)
        rows = _cheb(n_pole, width)**np.arange(n_mom)[:, None]
        rows = np.concatenate([rows, 1/(1 + np.exp(_cheb(n_pole, width)*beta))[None]])
        sv = np.linalg.svd(rows/np.linalg.norm(rows, axis=1, keepdims=True), compute_uv=False)
        if sv[-1] < 1e-6*sv[0]:
            raise Skip
    fn = [bp.gf_from_tau, bp.PoleGf.from_tau][int(rng.integers(2))]
    got = ctx.call(fn, gf, n_pole=n_pole, beta=beta, **kw)
    ctx.tag("from_tau", n_mom, use_occ, wpick, len(batch), noise)
    ctx.ok("shape", got.residues.shape == (*batch, n_pole), shape=got.residues.shape)
    _check_poles(ctx, got.poles, n_pole, width)
    _moment_check(ctx, "moments honoured", got.poles, got.residues, mom)
    fermi = 1/(1 + np.exp(got.poles*beta))
    if use_occ:
        size = np.sum(abs(fermi*got.residues), axis=-1)
        ctx.close("occupation honoured", np.sum(fermi*got.residues, axis=-1), np.full(batch, float(occ)),
                  atol=1e-8*(size + np.sum(abs(got.residues), axis=-1)*np.max(fermi)) + 1e-300)
        ctx.close("occ() of the fit", ctx.call(bp.PoleGf(*got).occ, beta), np.sum(fermi*got.residues, axis=-1),
                  atol=1e-11*size + 1e-300)
    A0 = _tau_mat(tau, got.poles, beta)
    C = got.poles**np.arange(n_mom)[:, None]
    if use_occ:
        C = np.concatenate([C, fermi[None, :]])
        C = C/np.linalg.norm(C, axis=1, keepdims=True)
    for idx in np.ndindex(*batch):
        A, b = A0, gf[idx]
        if weight is not None:
            wi = np.broadcast_to(weight, (*batch, n_tau))[idx]
            A, b = A*wi[:, None], b*wi
        _kkt(ctx, "least squares optimal", A, b, C, got.residues[idx])


@case(CASES, 400, 6000)
def exact_recovery(ctx, rng):
    """Data generated on the fit's own poles is recovered."""
    num = int(rng.integers(2, 6))
    width = float(gen.loguni(rng, 0.5, 3))
    poles = _cheb(num, width)
    resid = rng.normal(size=num)
    z = 1j*np.pi/5*(2*np.arange(40) + 1)
    gf = np.sum(resid/(z[:, None] - poles), axis=-1)
    got = ctx.call(bp.PoleGf.from_z, z, gf, n_pole=num, width=width)
    order = np.argsort(got.poles)
    ctx.tag("recovery", num)
    ctx.close("residues recovered from z", got.residues[order], resid, atol=1e-6*np.sum(abs(resid)))
    beta = 5.0/width
    tau = np.linspace(0, beta, 101)
    gtau = _tau_mat(tau, poles, beta) @ resid
    got = ctx.call(bp.PoleGf.from_tau, gtau, n_pole=num, width=width, beta=beta)
    order = np.argsort(got.poles)
    ctx.close("residues recovered from tau", got.residues[order], resid, atol=1e-6*np.sum(abs(resid)))


@case(CASES, 300, 4000)
def over_constrained(ctx, rng):
    n_pole = int(rng.integers(1, 5))
    n_mom = n_pole + int(rng.integers(1, 4))
    z = 1j*np.arange(1, 20.0)
    ctx.tag("over", n_pole)
    mom = rng.normal(size=n_mom)
    ctx.raises(ValueError, bp.gf_from_z, z, 1/z, n_pole=n_pole, moments=mom)
    gtau = -np.ones(20)*0.5
    ctx.raises(ValueError, bp.gf_from_tau, gtau, n_pole=n_pole, beta=3.0, moments=mom)
    ctx.raises(ValueError, bp.PoleGf.from_tau, gtau, n_pole=n_pole, beta=3.0, moments=mom[:n_pole], occ=0.4)
    # exactly determined by the constraints is fine
    got = ctx.call(bp.gf_from_z, z, 1/z, n_pole=n_pole, moments=mom[:n_pole])
    _moment_check(ctx, "fully constrained", got.poles, got.residues, mom[:n_pole])
