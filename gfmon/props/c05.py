"""C05: all representations of a pole Green's function describe the same spectral function."""
import numpy as np
from mpmath import mp

from .. import gen, target
from ..core import Skip, case

gt = target.load()
from gftool.basis import pole as bp  # noqa: E402

CASES = []
QUICK = 2  # cheap cases: more of them in the quick tier
RULE = ("Random pole sets (real/complex residues, zero poles, degenerate poles, scalars, lists, integers, batches that"
        " broadcast), beta over seven decades, frequencies and times over many decades incl. the interval ends;"
        " non-trivial: at least one non-vanishing residue.")
ASSUMPTIONS = ["40-digit mpmath sum over poles is the reference"]


def _poles(rng, batch=(), positive=False, cmplx=False):
    """Return (poles, weights) float arrays of shape (*batch, N)."""
    n = gen.size(rng, 1, 6, 120, 0.03)
    kind = int(rng.integers(0, 5))
    shape = (*batch, n)
    if kind == 0:
        p = rng.uniform(-3, 3, shape)
    elif kind == 1:
        p = rng.choice([-1.0, 1.0], shape)*gen.loguni(rng, 1e-6, 1e4, shape)
    elif kind == 2:
        p = rng.integers(-3, 4, shape).astype(float)
    elif kind == 3:
        p = np.repeat(rng.normal(size=(*batch, 1)), n, axis=-1)
    else:
        p = rng.normal(size=shape)
    if positive:
        p = abs(p) + gen.loguni(rng, 1e-4, 1)
    w = rng.uniform(0, 1, shape) if rng.random() < 0.5 else rng.normal(size=shape)
    if cmplx:
        w = w + 1j*rng.normal(size=shape)
    if rng.random() < 0.2:
        w[..., 0] = 0
    return p, w, ["box", "log", "int", "degenerate", "normal"][kind]


def _mp_sum(fn, x, p, w, *args):
    """Sum over poles in high precision with broadcasting; returns (value, sum of moduli)."""
    x = np.asarray(x)
    bshape = np.broadcast_shapes(x.shape, p.shape[:-1], w.shape[:-1])
    n = max(p.shape[-1], w.shape[-1])
    pb, wb = np.broadcast_to(p, (*bshape, n)), np.broadcast_to(w, (*bshape, n))
    xb = np.broadcast_to(x, bshape)
    val, size = np.zeros(bshape, complex), np.zeros(bshape)
    with mp.workdps(40):
        for idx in np.ndindex(*bshape):
            tot, mod = mp.mpc(0), mp.mpf(0)
            for pp, ww in zip(pb[idx], wb[idx]):
                t = mp.mpc(complex(ww))*fn(mp.mpc(complex(xb[idx])), mp.mpc(complex(pp)), *args)
                tot += t
                mod += abs(t)
            val[idx], size[idx] = complex(tot), float(mod)
    return val, size


def _present(rng, p, w):
    """Alternative argument forms denoting the same poles."""
    pick = int(rng.integers(0, 5))
    if pick == 0 and p.ndim == 1:
        return p.tolist(), w.tolist(), "list"
    if pick == 1 and p.ndim == 1 and p.size == 1:
        return float(p[0]), w[0].item(), "scalar"
    if pick == 2:
        return gen.readonly(p), gen.readonly(w), "readonly"
    if pick == 3:
        return np.asfortranarray(p), np.asfortranarray(w), "fortran"
    return p, w, "array"


def _batch(rng):
    pick = int(rng.integers(0, 4))
    if pick < 2:
        return (), (int(rng.integers(1, 5)),) if pick else ()
    if pick == 2:
        return (3,), (3,)
    return (3,), (2, 3)


@case(CASES, 1600, 30000)
def frequency(ctx, rng):
    pshape, zshape = _batch(rng)
    p, w, kind = _poles(rng, pshape, cmplx=rng.random() < 0.3)
    z = rng.normal(size=zshape)*3 + 1j*rng.choice([-1, 1], zshape)*gen.loguni(rng, 1e-4, 10, zshape)
    if rng.random() < 0.2:
        z = z*gen.loguni(rng, 1e2, 1e8)
    z = np.asarray(z)
    pa, wa, tag = _present(rng, p, w)
    ctx.tag("z", kind, tag, len(pshape), len(zshape))
    want, size = _mp_sum(lambda x, pp: 1/(x - pp), z, p, w)
    got = ctx.call(gt.pole_gf_z, z, pa, wa)
    ctx.close("G(z)", got, want, atol=1e-12*size)
    arr = gt.basis.pole.PoleFct(poles=np.atleast_1d(p), residues=np.atleast_1d(w)) if rng.random() < 0.5 \
        else bp.PoleGf(poles=p, residues=w)
    ctx.close("eval_z", ctx.call(arr.eval_z, z), want, atol=1e-12*size)
    want, size = _mp_sum(lambda x, pp: -1/(x - pp)**2, z, p, w)
    got = ctx.call(gt.pole_gf_d1_z, z, pa, wa)
    ctx.close("G'(z)", got, want, atol=1e-12*size)


def _tau_fn(tau, pp, beta):
    if pp.real >= 0:
        return -mp.exp(-tau*pp)/(1 + mp.exp(-beta*pp))
    return -mp.exp((beta - tau)*pp)/(1 + mp.exp(beta*pp))


def _taus(rng, beta, shape):
    x = rng.uniform(0, 1, shape)
    pick = int(rng.integers(0, 4))
    if pick == 0:
        x = rng.choice([0.0, 1.0, 0.5], shape)
    elif pick == 1:
        x = gen.loguni(rng, 1e-12, 1, shape)
    return np.asarray(np.minimum(np.asarray(x)*beta, beta))


@case(CASES, 1600, 30000)
def imaginary_time(ctx, rng):
    pshape, zshape = _batch(rng)
    cm = rng.random() < 0.2
    p, w, kind = _poles(rng, pshape, cmplx=cm)
    beta = gen.beta(rng, 1e-3, 1e5)
    if cm and rng.random() < 0.5:  # complex poles are allowed, keep away from the poles of the Fermi function
        p = p + 1j*rng.uniform(-1, 1, p.shape)*2.0/beta
    tau = _taus(rng, beta, zshape)
    pa, wa, tag = _present(rng, p, w)
    if tag == "scalar" and np.iscomplexobj(p):
        pa, wa = p, w
    ctx.tag("tau", kind, tag, len(pshape), len(zshape), np.iscomplexobj(p))
    want, size = _mp_sum(lambda x, pp: _tau_fn(x.real, pp, mp.mpf(float(beta))), tau, p, w)
    if not np.iscomplexobj(p) and not np.iscomplexobj(w):
        want = want.real
    tol = 1e-13*(10 + np.max(abs(p))*beta)*size + 1e-300
    arg = tau.tolist() if rng.random() < 0.2 else tau
    b = np.full(tau.shape, float(beta)) if rng.random() < 0.15 and not tag == "scalar" else beta
    got = ctx.call(gt.pole_gf_tau, arg, pa, wa, b)
    ctx.close("G(tau)", got, want, atol=tol)
    obj = bp.PoleGf(poles=p, residues=w)
    ctx.close("eval_tau", ctx.call(obj.eval_tau, tau, beta), want, atol=tol)
    # boundary conditions and occupation
    shape = p.shape[:-1]
    g0 = ctx.call(obj.eval_tau, np.zeros(shape), beta)
    gb = ctx.call(obj.eval_tau, np.full(shape, float(beta)), beta)
    occ = ctx.call(obj.occ, beta)
    mod = np.sum(abs(w), axis=-1)
    ctx.close("G(0)+G(beta) = -m_1", g0 + gb, -np.sum(w, axis=-1), atol=1e-11*mod + 1e-300)
    ctx.close("occupation = -G(beta)", occ, -gb, atol=1e-11*mod + 1e-300)
    want, size = _mp_sum(lambda x, pp: 1/(1 + mp.exp(mp.mpf(float(beta))*pp)), np.zeros(shape), p, w)
    ctx.close("occupation", occ, want if np.iscomplexobj(occ) else want.real,
              atol=1e-13*(10 + np.max(abs(p))*beta)*size + 1e-300)


@case(CASES, 1200, 20000)
def bosonic_time(ctx, rng):
    pshape, zshape = _batch(rng)
    p, w, kind = _poles(rng, pshape, positive=True, cmplx=rng.random() < 0.2)
    beta = gen.beta(rng, 1e-3, 1e4)
    tau = _taus(rng, beta, zshape)
    pa, wa, tag = _present(rng, p, w)
    ctx.tag("tau_b", kind, tag)
    want, size = _mp_sum(lambda x, pp: -mp.exp(-x*pp)/(1 - mp.exp(-mp.mpf(float(beta))*pp)), tau, p, w)
    if not np.iscomplexobj(w):
        want = want.real
    tol = 1e-13*(10 + np.max(abs(p))*beta)*size + 1e-300
    arg = tau.tolist() if rng.random() < 0.2 else tau
    got = ctx.call(gt.pole_gf_tau_b, arg, pa, wa, beta)
    ctx.close("bosonic G(tau)", got, want, atol=tol)
    g0 = ctx.call(gt.pole_gf_tau_b, np.zeros(p.shape[:-1]), p, w, beta)
    gb = ctx.call(gt.pole_gf_tau_b, np.full(p.shape[:-1], float(beta)), p, w, beta)
    scale = np.sum(abs(w)*(1 + 1/np.minimum(1, p*beta)), axis=-1)
    ctx.close("G(0)-G(beta) = -m_1", g0 - gb, -np.sum(w, axis=-1), atol=1e-11*scale + 1e-300)


@case(CASES, 500, 8000)
def many_temperatures(ctx, rng):
    """Stacked inverse temperatures: every entry belongs to its own temperature."""
    p, w, kind = _poles(rng, positive=rng.random() < 0.3, cmplx=rng.random() < 0.3)
    shape = [(3,), (2, 3), (3, 1), (1, 4)][int(rng.integers(4))]
    betas = gen.loguni(rng, 1e-2, 1e3, shape)
    tshape = [shape, (*((2,) if shape[0] in (1, 2) else (3,)), *shape[1:]), (1,)*len(shape)][int(rng.integers(3))]
    tau = np.minimum(rng.choice([0.0, 1.0, rng.random(), rng.random()], tshape)*np.broadcast_to(betas, np.broadcast_shapes(tshape, shape)),
                     betas) if tshape != (1,)*len(shape) else np.full(tshape, rng.random()*betas.min())
    full = np.broadcast_shapes(tau.shape, shape)
    ctx.tag("betas", kind, shape, tau.shape)
    fns = [gt.pole_gf_tau, lambda t, p, w, b: bp.PoleGf(poles=p, residues=w).eval_tau(t, b)]
    names = ["gf_tau", "eval_tau"]
    if np.all(p > 0):
        fns, names = [*fns, gt.pole_gf_tau_b], [*names, "gf_tau_b"]
    for fn, name in zip(fns, names):
        got = ctx.call(fn, tau, p, w, betas)
        want = [fn(t, p, w, float(b)) for t, b in zip(np.broadcast_to(tau, full).ravel(), np.broadcast_to(betas, full).ravel())]
        ctx.close(f"{name}: stacked temperatures", got, np.reshape(want, full),
                  atol=1e-12*np.sum(abs(w))*(1 + (1/np.min(p*betas.min()) if name == "gf_tau_b" else 0)) + 1e-300)
    b1 = np.expand_dims(betas, -1)
    got = ctx.call(bp.PoleGf(poles=p, residues=w).occ, b1)
    ctx.close("occ: stacked temperatures", got, np.reshape([np.sum(w*gt.fermi_fct(p, float(b))) for b in betas.ravel()], shape),
              atol=1e-12*np.sum(abs(w)) + 1e-300)


@case(CASES, 1200, 20000)
def retarded_time(ctx, rng):
    pshape, zshape = _batch(rng)
    p, w, kind = _poles(rng, pshape, cmplx=rng.random() < 0.3)
    cm = rng.random() < 0.3
    if cm:
        p = p - 1j*gen.loguni(rng, 1e-3, 2, p.shape)
    t = rng.uniform(-5, 20, zshape)
    if rng.random() < 0.2:
        t = np.where(rng.random(zshape) < 0.5, 0.0, t)
    if rng.random() < 0.2:
        t = t*1e3
    if cm:  # keep negative times from overflowing: they are zero anyway
        t = np.clip(t, -20, None)
    t = np.asarray(t)
    pa, wa, tag = _present(rng, p, w)
    if cm:
        pa, wa = p, w
    ctx.tag("ret_t", kind, tag, "neg" if np.any(t < 0) else "pos", cm)
    want, size = _mp_sum(lambda x, pp: -mp.j*mp.exp(-mp.j*pp*x) if x.real >= 0 else mp.mpc(0), t, p, w)
    tol = 1e-14*(10 + 10*np.max(abs(p))*np.max(abs(t), initial=0))*size + 1e-300
    arg = t.tolist() if rng.random() < 0.2 else t
    ctx.close("G^ret(t)", ctx.call(gt.pole_gf_ret_t, arg, pa, wa), want, atol=tol)
    obj = bp.PoleGf(poles=p, residues=w)
    ctx.close("eval_ret_t", ctx.call(obj.eval_ret_t, t), want, atol=tol)


@case(CASES, 1200, 20000)
def moments(ctx, rng):
    pshape = [(), (), (3,), (2, 3)][int(rng.integers(4))]
    p, w, kind = _poles(rng, pshape, cmplx=rng.random() < 0.3)
    p = np.clip(p, -50, 50)
    order = rng.integers(1, 12, int(rng.integers(1, 6)))
    if rng.random() < 0.5:
        order = np.arange(1, int(rng.integers(2, 9)))
    pa, wa, tag = _present(rng, p, w)
    ctx.tag("moments", kind, tag, len(pshape))
    out = np.zeros((*pshape, order.size), complex)
    size = np.zeros((*pshape, order.size))
    with mp.workdps(40):
        for idx in np.ndindex(*pshape):
            for k, m in enumerate(order):
                terms = [mp.mpc(complex(ww))*mp.mpf(float(pp))**int(m-1) for pp, ww in zip(p[idx], w[idx])]
                out[idx][k] = complex(sum(terms))
                size[idx][k] = float(sum(abs(t) for t in terms))
    if not np.iscomplexobj(w):
        out = out.real
    arg = order.tolist() if rng.random() < 0.3 else order
    ctx.close("moments", ctx.call(gt.pole_gf_moments, pa, wa, arg), out, atol=1e-13*size)
    obj = (bp.PoleGf if rng.random() < 0.5 else bp.PoleFct)(poles=p, residues=w)
    ctx.close("object moments", ctx.call(obj.moments, arg), out, atol=1e-13*size)
    # they generate the tail of G(z)
    z = 1e4*(1 + np.max(abs(p)))*np.exp(1j*rng.uniform(0, 2*np.pi))
    full = ctx.call(obj.moments, np.arange(1, 5))
    tail = np.sum(full*z**-np.arange(1.0, 5), axis=-1)
    ctx.close("tail of G(z)", ctx.call(obj.eval_z, np.full(pshape, z)), tail,
              atol=1e-11*np.sum(abs(w), axis=-1)/abs(z) + 1e-300)


@case(CASES, 400, 6000)
def integer_poles(ctx, rng):
    """Integer poles, residues, frequencies and times."""
    n = int(rng.integers(1, 5))
    p, w = rng.integers(-4, 5, n), rng.integers(-3, 4, n)
    beta = int(rng.integers(1, 20))
    z = int(rng.integers(5, 20))
    ctx.tag("ints", n)
    ctx.close("G(z)", ctx.call(gt.pole_gf_z, z, p, w), np.sum(w/(float(z) - p)), rtol=1e-12, atol=1e-13)
    ctx.close("G'(z)", ctx.call(gt.pole_gf_d1_z, z, p, w), -np.sum(w/(float(z) - p)**2), rtol=1e-12, atol=1e-13)
    tau = np.arange(beta + 1)
    ref, size = _mp_sum(lambda x, pp: _tau_fn(x.real, pp, mp.mpf(beta)), tau, p.astype(float), w.astype(float))
    ctx.close("G(tau)", ctx.call(gt.pole_gf_tau, tau, p, w, beta), ref.real, atol=1e-12*size + 1e-300)
    t = np.arange(-2, 6)
    ref, size = _mp_sum(lambda x, pp: -mp.j*mp.exp(-mp.j*pp*x) if x.real >= 0 else mp.mpc(0), t,
                        p.astype(float), w.astype(float))
    ctx.close("G^ret(t)", ctx.call(gt.pole_gf_ret_t, t, p, w), ref, atol=1e-12*size + 1e-300)
    q = abs(p) + 1
    ref, size = _mp_sum(lambda x, pp: -mp.exp(-x*pp)/(1 - mp.exp(-mp.mpf(beta)*pp)), tau, q.astype(float),
                        w.astype(float))
    ctx.close("bosonic G(tau)", ctx.call(gt.pole_gf_tau_b, tau, q, w, beta), ref.real, atol=1e-12*size + 1e-300)
    m = ctx.call(gt.pole_gf_moments, p, w, [1, 2, 3, 4])
    ctx.close("moments", m, [float(np.sum(w*p.astype(float)**k)) for k in range(4)], rtol=1e-12)


@case(CASES, 200, 3000)
def transforms_agree(ctx, rng):
    """Numerical Laplace/Fourier integrals of the observed time functions return the observed G(z)."""
    p, w, kind = _poles(rng)
    if np.max(abs(p)) > 20:
        raise Skip
    beta = gen.beta(rng, 0.5, 10)
    x, gw = np.polynomial.legendre.leggauss(200)
    tau = (x + 1)*beta/2
    g = ctx.call(gt.pole_gf_tau, tau, p, w, beta)
    n = rng.integers(-6, 6)
    iw = gt.matsubara_frequencies(n, beta)
    gz = ctx.call(gt.pole_gf_z, iw, p, w)
    ctx.tag("transforms", kind)
    mod = np.sum(abs(w))
    ctx.close("int G(tau) exp(iw tau) = G(iw)", np.sum(gw*beta/2*g*np.exp(iw*tau)), gz, atol=1e-8*mod*max(1, beta))
    z = rng.uniform(-2, 2) + 1j*rng.uniform(1, 2)
    tmax = 40/z.imag
    t = (x[:, None] + 1)/2*tmax/40 + np.arange(40)*tmax/40
    gt_ = ctx.call(gt.pole_gf_ret_t, t, p, w)
    val = np.sum(gw[:, None]*tmax/80*gt_*np.exp(1j*z*t))
    ctx.close("int G(t) exp(izt) = G(z)", val, ctx.call(gt.pole_gf_z, z, p, w), atol=1e-9*mod)
