"""C18: single impurity Anderson model versus exact diagonalization."""
import numpy as np
from scipy.linalg import expm
from scipy.special import expit

from .. import gen, target
from ..core import case

gt = target.load()
S = gt.siam

CASES = []
QUICK = 6  # cheap cases: more of them in the quick tier
RULE = ("0-6 bath sites with random, degenerate, decoupled and strongly coupled levels, real and complex hopping, stacked"
        " models broadcast against frequencies/times, inverse temperatures 1e-2 to 1e4, times of both signs."
        "  Non-trivial: at least one coupled bath site.")
ASSUMPTIONS = ["|Im z| >= 1e-3 or z away from the eigenvalues"]
BATCH = [(), (), (1,), (3,), (2, 2)]


def _model(rng):
    nb = gen.size(rng, 0, 7, 40)
    batch = BATCH[int(rng.integers(5))]
    scale = float(gen.loguni(rng, 0.1, 10))
    pick = int(rng.integers(0, 4))
    e0 = scale*rng.normal(size=batch)
    eb = scale*rng.normal(size=batch + (nb,))
    hop = scale*rng.normal(size=batch + (nb,))
    if rng.random() < 0.4:
        hop = hop*np.exp(1j*rng.uniform(0, 6.28, hop.shape))
    if pick == 1 and nb > 1:  # degenerate levels
        eb[..., 1:] = eb[..., :1]
    if pick == 2 and nb:  # decoupled levels
        hop[..., 0] = 0
    if pick == 3:
        e0, eb = np.round(e0).astype(int), np.round(eb).astype(int)
    # parameters shared by the stack
    if batch and rng.random() < 0.3:
        eb = eb[(0,)*len(batch)]
    if batch and rng.random() < 0.3:
        hop = hop[(0,)*len(batch)]
    return np.asarray(e0), eb, hop, batch, nb, pick


def _ham(e0, eb, hop, batch, nb):
    eb, hop = np.broadcast_to(eb, batch + (nb,)), np.broadcast_to(hop, batch + (nb,))
    ham = np.zeros(batch + (nb + 1, nb + 1), dtype=complex)
    for idx in np.ndindex(batch):
        ham[idx][0, 0] = e0[idx]
        for k in range(nb):
            ham[idx][k+1, k+1] = eb[idx][k]
            ham[idx][0, k+1] = hop[idx][k]
            ham[idx][k+1, 0] = np.conj(hop[idx][k])
    return ham


@case(CASES, 1000, 20000)
def frequency(ctx, rng):
    e0, eb, hop, batch, nb, pick = _model(rng)
    ham = _ham(e0, eb, hop, batch, nb)
    mine = ctx.call(S.hamiltonian_matrix, e0, eb, hop)
    ctx.ok("Hamiltonian", mine.shape == ham.shape and np.array_equal(mine, ham), got=mine, want=ham)
    numz = int(rng.integers(1, 5))
    scale = 1 + np.max(abs(ham))
    z = scale*rng.normal(size=numz) + 1j*scale*gen.loguni(rng, 1e-3, 3, numz)*rng.choice([-1, 1], numz)
    if rng.random() < 0.2:
        z = 1j*abs(z.imag)
    kind = int(rng.integers(3))
    hs = abs(hop)**2
    ctx.tag("freq", nb, batch, pick, kind, np.iscomplexobj(hop))
    if kind == 0:  # one frequency for all models
        zz = z[0] if rng.random() < 0.5 else complex(z[0])
        args, shape = (zz, e0, eb, hs), batch
        hargs = (zz, eb, hs)
        full = np.broadcast_to(zz, batch)
    elif kind == 1:  # every frequency for every model
        args = (z, e0[..., None], eb[..., None, :], hs[..., None, :])
        hargs = (z, eb[..., None, :], hs[..., None, :])
        full = np.broadcast_to(z, batch + (numz,))
    else:  # individual frequencies
        zz = np.broadcast_to(z[0], batch) + rng.normal(size=batch)
        args, hargs = (zz, e0, eb, hs), (zz, eb, hs)
        full = zz
    got = np.asarray(ctx.call(S.gf0_loc_z, *args))
    hyb = np.asarray(ctx.call(S.hybrid_z, *hargs))
    want = np.empty(full.shape, dtype=complex)
    delta = np.empty(full.shape, dtype=complex)
    for idx in np.ndindex(full.shape):
        h = ham[idx[:len(batch)]]
        want[idx] = np.linalg.inv(full[idx]*np.eye(nb + 1) - h)[0, 0]
        delta[idx] = sum(abs(h[0, k])**2/(full[idx] - h[k, k]) for k in range(1, nb + 1))
    eta = np.abs(full.imag)
    ctx.close("resolvent", got, want, rtol=1e-11, atol=1e-12/eta*scale/eta)
    ctx.close("hybridization", np.broadcast_to(hyb, full.shape), delta, rtol=1e-12, atol=1e-13*scale**2*(nb + 1)/eta)
    e0b = np.broadcast_to(e0[..., None] if kind == 1 else e0, full.shape)
    ctx.close("Dyson equation", 1/got, full - e0b - np.broadcast_to(hyb, full.shape), rtol=1e-10,
              atol=1e-10*(scale + abs(full) + abs(delta)))
    ctx.ok("causality", np.all(np.where(full.imag > 0, -got.imag, got.imag) > 0))


def _times(rng, scale):
    num = int(rng.integers(1, 6))
    tt = gen.loguni(rng, 1e-2, 50, num)/scale*rng.choice([-1, 1, 1], num)
    if rng.random() < 0.3:
        tt[0] = 0
    return tt


@case(CASES, 1000, 20000)
def real_time(ctx, rng):
    e0, eb, hop, batch, nb, pick = _model(rng)
    ham = _ham(e0, eb, hop, batch, nb)
    scale = np.max(abs(ham)) + 0.1
    beta = float(gen.loguni(rng, 1e-2, 1e4))/scale
    beta = int(beta) if beta > 1 and rng.random() < 0.2 else beta
    tt = _times(rng, scale)
    kind = int(rng.integers(2))
    ctx.tag("time", nb, batch, pick, kind, np.iscomplexobj(hop))
    if kind == 0 and batch == ():
        args = (tt, e0[None], eb[None, :], hop[None, :]) if rng.random() < 0.5 else (np.asarray(tt[0]), e0, eb, hop)
        full = tt if args[0] is tt else np.asarray(tt[0])
    elif kind == 0:
        args = (tt, e0[..., None], eb[..., None, :], hop[..., None, :])
        full = np.broadcast_to(tt, batch + tt.shape)
    else:
        ti = np.broadcast_to(tt[0], batch)*rng.choice([-1., 1.], batch)
        args, full = (np.asarray(ti), e0, eb, hop), np.asarray(ti)
    ret = np.asarray(ctx.call(S.gf0_loc_ret_t, *args))
    gr = np.asarray(ctx.call(S.gf0_loc_gr_t, *args, beta=beta))
    le = np.asarray(ctx.call(S.gf0_loc_le_t, *args, beta=beta))
    w_ret, w_gr, w_le = (np.empty(full.shape, dtype=complex) for _ in range(3))
    heavy = rng.random() < 0.2
    for idx in np.ndindex(full.shape):
        h, t = ham[idx[:len(batch)]], full[idx]
        eig, vec = np.linalg.eigh(h)
        w = abs(vec[0])**2
        ph = np.exp(-1j*eig*t)
        w_le[idx] = 1j*np.sum(w*ph*expit(-beta*eig))
        w_gr[idx] = -1j*np.sum(w*ph*expit(beta*eig))
        w_ret[idx] = -1j*np.sum(w*ph) if t >= 0 else 0
        if heavy and t >= 0:
            ctx.close("evolution", w_ret[idx], -1j*expm(-1j*h*t)[0, 0], atol=1e-9)
    ctx.close("retarded", ret, w_ret, atol=1e-10)
    tol = 1e-10 + 1e-13*beta*scale
    # rounding of (nearly) zero modes matters for low temperatures only
    ctx.close("lesser", le, w_le, atol=tol)
    ctx.close("greater", gr, w_gr, atol=tol)
    ctx.close("retarded from greater and lesser", np.where(full >= 0, gr - le, 0), ret, atol=1e-11)
    zero = (np.zeros(1), e0[..., None], eb[..., None, :], hop[..., None, :])
    occ = -1j*np.asarray(ctx.call(S.gf0_loc_le_t, *zero, beta=beta))
    ctx.ok("occupation", np.all((occ.real >= -1e-12) & (occ.real <= 1 + 1e-12)) and np.all(abs(occ.imag) < 1e-12), occ=occ)
    ctx.close("anticommutator", ctx.call(S.gf0_loc_ret_t, *zero), np.full(batch + (1,), -1j), atol=1e-12)
