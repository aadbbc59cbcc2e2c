"""C19: interacting dimer, atomic limit and surface Green's function versus exact references."""
import numpy as np
from mpmath import mp

from .. import gen, target
from ..core import case

gt = target.load()
LD = np.clongdouble

CASES = []
QUICK = 6  # cheap cases: more of them in the quick tier
RULE = ("Hubbard dimer with hopping/interaction of both signs over six decades of ratio; Hubbard-I for occupations 0-1;"
        " surface of stacked layers; scalar and array frequencies in both half planes and off-resonance on the real axis."
        "  Non-trivial: finite interaction or hopping.")
ASSUMPTIONS = ["dimer with non-zero hopping (unique ground state)"]


def _fock():
    """Annihilation operators of 4 modes (1up, 1dn, 2up, 2dn)."""
    sz, cm, one = np.diag([1.0, -1.0]), np.array([[0, 1.0], [0, 0]]), np.eye(2)
    ops = []
    for i in range(4):
        mat = np.ones((1, 1))
        for j in range(4):
            mat = np.kron(mat, sz if j < i else cm if j == i else one)
        ops.append(mat)
    return ops


C = _fock()
NUM = [c.T @ c for c in C]
NTOT = np.diag(sum(NUM))
KIN = sum(C[a].T @ C[b] + C[b].T @ C[a] for a, b in ((0, 2), (1, 3)))
DOCC = NUM[0] @ NUM[1] + NUM[2] @ NUM[3]


def _lehmann(z, t, u, sign, spin):
    ham = -t*KIN + u*DOCC
    sub = {}
    for n in (1, 2, 3):
        idx = np.flatnonzero(NTOT == n)
        eig, vec = np.linalg.eigh(ham[np.ix_(idx, idx)])
        full = np.zeros((16, idx.size))
        full[idx] = vec
        sub[n] = eig, full
    e0, psi = sub[2][0][0], sub[2][1][:, 0]
    op = (C[spin] + sign*C[2 + spin])/np.sqrt(2)
    out = np.zeros(np.shape(z), dtype=complex)
    for eig, vec, opr, sgn in ((*sub[1], op, -1), (*sub[3], op.T, +1)):
        amp = abs(vec.T @ (opr @ psi))**2
        for e, w in zip(eig, amp):
            out = out + w/(z - sgn*(e - e0))
    return out


def _freq(rng, scale):
    num = int(rng.integers(4, 9))
    eta = gen.loguni(rng, 1e-2, 5, num)*rng.choice([-1, 1], num)
    return scale*(2*rng.normal(size=num) + 1j*eta)


@case(CASES, 800, 16000)
def dimer(ctx, rng):
    t = float(gen.loguni(rng, 1e-2, 10)*rng.choice([-1, 1]))
    u = float(gen.loguni(rng, 1e-7, 30)*rng.choice([-1, 1, 1, 1])) if rng.random() < 0.9 else 0.0
    if rng.random() < 0.2:
        t, u = int(rng.integers(1, 5)), int(rng.integers(0, 9))
    scale = abs(t) + abs(u)
    z = _freq(rng, scale)
    arg, shape, z, form = gen.form(rng, z)
    kind = str(rng.choice(["+", "-"]))
    ctx.tag("dimer", np.sign(t), np.sign(u), kind, form, type(t).__name__)
    kw = {"kind": kind} if kind == "-" or rng.random() < 0.5 else {}
    got = ctx.call(gt.hubbard_dimer_gf_z, arg, hopping=t, interaction=u, **kw)
    want = _lehmann(z, t, u, 1 if kind == "+" else -1, int(rng.integers(2)))
    ctx.close("exact diagonalization", got, want.reshape(shape), rtol=1e-9, atol=1e-10/abs(z.imag).reshape(shape))
    ctx.ok("causality", np.all(np.asarray(got).imag*np.asarray(arg).imag < 0))
    # particle-hole symmetry maps the kinds onto each other
    other = ctx.call(gt.hubbard_dimer_gf_z, u - np.asarray(arg), hopping=t, interaction=u, kind="-" if kind == "+" else "+")
    ctx.close("particle-hole symmetry", -np.asarray(other), got, rtol=1e-9, atol=1e-10/abs(z.imag).reshape(shape))
    far = 1e5*scale*np.exp(0.3j)
    ctx.close("normalization", far*ctx.call(gt.hubbard_dimer_gf_z, far, t, u, kind), 1.0, atol=1e-4)
    ctx.raises(ValueError, gt.hubbard_dimer_gf_z, arg, t, u, kind=str(rng.choice(["*", "", "plus", "+-", "0", "1"])))


def _mp_lehmann(zs, t, u, sign, spin):
    """The same in 40 digits: cancellations of the exchange energy `4*t**2/u` are resolved."""
    with mp.workdps(40):
        ham = -mp.mpf(t)*mp.matrix(KIN.tolist()) + mp.mpf(u)*mp.matrix(DOCC.tolist())
        sub = {}
        for n in (1, 2, 3):
            idx = [int(i) for i in np.flatnonzero(NTOT == n)]
            small = mp.matrix(len(idx), len(idx))
            for i, a in enumerate(idx):
                for j, b in enumerate(idx):
                    small[i, j] = ham[a, b]
            eig, vec = mp.eigsy(small)
            order = sorted(range(len(idx)), key=lambda i: eig[i])
            sub[n] = idx, [eig[i] for i in order], [[vec[k, i] for k in range(len(idx))] for i in order]
        idx2, eig2, vec2 = sub[2]
        e0, psi = eig2[0], vec2[0]
        op = (C[spin] + sign*C[2 + spin])
        terms = []
        for n, opr, sgn in ((1, op, -1), (3, op.T, +1)):
            idx, eigs, vecs = sub[n]
            image = [mp.fsum(int(opr[a, b])*p for b, p in zip(idx2, psi)) for a in idx]
            for e, v in zip(eigs, vecs):
                terms.append((sgn*(e - e0), mp.fsum(x*y for x, y in zip(v, image))**2/2))
        return np.array([complex(mp.fsum(w/(mp.mpmathify(complex(z)) - e) for e, w in terms)) for z in zs])


@case(CASES, 60, 1500)
def scales(ctx, rng):
    """Hopping and interaction on very different scales, frequencies resolve the smaller one."""
    ratio = float(gen.loguni(rng, 1e-6, 3e-2))
    unit = float(gen.loguni(rng, 1e-4, 1e4))
    big, small = unit*rng.choice([-1, 1]), unit*ratio*rng.choice([-1, 1])
    strong = bool(rng.random() < 0.7)
    t, u = (small, big) if strong else (big, small)
    if rng.random() < 0.5:
        u = abs(u)
    near = rng.choice([0, u] if strong else [t, -t], 5)
    width = abs(small) if rng.random() < 0.7 or not strong else unit*ratio**2*10
    eta = width*gen.loguni(rng, 0.1, 3, 5)*rng.choice([-1, 1], 5)
    z = near + width*rng.normal(size=5) + 1j*eta
    kind = str(rng.choice(["+", "-"]))
    ctx.tag("scales", strong, kind, int(np.log10(ratio)), np.sign(u))
    got = ctx.call(gt.hubbard_dimer_gf_z, z, hopping=t, interaction=u, kind=kind)
    want = _mp_lehmann(z, t, u, 1 if kind == "+" else -1, int(rng.integers(2)))
    ctx.close("exact diagonalization on the small scale", got, want, rtol=1e-11, atol=64*2.3e-16*unit/abs(eta)**2 + 1e-15/abs(eta))


@case(CASES, 150, 2500)
def degenerate_dimer(ctx, rng):
    """Without hopping: two atoms in the singlet state; without interaction: bare levels; poles coincide without both."""
    t, u = [(0, 0), (0.0, 0.0), (0, float(rng.normal())), (0.0, int(rng.integers(1, 6))), (float(rng.normal()), 0),
            (-0.0, 0.0)][int(rng.integers(6))]
    kind = str(rng.choice(["+", "-"]))
    sign = 1 if kind == "+" else -1
    arg, shape, z, form = gen.form(rng, _freq(rng, abs(t) + abs(u) or 1.0))
    ctx.tag("degenerate dimer", t == 0, u == 0, kind, form)
    got = ctx.call(gt.hubbard_dimer_gf_z, arg, hopping=t, interaction=u, kind=kind)
    want = 0.5/z + 0.5/(z - u) if t == 0 else 1/(z + sign*t)
    ctx.close("coinciding poles", got, want.reshape(shape), rtol=1e-12)
    if t == 0 and u >= 0 or u == 0:  # the ground state of the limit
        hops = np.array([0.0, t, 0.7, -0.3, 0.0])  # mixed into an array of parameters
        got = ctx.call(gt.hubbard_dimer_gf_z, z[0], hopping=hops, interaction=np.array([0.0, u, 0, 0, u]), kind=kind)
        want = [1/z[0], want[0], 1/(z[0] + sign*0.7), 1/(z[0] - sign*0.3), 0.5/z[0] + 0.5/(z[0] - u)]
        ctx.close("arrays of parameters", got, np.array(want), rtol=1e-12)


@case(CASES, 800, 16000)
def atomic(ctx, rng):
    u = float(gen.loguni(rng, 1e-3, 30)*rng.choice([-1, 1, 1]))
    occ = float(rng.choice([0, 1, 0.5, rng.random(), rng.random()*1e-6]))
    z = _freq(rng, abs(u))
    pick = int(rng.integers(5))
    ctx.tag("atomic", pick, np.sign(u), occ in (0, 1, 0.5))
    if pick == 0:
        uu, oo, zz = np.full(z.shape, u), occ, z
    elif pick == 1:
        uu = u*rng.uniform(0.5, 1, z.size)
        oo = rng.random(z.size)
        zz = z
    elif pick == 2:
        uu, oo, zz = u, rng.random((3, 1)), z
    elif pick == 3:
        uu, oo, zz = u, occ, complex(z[0])
    else:
        uu, oo, zz = [u]*z.size, [occ]*z.size, z.tolist()
    got = np.asarray(ctx.call(gt.hubbard_I_self_z, zz, uu, occ=oo))
    zl, ul, ol = np.asarray(zz, dtype=LD), np.asarray(uu, dtype=LD), np.asarray(oo, dtype=LD)
    atom = (1 - ol)/zl + ol/(zl - ul)
    want = (zl - 1/atom).astype(complex)
    eta = np.min(abs(z.imag))
    ctx.close("self-energy of the atom", got, np.broadcast_to(want, got.shape), rtol=1e-11,
              atol=1e-12*np.max(abs(ul))**2/eta + 1e-15*np.max(abs(zl)))
    big = np.max(abs(ul)) * 1e6j
    ctx.close("Hartree limit", ctx.call(gt.hubbard_I_self_z, big, uu, oo) if pick != 4 else
              ctx.call(gt.hubbard_I_self_z, [big]*z.size, uu, oo),
              np.asarray(ul*ol).astype(complex) + (0 if pick != 2 else np.zeros((3, 1))), atol=1e-5*np.max(abs(ul)))
    im = np.where(np.asarray(zz).imag > 0, -got.imag, got.imag)
    ctx.ok("causality", np.all(im >= -1e-12*np.max(abs(got))))


@case(CASES, 800, 16000)
def surface(ctx, rng):
    t = float(gen.loguni(rng, 1e-2, 10)) if rng.random() < 0.8 else int(rng.integers(1, 5))
    z = t*(2.5*rng.normal(size=6) + 1j*gen.loguni(rng, 1e-2, 3, 6)*rng.choice([-1, 1], 6))
    eps = t*rng.normal(size=(3, 1)) if rng.random() < 0.5 else float(t*rng.normal())
    arg, shape, zz, form = gen.form(rng, z)
    if np.ndim(eps):
        arg, shape, zz, form = z, (6,), z, "outer"
    ctx.tag("surface", form, type(t).__name__)
    got = np.asarray(ctx.call(gt.surface_gf_zeps, arg, eps, hopping_nn=t))
    za = np.asarray(arg) - eps
    # semi-infinite chain by renormalization decimation
    e_s, e_b = np.zeros(za.shape, dtype=LD), np.zeros(za.shape, dtype=LD)
    al, zl = np.full(za.shape, t, dtype=LD), za.astype(LD)
    for _ in range(40):
        g = 1/(zl - e_b)
        upd = al*al*g
        e_s, e_b, al = e_s + upd, e_b + 2*upd, al*al*g
    want = (1/(zl - e_s)).astype(complex)
    ctx.close("semi-infinite chain", got, want, rtol=1e-9, atol=1e-10/abs(za.imag)*np.ones(got.shape))
    ctx.close("self-consistency", got*(za - t*t*got), np.ones(got.shape), atol=1e-11*(1 + abs(za)/t)**2)
    ctx.ok("causality", np.all(got.imag*za.imag < 0))
    # finite chain far off the band
    far = (4 + rng.random())*t*np.exp(1j*rng.uniform(0, 6.28))
    n = 60
    ham = t*(np.eye(n, k=1) + np.eye(n, k=-1))
    chain = np.linalg.inv(far*np.eye(n) - ham)[0, 0]
    ctx.close("finite chain", ctx.call(gt.surface_gf_zeps, far + 0.3, 0.3, t), chain, rtol=1e-9)


@case(CASES, 400, 4000)
def vanishing(ctx, rng):
    """Vanishing on-site energy, frequency, hopping or interaction; sign of the hopping."""
    t = float(gen.loguni(rng, 1e-2, 10))*int(rng.choice([-1, 1]))
    z = np.array([1j*gen.loguni(rng, 1e-3, 3)*abs(t), 1e-9j*abs(t), -1e-3j*abs(t), abs(t)*(rng.normal() + 0.3j)])
    pick = int(rng.integers(3))
    eps = [0, 0.0, np.zeros(4)][pick]
    ctx.tag("vanishing", pick, t > 0)
    got = np.asarray(ctx.call(gt.surface_gf_zeps, z, eps, t))
    zl = z.astype(LD)/(2*t)
    root = np.sqrt(zl*zl - 1)
    want = zl - root*np.where((root*zl.conj()).real >= 0, 1, -1)  # decaying solution
    ctx.close("surface at vanishing energy", got*t, want.astype(complex), rtol=1e-10)
    ctx.ok("causality", np.all(got.imag*z.imag < 0), got=got)
    # difference of energies only
    shift = float(rng.normal())*t
    ctx.close("only difference of energies", ctx.call(gt.surface_gf_zeps, z + shift, shift, t)*t, got*t, atol=1e-6)
    # no interaction: no self-energy
    occ = [rng.random(4), 0.0, 1.0, 0, 1][int(rng.integers(5))]
    zero = [0, 0.0, np.zeros(4), np.zeros(4, int)][int(rng.integers(4))]
    ctx.close("no self-energy without interaction", ctx.call(gt.hubbard_I_self_z, z, zero, occ), np.zeros(4), atol=0)
    intr = float(rng.normal())*3
    ctx.close("empty", ctx.call(gt.hubbard_I_self_z, z, intr, 0), np.zeros(4), atol=0)
    ctx.close("full: Hartree shift", ctx.call(gt.hubbard_I_self_z, z, intr, 1), np.full(4, intr), rtol=1e-5 if abs(intr) > 1e-3 else 1e-2)
