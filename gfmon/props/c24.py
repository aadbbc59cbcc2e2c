"""C24: Bethe derivatives and inverse are consistent with the Green's function."""
import mpmath
import numpy as np

from .. import bands, gen, lat
from ..core import Skip, case

gt = lat.gt
B = lat.L.bethe
LD = np.clongdouble

CASES = []
QUICK = 4  # cheap cases: more of them in the quick tier
RULE = ("Frequencies in both half planes, on the real axis outside of the band, next to the band edges, tiny and up to"
        " 1e30 half-bandwidths, in every scalar/array/integer form and extended precision; half-bandwidths over six"
        " decades.  Non-trivial: at least one frequency off the band.")
ASSUMPTIONS = ["tolerance is 64 rounding errors times the condition number of the function with respect to z/D"]


def _exact(z, D, order):
    """Derivatives of the decaying root of (D/2)^2 G^2 - z G + 1 = 0, in 60 digits."""
    with mpmath.mp.workdps(90):
        z, D = mpmath.mpc(z), mpmath.mpf(float(D))
        root = mpmath.sqrt(z - D)*mpmath.sqrt(z + D)
        g = 2/(z + root)  # same as 2(z - root)/D^2
        if order == 0:
            res = g
        elif order == 1:  # differentiate the quadratic equation
            res = g/((D*D/2)*g - z)
        else:
            res = 2/root**3
        return complex(res)


def _zs(rng, D, n):
    D = float(D)
    kind = int(rng.integers(6))
    if kind == 0:
        z = D*(rng.uniform(-2, 2, n) + 1j*gen.loguni(rng, 1e-8, 10, n)*rng.choice([-1, 1], n))
    elif kind == 1:  # outside of the band on the axis
        z = D*(1 + gen.loguni(rng, 1e-6, 10, n))*rng.choice([-1, 1], n) + 0j
    elif kind == 2:  # band edges
        z = D*(rng.choice([-1, 1], n) + gen.loguni(rng, 1e-9, 1e-2, n)*np.exp(1j*rng.uniform(0.01, 3.13, n)*rng.choice([-1, 1], n)))
    elif kind == 3:  # large
        z = D*gen.loguni(rng, 10, 1e30, n)*np.exp(1j*rng.uniform(-np.pi, np.pi, n))
    elif kind == 4:  # imaginary axis (Matsubara)
        z = 1j*D*gen.loguni(rng, 1e-6, 1e6, n)*rng.choice([-1, 1], n)
    else:  # near the origin
        z = D*gen.loguni(rng, 1e-8, 1e-2, n)*np.exp(1j*rng.uniform(0.01, 3.13, n)*rng.choice([-1, 1], n))
    return z, kind


def _cond(z, D):
    x = z/float(D)
    return 64*2.3e-16*(1 + abs(x)**2/abs(x**2 - 1)) + 64*2.3e-16*abs(1/(x**2 - 1))


@case(CASES, 4000, 60000)
def derivatives(ctx, rng):
    D = gen.half_bandwidth(rng)
    zs, kind = _zs(rng, D, 6)
    arg, shape, vals, tag = gen.form(rng, zs)
    order = int(rng.integers(3))
    fns = [[B.gf_z, gt.bethe_gf_z, B.hilbert_transform], [B.gf_d1_z, gt.bethe_gf_d1_z], [B.gf_d2_z, gt.bethe_gf_d2_z]][order]
    fn = fns[int(rng.integers(len(fns)))]
    want = np.array([_exact(z, D, order) for z in vals])
    if not np.all(np.isfinite(want)):
        raise Skip
    ctx.tag(order, kind, tag, type(D).__name__)
    got = ctx.call(fn, arg, D) if rng.random() < 0.5 else ctx.call(fn, arg, half_bandwidth=D)
    rel = 3*_cond(vals, D)
    ctx.close(f"derivative {order} of the Bethe Green's function", got, want.reshape(shape), rtol=0,
              atol=(rel*abs(want)).reshape(shape))


@case(CASES, 600, 6000)
def extended(ctx, rng):
    """Extended precision input gives extended precision output."""
    D = float(rng.choice([1.0, 0.5, 2.0, 4.0]))
    x, y = rng.uniform(-3, 3, 4), rng.choice([-1, 1], 4)*gen.loguni(rng, 0.05, 4, 4)
    z = np.array(x, dtype=LD) + 1j*np.array(y, dtype=LD)
    z = z + LD(1)/3*LD(2.0)**-30  # needs the extra digits
    order = int(rng.integers(3))
    real = rng.random() < 0.3
    if real:
        z = (np.sign(z.real)*(abs(z.real) + 1.2*D)).real
    fn = [B.gf_z, B.gf_d1_z, B.gf_d2_z][order]
    got = ctx.call(fn, z, half_bandwidth=D)
    ctx.tag("ext", order, real)
    ctx.ok("extended type kept", got.dtype == LD, dtype=got.dtype)
    one = np.array(1, dtype=np.longdouble)
    D_ = np.longdouble(D)
    zc = z.astype(LD)
    root = np.sqrt(zc - D_)*np.sqrt(zc + D_)
    want = [2*one/(zc + root), -2*one/(root*(zc + root)), 2*one/root**3][order]
    cond = 1 + abs(zc/D)**2/abs((zc/D)**2 - 1)
    err = np.asarray(abs(got - want)/abs(want)/cond, dtype=float)
    ctx.ok(f"derivative {order} accurate to extended precision", np.all(err < 1e-17), err=err, z=z.astype(complex))
    small = ctx.call(fn, zc.astype(np.complex64), half_bandwidth=D)
    ctx.ok("result of lower precision input is complex", small.dtype in (np.complex128, np.complex64), dtype=small.dtype)


@case(CASES, 1500, 20000)
def inverse(ctx, rng):
    """`R(G(z)) = z`, `G(R(g)) = g` on the physical sheet, and the documented formula."""
    D = gen.half_bandwidth(rng)
    zs, kind = _zs(rng, D, 6)
    if kind == 3:
        zs = zs/abs(zs)*np.minimum(abs(zs), 1e6*float(D))
    g = ctx.call(B.gf_z, zs, half_bandwidth=D)
    inv = gt.bethe_gf_z_inv if hasattr(gt, "bethe_gf_z_inv") and rng.random() < 0.5 else B.gf_z_inv
    arg, shape, vals, tag = gen.form(rng, np.asarray(g))
    back = ctx.call(inv, arg, half_bandwidth=D)
    ctx.tag("inv", kind, tag)
    ctx.close("z -> G -> z", back, zs[:vals.size].reshape(shape), rtol=1e-13, atol=1e-14*float(D))
    # arbitrary values on the physical sheet |g| < 2/D
    r = gen.loguni(rng, 1e-4, 0.98, 6)
    val = 2/float(D)*r*np.exp(1j*rng.uniform(-np.pi, np.pi, 6))
    z2 = ctx.call(inv, val, half_bandwidth=D)
    ctx.close("documented inverse", z2, (0.5*float(D))**2*val + 1/val, rtol=1e-12)
    g2 = ctx.call(B.gf_z, z2, half_bandwidth=D)
    ctx.close("g -> z -> g", g2, val, rtol=1e-12/np.min(1 - r))
    x = float(rng.uniform(0.1, 1.9)/float(D))*float(rng.choice([-1, 1]))
    ctx.close("real values", ctx.call(inv, x, half_bandwidth=D), 0.25*float(D)**2*x + 1/x, rtol=1e-12)


@case(CASES, 600, 6000)
def integers(ctx, rng):
    """Integer frequencies (outside of the band) are frequencies too."""
    D = float(rng.choice([1.0, 0.5, 2.0, 3.7]))
    n = rng.integers(int(D) + 1, 50, 5)*rng.choice([-1, 1], 5)
    form = int(rng.integers(4))
    arg = [n, int(n[0]), n.astype(np.int32), np.int64(n[0])][form]
    order = int(rng.integers(3))
    fn = [B.gf_z, B.gf_d1_z, B.gf_d2_z][order]
    got = ctx.call(fn, arg, half_bandwidth=int(D) if float(D).is_integer() and rng.random() < 0.5 else D)
    ctx.tag("int", form, order)
    want = np.array([_exact(int(z), D, order) for z in np.atleast_1d(arg)]).reshape(np.shape(arg))
    ctx.close(f"derivative {order} at integers", got, want, rtol=1e-13)


@case(CASES, 1500, 20000)
def hilbert(ctx, rng):
    """Every `hilbert_transform` is the Green's function of the same lattice."""
    names = [n for n in bands.LATTICES if hasattr(lat.module(n), "hilbert_transform")]
    name, kw = lat.pick(rng, [names[ctx.seed[2] % len(names)]])
    D = gen.half_bandwidth(rng)
    zs = lat.draw_re(rng, name, D, kw, 6) + 1j*float(D)*gen.loguni(rng, 1e-6, 1e3, 6)*rng.choice([-1, 1], 6)
    arg, shape, vals, tag = gen.form(rng, zs)
    fns = [lat.module(name).hilbert_transform]
    if name in lat.TOPLEVEL:
        fns.append(getattr(gt, f"{name}_hilbert_transform"))
    got = ctx.call(fns[int(rng.integers(len(fns)))], arg, half_bandwidth=D, **kw)
    want = ctx.call(lat.module(name).gf_z, arg, half_bandwidth=D, **kw)
    ctx.tag("hilbert", name, tag)
    ctx.ok("shape", np.shape(got) == shape, shape=np.shape(got))
    ctx.close(f"{name}: hilbert_transform = gf_z", got, want, rtol=1e-9,
              atol=(5e-7 if name in ("honeycomb", "kagome") else 1e-12)/float(D))


@case(CASES, 400, 4000, skip=0.7)
def coordination(ctx, rng):
    """Finite coordination: self-consistency of the tree, Z=2 chain, Z→∞ limit."""
    D = gen.half_bandwidth(rng)
    zs, kind = _zs(rng, D, 6)
    if kind in (1, 2, 3):
        raise Skip
    Z = int(rng.choice([2, 3, 4, 5, 7, 12, 100]))
    got = ctx.call(lat.L.bethez.gf_z, zs, half_bandwidth=D, coordination=Z)
    ctx.tag("Z", Z, kind)
    # independent: cavity propagator K of the branch, G = 1/(z - Z t^2 K)
    t2 = np.float64(D)**2/4/(Z-1)
    K = np.array([_exact(z, D, 0) for z in zs])
    den = zs - Z*t2*K
    ctx.close("tree of finite coordination", got, 1/den, rtol=1e-12, atol=1e-13*(abs(zs) + abs(Z*t2*K))/abs(den)**2)
    big = ctx.call(lat.L.bethez.gf_z, zs, half_bandwidth=D, coordination=10**7)
    lim = ctx.call(B.gf_z, zs, half_bandwidth=D)
    ctx.close("infinite coordination", big, lim, rtol=2e-6)
