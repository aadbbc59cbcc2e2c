"""C01: lattice Green's functions are the Hilbert transform of the tight-binding DOS."""
import numpy as np
from mpmath import mp

from .. import bands, gen, lat
from ..core import Skip, case

CASES = []
RULE = ("Random lattice (13), half-bandwidth over six decades, public alias, argument form"
        " (scalars, arrays, strided, Fortran) and z over the complex plane incl. points close to band"
        " edges and van Hove singularities; non-trivial: Im z != 0 or z outside of the band.")
ASSUMPTIONS = ["momentum sums are converged to 1e-12 (trapezoidal rule, strip estimate)",
               "relative tolerance 3e-11"]


def _zs(rng, name, D, kw, n, lo=1e-6, hi=20.0):
    re = lat.draw_re(rng, name, D, kw, n)
    im = float(D)*gen.loguni(rng, lo, hi, n)*rng.choice([-1, 1], n)
    return re + 1j*im


def _floor(name, D, z):
    """Absolute rounding floor; the Dirac point of honeycomb/kagome is evaluated via z**2."""
    if name not in ("honeycomb", "kagome"):
        return np.full(np.shape(z), 1e-12)/float(D)
    gap = abs(np.asarray(z)/float(D) - (0 if name == "honeycomb" else 1/3))
    return np.where(gap < 1e-7, 5e-7, 3e-9)/float(D)


@case(CASES, 5000, 40000)
def momentum_sum(ctx, rng):
    """Real code against the Brillouin-zone sum."""
    name, kw = lat.pick(rng)
    D = gen.half_bandwidth(rng)
    reach = 0.06 if name in ("sc", "bcc", "fcc") else 1e-3
    n = 2 if name in ("sc", "bcc", "fcc") else 5
    zs = _zs(rng, name, D, kw, n, lo=reach, hi=30.0 if rng.random() < 0.7 else 3e3)
    if rng.random() < 0.15:  # real axis outside of the band
        lo, hi = bands.edges(name, float(D))
        zs = np.where(rng.random(n) < 0.5, hi + float(D)*gen.loguni(rng, 0.05, 50, n),
                      lo - float(D)*gen.loguni(rng, 0.05, 50, n)) + 0j
        ctx.tag(name, "real-outside")
    refs = np.array([lat.ref_gf(name, z, D, **kw) or np.nan for z in zs])
    keep = np.isfinite(refs)
    if not keep.any():
        raise Skip
    zs, refs = zs[keep], refs[keep]
    arg, shape, vals, tag = gen.form(rng, zs)
    fn = lat.gf_fn(name, rng)
    got = ctx.call(fn, arg, half_bandwidth=D, **kw)
    want = refs[:vals.size].reshape(shape)
    ctx.tag(name, tag, "up" if vals[0].imag > 0 else "down")
    ctx.close(f"{name}: G(z) = BZ average of 1/(z-eps_k)", got, want,
              rtol=3e-11)


def _closed(name, w, kw):
    """Textbook closed forms at high precision, half-bandwidth one."""
    K = mp.ellipk
    if name == "square":
        return 2/(mp.pi*w)*K(1/w**2)
    if name == "rectangular":
        s = mp.mpf(kw["scale"])
        a, b = 1/(1 + s), s/(1 + s)
        root = mp.sqrt(w - (a - b))*mp.sqrt(w + (a - b))
        return 2/(mp.pi*root)*K(4*a*b/root**2)
    if name == "bcc":
        return 4/(mp.pi**2*w)*K((1 - mp.sqrt(1 - 1/w**2))/2)**2
    if name == "onedim":
        return 1/(mp.sqrt(w - 1)*mp.sqrt(w + 1))
    if name == "box":
        return mp.atanh(1/w)
    if name == "lieb":
        v = 2*w**2 - 1
        return 1/(3*w) + mp.mpf(4)/3*w*2/(mp.pi*v)*K(1/v**2)
    cav = 2*(w - mp.sqrt(w - 1)*mp.sqrt(w + 1))
    if name == "bethe":
        return cav
    Z = mp.mpf(kw["coordination"])
    return 1/(w - Z/(Z - 1)*cav/4)


@case(CASES, 1200, 12000)
def closed_form(ctx, rng):
    """Textbook closed forms at 40 digits, arbitrarily close to the real axis and to singular points."""
    name, kw = lat.pick(rng, ["square", "rectangular", "bcc", "onedim", "box", "lieb", "bethe", "bethez"])
    D = gen.half_bandwidth(rng)
    num = 4
    re = lat.draw_re(rng, name, D, kw, num)
    pts = lat.special_points(name, D, kw)
    near = rng.random(num) < 0.4
    re = np.where(near, rng.choice(pts, num) + float(D)*gen.loguni(rng, 1e-12, 1e-1, num)*rng.choice([-1, 1], num), re)
    z = re + 1j*float(D)*gen.loguni(rng, 1e-14, 30, num)*rng.choice([-1, 1], num)
    arg, shape, vals, tag = gen.form(rng, z)
    got = np.asarray(ctx.call(lat.gf_fn(name, rng), arg, half_bandwidth=D, **kw))
    with mp.workdps(40):
        D_ = mp.mpf(float(D))
        want = np.array([complex(_closed(name, mp.mpc(complex(v))/D_, kw)/D_) for v in vals])
    gap = np.min(abs(np.subtract.outer(vals, pts)), axis=-1)/float(D)
    ctx.tag(name, "closed", tag, int(np.log10(gap[0])))
    ctx.close(f"{name}: closed form", got, want.reshape(shape), rtol=0,
              atol=((1e-13 + 5e-15/gap)*abs(want)).reshape(shape))


@case(CASES, 1600, 12000)
def analytic_in_half_planes(ctx, rng):
    """Mean value over a circle inside of a half plane equals the center value."""
    name, kw = lat.pick(rng)
    D = gen.half_bandwidth(rng)
    z = complex(_zs(rng, name, D, kw, 1, lo=1e-9, hi=3.0)[0])
    phi = 2*np.pi*(np.arange(40) + rng.random())/40
    circle = z + 0.4*abs(z.imag)*np.exp(1j*phi)
    fn = lat.gf_fn(name, rng)
    got = ctx.call(fn, circle, half_bandwidth=D, **kw)
    mid = ctx.call(fn, np.array([z]), half_bandwidth=D, **kw)
    ctx.tag(name, f"im1e{int(np.floor(np.log10(abs(z.imag)/float(D))))}")
    ctx.ok(f"{name}: finite off the real axis", np.all(np.isfinite(got)), z=z)
    gap = np.min(abs(z - lat.special_points(name, D, kw)))/float(D)
    ctx.close(f"{name}: analytic (mean value property)", mid[0], got.mean(),
              rtol=1e-9 + 1e-13/gap, atol=_floor(name, D, z))


@case(CASES, 2000, 12000)
def causal_and_symmetric(ctx, rng):
    """Nevanlinna function: sign, bound, mirror symmetry, scaling."""
    name, kw = lat.pick(rng)
    D = gen.half_bandwidth(rng)
    zs = _zs(rng, name, D, kw, 12, lo=1e-12, hi=1e3)
    fn = lat.gf_fn(name, rng)
    got = np.asarray(ctx.call(fn, zs, half_bandwidth=D, **kw))
    mirror = np.asarray(ctx.call(fn, zs.conj(), half_bandwidth=D, **kw))
    ctx.tag(name, "nevanlinna")
    ctx.ok(f"{name}: Im G has the opposite sign of Im z",
           np.all(np.sign(zs.imag)*got.imag <= 1e-11*abs(got)),
           z=zs, got=got)
    ctx.ok(f"{name}: |G| <= 1/|Im z|", np.all(abs(got)*abs(zs.imag) <= 1 + 1e-9), z=zs, got=got)
    ctx.close(f"{name}: G(z*) = G(z)*", mirror, got.conj(), rtol=1e-10, atol=_floor(name, D, zs))
    s = float(2.0**rng.integers(-6, 7))
    scaled = ctx.call(fn, zs*s, half_bandwidth=D*s, **kw)
    ctx.close(f"{name}: G(sz; sD) = G(z; D)/s", scaled, got/s, rtol=1e-10, atol=_floor(name, D, zs)/s)


@case(CASES, 500, 6000)
def far_field(ctx, rng):
    """z*G(z) approaches one as fast as the second moment allows, at any distance and direction."""
    name, kw = lat.pick(rng)
    D = gen.half_bandwidth(rng)
    num = 8
    r = gen.loguni(rng, 1e2, 1e8, num) if rng.random() < 0.5 else gen.loguni(rng, 1e6, 1e60, num)
    phi = rng.uniform(-np.pi, np.pi, num)
    near = rng.random(num) < 0.3
    phi = np.where(near, np.sign(phi)*gen.loguni(rng, 1e-12, 1e-1, num), phi)
    phi = np.where(rng.random(num) < 0.5, phi, np.pi - phi)
    zs = float(D)*r*np.exp(1j*phi)
    zs = np.where(rng.random(num) < 0.1, float(D)*r*np.sign(zs.real) + 0j, zs)
    got = np.asarray(ctx.call(lat.gf_fn(name, rng), zs, half_bandwidth=D, **kw))
    ctx.tag(name, "far", f"1e{int(np.log10(r[0]))//10*10}")
    ctx.ok(f"{name}: zG = 1 far away", np.all(abs(zs*got - 1) <= 3/r + 1e-12), z=zs, got=got)


@case(CASES, 1000, 6000)
def real_axis_limit(ctx, rng):
    """The value infinitesimally above the axis is the limit from the upper half plane."""
    name, kw = lat.pick(rng)
    D = gen.half_bandwidth(rng)
    lo, hi = bands.edges(name, float(D))
    x = rng.uniform(lo - 0.5*(hi-lo), hi + 0.5*(hi-lo), 30)
    pts = lat.special_points(name, D, kw)
    x = x[np.min(abs(np.subtract.outer(x, pts)), axis=-1) > 0.02*(hi-lo)]
    if x.size == 0:
        raise Skip
    side = rng.choice([-1, 1])
    fn = lat.gf_fn(name, rng)
    axis = ctx.call(fn, x + side*1e-40j*float(D), half_bandwidth=D, **kw)
    above = ctx.call(fn, x + side*1e-8j*float(D), half_bandwidth=D, **kw)
    ctx.tag(name, "axis", side)
    ctx.close(f"{name}: continuous towards the real axis", axis, above, rtol=1e-5, atol=1e-5/float(D))


@case(CASES, 800, 8000)
def rational_points(ctx, rng):
    """Simple fractions of the half-bandwidth are no special points of the implementation."""
    name, kw = lat.pick(rng)
    D = [1, 2, 3.0, 9/4, 4.5, 9, 0.75, 12, rng.uniform(0.1, 5), gen.half_bandwidth(rng)][int(rng.integers(10))]
    x = lat.rational_points(rng, name, D, kw, 12)
    if x.size == 0:
        raise Skip
    side = int(rng.choice([-1, 1]))
    tiny = float(D)*gen.loguni(rng, 1e-60, 1e-12, x.size)
    fn = lat.gf_fn(name, rng)
    got = np.asarray(ctx.call(fn, x + side*1j*tiny, half_bandwidth=D, **kw))
    above = np.asarray(ctx.call(fn, x + side*1e-8j*float(D), half_bandwidth=D, **kw))
    ctx.tag(name, "rational", side)
    ctx.close(f"{name}: continuous at simple fractions of D", got, above, rtol=1e-3, atol=1e-3/float(D))


@case(CASES, 800, 8000)
def real_frequencies(ctx, rng):
    """For exactly real frequencies the value is one of the two one-sided limits."""
    name, kw = lat.pick(rng)
    D = [1, 2, 3.0, 9/4, 4.5, 9, 0.75, 12, rng.uniform(0.1, 5), gen.half_bandwidth(rng)][int(rng.integers(10))]
    x = np.concatenate([lat.draw_re(rng, name, D, kw, 8), lat.rational_points(rng, name, D, kw, 4)])
    pts = np.append(lat.singular_points(name, D, kw), bands.edges(name, float(D)))
    x = x[np.min(abs(np.subtract.outer(x, pts)), axis=-1) > 1e-3*float(D)]
    x = x[x != 0]  # 1/z is part of the closed expressions
    if x.size == 0:
        raise Skip
    arg, shape, vals, tag = gen.form(rng, x)
    pick = int(rng.integers(3))
    if pick and not np.ndim(arg):
        arg = complex(arg, 0.0 if pick == 1 else -0.0)
    elif pick:
        arg = arg + 0j if pick == 1 else np.conj(arg + 0j)
    fn = lat.gf_fn(name, rng)
    got = np.asarray(ctx.call(fn, arg, half_bandwidth=D, **kw))
    above = np.asarray(ctx.call(fn, vals + 1e-30j*float(D), half_bandwidth=D, **kw)).reshape(shape)
    ctx.tag(name, "on the axis", tag, pick)
    ctx.close(f"{name}: principal value for real frequencies", got.real, above.real, rtol=1e-5, atol=1e-5/float(D))
    ctx.close(f"{name}: spectral part for real frequencies", abs(got.imag), abs(above.imag), rtol=1e-5, atol=1e-5/float(D))


@case(CASES, 60, 600)
def triangular_singularity(ctx, rng):
    """The van Hove point of the triangular lattice is treated explicitly: infinite spectral weight."""
    D = 2.25*2.0**int(rng.integers(-8, 9))
    z = [-D*4/9, complex(-D*4/9), np.array([-D*4/9, 0.3*D]), np.array([0.2*D, -D*4/9 + 0j])][int(rng.integers(4))]
    fn = lat.gf_fn("triangular", rng)
    got = np.atleast_1d(ctx.call(fn, z, half_bandwidth=D))
    zs = np.atleast_1d(z)
    ctx.tag("triangular", "singular", type(z).__name__)
    sing = zs == -D*4/9
    ctx.ok("triangular: divergence at the van Hove point", np.all(got[sing].imag == -np.inf), z=z, got=got)
    ctx.ok("triangular: finite elsewhere", np.all(np.isfinite(got[~sing])), z=z, got=got)
    for sign in (-1, 1):  # mirrored and neighbouring points are regular
        for off in (D*4/9, np.nextafter(D*4/9, 1)):
            near = np.asarray(ctx.call(fn, np.array([off + sign*1e-30j]), half_bandwidth=D))
            ctx.ok("triangular: regular at the mirrored point", np.all(abs(near)*D < 10), got=near)


@case(CASES, 200, 2000)
def related_transforms(ctx, rng):
    """Aliases agree, limits of the Bethe lattice, rectangular=square, stress transform."""
    D = gen.half_bandwidth(rng)
    zs = _zs(rng, "square", D, {}, 6, lo=1e-3, hi=10)
    sq = np.array([lat.ref_gf("square", z, D) for z in zs])
    rect = ctx.call(lat.L.rectangular.gf_z, zs, half_bandwidth=D, scale=1)
    ctx.close("rectangular(scale=1) is the square lattice", rect, sq, rtol=1e-10)
    s = float(rng.uniform(0.2, 5))
    ra = ctx.call(lat.L.rectangular.hilbert_transform, zs, half_bandwidth=D, scale=s)
    rb = ctx.call(lat.L.rectangular.gf_z, zs, half_bandwidth=D, scale=1/s)
    ctx.close("rectangular: exchange of the axes", ra, rb, rtol=1e-10)
    one = ctx.call(lat.L.bethez.gf_z, zs, half_bandwidth=D, coordination=2)
    ctx.close("bethez(2) is the chain", one, [lat.ref_gf("onedim", z, D) for z in zs], rtol=1e-9)
    stress = ctx.call(lat.L.square.stress_trafo, zs, half_bandwidth=D)
    # T = -1/2 ∫ eps DOS/(z - eps) = -1/2 (z G - 1)
    ctx.close("square: stress transform", stress, -0.5*(zs*sq - 1), rtol=1e-9, atol=1e-13*abs(zs*sq))


@case(CASES, 300, 3000)
def data_types(ctx, rng):
    """Single and extended precision arguments, real arguments outside of the band."""
    name, kw = lat.pick(rng)
    D = float(rng.uniform(0.3, 4))
    zs = D*(rng.uniform(-1.5, 1.5, 4) + 1j*rng.uniform(0.15, 2, 4)*rng.choice([-1, 1], 4))
    pick = int(rng.integers(0, 3))
    if pick == 0:
        arg, rtol = zs.astype(np.complex64), 3e-4
        zs = arg.astype(complex)
    elif pick == 1:
        arg, rtol = zs.astype(np.clongdouble), 3e-11
    else:
        lo, hi = bands.edges(name, D)
        arg = np.where(rng.random(4) < 0.5, hi + D*rng.uniform(0.1, 3, 4), lo - D*rng.uniform(0.1, 3, 4))
        zs, rtol = arg + 0j, 3e-11
        if name == "box":
            want = np.arctanh(D/arg)/D
            ctx.close("box: real arguments", ctx.call(lat.gf_fn(name, rng), arg, half_bandwidth=D), want, rtol=1e-12)
            return
    want = np.array([lat.ref_gf(name, z, D, **kw) for z in zs])
    got = ctx.call(lat.gf_fn(name, rng), arg, half_bandwidth=D, **kw)
    ctx.tag(name, arg.dtype)
    ctx.close(f"{name}: G(z) for {arg.dtype}", got, want, rtol=rtol)
