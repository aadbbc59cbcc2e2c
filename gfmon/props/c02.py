"""C02: lattice DOS is the spectral function of the lattice: weight, support, positivity."""
import mpmath
import numpy as np

from .. import bands, gen, lat
from ..core import Skip, case

CASES = []
MP_LATTICES = ["bcc", "bethe", "fcc", "honeycomb", "kagome", "lieb", "onedim", "sc", "square", "triangular"]
RULE = ("Random lattice, half-bandwidth, energies over band interior, outside, edges and neighbourhoods of"
        " van Hove points, in all argument forms; weighted integrals of the DOS over resolvents placed anywhere"
        " in the complex plane; non-trivial: energies inside of the band / kernels with finite weight.")
ASSUMPTIONS = ["double exponential quadrature between van Hove points; end-point singularities limit it to 1e-6"]

SYMMETRIC = {"bcc", "bethe", "bethez", "box", "honeycomb", "lieb", "onedim", "rectangular", "sc", "square"}


def _de(a, b, n=151, tmax=3.3):
    """Double exponential nodes and weights on (a, b)."""
    t = np.linspace(-tmax, tmax, n)
    h = t[1] - t[0]
    s = np.pi/2*np.sinh(t)
    x = np.tanh(s)
    w = h*np.pi/2*np.cosh(t)/np.cosh(s)**2
    # distance to the nearer end-point computed without cancellation
    d = np.exp(-abs(s))/np.cosh(s)
    e = np.where(t < 0, a + 0.5*(b - a)*d, b - 0.5*(b - a)*d)
    del x
    ok = (e > a) & (e < b)
    return e[ok], 0.5*(b - a)*w[ok]


def nodes(name, D, kw, n=71):
    lo, hi = bands.edges(name, float(D))
    pts = sorted({lo, hi, *[p for p in bands.singularities(name, float(D), scale=kw.get("scale")) if lo < p < hi]})
    sing = np.array(pts[1:-1] if name != "fcc" else pts[:-1])
    full = sorted({*pts, *[a + (b - a)*f for a, b in zip(pts[:-1], pts[1:]) for f in (0.25, 0.5, 0.75)]})
    parts = [_de(a, b, n) for a, b in zip(full[:-1], full[1:])]
    e, w = np.concatenate([p[0] for p in parts]), np.concatenate([p[1] for p in parts])
    if sing.size:  # logarithmic singularities: nodes on top of them carry no weight
        keep = np.min(abs(np.subtract.outer(e, sing)), axis=-1) > 1e-11*(hi - lo)
        e, w = e[keep], w[keep]
    return e, w


def _qtol(name, kw):
    # inverse square root at the band edge limits a double precision quadrature
    return 3e-6 if name == "onedim" or kw.get("coordination") == 2 else 1e-7


def _ptol(name):
    return 1e-6 if name == "rectangular" else 1e-8


@case(CASES, 1200, 24000)
def resolvent_average(ctx, rng):
    """∫dos(e)/(z-e) equals the Brillouin zone average of the resolvent."""
    name, kw = lat.pick(rng)
    D = gen.half_bandwidth(rng)
    e, w = nodes(name, D, kw)
    dos = ctx.call(lat.dos_fn(name, rng), e, half_bandwidth=D, **kw)
    ctx.ok(f"{name}: DOS finite inside of the band", np.all(np.isfinite(dos)), e=e, dos=dos)
    ctx.ok(f"{name}: DOS non-negative", np.all(dos >= 0), e=e, dos=dos)
    total = 1 - bands.FLAT.get(name, (0, 0))[0]
    ctx.close(f"{name}: normalization", np.sum(w*dos), total, rtol=_qtol(name, kw))
    lo, hi = bands.edges(name, float(D))
    for _ in range(3):
        im = 0.12
        z = complex(rng.uniform(lo - 0.2*(hi-lo), hi + 0.2*(hi-lo)), float(D)*gen.loguni(rng, im, 3))
        ref = lat.ref_gf(name, z, D, **kw)
        if ref is None:
            continue
        if name in bands.FLAT:
            wt, pos = bands.FLAT[name]
            ref = ref - wt/(z - pos*float(D))
        ctx.tag(name, "resolvent")
        ctx.close(f"{name}: ∫DOS/(z-eps)", np.sum(w*dos/(z - e)), ref, rtol=_qtol(name, kw)*10,
                  atol=_qtol(name, kw)/float(D))


@case(CASES, 7500, 120000)
def spectral_function(ctx, rng):
    """Pointwise: DOS = -Im G(eps + i0)/π, all argument forms."""
    name, kw = lat.pick(rng)
    D = gen.half_bandwidth(rng)
    x = lat.draw_re(rng, name, D, kw, 8)
    lo, hi = bands.edges(name, float(D))
    gap = np.min(abs(np.subtract.outer(x, lat.special_points(name, D, kw))), axis=-1)
    x = x[gap > 1e-5*(hi - lo)]
    if x.size == 0:
        raise Skip
    arg, shape, vals, tag = gen.form(rng, x)
    dos = ctx.call(lat.dos_fn(name, rng), arg, half_bandwidth=D, **kw)
    gf = np.asarray(ctx.call(lat.gf_fn(name, rng), vals + 1e-40j*float(D), half_bandwidth=D, **kw))
    want = -gf.imag/np.pi
    inside = (vals > lo) & (vals < hi)
    ctx.tag(name, tag, "in" if inside.any() else "out")
    ctx.close(f"{name}: DOS = -Im G/pi", np.asarray(dos), np.where(inside, want, 0).reshape(shape),
              rtol=_ptol(name), atol=_ptol(name)/100/float(D))
    ctx.ok(f"{name}: no spectral weight outside", np.all(np.asarray(dos).reshape(-1)[~inside] == 0),
           eps=vals, dos=dos)
    ctx.ok(f"{name}: non-negative", np.all(np.asarray(dos) >= 0), eps=vals, dos=dos)


@case(CASES, 2000, 32000)
def support_and_symmetry(ctx, rng):
    """Vanishes outside of the band at any distance, symmetric for bipartite lattices, scales with D."""
    name, kw = lat.pick(rng)
    D = gen.half_bandwidth(rng)
    lo, hi = bands.edges(name, float(D))
    far = float(D)*gen.loguni(rng, 1e-9, 1e12, 6)
    out = np.concatenate([hi + far, lo - far])
    out = out[(out > hi*(1 + 1e-12)) | (out < lo*(1 + 1e-12))]
    dos = ctx.call(lat.dos_fn(name, rng), out, half_bandwidth=D, **kw)
    ctx.ok(f"{name}: zero outside of the support", np.all(dos == 0), eps=out, dos=dos)
    x = rng.uniform(lo, hi, 8)
    got = ctx.call(lat.dos_fn(name, rng), x, half_bandwidth=D, **kw)
    ctx.tag(name, "support")
    if name in SYMMETRIC:
        mirror = ctx.call(lat.dos_fn(name, rng), -x, half_bandwidth=D, **kw)
        ctx.close(f"{name}: DOS(-eps) = DOS(eps)", mirror, got, rtol=1e-10)
    s = float(2.0**rng.integers(-5, 6))
    scaled = ctx.call(lat.dos_fn(name, rng), x*s, half_bandwidth=D*s, **kw)
    ctx.close(f"{name}: DOS scales with the half-bandwidth", scaled, got/s, rtol=1e-10)


@case(CASES, 1500, 24000)
def special_points(ctx, rng):
    """At van Hove points and edges: never negative, never NaN (divergence is +inf or large)."""
    name, kw = lat.pick(rng)
    D = [1, 2, 3.0, 1.0, 9/4, 4.5, 0.75, rng.uniform(0.1, 5), rng.uniform(0.001, 0.1)][int(rng.integers(9))]
    pts = lat.special_points(name, D, kw)
    for p in pts:
        if kw.get("coordination") == 2:  # 0/0 at the diverging band edges
            break
        ulp = abs(np.spacing(p)) if p else 1e-13
        for arg in (p, float(p), np.array([p, p]), p + ulp, p - ulp, p + 3*ulp, p - 3*ulp):
            dos = np.asarray(ctx.call(lat.dos_fn(name, rng), arg, half_bandwidth=D, **kw))
            ctx.ok(f"{name}: DOS >= 0 at special point", np.all(dos >= 0), eps=arg, dos=dos)
    ctx.comparisons += 1
    ctx.tag(name, "special", D)
    lo, hi = bands.edges(name, float(D))
    diverging = {"onedim": [lo, hi], "bcc": [0.0], "fcc": [lo], "sc": []}.get(
        name, bands.singularities(name, float(D), scale=kw.get("scale")))
    dirac = {"honeycomb": 0.0, "kagome": 1/3, "lieb": 0.0}.get(name, np.inf)*float(D)
    diverging = [p for p in diverging if abs(p - dirac) > 1e-9*float(D)]
    for p in diverging:
        fn = lat.dos_fn(name, rng)
        near = ctx.call(fn, p + 1e-7*float(D)*np.array([-1, 1]), half_bandwidth=D, **kw)
        at = np.asarray(ctx.call(fn, p, half_bandwidth=D, **kw))
        ctx.ok(f"{name}: DOS diverges", at > np.max(near) > 0, eps=p, at=at, near=near)
        if name in MP_LATTICES and rng.random() < 0.2:
            at = float(mpmath.re(ctx.call(lat.module(name).dos_mp, float(p), half_bandwidth=float(D))))
            ctx.ok(f"{name}: multi-precision DOS diverges", at > np.max(near), eps=p, at=at, near=near)


@case(CASES, 1500, 24000)
def rational_energies(ctx, rng):
    """Simple fractions of the half-bandwidth and finite kinks are ordinary energies."""
    name, kw = lat.pick(rng)
    D = [1, 2, 3.0, 9/4, 4.5, 9, 0.75, 12, rng.uniform(0.1, 5), gen.half_bandwidth(rng)][int(rng.integers(10))]
    x = lat.rational_points(rng, name, D, kw, 10)
    if x.size == 0:
        raise Skip
    arg, shape, vals, tag = gen.form(rng, x)
    fn = lat.dos_fn(name, rng)
    got = np.asarray(ctx.call(fn, arg, half_bandwidth=D, **kw))
    gf = np.asarray(ctx.call(lat.gf_fn(name, rng), vals + 1e-9j*float(D), half_bandwidth=D, **kw)).reshape(shape)
    lo, hi = bands.edges(name, float(D))
    want = np.where((vals >= lo) & (vals <= hi), -gf.imag.reshape(-1)/np.pi, 0).reshape(shape)
    ctx.tag(name, "rational", tag)
    ctx.close(f"{name}: DOS at simple fractions of D", got, want, rtol=1e-4, atol=3e-4/float(D))


@case(CASES, 1250, 20000)
def integer_energies(ctx, rng):
    """Integer energies are valid energies."""
    name, kw = lat.pick(rng)
    D = [7, 5, 11.0, 6.5][int(rng.integers(4))]
    x = np.arange(-12, 17)
    pts = lat.special_points(name, D, kw)
    x = x[np.min(abs(np.subtract.outer(x, pts)), axis=-1) > 1e-6]
    arg = x if rng.random() < 0.7 else int(x[int(rng.integers(x.size))])
    fn = lat.dos_fn(name, rng)
    got = ctx.call(fn, arg, half_bandwidth=D, **kw)
    want = ctx.call(fn, np.asarray(arg, dtype=float), half_bandwidth=D, **kw)
    gf = np.asarray(ctx.call(lat.gf_fn(name, rng), np.asarray(arg, dtype=float) + 1e-40j, half_bandwidth=D, **kw))
    ctx.tag(name, "int", type(arg).__name__)
    ctx.close(f"{name}: integer energies", got, want, rtol=1e-12)
    lo, hi = bands.edges(name, float(D))
    inside = (np.asarray(arg) > lo) & (np.asarray(arg) < hi)
    ctx.close(f"{name}: integer energies vs Green's function", got, np.where(inside, -gf.imag/np.pi, 0),
              rtol=_ptol(name), atol=_ptol(name)/100/float(D))


@case(CASES, 1500, 24000)
def multiprecision_agrees(ctx, rng):
    """The multi-precision DOS and the vectorized DOS are the same function."""
    name, kw = lat.pick(rng, MP_LATTICES)
    D = gen.half_bandwidth(rng)
    x = lat.draw_re(rng, name, D, kw, 3)
    lo, hi = bands.edges(name, float(D))
    pts = lat.special_points(name, D, kw)
    near = rng.choice([*pts, 0.0], x.size) + float(D)*gen.loguni(rng, 1e-6, 1e-2, x.size)*rng.choice([-1, 1], x.size)
    x = np.where(rng.random(x.size) < 0.4, near, x)
    gap = np.min(abs(np.subtract.outer(x, pts)), axis=-1)
    keep = gap > 1e-6*(hi - lo)
    x, gap = x[keep], gap[keep]
    if x.size == 0:
        raise Skip
    mp_dos = lat.module(name).dos_mp
    with mpmath.mp.workdps(30):
        want = [float(mpmath.re(ctx.call(mp_dos, float(xi), half_bandwidth=float(D)))) for xi in x]
    got = ctx.call(lat.dos_fn(name, rng), x, half_bandwidth=D)
    ctx.tag(name, "mp")
    rtol = 1e-11 + 1e-12*float(D)/gap  # rounding errors times condition next to a singular energy
    ctx.close(f"{name}: dos = dos_mp", got, want, atol=rtol*abs(np.asarray(want)) + 1e-13/float(D))
