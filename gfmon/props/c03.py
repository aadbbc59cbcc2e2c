"""C03: moments of the lattice DOS and the high-frequency tail they determine."""
import numpy as np

from .. import bands, gen, lat
from ..core import case

CASES = []
RULE = ("Every tabulated moment order of every lattice for random half-bandwidths against exact momentum sums;"
        " tails of the Green's function at random large complex z; non-trivial: non-vanishing moments and all tails.")
NAMES = ["bcc", "bethe", "box", "fcc", "honeycomb", "kagome", "lieb", "onedim", "sc", "square", "triangular"]


def _fn(name, rng):
    if name in lat.TOPLEVEL and rng.random() < 0.5:
        return getattr(lat.gt, f"{name}_dos_moment")
    return lat.module(name).dos_moment


@case(CASES, 1500, 24000)
def exact_moments(ctx, rng):
    name = str(rng.choice(NAMES))
    D = gen.half_bandwidth(rng)
    for m in range(1, 21):
        arg = m if rng.random() < 0.7 else np.int64(m)
        got = ctx.call(_fn(name, rng), arg, half_bandwidth=D)
        want = bands.moment(name, m, float(D))
        ctx.close(f"{name}: moment {m}", float(got), want, rtol=1e-12, atol=1e-14*float(D)**m)
    ctx.tag(name, "moments")


@case(CASES, 1000, 8000)
def zeroth_and_unavailable(ctx, rng):
    """Order zero is the norm where available; unavailable orders raise instead of returning a wrong number."""
    name = str(rng.choice(NAMES))
    D = gen.half_bandwidth(rng)
    try:
        got = ctx.call(_fn(name, rng), 0, half_bandwidth=D)
    except NotImplementedError:
        ctx.comparisons += 1
    else:
        ctx.close(f"{name}: norm", float(got), 1.0, rtol=1e-12)
    m = int(rng.integers(21, 40))
    try:
        got = ctx.call(_fn(name, rng), m, half_bandwidth=D)
    except NotImplementedError:
        ctx.comparisons += 1
    else:
        ctx.close(f"{name}: moment {m}", float(got), bands.moment(name, m, float(D)), rtol=1e-12,
                  atol=1e-14*float(D)**m)
    ctx.tag(name, "edge-orders")


@case(CASES, 4000, 64000)
def tail(ctx, rng):
    """z·G(z) = Σ_m moment_m / z^m for |z| far outside of the band."""
    name, kw = lat.pick(rng, [*NAMES, "rectangular", "bethez"])
    D = gen.half_bandwidth(rng)
    Df = float(D)
    r = gen.loguni(rng, 12, 1e6, 6)
    z = Df*r*np.exp(2j*np.pi*rng.random(6))
    z = np.where(abs(z.imag) < 1e-3*Df, z + 1j*Df, z)
    got = np.asarray(ctx.call(lat.gf_fn(name, rng), z, half_bandwidth=D, **kw))
    if name == "rectangular":
        mom = [bands.moment(name, m, Df, scale=kw["scale"]) for m in range(0, 15)]
    elif name == "bethez":
        Z, t2 = kw["coordination"], Df**2/4/(kw["coordination"] - 1)
        mom = [1, 0, Z*t2, 0, Z*t2**2*(2*Z - 1), 0]  # closed walks on the tree
        r = np.maximum(r, 300)
        z = z/abs(z)*Df*r
        got = np.asarray(ctx.call(lat.gf_fn(name, rng), z, half_bandwidth=D, **kw))
    else:
        mom = [1.0] + [float(ctx.call(_fn(name, rng), m, half_bandwidth=D)) for m in range(1, 21)]
    want = sum(mm/z**m for m, mm in enumerate(mom))
    ctx.tag(name, "tail")
    ctx.close(f"{name}: high-frequency expansion", z*got, want, rtol=0, atol=1e-11)
    # second order: resolves the second moment; only where it is not lost in rounding
    near = abs(z) < 60*Df
    if near.any():
        ctx.close(f"{name}: second order of the tail", ((z*got - 1)*z)[near], ((want - 1)*z)[near],
                  rtol=0, atol=1e-10*Df)
    if rng.random() < 0.3:  # numerical integral of the DOS
        from .c02 import _qtol, nodes
        e, w = nodes(name, D, kw)
        dos = ctx.call(lat.dos_fn(name, rng), e, half_bandwidth=D, **kw)
        for m, mm in enumerate(mom):
            flat, pos = bands.FLAT.get(name, (0, 0))
            val = np.sum(w*dos*e**m) + flat*(pos*Df)**m
            ctx.close(f"{name}: ∫DOS eps^m", val, mm, rtol=10*_qtol(name, kw), atol=_qtol(name, kw)*(1.5*Df)**m)
