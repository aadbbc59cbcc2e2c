"""Lattice access shared by C01-C03, C21, C24, C25."""
import numpy as np

from . import bands, gen, target

gt = target.load()
L = gt.lattice
TOPLEVEL = {"bcc", "bethe", "fcc", "honeycomb", "onedim", "sc", "square", "triangular"}


def pick(rng, names=None):
    name = str(rng.choice(names or bands.LATTICES))
    kw = {}
    if name == "rectangular":
        kw["scale"] = float(rng.choice([1.0, 0.5, 2.0, rng.uniform(0.05, 0.95), rng.uniform(1.05, 8), gen.loguni(rng, 1e-2, 100)]))
    if name == "bethez":
        kw["coordination"] = int(rng.choice([2, 3, 4, 6, 9, 30, gen.loguni(rng, 10, 1e5), gen.loguni(rng, 2, 300)]))
    return name, kw


def module(name):
    return getattr(L, name)


def gf_fn(name, rng):
    """One of the public names under which the Green's function is available."""
    fns = [module(name).gf_z]
    if hasattr(module(name), "hilbert_transform"):
        fns.append(module(name).hilbert_transform)
    if name in TOPLEVEL:
        fns += [getattr(gt, f"{name}_gf_z"), getattr(gt, f"{name}_hilbert_transform")]
    return fns[int(rng.integers(len(fns)))]


def dos_fn(name, rng):
    fns = [module(name).dos]
    if name in TOPLEVEL:
        fns.append(getattr(gt, f"{name}_dos"))
    return fns[int(rng.integers(len(fns)))]


def ref_gf(name, z, D, scale=None, coordination=None):
    """Independent reference (None if out of reach)."""
    if name == "bethe":
        return tree(complex(z), D, None)
    if name == "bethez":
        return tree(complex(z), D, coordination)
    return bands.gf(name, z, float(D), scale=scale)


def tree(z, D, Z):
    """Tree Green's function from its self-consistency, physical = decaying root."""
    import mpmath
    with mpmath.mp.workdps(40):
        D, z = mpmath.mpf(float(D)), mpmath.mpc(z)
        t2 = D**2/4  # (Z-1)*t^2
        root = mpmath.sqrt(z**2 - 4*t2)
        c1, c2 = (z - root)/(2*t2), (z + root)/(2*t2)
        cav = c1 if abs(c1) < abs(c2) else c2
        if Z is None:
            return complex(cav)
        return complex(1/(z - mpmath.mpf(Z)/(Z - 1)*t2*cav))


def special_points(name, D, kw):
    lo, hi = bands.edges(name, float(D))
    pts = [lo, hi, 0.0, *bands.singularities(name, float(D), scale=kw.get("scale"))]
    if name in bands.FLAT:
        pts.append(bands.FLAT[name][1]*float(D))
    return np.array(sorted(set(pts)))


def singular_points(name, D, kw):
    """Points where the Green's function (or, for the Dirac point, its slope) is not finite."""
    lo, hi = bands.edges(name, float(D))
    pts = [*bands.singularities(name, float(D), scale=kw.get("scale"))]
    pts = [] if name in ("sc", "fcc") else pts  # finite kinks
    pts += [lo] if name == "fcc" else [] if name in ("sc", "bcc", "bethe", "bethez") else [lo, hi]
    if kw.get("coordination") == 2:
        pts += [lo, hi]
    if name == "bcc":
        pts.append(0.0)
    if name in bands.FLAT:
        pts.append(bands.FLAT[name][1]*float(D))
    return np.array(sorted(set(pts)))


def rational_points(rng, name, D, kw, size, gap=1e-4):
    """Simple fractions of the half-bandwidth and their floating point neighbours, where the lattice is regular."""
    q = rng.choice([1, 2, 3, 4, 6, 8, 9, 12, 18], size)
    x = rng.integers(-2*q, 2*q + 1)/q*float(D)
    if rng.random() < 0.3:
        x[0] = 0.0
    ulps = rng.choice([0, 0, 1, -1, 2, -3], size)
    x = x + ulps*np.where(x == 0, gen.loguni(rng, 1e-40, 1e-5, size)*float(D), np.spacing(abs(x)))
    pts = singular_points(name, D, kw)
    if pts.size:
        x = x[np.min(abs(np.subtract.outer(x, pts)), axis=-1) > gap*float(D)]
    return x


def draw_re(rng, name, D, kw, size):
    """Real parts: band interior, outside, close to special points."""
    lo, hi = bands.edges(name, float(D))
    wid = hi - lo
    out = rng.uniform(lo - 0.4*wid, hi + 0.4*wid, size)
    pts = special_points(name, D, kw)
    near = rng.random(size) < 0.35
    out = np.where(near, rng.choice(pts, size) + wid*rng.choice([-1, 1], size)*gen.loguni(rng, 1e-6, 0.1, size), out)
    onp = rng.random(size) < 0.05
    return np.where(onp, rng.choice(pts, size), out)
