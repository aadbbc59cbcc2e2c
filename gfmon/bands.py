"""
Independent reference model of the lattices: averages over the Brillouin zone.

The code under test evaluates closed forms (elliptic integrals); here every
lattice is *defined* by its tight-binding dispersion, and Green's functions,
moments and averages are trapezoidal sums over momenta, which converge
exponentially for integrands analytic in a strip.  The innermost momentum
integral is done analytically, `∫dk/2π 1/(w - a cos k) = 1/sqrt(w² - a²)`.
"""
import numpy as np


def g1(w, a):
    """1D chain Green's function of amplitude `a`, `Im w != 0` (or outside band)."""
    sign = np.where(w.imag < 0, -1, 1)
    # principal branch of sqrt(w-a)*sqrt(w+a) ~ w for large w; works in both half planes
    del sign
    return 1.0/(np.sqrt(w - a + 0j)*np.sqrt(w + a + 0j))


def _k(n):
    return 2*np.pi*(np.arange(n) + 0.5)/n


def _khalf(n):
    """Half of the symmetric grid (k -> -k)."""
    return np.pi*(np.arange(n//2) + 0.5)/(n//2)


# --- dispersions on a full grid, used for averages <f(eps_k)> --------------
def eps_grid(name, n, scale=None):
    """All band energies (and weights) for half-bandwidth 1; grid is exact for deg < n/2."""
    k = _k(n)
    ch = np.cos(k)
    if name == "onedim":
        return [(1.0, ch)]
    if name == "square":
        return [(1.0, 0.5*np.add.outer(ch, ch).ravel())]
    if name == "rectangular":
        return [(1.0, (np.add.outer(ch, scale*ch)/(1 + scale)).ravel())]
    if name == "triangular":
        t = 4/9
        e = ch[:, None] + ch[None, :] + np.cos(k[:, None] + k[None, :])
        return [(1.0, (t*e).ravel())]
    if name in ("honeycomb", "kagome"):
        f2 = 3 + 2*(ch[:, None] + ch[None, :] + np.cos(k[:, None] + k[None, :]))
        f = np.sqrt(np.maximum(f2, 0)).ravel()/3
        if name == "honeycomb":
            return [(0.5, f), (0.5, -f)]
        return [(1/3, np.array([-2/3])), (1/3, 1/3 + f), (1/3, 1/3 - f)]
    if name == "lieb":
        f = np.sqrt(np.maximum(0.25*(2 + np.add.outer(ch, ch)), 0)).ravel()
        return [(1/3, np.zeros(1)), (1/3, f), (1/3, -f)]
    if name == "sc":
        return [(1.0, ((ch[:, None, None] + ch[None, :, None] + ch)/3).ravel())]
    if name == "bcc":
        return [(1.0, (ch[:, None, None]*ch[None, :, None]*ch).ravel())]
    if name == "fcc":
        a, b, c = ch[:, None, None], ch[None, :, None], ch
        return [(1.0, (0.5*(a*b + b*c + c*a)).ravel())]
    raise KeyError(name)


def moment(name, m, D=1.0, scale=None):
    """Exact moment: trigonometric polynomial integrated by a sufficient grid."""
    # the degree in a single momentum is at most 2*m (triangular: m per angle, sum of two)
    n = 2*m + 6
    if name in ("honeycomb", "kagome"):
        # even functions of f are polynomials in f2; handle binomially to stay exact
        k = _k(n)
        ch = np.cos(k)
        f2 = (3 + 2*(ch[:, None] + ch[None, :] + np.cos(k[:, None] + k[None, :])))/9
        from math import comb
        if name == "honeycomb":
            return 0.0 if m % 2 else float(np.mean(f2**(m//2)))*D**m
        tot = (-2/3)**m/3
        for j in range(0, m+1, 2):
            tot += 2/3*comb(m, j)*(1/3)**(m-j)*float(np.mean(f2**(j//2)))
        return tot*D**m
    if name == "lieb":
        if m == 0:
            return 1.0
        if m % 2:
            return 0.0
        ch = np.cos(_k(n))
        return 2/3*float(np.mean((0.25*(2 + np.add.outer(ch, ch)))**(m//2)))*D**m
    if name == "bethe":
        from math import comb
        return 0.0 if m % 2 else comb(m, m//2)/(m//2 + 1)/4**(m//2)*2**m/2**m*D**m
    if name == "box":
        return 0.0 if m % 2 else D**m/(m + 1)
    return sum(w*float(np.mean(e**m)) for w, e in eps_grid(name, n, scale=scale))*D**m


# --- Green's functions ------------------------------------------------------
def _npoints(delta, cap):
    """Number of points for exponential convergence with strip width ~ delta."""
    n = int(46/max(delta, 1e-9)) + 64
    return n if n <= cap else None


def gf(name, z, D=1.0, scale=None, cap1=200_000, cap2=1400):
    """
    Reference local Green's function for scalar `z`, or None if out of reach.

    Accuracy about 1e-12 relative.
    """
    w = complex(z)/D
    dist = abs(w.imag)
    if dist == 0:  # only outside of the band
        lo, hi = edges(name, 1.0)
        gap = max(lo - w.real, w.real - hi)
        if gap <= 0:
            return None
        dist = np.sqrt(gap)*0.5 if gap < 1 else 1.0
    # strip of analyticity in k: |Im eps(k+ik')| < dist  -> k' ~ asinh(dist)-ish
    delta = min(np.arcsinh(min(dist, 1e3))/2, 2.0)
    if name == "box":
        return complex(np.arctanh(1/w))/D
    if name == "onedim":
        return complex(g1(np.array(w), 1.0))/D
    if name in ("square", "rectangular", "triangular", "honeycomb", "kagome", "lieb"):
        n = _npoints(delta, cap1)
        if n is None:
            return None
        k = _khalf(2*n)
        c = np.cos(k)
        if name == "square":
            val = g1(w - 0.5*c, 0.5).mean()
        elif name == "rectangular":
            val = g1(w - c/(1 + scale), scale/(1 + scale)).mean()
        elif name == "triangular":
            t = 4/9
            val = g1(w - t*c, 2*t*np.cos(k/2)).mean()
        elif name == "honeycomb":
            val = _honeycomb(w, k)
        elif name == "kagome":
            val = 1/3/(w + 2/3) + 2/3*_honeycomb(w - 1/3, k)
        else:
            val = 1/3/w + 2/3*w*g1(w**2 - 0.25*(2 + c), 0.25).mean()
        return complex(val)/D
    n = _npoints(delta, cap2)
    if n is None:
        return None
    k = _khalf(2*n)
    c = np.cos(k)
    if name == "sc":
        val = g1(w - np.add.outer(c, c)/3, 1/3).mean()
    elif name == "bcc":
        val = g1(np.full((k.size, k.size), w), np.multiply.outer(c, c)).mean()
    elif name == "fcc":
        val = g1(w - 0.5*np.multiply.outer(c, c), 0.5*np.add.outer(c, c)).mean()
    else:
        raise KeyError(name)
    return complex(val)/D


def _honeycomb(w, k):
    return (w*g1(w**2 - (3 + 2*np.cos(k))/9, 4*np.cos(k/2)/9)).mean()


def edges(name, D=1.0):
    if name == "fcc":
        return -0.5*D, 1.5*D
    if name in ("triangular", "kagome"):
        return -2/3*D, 4/3*D
    return -D, D


def singularities(name, D=1.0, scale=None):
    """Van Hove points inside of the band (including kinks)."""
    return [D*s for s in {
        "bethe": [], "box": [], "onedim": [], "square": [0.0],
        "rectangular": [] if scale is None else sorted({-abs(1-scale)/(1+scale), abs(1-scale)/(1+scale)}),
        "triangular": [-4/9], "honeycomb": [-1/3, 0.0, 1/3], "kagome": [0.0, 1/3, 2/3],
        "lieb": [-0.5**0.5, 0.0, 0.5**0.5], "sc": [-1/3, 1/3], "bcc": [0.0], "fcc": [0.0],
        "bethez": [],
    }[name]]


#: weight and position (D=1) of the flat band, which is omitted in the DOS
FLAT = {"kagome": (1/3, -2/3), "lieb": (1/3, 0.0)}
LATTICES = ["bcc", "bethe", "bethez", "box", "fcc", "honeycomb", "kagome", "lieb", "onedim",
            "rectangular", "sc", "square", "triangular"]
