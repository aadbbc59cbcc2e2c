"""C21: retarded-time Green's functions of the lattices."""
import mpmath
import numpy as np

from .. import gen, target
from ..core import case

gt = target.load()

CASES = []
QUICK = 6  # cheap cases: more of them in the quick tier
RULE = ("Times from 1e-9 to 1e6 inverse half-bandwidths of both signs and zero, around the Taylor switching point, half-bandwidths over six"
        " decades, centres of both signs, all argument forms.  Non-trivial: positive time.")
ASSUMPTIONS = ["the centre is a multiple of the half-bandwidth, as established by the test-suite"]
LATT = {"bethe": gt.lattice.bethe, "box": gt.lattice.box}


def _times(rng, hbw, num=8):
    pick = int(rng.integers(5))
    if pick == 0:
        tt = gen.loguni(rng, 1e-9, 1e-2, num)
    elif pick == 1:
        tt = rng.uniform(0, 40, num)
    elif pick == 2:
        tt = gen.loguni(rng, 1, 1e6, num)
    elif pick == 3:
        tt = np.finfo(float).eps**0.25*(1 + rng.normal(size=num)*10.0**rng.integers(-15, 0, num))
    else:
        tt = gen.loguni(rng, 1e-6, 1e3, num)
    tt = tt/hbw
    tt[rng.random(num) < 0.2] *= -1
    if rng.random() < 0.3:
        tt[0] = 0
    return tt, pick


def _exact(name, tt, hbw):
    out = np.zeros(tt.size, dtype=complex)
    for i, t in enumerate(tt):
        if t < 0:
            continue
        x = mpmath.mpf(float(t))*mpmath.mpf(hbw)
        if x == 0:
            out[i] = -1j
            continue
        with mpmath.workprec(90):
            out[i] = complex(-2j*mpmath.besselj(1, x)/x if name == "bethe" else -1j*mpmath.sin(x)/x)
    return out


@case(CASES, 1500, 24000)
def closed_form(ctx, rng):
    name = str(rng.choice(list(LATT)))
    hbw = gen.half_bandwidth(rng)
    tt, pick = _times(rng, float(hbw))
    arg, shape, tt, form = gen.form(rng, tt)
    if rng.random() < 0.15:
        arg, shape, form = tt.tolist(), tt.shape, "list"
    kw = {}
    center = 0.0
    if rng.random() < 0.6:
        center = float(rng.normal()*rng.choice([1, 5])) if rng.random() < 0.8 else int(rng.integers(-3, 4))
        kw["center"] = center
    ctx.tag(name, pick, form, bool(kw))
    got = ctx.call(LATT[name].gf_ret_t, arg, half_bandwidth=hbw, **kw)
    want = _exact(name, tt, hbw)*np.exp(-1j*float(center)*np.asarray(tt, dtype=np.longdouble)*float(hbw)).astype(complex)
    x = abs(tt)*float(hbw)
    # rounding of D*t shifts the phase of the oscillation
    ctx.close("retarded time", got, want.reshape(shape),
              atol=((3e-15*(1 + abs(center)))*(1 + x)*np.where(x > 1, 1/np.maximum(x, 1)**(1 if name == "box" else 1.5), 1) + 2e-15).reshape(shape))
    arr = np.asarray(got).reshape(-1)
    ctx.ok("causal", np.all(arr[tt < 0] == 0))
    ctx.ok("bounded by one", np.all(abs(arr) <= 1 + 1e-14))
    ctx.ok("starts at -i", np.all(abs(arr[tt == 0] + 1j) < 1e-14))


@case(CASES, 500, 8000)
def spectral_integral(ctx, rng):
    """Fourier integral over the observed density of states."""
    name = str(rng.choice(list(LATT)))
    hbw = float(gen.half_bandwidth(rng))
    tt = rng.uniform(0, 60, 5)/hbw
    center = float(rng.normal())
    ctx.tag("fourier", name)
    if name == "bethe":  # eps = D*cos(theta): periodic integrand
        th = (np.arange(200) + 0.5)*np.pi/200
        eps, wgt = hbw*np.cos(th), hbw*np.sin(th)*np.pi/200
    else:
        x, w = np.polynomial.legendre.leggauss(120)
        eps, wgt = hbw*x, hbw*w
    dos = ctx.call(LATT[name].dos, eps, half_bandwidth=hbw)
    want = -1j*np.sum(wgt*dos*np.exp(-1j*np.multiply.outer(tt, eps + center*hbw)), axis=-1)
    got = ctx.call(LATT[name].gf_ret_t, tt, half_bandwidth=hbw, center=center)
    ctx.close("Fourier integral", got, want, atol=1e-11)


@case(CASES, 400, 6000)
def laplace(ctx, rng):
    """Laplace transform of the observed time function gives the observed frequency function."""
    name = str(rng.choice(list(LATT)))
    hbw = float(gen.loguni(rng, 0.1, 10))
    center = float(rng.normal()*0.5)
    z = hbw*(rng.normal(size=4) + 1j*rng.uniform(0.5, 3, 4))
    end = 36/np.min(z.imag)
    x, w = np.polynomial.legendre.leggauss(24)
    edges = np.linspace(0, end, int(end*hbw/4) + 4)
    half = 0.5*np.diff(edges)
    tt = (edges[:-1, None] + half[:, None]*(1 + x)).reshape(-1)
    wgt = (half[:, None]*w).reshape(-1)
    gf = ctx.call(LATT[name].gf_ret_t, tt, half_bandwidth=hbw, center=center)
    want = ctx.call(LATT[name].gf_z, z - center*hbw, half_bandwidth=hbw)
    ctx.tag("laplace", name)
    ctx.close("Laplace transform", np.sum(wgt*gf*np.exp(1j*np.multiply.outer(z, tt)), axis=-1), want, atol=1e-10/hbw)


@case(CASES, 300, 4000)
def centers(ctx, rng):
    """Stacked centres, some of them zero: every one shifts its own band."""
    name = str(rng.choice(list(LATT)))
    hbw = gen.half_bandwidth(rng)
    tt, _ = _times(rng, float(hbw))
    tt = tt[abs(tt)*float(hbw) < 1e3]
    center = rng.normal(size=int(rng.integers(1, 5)))
    center[rng.random(center.size) < 0.4] = 0
    if rng.random() < 0.3:
        center = np.round(center*3).astype(int)
    ctx.tag("centers", name, center.size, bool(np.any(center == 0)), center.dtype.kind)
    got = ctx.call(LATT[name].gf_ret_t, tt, half_bandwidth=hbw, center=center[:, None])
    ctx.ok("shape", got.shape in ((center.size, tt.size), tt.shape) if not np.any(center) else got.shape == (center.size, tt.size), got=got.shape)
    ref = _exact(name, tt, hbw)
    x = abs(tt)*float(hbw)
    for cc, row in zip(center, np.broadcast_to(got, (center.size, tt.size))):
        want = ref*np.exp(-1j*float(cc)*np.asarray(tt, dtype=np.longdouble)*float(hbw)).astype(complex)
        ctx.close("every centre", row, want, atol=1e-14*(1 + abs(cc))*(1 + x))
