"""C25: multi-precision lattice functions reach the working precision."""
import numpy as np
from mpmath import mp

from .. import bands, lat
from ..core import Skip, case

NAMES = ["bethe", "onedim", "square", "triangular", "honeycomb", "kagome", "lieb", "sc", "bcc", "fcc"]
CASES = []
QUICK = 2  # cheap cases: more of them in the quick tier
RULE = ("Working precisions 15-80 digits, multi-precision energies (also as str/int/float) across the band, within 1e-8 of"
        " edges and van Hove points and outside, half-bandwidths that are no doubles, complex frequencies of both half"
        " planes.  Non-trivial: energy inside of the band or complex frequency.")
ASSUMPTIONS = ["near a singular point at relative distance d the accuracy is 10^(2-dps)*(1+1/d)",
               "resolvent integrals use tanh-sinh quadrature between the van Hove points"]
_J = mp.mpc(0, 1)


def _bandwidth(rng):
    pick = int(rng.integers(5))
    if pick == 0:
        return 1
    if pick == 1:
        return float(rng.uniform(0.2, 5))
    if pick == 2:
        return mp.mpf(int(rng.integers(1, 40)))/int(rng.integers(1, 40))
    if pick == 3:
        return str(mp.nstr(mp.mpf(float(rng.uniform(0.1, 3))), 6))
    return mp.sqrt(int(rng.integers(2, 20)))


def _points(name):
    """Singular energies for half-bandwidth 1 as multi-precision numbers."""
    third = mp.mpf(1)/3
    return {"bethe": [-1, 1], "onedim": [-1, 1], "square": [-1, 0, 1],
            "triangular": [-2*third, -4*third/3, 0, 4*third], "honeycomb": [-1, -third, 0, third, 1],
            "kagome": [-2*third, 0, third, 2*third, 4*third],
            "lieb": [-1, -mp.sqrt(mp.mpf(1)/2), 0, mp.sqrt(mp.mpf(1)/2), 1],
            "sc": [-1, -third, 0, third, 1], "bcc": [-1, 0, 1],
            "fcc": [-mp.mpf(1)/2, 0, mp.mpf(3)/2]}[name]


def _tri(x):
    """Triangular DOS for t=1/2 hopping units (band -1.5..3), as arithmetic-geometric mean."""
    if x < mp.mpf(-3)/2 or x > 3:
        return mp.mpf(0)
    rr = mp.sqrt(2*x + 3)
    a, b = (rr + 1)**3*(3 - rr)/4, 4*rr
    big, diff = (a, a - b) if x < -1 else (b, b - a)
    return 1/(mp.pi*mp.agm(mp.sqrt(big), mp.sqrt(diff)))


def _honey(x):
    """Honeycomb DOS (per orbital), half-bandwidth 1."""
    f2 = 9*x**2  # |f|^2 = 3 + 2*(triangular sum)
    return mp.fabs(x)*mp.mpf(9)/2*_tri((f2 - 3)/2)


def exact(name, x):
    """Independent closed form for half-bandwidth 1 (None if there is none)."""
    if name == "bethe":
        return 2/mp.pi*mp.sqrt((1 - x)*(1 + x)) if abs(x) < 1 else mp.mpf(0)
    if name == "onedim":
        return 1/(mp.pi*mp.sqrt((1 - x)*(1 + x))) if abs(x) < 1 else mp.mpf(0)
    if name == "square":
        return 1/(mp.pi*mp.agm(1, mp.fabs(x))) if abs(x) < 1 else mp.mpf(0)
    if name == "triangular":
        return _tri(x*mp.mpf(9)/4)*mp.mpf(9)/4
    if name == "honeycomb":
        return _honey(x)
    if name == "kagome":  # two of three bands at 1/3 ± f/3·…
        return mp.mpf(2)/3*_honey(x - mp.mpf(1)/3)
    if name == "lieb":  # eps^2 = (2 + cos kx + cos ky)/4
        sq = 2*x*x - 1
        return mp.mpf(2)/3*4*mp.fabs(x)/2*(1/(mp.pi*mp.agm(1, mp.fabs(sq))) if abs(sq) < 1 else mp.mpf(0))
    if name == "bcc":
        if abs(x) >= 1:
            return mp.mpf(0)
        k = mp.pi/(2*mp.agm(1, mp.sqrt((1 + _J*mp.sqrt(1/x**2 - 1))/2)))
        return mp.fabs(4/(mp.pi**3*x)*(k*k).imag)
    return None


def _energy(rng, name):
    pts = _points(name)
    lo, hi = pts[0], pts[-1]
    kind = int(rng.integers(6))
    if kind == 5:  # simple fractions
        q = int(rng.choice([1, 2, 3, 4, 6, 8, 9, 12, 18]))
        x = mp.mpf(int(rng.integers(-2*q, 2*q + 1)))/q
    elif kind <= 1:
        x = lo + (hi - lo)*(mp.mpf(float(rng.uniform(0.001, 0.999))) + mp.mpf(float(rng.random()))*mp.mpf(2)**-60)
    elif kind <= 3:
        x = pts[int(rng.integers(len(pts)))] + mp.mpf(10)**(-mp.mpf(float(rng.uniform(0.5, 8 if rng.random() < 0.6 else mp.dps/2.2))))*int(rng.choice([-1, 1]))
    else:
        x = (hi if rng.random() < 0.5 else lo)*(1 + mp.mpf(float(rng.uniform(1e-9, 1))))
    return x, kind


@case(CASES, 3000, 60000)
def dos_precision(ctx, rng):
    """DOS against itself at threefold precision and against an independent closed form."""
    name = NAMES[ctx.seed[2] % len(NAMES)]
    dps = int(rng.choice([15, 15, 20, 30, 50, 80]))
    fn = lat.module(name).dos_mp
    with mp.workdps(dps):
        D = _bandwidth(rng)
        x, kind = _energy(rng, name)
        eps = x*mp.mpf(D)
        form = int(rng.integers(4))
        if form == 0:
            eps = float(eps)
        elif form == 1:
            eps = str(mp.nstr(eps, dps - 2))
        elif form == 2 and kind < 2 and rng.random() < 0.2:
            eps = 0
        ctx.tag(name, dps, kind, form)
        prec = mp.prec
        args = (eps, D) if rng.random() < 0.5 else (eps,)
        kwds = {} if len(args) == 2 else {"half_bandwidth": D}
        if D == 1 and rng.random() < 0.5:
            args, kwds = args[:1], {}
        got = ctx.call(fn, *args, **kwds)
        ctx.ok("working precision unchanged", mp.prec == prec, prec=mp.prec)
        ctx.ok("result is a multi-precision real", isinstance(got, mp.mpf), type=type(got))
        ctx.ok("non-negative", got >= 0, got=got)
        eps_, D_ = mp.mpf(eps), mp.mpf(D)
    with mp.workdps(3*dps + 30):
        xr = eps_/D_
        dist = min(mp.fabs(xr - p) for p in _points(name))
        if dist < mp.mpf(10)**(-mp.mpf(dps)/2):
            return
        tol = mp.mpf(10)**(2 - dps)*(1 + 1/dist)
        fine = ctx.call(fn, eps_, half_bandwidth=D_)
        outside = xr < _points(name)[0] or xr > _points(name)[-1]
        if outside:
            ctx.ok(f"{name}: zero outside of the band", got == 0 and fine == 0, eps=eps_, got=got)
            return
        ctx.ok(f"{name}: accurate to working precision", mp.fabs(got - fine) <= tol*mp.fabs(fine),
               eps=eps_, D=D_, got=got, want=fine, dps=dps)
        with mp.workdps(2*mp.dps + 30):
            ref = exact(name, eps_/D_)
        if ref is not None:
            ctx.ok(f"{name}: closed form", mp.fabs(got*D_ - ref) <= tol*mp.fabs(ref), eps=eps_, D=D_, got=got*D_, want=ref)
            tol = mp.mpf(10)**(2 - 3*dps - 30)*(1 + 1/dist)
            ctx.ok(f"{name}: closed form, high precision", mp.fabs(fine*D_ - ref) <= tol*mp.fabs(ref),
                   eps=eps_, D=D_, got=fine*D_, want=ref)


@case(CASES, 200, 4000)
def sc_centre(ctx, rng):
    """The centre of the simple cubic band is a regular energy: full precision in its vicinity."""
    dps = int(rng.choice([15, 30, 50, 70]))
    with mp.workdps(dps):
        D = _bandwidth(rng)
        x = mp.mpf(10)**(-mp.mpf(dps)/4)*(mp.mpf(float(rng.uniform(0.2, 0.95))) if rng.random() < 0.7 else
                                          mp.mpf(10)**(-float(rng.uniform(0, dps/2))))/3
        eps = x*mp.mpf(D)*int(rng.choice([-1, 1]))
        got = ctx.call(lat.L.sc.dos_mp, eps, half_bandwidth=D)
    ctx.tag("sc centre", dps)
    with mp.workdps(3*dps + 30):
        fine = ctx.call(lat.L.sc.dos_mp, eps, half_bandwidth=D)
        ctx.ok("sc: accurate next to the centre", mp.fabs(got - fine) <= mp.mpf(10)**(3 - dps)*fine, eps=eps, D=D, got=got, want=fine)


def _cos(n):
    return [mp.cos(2*mp.pi*(i + mp.mpf(1)/2)/n) for i in range(n)]


def _resolvent(name, z, n):
    """Trapezoidal average over the Brillouin zone, half-bandwidth 1."""
    if name == "sc":  # square layer in closed form
        res = mp.mpf(0)
        half = [mp.cos(mp.pi*(i + mp.mpf(1)/2)/n) for i in range(n)]
        for c in half:
            w = 3*z - c
            res += 1/(w*mp.agm(1, mp.sqrt(1 - 4/w**2)))
        return 3*res/n
    if name == "fcc":
        res = mp.mpf(0)
        half = [mp.cos(mp.pi*(i + mp.mpf(1)/2)/n) for i in range(n)]
        for i, c1 in enumerate(half):
            for j in range(i + 1):
                c2 = half[j]
                w, a = z - c1*c2/2, (c1 + c2)/2
                res += (1 if i == j else 2)/(mp.sqrt(w - a)*mp.sqrt(w + a))
        return res/n**2
    raise KeyError(name)


@case(CASES, 100, 2000, chunk=1)
def sc_green(ctx, rng):
    """Simple cubic Green's function against a 1D average of square-lattice ones."""
    dps = int(rng.choice([20, 30, 45]))
    with mp.workdps(dps):
        D = _bandwidth(rng)
        z = mp.mpc(float(rng.uniform(-1.5, 1.5)), float(rng.uniform(0.15, 1.5)*rng.choice([-1, 1])))
        prec = mp.prec
        got = ctx.call(lat.L.sc.gf_z_mp, z*mp.mpf(D), half_bandwidth=D)
        arg = z*mp.mpf(D)
        ctx.ok("working precision unchanged", mp.prec == prec, prec=mp.prec)
        ctx.ok("result is a multi-precision complex", isinstance(got, mp.mpc), type=type(got))
    ctx.tag("sc", dps, "up" if z.imag > 0 else "down")
    with mp.workdps(dps + 15):
        x = arg/mp.mpf(D)
        width = mp.asinh(3*mp.fabs(x.imag)/2)  # strip of analyticity (safe)
        n = int(mp.ceil((dps + 8)*2.31/(2*width))) + 8
        ref = _resolvent("sc", x, n)
        err = mp.fabs(got*mp.mpf(D) - ref)/mp.fabs(ref)
        ctx.ok("sc: G(z) accurate to working precision", err <= mp.mpf(10)**(3 - dps), z=x, D=D, err=err, dps=dps)
        conj = ctx.call(lat.L.sc.gf_z_mp, mp.conj(arg), half_bandwidth=D)
        ctx.ok("sc: mirror symmetry", mp.fabs(mp.conj(conj) - got) <= mp.mpf(10)**(3 - dps)*mp.fabs(got), z=x)


@case(CASES, 400, 6000)
def sc_green_precision(ctx, rng):
    """Simple cubic Green's function against itself at threefold precision, at any distance from the centre."""
    dps = int(rng.choice([15, 15, 25, 40, 60]))
    with mp.workdps(dps):
        D = _bandwidth(rng)
        r = mp.mpf(10)**mp.mpf(float(rng.uniform(-2*dps, 4)))
        phi = mp.mpf(float(rng.uniform(0.05, 0.95)))*mp.pi*int(rng.choice([-1, 1]))
        z = r*mp.expj(phi)*mp.mpf(D)
        if rng.random() < 0.2:
            z = mp.mpc(0, r)*mp.mpf(D)
        got = ctx.call(lat.L.sc.gf_z_mp, z, half_bandwidth=D)
    ctx.tag("sc", "precision", dps, int(mp.log10(r))//10)
    with mp.workdps(5*dps + 20):
        fine = ctx.call(lat.L.sc.gf_z_mp, z, half_bandwidth=D)
        ctx.ok("sc: G(z) accurate to working precision", mp.fabs(got - fine) <= mp.mpf(10)**(3 - dps)*mp.fabs(fine),
               z=z, D=D, got=got, want=fine, dps=dps)
        ctx.ok("sc: causal", mp.sign(got.imag) == -mp.sign(z.imag), z=z, got=got)
        if r < mp.mpf(10)**-5:
            ref = ctx.call(lat.L.sc.dos_mp, 0, half_bandwidth=D)
            ctx.ok("sc: spectral weight at the centre", mp.fabs(mp.fabs(got.imag)/mp.pi - ref) <= 2*r*ref + mp.mpf(10)**(3 - dps)*ref,
                   z=z, got=got, want=ref)


@case(CASES, 60, 600, chunk=1, skip=0.8)
def sc_axis(ctx, rng):
    """DOS of the simple cubic lattice is the discontinuity of its Green's function."""
    dps = int(rng.choice([20, 40]))
    with mp.workdps(dps):
        D = _bandwidth(rng)
        x, kind = _energy(rng, "sc")
        d = min(mp.fabs(x - p) for p in _points("sc"))
        if kind == 4 or d < mp.mpf(10)**-3:
            raise Skip
        eps = x*mp.mpf(D)
        dos = ctx.call(lat.L.sc.dos_mp, eps, half_bandwidth=D)
    ctx.tag("axis", dps)
    with mp.workdps(2*dps):
        up = ctx.call(lat.L.sc.gf_z_mp, mp.mpc(eps, mp.mpf(10)**(-dps - 5)), half_bandwidth=D)
        ctx.ok("sc: DOS = -Im G(eps+i0)/pi", mp.fabs(-up.imag/mp.pi - dos) <= mp.mpf(10)**(3 - dps)*(1 + 1/d)*dos + mp.mpf(10)**(2 - dps)/D_(D),
               eps=eps, D=D, got=dos, want=-up.imag/mp.pi)


def D_(D):
    return mp.mpf(D)


@case(CASES, 30, 300, chunk=1)
def resolvent(ctx, rng):
    """Tanh-sinh integral of the DOS equals the Brillouin-zone average of 1/(z - eps)."""
    name = NAMES[ctx.seed[2] % len(NAMES)]
    dps = 20 if ctx.tier == "quick" else int(rng.choice([20, 25]))
    with mp.workdps(dps):
        D = _bandwidth(rng) if rng.random() < 0.7 else 1
        D_m = mp.mpf(D)
        pts = [p*D_m for p in _points(name)]
        z = mp.mpc(float(rng.uniform(-1, 1.5)), float(rng.uniform(0.5, 1.5)*rng.choice([-1, 1])))
        fn = lat.module(name).dos_mp
        ctx.tag("resolvent", name, dps)
        ctx.call(fn, (pts[0] + pts[1])/2, half_bandwidth=D)
        norm = mp.quad(lambda e: fn(e, half_bandwidth=D), pts)
        res = mp.quad(lambda e: fn(e, half_bandwidth=D)/(z*D_m - e), pts)
        weight = mp.mpf(2)/3 if name in ("kagome", "lieb") else mp.mpf(1)
        tol = mp.mpf(10)**(-8)  # end-point singularities limit the quadrature
        ctx.ok(f"{name}: weight of the dispersive bands", mp.fabs(norm - weight) <= tol, norm=norm)
        if name in ("sc", "fcc"):
            want = _resolvent(name, z, 60)
        else:
            zf = complex(z)
            want = lat.ref_gf(name, zf, 1.0)
            if name == "kagome":
                want = want - 1/(3*(zf + 2/3))
            elif name == "lieb":
                want = want - 1/(3*zf)
        ctx.ok(f"{name}: resolvent", mp.fabs(res*D_m - want) <= tol*mp.fabs(want), got=res*D_m, want=want, z=z)


@case(CASES, 30, 300)
def special_energies(ctx, rng):
    """Values exactly at the singular energies, in every form."""
    dps = int(rng.choice([15, 30, 50]))
    with mp.workdps(dps):
        D = _bandwidth(rng)
        zero = [0, 0.0, "0", mp.mpf(0)][int(rng.integers(4))]
        ctx.tag("special", dps, type(zero).__name__)
        tiny = mp.mpf(10)**(-dps//3)
        got = ctx.call(lat.L.sc.dos_mp, zero, half_bandwidth=D)
        with mp.workdps(3*dps):
            fine = ctx.call(lat.L.sc.dos_mp, zero, half_bandwidth=D)
            near = ctx.call(lat.L.sc.dos_mp, tiny*mp.mpf(D), half_bandwidth=D)
        ctx.ok("sc: centre", mp.fabs(got - fine) <= 100*mp.mpf(10)**-dps*fine, got=got, want=fine)
        ctx.ok("sc: continuous at the centre", mp.fabs(got - near) <= 100*(tiny**2 + mp.mpf(10)**-dps)*fine, got=got, want=near)
        ctx.ok("bcc: diverges at the centre", ctx.call(lat.L.bcc.dos_mp, zero, half_bandwidth=D) == mp.inf)
        ctx.ok("square: diverges at the centre", ctx.call(lat.L.square.dos_mp, zero, half_bandwidth=D) == mp.inf)
        ctx.ok("fcc: diverges at the lower edge", ctx.call(lat.L.fcc.dos_mp, -mp.mpf(D)/2, half_bandwidth=D) == mp.inf)
        edge = D if rng.random() < 0.5 else -mp.mpf(D)
        ctx.ok("onedim: diverges at the edges", ctx.call(lat.L.onedim.dos_mp, edge, half_bandwidth=D) == mp.inf)
        ctx.ok("bethe: zero at the edge", ctx.call(lat.L.bethe.dos_mp, D, half_bandwidth=D) == 0)
        mid = ctx.call(lat.L.bethe.dos_mp, zero, half_bandwidth=D)
        ctx.ok("bethe: centre", mp.fabs(mid*mp.mpf(D)*mp.pi - 2) <= 10*mp.mpf(10)**-dps, got=mid)


@case(CASES, 60, 600)
def agree_with_double(ctx, rng):
    """The vectorized functions are the rounded multi-precision ones."""
    name = NAMES[ctx.seed[2] % len(NAMES)]
    D = float(rng.uniform(0.3, 4))
    lo, hi = bands.edges(name, D)
    pts = [float(p)*D for p in _points(name)]
    eps = rng.uniform(lo, hi, 12)
    eps = eps[np.min(abs(np.subtract.outer(eps, pts)), axis=-1) > 1e-3*D]
    if not eps.size:
        raise Skip
    ctx.tag("double", name)
    got = ctx.call(lat.module(name).dos, eps, half_bandwidth=D)
    want = [float(ctx.call(lat.module(name).dos_mp, e, half_bandwidth=D)) for e in eps]
    ctx.close(f"{name}: dos = dos_mp", got, want, rtol=1e-10, atol=1e-12/D)
