"""C08: Laplace transforms of retarded time data."""
import numpy as np

from .. import gen, target
from ..core import case

gt = target.load()
from gftool import fourier as ft  # noqa: E402
from gftool import hermpade  # noqa: E402

CASES = []
QUICK = 3  # cheap cases: more of them in the quick tier
RULE = ("Random time data (noise, damped exponentials), equidistant and irregular grids of both parities, retarded and"
        " advanced, frequencies in the closed half plane incl. 0, tiny and large, batches of data and frequencies, with"
        " and without the numexpr evaluation; non-trivial: non-zero data.")
ASSUMPTIONS = ["the Simpson variant applies no boundary correction at the truncated end, as documented in the code"]


def _with_strategy(rng):
    """Run with the numpy or the numexpr evaluation of the phase, if the code has both."""
    class Sw:
        def __enter__(self):
            self.old = getattr(ft, "_phase", None)
            if self.old is not None and hasattr(ft, "_phase_numpy") and rng.random() < 0.5:
                ft._phase = ft._phase_numpy
                return "numpy"
            return "default"

        def __exit__(self, *args):
            if self.old is not None:
                ft._phase = self.old
    return Sw()


def _setup(rng, nmin=2, equi=True):
    n = int([nmin, nmin + 1, rng.integers(nmin, 12), gen.size(rng, nmin, 120, 1500)][int(rng.integers(4))])
    gb, zb = [((), ()), ((), ()), ((3,), ()), ((3,), (3,)), ((2, 3), (3,)), ((), (2,))][int(rng.integers(6))]
    adv = rng.random() < 0.25
    dt = gen.loguni(rng, 1e-3, 3)
    t0 = 0.0 if rng.random() < 0.6 else float(rng.uniform(0, 2))
    tt = t0 + dt*np.arange(n) if equi else t0 + np.cumsum(rng.uniform(0.2, 2, n))*dt
    g = rng.normal(size=(*gb, n)) + 1j*rng.normal(size=(*gb, n))
    nz = gen.size(rng, 1, 7, 200, 0.03) if n < 200 and not gb else int(rng.integers(1, 7))
    z = (rng.normal(size=(*zb, nz)) + 1j*abs(rng.normal(size=(*zb, nz))))*gen.loguni(rng, 1e-2, 20)
    pick = rng.random()
    if pick < 0.25:
        z[rng.random(z.shape) < 0.4] = 0
    elif pick < 0.4:
        z = z*gen.loguni(rng, 1e-16, 1e-3)
    elif pick < 0.5:
        z = z.real + 0j
    if rng.random() < 0.3:  # results do not depend on the unit of time
        unit = float(gen.loguni(rng, 1e-13, 1e13))
        tt, z, dt = tt*unit, z/unit, dt*unit
    if adv:
        tt, z = -tt, z.conj()
    out = np.broadcast_shapes(gb, zb)
    return tt, g, z, (*out, nz), dt, ("adv" if adv else "ret", len(gb), len(zb), n % 2, pick < 0.25)


@case(CASES, 1500, 30000)
def trapz(ctx, rng):
    tt, g, z, shape, dt, tag = _setup(rng, equi=rng.random() < 0.5)
    ctx.tag("trapz", *tag)
    with _with_strategy(rng):
        got = ctx.call(ft.tt2z, tt, g, z, laplace=ft.tt2z_trapz) if rng.random() < 0.5 \
            else ctx.call(ft.tt2z_trapz, tt, g, z)
    f = np.exp(1j*z[..., None]*tt)*g[..., None, :]
    step = tt[1:] - tt[:-1]
    want = np.sum(0.5*(f[..., 1:] + f[..., :-1])*step, axis=-1)
    size = np.sum(abs(0.5*(f[..., 1:] + f[..., :-1])*step), axis=-1) + np.max(abs(f), axis=-1)*np.max(abs(step))
    ctx.close("trapezoidal rule", got, want, atol=1e-12*size*(1 + abs(z)*np.max(abs(tt))))


@case(CASES, 1000, 20000)
def simps(ctx, rng):
    tt, g, z, shape, dt, tag = _setup(rng)
    ctx.tag("simps", *tag)
    with _with_strategy(rng):
        got = ctx.call(ft.tt2z, tt, g, z, laplace=ft.tt2z_simps)
    w = np.where(np.arange(tt.size) % 2, 4.0, 2.0)
    w[0] = 1
    h = tt[1] - tt[0]
    f = np.exp(1j*z[..., None]*tt)*g[..., None, :]*w*h/3
    size = np.sum(abs(f), axis=-1)
    ctx.close("Simpson rule", got, np.sum(f, axis=-1), atol=1e-12*size*(1 + abs(z)*np.max(abs(tt))))


_GX, _GW = np.polynomial.legendre.leggauss(40)


@case(CASES, 1500, 30000)
def lin(ctx, rng):
    tt, g, z, shape, dt, tag = _setup(rng)
    big = abs(z)*dt > 15
    z = np.where(big, z/np.where(big, abs(z)*dt/15, 1), z)  # the reference quadrature resolves 15 rad per step
    ctx.tag("lin", *tag)
    with _with_strategy(rng):
        got = ctx.call(ft.tt2z, tt, g, z) if rng.random() < 0.5 else ctx.call(ft.tt2z_lin, tt, g, z)
    h = tt[1] - tt[0]
    want, size = 0, 0
    for x, w in zip((_GX + 1)/2, _GW/2):
        f = w*h*np.exp(1j*z[..., None]*(tt[:-1] + x*h))*(g[..., None, :-1]*(1-x) + g[..., None, 1:]*x)
        want = want + np.sum(f, axis=-1)
        size = size + np.sum(abs(f), axis=-1)
    ctx.close("linear spline integral", got, want,
              atol=1e-11*size*(1 + abs(z)*np.max(abs(tt))) + 1e-10*abs(h)*np.max(abs(g)))


@case(CASES, 500, 8000)
def strategies_and_limits(ctx, rng):
    """All quadratures converge to the exact transform of damped exponentials."""
    J = int(rng.integers(1, 4))
    p = rng.uniform(-1, 1, J) - 1j*rng.uniform(0, 0.3, J)
    r = rng.normal(size=J)
    z = rng.uniform(-1, 1, 4) + 1j*rng.uniform(0.3, 1, 4)
    n = int(rng.integers(1500, 2500))
    T = 36/np.min(z.imag)
    tt = np.linspace(0, T, n)
    h = tt[1]
    adv = rng.random() < 0.3
    g = -1j*np.exp(-1j*np.multiply.outer(tt, p)) @ r
    ref = np.sum(r/(z[:, None] - p), axis=-1)
    if adv:
        tt, g, z, ref = -tt, g.conj(), z.conj(), ref.conj()
        g = -g  # the advanced integral runs backwards
    size = np.sum(abs(r))
    ctx.tag("limits", J, adv)
    lam = np.max(abs(z)) + np.max(abs(p))
    for fn, order in ((ft.tt2z_trapz, 2), (ft.tt2z_lin, 2)):
        got = ctx.call(ft.tt2z, tt, g, z, laplace=fn)
        ctx.close(f"{fn.__name__} converges", got, ref, atol=size*(0.5*(lam*h)**order/np.min(abs(z.imag)) + 1e-6))
    got = ctx.call(ft.tt2z, tt, g, z, laplace=ft.tt2z_simps)
    ctx.close("tt2z_simps converges", got, ref, atol=size*(0.5*(lam*h)**4/np.min(abs(z.imag)) + 1e-6))


def _gen_fun(h, r, q, y, quad):
    """Closed form of the discretized infinite integral."""
    if quad == "trapz":
        return h*(np.sum(r/(1 - np.multiply.outer(y, q)), axis=-1) - 0.5*np.sum(r))
    s1 = np.sum(r/(1 - np.multiply.outer(y, q)), axis=-1)
    s2 = np.sum(r/(1 + np.multiply.outer(y, q)), axis=-1)
    return h/3*(3*s1 - s2 - np.sum(r))


def _expo(rng, J):
    while True:
        p = rng.uniform(-1, 1, J) - 1j*rng.uniform(0.02, 0.5, J)
        if J == 1 or np.min(abs(np.subtract.outer(p, p) + np.eye(J)*9)) > 0.35:
            return p


@case(CASES, 800, 16000)
def pade_exact(ctx, rng):
    """Fourier-Padé is exact for sums of exponentials."""
    J = int(rng.integers(1, 4))
    p = _expo(rng, J)
    r = rng.uniform(0.3, 1, J)*rng.choice([-1, 1], J) - 0j
    quad = ["trapz", "simps"][int(rng.integers(2))]
    if quad == "simps":
        J = min(J, 2)
        p, r = p[:J], r[:J]
    h = rng.uniform(0.7, 1.3)
    deg = J if quad == "trapz" else 2*J
    n = 2*deg + 1 + int(rng.integers(0, 2))
    tt = h*np.arange(n)
    q = np.exp(-1j*p*h)
    g = -1j*(q[None, :]**np.arange(n)[:, None]) @ r
    batch = rng.random() < 0.3
    if batch:
        g = np.stack([g, 2*g])
    z = rng.uniform(-1, 1, 5) + 1j*gen.loguni(rng, 1e-3, 2, 5)
    ref = -1j*_gen_fun(h, r, q, np.exp(1j*z*h), quad)
    ref = np.stack([ref, 2*ref]) if batch else ref
    pick = rng.random() < 0.3 and quad == "trapz"
    kw = {"pade": hermpade.pader} if pick else {}
    if quad == "simps" or rng.random() < 0.5:
        kw["quad"] = quad
    ctx.tag("pade", J, quad, batch, pick)
    got = ctx.call(ft.tt2z, tt, g, z, laplace=ft.tt2z_pade, **kw) if rng.random() < 0.5 \
        else ctx.call(ft.tt2z_pade, tt, g, z, **kw)
    ctx.close("Fourier-Padé exact", got, ref, rtol=1e-3, atol=1e-5*np.max(abs(ref)))


@case(CASES, 600, 12000)
def lpz_exact(ctx, rng):
    J = int(rng.integers(1, 4))
    p = _expo(rng, J)
    r = rng.uniform(0.3, 1, J)*rng.choice([-1, 1], J) - 0j
    quad = ["trapz", "simps"][int(rng.integers(2))]
    if quad == "simps":
        J = min(J, 2)
        p, r = p[:J], r[:J]
    deg = J if quad == "trapz" else 2*J
    h = rng.uniform(0.7, 1.3)
    order = deg + 1
    n = 2*order + int(rng.integers(0, 6))
    tt = h*np.arange(n)
    q = np.exp(-1j*p*h)
    g = -1j*(q[None, :]**np.arange(n)[:, None]) @ r
    batch = rng.random() < 0.3
    if batch:
        g = np.stack([g, 2*g])
    z = rng.uniform(-1, 1, 5) + 1j*gen.loguni(rng, 1e-2, 2, 5)
    ref = -1j*_gen_fun(h, r, q, np.exp(1j*z*h), quad)
    shifted = rng.random() < 0.3
    if shifted:  # the transform of a grid that starts at t0 carries the phase exp(i*z*t0)
        t0 = float(rng.uniform(0.1, 2))
        tt, ref = tt + t0, ref*np.exp(1j*z*t0)
    ref = np.stack([ref, 2*ref]) if batch else ref
    kw = {"order": order}
    if n//2 == order and rng.random() < 0.5:
        kw = {}
    if quad == "simps" or rng.random() < 0.5:
        kw["quad"] = quad
    ctx.tag("lpz", J, quad, batch, shifted)
    with _with_strategy(rng):
        got = ctx.call(ft.tt2z_lpz, tt, g, z, **kw)
    ctx.close("linear prediction exact", got, ref, rtol=1e-3, atol=1e-5*np.max(abs(ref)))


@case(CASES, 400, 8000)
def herm2(ctx, rng):
    """Square Fourier-Padé is the quadratic approximant of the discretized series."""
    n = int(rng.integers(8, 15))
    h = rng.uniform(0.3, 1.0)
    tt = h*np.arange(n)
    g = gt.lattice.bethe.gf_ret_t(tt, half_bandwidth=1.0)*np.exp(-1j*rng.uniform(-0.3, 0.3)*tt)
    quad = ["trapz", "simps"][int(rng.integers(2))]
    batch = rng.random() < 0.3
    gg = np.stack([g, 2*g]) if batch else g
    z = rng.uniform(-1, 1, 5) + 1j*gen.loguni(rng, 0.05, 2, 5)
    kw = {"quad": quad} if quad == "simps" or rng.random() < 0.5 else {}
    lsq = rng.random() < 0.3
    if lsq:
        kw["herm2"] = hermpade.Hermite2.from_taylor_lstsq
    w = np.where(np.arange(n) % 2, 4.0, 2.0)/3 if quad == "simps" else np.ones(n)
    w[0] = 1/3 if quad == "simps" else 0.5
    deg = (n - 2)//3
    fn = hermpade.Hermite2.from_taylor_lstsq if lsq else hermpade.Hermite2.from_taylor
    ref = fn(h*w*g, deg_r=deg, deg_q=deg, deg_p=deg).eval(np.exp(1j*z*h))
    got = ctx.call(ft.tt2z, tt, gg, z, laplace=ft.tt2z_herm2, **kw)
    ctx.tag("herm2", quad, batch, lsq)
    size = np.max(abs(ref))
    ctx.close("square Fourier-Padé", got[0] if batch else got, ref, atol=1e-4*size)
    if batch:
        ctx.ok("batch shape", got.shape == (2, 5), shape=got.shape)
        ref2 = fn(2*h*w*g, deg_r=deg, deg_q=deg, deg_p=deg).eval(np.exp(1j*z*h))
        ctx.close("batched", got[1], ref2, atol=1e-4*size)


@case(CASES, 300, 4000)
def refusals(ctx, rng):
    tt, g, z, shape, dt, tag = _setup(rng, nmin=6)
    tt, z = abs(tt), z.real + 1j*(abs(z.imag) + 0.1/dt)
    ctx.tag("refuse", len(shape))
    bad = tt.copy()
    bad[-1] += dt*0.5
    for fn in (ft.tt2z_lin, ft.tt2z_pade, ft.tt2z_herm2, ft.tt2z_lpz):
        ctx.raises(ValueError, fn, bad, g, z)
    for fn in (ft.tt2z_pade, ft.tt2z_herm2, ft.tt2z_lpz):
        ctx.raises(ValueError, fn, tt - tt[0], g, z, quad="midpoint")
    for fn in (ft.tt2z_lin, ft.tt2z_trapz, ft.tt2z_simps, ft.tt2z_pade):
        ctx.raises(ValueError, ft.tt2z, tt, g, z.conj(), laplace=fn)
        ctx.raises(ValueError, ft.tt2z, -tt, g, z, laplace=fn)
    mixed = z.copy()
    mixed.flat[0] = mixed.flat[0].conj()
    if z.size > 1:
        ctx.raises(ValueError, ft.tt2z, tt, g, mixed)
    both = tt - tt[1]*1.0 - 1e-3*dt
    ctx.raises(ValueError, ft.tt2z, both, g, z)
    ctx.raises(ValueError, ft.tt2z, both, g, z.conj())
    empty = ctx.call(ft.tt2z, tt, g, z[..., :0])
    ctx.ok("empty frequencies", empty.shape == (*shape[:-1], 0), shape=empty.shape)


@case(CASES, 400, 8000)
def algorithms(ctx, rng):
    """The user's approximation algorithm sees the discretized series, its options, and decides the result."""
    n = int(rng.integers(6, 24))
    h = gen.loguni(rng, 1e-2, 10)
    tt = h*np.arange(n)
    batch = [(), (2,), (2, 2)][int(rng.integers(3))]
    g = rng.normal(size=(*batch, n)) + 1j*rng.normal(size=(*batch, n))
    z = (rng.uniform(-1, 1, 4) + 1j*gen.loguni(rng, 1e-2, 2, 4))/h
    quad = ["trapz", "simps"][int(rng.integers(2))]
    w = np.where(np.arange(n) % 2, 4.0, 2.0)/3 if quad == "simps" else np.ones(n)
    w[0] = 1/3 if quad == "simps" else 0.5
    series, seen = h*w*g, []
    square = rng.random() < 0.5
    option = {"my_option": float(rng.random())}

    class Approx:
        def __init__(self, an):
            self.an = np.array(an)

        def eval(self, y):
            return np.polynomial.polynomial.polyval(y, self.an)

    def pade(an, num_deg, den_deg, **kwds):
        seen.append((num_deg, den_deg, kwds))
        return Approx(an)

    def herm(an, deg_p, deg_q, deg_r, **kwds):
        seen.append((deg_p, deg_q, deg_r, kwds))
        return Approx(an)

    kw = {"quad": quad, **option}
    degree = None
    if square:
        kw["herm2"] = herm
    else:
        kw["pade"] = pade
        if rng.random() < 0.7:
            degree = kw["degree"] = int(rng.integers(-3, 3))
    ctx.tag("algorithms", square, quad, degree, len(batch), n % 2)
    got = ctx.call(ft.tt2z, tt, g, z, laplace=ft.tt2z_herm2 if square else ft.tt2z_pade, **kw)
    want = np.polynomial.polynomial.polyval(np.exp(1j*z*h), np.moveaxis(series, -1, 0), tensor=True)
    size = np.sum(abs(series), axis=-1)[..., None]
    ctx.close("value of the given algorithm", got, want, atol=1e-11*size)
    for *degs, opts in seen:
        ctx.ok("options reach the algorithm", opts == option, got=opts)
        ctx.ok("degrees fit the series", min(degs) >= 0 and n - 3 <= sum(degs) + len(degs) - 1 <= n, got=degs, n=n)
        if not square:
            ctx.ok("asymptotic degree", degs[0] - degs[1] == (-1 if degree is None else degree) + 1, got=degs, degree=degree)
    ctx.ok("called", len(seen) >= 1)
    if not square and n <= 14 and rng.random() < 0.5:  # the package's own algorithms
        flat = series.reshape(-1, n)[0]
        num, den = seen[0][:2]
        for fn, opt in ((hermpade.pade, {"fast": True}), (hermpade.pader, {"rcond": 1e-6})):
            ref = fn(flat, num_deg=num, den_deg=den, **opt).eval(np.exp(1j*z*h))
            kws = {} if degree is None else {"degree": degree}
            one = ctx.call(ft.tt2z_pade, tt, g.reshape(-1, n)[0], z, pade=fn, quad=quad, **kws, **opt)
            ctx.close("own algorithm with options", one, ref, rtol=1e-5, atol=1e-5*np.max(abs(ref)))
