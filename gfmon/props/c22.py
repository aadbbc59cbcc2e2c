"""C22: zero-pole and rational representation of the same function."""
import numpy as np

from .. import gen, target
from ..core import Skip, case

gt = target.load()
ZP, RP = gt.basis.ZeroPole, gt.basis.RatPol
Poly = np.polynomial.Polynomial
LD = np.clongdouble

CASES = []
QUICK = 6  # cheap cases: more of them in the quick tier
RULE = ("0-8 zeros and poles (real, complex, coinciding, integer), amplitudes real/complex/stacked/default, stacked functions"
        " against stacked arguments, scalar and list arguments, arguments at zeros and at very large |z|.  Non-trivial:"
        " at least one zero or pole.")
ASSUMPTIONS = ["arguments keep a relative distance 1e-6 to the poles (to the zeros for the reciprocal)"]
BATCH = [(), (), (1,), (3,), (2, 2)]


def _roots(rng, shape, pick):
    if pick == 0:
        return rng.normal(size=shape)
    if pick == 1:
        return rng.integers(-4, 5, size=shape)
    return rng.normal(size=shape)*2 + 1j*rng.normal(size=shape)


@case(CASES, 1800, 36000)
def evaluation(ctx, rng):
    nz, npol = gen.size(rng, 0, 8, 40, 0.03), gen.size(rng, 0, 8, 40, 0.03)
    batch = BATCH[int(rng.integers(5))]
    pick = int(rng.integers(3))
    zeros, poles = _roots(rng, batch + (nz,), pick), _roots(rng, batch + (npol,), pick)
    akind = int(rng.integers(4))
    amp = [1.0, float(rng.normal()) or 1.0, complex(rng.normal(), rng.normal()), rng.normal(size=batch) + 0.5j][akind]
    kind = int(rng.integers(4))
    scale = float(rng.choice([1, 1, 1, 1e3, 1e-3]))
    shape = batch
    z = scale*(rng.normal(size=shape)*2 + 1j*rng.normal(size=shape))
    if kind == 1:  # shared argument
        z = complex(scale*(rng.normal() + 1j*rng.normal()))
    elif kind == 2:
        z = np.asarray(z).real.copy()
    elif kind == 3:  # outer product
        shape = (4,) + batch
        z = scale*(rng.normal(size=(4,) + (1,)*len(batch)) + 1j*rng.normal(size=(4,) + (1,)*len(batch)))
    zz = np.broadcast_to(np.asarray(z, dtype=LD)[..., None], shape + (1,))
    dz, dp = zz - zeros, zz - poles
    if np.min(abs(dz), initial=1) < 1e-6 or np.min(abs(dp), initial=1) < 1e-6:
        raise Skip
    ctx.tag("zp", nz, npol, batch, pick, akind, kind)
    zp = ZP(zeros, poles) if akind == 0 else ZP(zeros=zeros, poles=poles, amplitude=amp)
    want = np.broadcast_to(amp, shape)*np.prod(dz, axis=-1)/np.prod(dp, axis=-1)
    arg = z.tolist() if isinstance(z, np.ndarray) and rng.random() < 0.2 else gen.readonly(z) if isinstance(z, np.ndarray) else z
    got = ctx.call(zp.eval, arg)
    err = 1e-14*(1 + np.sum(abs(zz/dz), axis=-1) + np.sum(abs(zz/dp), axis=-1)).astype(float)
    ctx.close("product formula", got, want.astype(complex), atol=10*err*abs(want).astype(float))
    rec = ctx.call(zp.reciprocal, arg)
    ctx.close("reciprocal", rec, (1/want).astype(complex), atol=10*err*abs(1/want).astype(float))
    if batch == ():
        rat = ctx.call(zp.to_ratpol)
        ctx.ok("polynomial degrees", rat.numer.degree() == nz and rat.denom.degree() == npol)
        cond = (np.prod(abs(zz) + abs(zeros), axis=-1)/abs(np.prod(dz, axis=-1))
                + np.prod(abs(zz) + abs(poles), axis=-1)/abs(np.prod(dp, axis=-1))).astype(float)
        if np.max(cond) < 1e10:
            ctx.close("rational polynomial", ctx.call(rat.eval, arg), want.astype(complex), atol=1e-13*cond*abs(want).astype(float))
        ctx.close("monic denominator", rat.denom.coef[-1], 1.0, atol=1e-13)
        ctx.close("leading coefficient", rat.numer.coef[-1], amp, rtol=1e-13)
    # value at the zeros and leading behaviour
    if nz and npol:
        first = zeros[..., 0]
        if np.min(abs(np.asarray(first)[..., None] - poles)) > 1e-6:
            at = np.asarray(ctx.call(zp.eval, first))
            ctx.ok("vanishes at its zeros", np.all(at == 0), at=at)
    far = 1e7*np.exp(1j*rng.uniform(0, 6.28))
    lead = np.asarray(ctx.call(zp.eval, np.full(batch, far)))
    ctx.close("large argument", lead/far**(nz - npol), np.broadcast_to(amp, batch).astype(complex), rtol=1e-4)


@case(CASES, 900, 18000)
def ratpol(ctx, rng):
    num, den = rng.normal(size=int(rng.integers(1, 7))), rng.normal(size=int(rng.integers(1, 7)))
    if rng.random() < 0.5:
        num, den = num + 1j*rng.normal(size=num.size), den + 1j*rng.normal(size=den.size)
    rat = RP(Poly(num), denom=Poly(den))
    z = rng.normal(size=5) + 1j*rng.normal(size=5)*int(rng.integers(2))
    arg, shape, z, form = gen.form(rng, z)
    nz = sum(c*z.astype(LD)**k for k, c in enumerate(num))
    dz = sum(c*z.astype(LD)**k for k, c in enumerate(den))
    if np.min(abs(dz)) < 1e-6:
        raise Skip
    ctx.tag("ratpol", num.size, den.size, form)
    mag = sum(abs(c)*abs(z)**k for k, c in enumerate(num))/abs(dz) + abs(nz/dz**2)*sum(abs(c)*abs(z)**k for k, c in enumerate(den))
    ctx.close("quotient", ctx.call(rat.eval, arg), (nz/dz).astype(complex).reshape(shape), atol=1e-13*mag.astype(float).reshape(shape))
    ctx.ok("fields", rat.numer is rat[0] and rat.denom is rat[1])
