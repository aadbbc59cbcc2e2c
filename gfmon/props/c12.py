"""C12: matrix decompositions."""
import numpy as np

from .. import gen, target
from ..core import Skip, case

gt = target.load()
M = gt.matrix

CASES = []
QUICK = 3  # cheap cases: more of them in the quick tier
RULE = ("Random matrices (hermitian, complex/real symmetric, general, diagonal, degenerate, integer, Fortran ordered)"
        " with 0-2 batch axes and sizes 1-6, functions of the eigenvalues; non-trivial: size two or larger.")
ASSUMPTIONS = ["tolerances scale with the condition number of the eigenvectors"]

T = lambda a: np.swapaxes(a, -1, -2)  # noqa: E731


def _shape(rng):
    return [(), (), (1,), (3,), (2, 3), (0,)][int(rng.integers(6))]


def _order(rng, mat):
    pick = rng.random()
    if pick < 0.2:
        return np.asfortranarray(mat)
    if pick < 0.4:
        return gen.readonly(mat)
    return mat


def _diag(mat):
    return np.diagonal(mat, axis1=-2, axis2=-1)


def _check(ctx, rng, dec, mat, cond):
    n = mat.shape[-1]
    scale = np.max(abs(mat), initial=0) or 1.0
    eps = 1e-13*n*max(1.0, cond)
    rv, eig, rv_inv = dec
    ctx.ok("shapes", rv.shape == mat.shape and eig.shape == mat.shape[:-1] and rv_inv.shape == mat.shape)
    ctx.ok("sequence", len(dec) == 3 and dec[0] is dec.rv and dec[1] is dec.eig and dec[2] is dec.rv_inv
           and dec[-1] is dec.rv_inv)
    eye = np.broadcast_to(np.eye(n), mat.shape)
    ctx.close("inverse eigenvectors", rv @ rv_inv, eye, atol=eps)
    ctx.close("attributes", (rv*eig[..., None, :]) @ rv_inv, mat, atol=eps*scale)
    ctx.close("reconstruct", ctx.call(dec.reconstruct), mat, atol=eps*scale)
    full = str(rng.choice(["full", "Full", "FULL", "f", "fu"]))
    diag = str(rng.choice(["diag", "Diag", "d", "DI"]))
    ctx.close("reconstruct full", ctx.call(dec.reconstruct, kind=full), mat, atol=eps*scale)
    ctx.close("reconstruct diagonal", ctx.call(dec.reconstruct, kind=diag), _diag(mat), atol=eps*scale)
    # shifted inverse (resolvent)
    z = scale*(rng.normal() + 1j*rng.uniform(0.5, 2)) + 1j*scale*n*2
    inv = np.linalg.inv(z*np.eye(n) - mat)
    ctx.close("resolvent", ctx.call(dec.reconstruct, 1/(z - eig)), inv, atol=eps/scale)
    ctx.close("resolvent keyword", ctx.call(dec.reconstruct, eig=1/(z - eig), kind="diag"), _diag(inv), atol=eps/scale)
    # functions of a single decomposition at many frequencies
    zz = z + scale*rng.normal(size=4)
    zz = zz.reshape(4, *[1]*eig.ndim)
    inv = np.linalg.inv(zz[..., None]*np.eye(n) - mat)
    ctx.close("resolvent frequencies", ctx.call(dec.reconstruct, 1/(zz - eig), kind="full"), inv, atol=eps/scale)
    ctx.close("resolvent diagonal frequencies", ctx.call(dec.reconstruct, 1/(zz - eig), kind="diag"), _diag(inv),
              atol=eps/scale)
    # powers
    k = int(rng.integers(0, 4))
    power = np.linalg.matrix_power(mat, k) if mat.size else mat
    if mat.size:
        ctx.close("power", ctx.call(dec.reconstruct, eig**k), power.astype(eig.dtype, copy=False) if 0 else power,
                  atol=eps*(scale*n)**k)
    # einsum subscripts
    ctx.close("einsum full", ctx.call(dec.reconstruct, kind="...ij,...j,...jk->...ik"), mat, atol=eps*scale)
    ctx.close("einsum diag", ctx.call(dec.reconstruct, kind="...ij,...j,...ji->...i"), _diag(mat), atol=eps*scale)
    ctx.close("einsum trace", ctx.call(dec.reconstruct, eig=eig*2, kind="...ij,...j,...ji->..."),
              2*np.trace(mat, axis1=-2, axis2=-1), atol=eps*scale*n*4)
    ctx.ok("reconstruct keeps the decomposition", dec.eig is eig and dec.rv is rv)
    # modification of the attributes is honoured
    new = type(dec)(rv=rv, eig=eig, rv_inv=rv_inv)
    new.eig = 3*eig
    ctx.close("modified eigenvalues", new.reconstruct(), 3*mat, atol=4*eps*scale)


@case(CASES, 1500, 30000)
def hermitian(ctx, rng):
    n = gen.size(rng, 1, 7, 24, 0.04)
    shape = _shape(rng)
    mat = rng.normal(size=(*shape, n, n))
    if rng.random() < 0.6:
        mat = mat + 1j*rng.normal(size=mat.shape)
    mat = 0.5*(mat + T(mat).conj())
    pick = rng.random()
    if pick < 0.15:  # degenerate spectrum
        q = np.linalg.qr(mat)[0]
        mat = (q*np.round(rng.normal(size=(*shape, 1, n)))) @ T(q).conj()
        mat = 0.5*(mat + T(mat).conj())
    elif pick < 0.25:
        mat = np.round(mat.real*3).astype(int)
        mat = np.tril(mat) + T(np.tril(mat, -1))
    elif pick < 0.3:
        mat = mat*np.eye(n)
    mat = mat*((gen.loguni(rng, 1e-3, 1e3) if rng.random() < 0.7 else gen.loguni(rng, 1e-20, 1e20)) if mat.dtype.kind != "i" else 1)
    mat = _order(rng, mat)
    ctx.tag("her", n, shape, mat.dtype)
    dec = ctx.call(M.decompose_her, mat, **({"check": bool(rng.random() < 0.5)} if rng.random() < 0.3 else {}))
    ctx.ok("type", isinstance(dec, M.UDecomposition))
    if mat.size:
        ctx.ok("real ascending eigenvalues", dec.eig.dtype.kind == "f" and np.all(np.diff(dec.eig, axis=-1) >= 0))
        ctx.close("eigenvalues", dec.eig, np.linalg.eigvalsh(mat), atol=1e-12*np.max(abs(mat))*n)
    ctx.close("unitary", dec.uh, T(dec.u).conj(), atol=1e-13)
    ctx.close("singular values", dec.s, np.linalg.svd(mat, compute_uv=False) if mat.size else dec.eig,
              atol=1e-12*np.max(abs(mat), initial=0)*n)
    _check(ctx, rng, dec, mat, 1.0)
    # other decompositions describe the same matrix
    if n > 1 and mat.size and pick >= 0.3 and rng.random() < 0.5:
        gen_dec = ctx.call(M.decompose_mat, mat)
        ctx.close("same spectrum", np.sort(gen_dec.eig.real, axis=-1), dec.eig, atol=1e-11*np.max(abs(mat))*n)
    if rng.random() < 0.2:
        old = ctx.call(M.Decomposition.from_hamiltonian, mat)
        ctx.close("from_hamiltonian", old.reconstruct(), mat, atol=1e-12*n*np.max(abs(mat), initial=1))
        ctx.ok("from_hamiltonian passes decompositions", M.Decomposition.from_hamiltonian(old) is old)
        old = ctx.call(M.decompose_hamiltonian, mat)
        ctx.close("decompose_hamiltonian", old.eig, dec.eig, atol=1e-12*n*np.max(abs(mat), initial=1))


@case(CASES, 1500, 30000)
def general(ctx, rng):
    n = gen.size(rng, 1, 7, 24, 0.04)
    shape = _shape(rng)
    mat = rng.normal(size=(*shape, n, n))
    if rng.random() < 0.6:
        mat = mat + 1j*rng.normal(size=mat.shape)
    mat = mat*(gen.loguni(rng, 1e-3, 1e3) if rng.random() < 0.7 else gen.loguni(rng, 1e-20, 1e20))
    mat = _order(rng, mat)
    cond = np.max(np.linalg.cond(np.linalg.eig(mat)[1]), initial=1.0)
    if cond > 1e4:
        raise Skip
    ctx.tag("mat", n, shape, mat.dtype)
    dec = ctx.call(M.decompose_mat, mat)
    _check(ctx, rng, dec, mat, cond**2)
    if rng.random() < 0.2:
        old = ctx.call(M.Decomposition.from_gf, mat)
        ctx.close("from_gf", old.reconstruct(), mat, atol=1e-12*n*cond**2*np.max(abs(mat), initial=1))
        ctx.ok("from_gf passes decompositions", M.Decomposition.from_gf(old) is old)
    if mat.ndim == 2:
        got = ctx.call(M.construct_gf, dec.rv, 1/dec.eig, dec.rv_inv)
        ctx.close("construct_gf", got, np.linalg.inv(mat), atol=1e-12*cond**2*n*np.max(abs(np.linalg.inv(mat)))
                  * np.linalg.cond(mat))


@case(CASES, 1500, 30000)
def symmetric(ctx, rng):
    n = gen.size(rng, 1, 7, 24, 0.04)
    shape = _shape(rng)
    mat = rng.normal(size=(*shape, n, n))
    if rng.random() < 0.6:
        mat = mat + 1j*rng.normal(size=mat.shape)
    mat = 0.5*(mat + T(mat))*(gen.loguni(rng, 1e-3, 1e3) if rng.random() < 0.7 else gen.loguni(rng, 1e-20, 1e20))
    mat = _order(rng, mat)
    vec = np.linalg.eig(mat)[1]
    vec = vec*np.sum(vec**2 + 0j, axis=-2, keepdims=True)**-0.5
    cond = np.max(np.linalg.cond(vec), initial=1.0)
    if not cond < 1e3:
        raise Skip
    ctx.tag("sym", n, shape, mat.dtype)
    dec = ctx.call(M.decompose_sym, mat)
    _check(ctx, rng, dec, mat, cond**2)
    ctx.close("almost orthogonal", T(dec.rv) @ dec.rv, np.broadcast_to(np.eye(n), mat.shape), atol=1e-10*cond**3)


@case(CASES, 300, 5000)
def asymmetric(ctx, rng):
    """Matrices violating the symmetry (in any batch element) are refused, unless told not to check."""
    n = int(rng.integers(2, 6))
    shape = [(), (3,), (2, 2)][int(rng.integers(3))]
    base = rng.normal(size=(*shape, n, n)) + 1j*rng.normal(size=(*shape, n, n))
    her, sym = 0.5*(base + T(base).conj()), 0.5*(base + T(base))
    idx = tuple(int(rng.integers(s)) for s in shape)
    i, j = rng.choice(n, 2, replace=False)
    unit = gen.loguni(rng, 1, 1e15) if rng.random() < 0.4 else 1.0
    delta = gen.loguni(rng, 1e-6, 1)*unit
    her, sym = her*unit, sym*unit
    ctx.tag("asym", n, shape)
    bad = her.copy()
    bad[(*idx, i, j)] += delta
    ctx.raises(ValueError, M.decompose_her, bad)
    bad = her.copy()
    bad[(*idx, i, i)] += 1j*delta
    ctx.raises(ValueError, M.decompose_her, bad)
    bad = sym.copy()
    bad[(*idx, i, j)] += delta
    ctx.raises(ValueError, M.decompose_sym, bad)
    ctx.call(M.decompose_sym, bad, check=False)
    ctx.call(M.decompose_her, bad, check=False)
    ctx.call(M.decompose_sym, sym)
    ctx.call(M.decompose_her, her)
    # rounding errors of a matrix product are no violation
    vec, eig = np.linalg.qr(base)[0], rng.normal(size=(*shape, n))*unit
    ctx.call(M.decompose_her, (vec*eig[..., np.newaxis, :]) @ T(vec).conj())
    ctx.call(M.decompose_sym, (vec*eig[..., np.newaxis, :]) @ T(vec))


@case(CASES, 1200, 24000)
def two_by_two(ctx, rng):
    shape = [(), (4,), (2, 3)][int(rng.integers(3))]
    scale = gen.loguni(rng, 1e-2, 1e2)

    def arr(cplx, sh):
        val = rng.normal(size=sh)
        if cplx:
            val = val + 1j*rng.normal(size=sh)
        return scale*val

    esh = shape if rng.random() < 0.6 else ()
    e0 = arr(False, esh)
    e1 = arr(False, esh if rng.random() < 0.8 else ())
    if rng.random() < 0.3:
        e0, e1 = e0 - 0.3j*scale*rng.random(np.shape(e0)), e1 - 0.3j*scale*rng.random(np.shape(e1))
    hop = arr(rng.random() < 0.5, shape if rng.random() < 0.6 else ())
    pick = rng.random()
    if pick < 0.1:
        hop = 0*hop
    elif pick < 0.2:
        e1 = e0
    elif pick < 0.3:
        e0 = np.round(e0.real)
    z = scale*(rng.normal(size=shape) + 1j*rng.choice([1, -1])*rng.uniform(0.3, 2, shape))
    if np.iscomplexobj(e0) or np.iscomplexobj(e1):
        z = z.real + 1j*abs(z.imag)
    gap = np.sqrt((0.25*(np.asarray(e0) - e1)**2 + abs(np.asarray(hop))**2) + 0j)
    if np.min(abs(gap)) < 1e-4*scale:
        raise Skip
    full = np.broadcast_shapes(shape, np.shape(e0), np.shape(e1), np.shape(hop))
    mat = np.zeros((*full, 2, 2), dtype=complex)
    mat[..., 0, 0], mat[..., 1, 1], mat[..., 0, 1], mat[..., 1, 0] = e0, e1, hop, np.conj(hop)
    zz = np.broadcast_to(z, full)
    ctx.tag("2x2", shape, np.shape(e0), np.shape(e1), np.shape(hop), np.iscomplexobj(e0), np.iscomplexobj(hop))
    args = [z, e0, e1, hop]
    if rng.random() < 0.3:
        args = [a.tolist() if isinstance(a, np.ndarray) else a for a in args]
    inv = np.linalg.inv(zz[..., None, None]*np.eye(2) - mat)
    tol = 1e-12*np.max(abs(inv), axis=(-1, -2))*(1 + scale/abs(gap))
    got = ctx.call(M.gf_2x2_z, *args)
    ctx.close("2x2 inverse", got, _diag(inv), atol=tol[..., None]*10)
    # with a lattice: average of the shifted inverse
    d = scale*rng.uniform(0.3, 2)
    k = np.arange(1, 400)
    x, w = d*np.cos(np.pi*k/400), 2/400*np.sin(np.pi*k/400)**2
    want = np.einsum("k,...kij->...ij", w, np.linalg.inv((zz[..., None] - x)[..., None, None]*np.eye(2)
                                                        - mat[..., None, :, :]))
    got = ctx.call(M.gf_2x2_z, *args, hilbert_trafo=lambda x: gt.bethe_gf_z(x, half_bandwidth=d))
    ctx.close("2x2 lattice", got, _diag(want), atol=100*tol[..., None] + 1e-9*np.max(abs(want)))


@case(CASES, 400, 8000)
def degenerate_sites(ctx, rng):
    """2x2: equal or nearly equal energies with vanishing or tiny hopping, alone and mixed into arrays."""
    shape = [(), (6,), (2, 4)][int(rng.integers(3))]
    scale = gen.loguni(rng, 1e-2, 1e2)
    eps = scale*rng.normal(size=shape)
    gap = rng.choice([0, 0, 1e-15, 1e-12, 1e-8, 1e-3, 1], size=shape)*scale*rng.normal(size=shape)
    hop = rng.choice([0, 0, 1e-170, 1e-30, 1e-15, 1e-8, 1], size=shape)*scale*rng.normal(size=shape)
    if rng.random() < 0.4:
        hop = hop*np.exp(2j*np.pi*rng.random(shape))
    e0, e1 = eps, eps + gap
    if rng.random() < 0.2 and shape == ():
        e0 = e1 = int(rng.integers(-3, 4))
        hop, scale = 0, 1.0
    z = scale*(rng.normal(size=shape) + 1j*rng.choice([1, -1])*rng.uniform(0.3, 2, shape))
    width = np.sqrt(0.25*(np.asarray(e0, dtype=np.longdouble) - e1)**2 + abs(np.asarray(hop, dtype=np.clongdouble))**2)
    ctx.tag("2x2 degenerate", shape, np.iscomplexobj(hop), int(np.sum(width == 0)))

    def exact(zz):
        d0, d1 = np.clongdouble(zz) - e0, np.clongdouble(zz) - e1
        det = d0*d1 - abs(np.asarray(hop, dtype=np.clongdouble))**2
        return np.stack([d1/det, d0/det], axis=-1).astype(complex)

    want = exact(z)
    tol = 1e-13*np.max(abs(want), axis=-1)*(1 + np.max(abs(want), axis=-1)*scale)
    ctx.close("2x2 inverse", ctx.call(M.gf_2x2_z, z, e0, e1, hop), want, atol=tol[..., None])
    d = scale*rng.uniform(0.3, 2)
    k = np.arange(1, 400)
    x, w = d*np.cos(np.pi*k/400), 2/400*np.sin(np.pi*k/400)**2
    want = sum(ww*exact(np.asarray(z) - xx) for xx, ww in zip(x, w))
    got = ctx.call(M.gf_2x2_z, z, e0, e1, hop, hilbert_trafo=lambda x: gt.bethe_gf_z(x, half_bandwidth=d))
    ctx.close("2x2 lattice", got, want, atol=1e-9*np.max(abs(want)))


def _structured(rng, n):
    """Real symmetric matrices of simple graphs: exactly degenerate and singular."""
    ring = np.roll(np.eye(n), 1, axis=0)
    pick = int(rng.integers(8))
    if pick == 0:
        return np.ones((n, n)), "ones"
    if pick == 1:
        return ring + ring.T + float(rng.choice([0, 0, 0.5, 1, 2]))*np.eye(n), "ring"
    if pick == 2:
        return np.eye(n, k=1) + np.eye(n, k=-1), "chain"
    if pick == 3:
        star = np.zeros((n, n))
        star[0, 1:] = star[1:, 0] = 1
        return star, "star"
    if pick == 4:
        adj = np.triu(rng.integers(0, 2, (n, n)), 1)
        return adj + adj.T, "graph"
    if pick == 5:
        v = rng.integers(-2, 3, (n, max(1, n//2)))
        return v @ v.T, "low rank"
    if pick == 6:
        u = np.linalg.qr(rng.normal(size=(n, n)))[0][:, :max(1, n//2)]
        return u @ u.T, "projector"
    return np.kron(np.eye(2), np.ones((n, n))), "blocks"


@case(CASES, 800, 15000)
def structured(ctx, rng):
    """Degenerate, singular and sparse symmetric matrices have a complete set of eigenvectors."""
    n = int(rng.integers(1, 9))
    mat, name = _structured(rng, n)
    unit = float(rng.choice([1, 1, -1, 2, gen.loguni(rng, 1e-10, 1e10)]))
    if unit != 1 or rng.random() < 0.5:
        mat = mat*unit
    if rng.random() < 0.3:
        mat = np.stack([mat, mat[::-1, ::-1], np.zeros_like(mat)])
    mat = _order(rng, mat)
    ctx.tag("structured", name, n, mat.ndim, mat.dtype)
    dec = ctx.call(M.decompose_her, mat)
    _check(ctx, rng, dec, mat, 1.0)
    sym = ctx.call(M.decompose_sym, mat)
    _check(ctx, rng, sym, mat, 1.0)
    ctx.close("same spectrum", np.sort(sym.eig.real, axis=-1), np.linalg.eigvalsh(mat),
              atol=1e-12*n*np.max(abs(mat), initial=1e-300))
    # the resolvent commutes with the matrix but is not hermitian
    scale = np.max(abs(mat), initial=0) or 1.0
    z = scale*complex(rng.normal(), rng.uniform(0.3, 2))
    res = dec.reconstruct(1/(z - dec.eig))
    res = 0.5*(res + T(res))
    for name, fn in (("general", M.decompose_mat), ("symmetric", M.decompose_sym)):
        try:
            got = ctx.call(fn, res)
        except np.linalg.LinAlgError:  # see the known finding below
            continue
        cond = np.max(np.linalg.cond(got.rv))
        ctx.tag("resolvent", name, bool(cond < 1e6))
        if cond < 1e6:
            ctx.close(f"resolvent, {name}", got.reconstruct(1/got.eig), z*np.eye(mat.shape[-1]) - mat,
                      atol=1e-11*n*scale*cond**2)


@case(CASES, 1, 1, finding="eig-degenerate")
def degenerate_general(ctx, rng):
    """Known finding: `numpy.linalg.eig` gives linearly dependent eigenvectors for some degenerate matrices."""
    del rng
    mat = np.ones((6, 6))
    try:
        good = np.allclose(ctx.call(M.decompose_mat, mat).reconstruct(), mat)
    except np.linalg.LinAlgError:
        good = False
    ctx.tag("finding", good)
    ctx.ok("finding: general decomposition of a matrix of ones", good)
