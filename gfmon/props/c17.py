"""C17: equality constrained least squares and orthogonal complement."""
import numpy as np

from .. import gen, target
from ..core import Skip, case

gt = target.load()
LA = gt.linalg

CASES = []
QUICK = 6  # cheap cases: more of them in the quick tier
RULE = ("Random real and complex systems with 1-9 unknowns, 0 to N constraints, over-, under- and exactly determined,"
        " singular value decades prescribed, cut-offs inside the singular spectrum; matrices with 1-10 rows, stacks."
        "  Non-trivial: at least one constraint and one free direction.")
ASSUMPTIONS = ["constraints have full row rank (zero rows only for feasibility)",
               "singular values differ from the cut-off by a factor 3"]


def _rand(rng, shape, cplx):
    out = rng.normal(size=shape)
    return out + 1j*rng.normal(size=shape) if cplx else out


def _matrix(rng, m, n, cplx, decades):
    """Random m x n matrix with prescribed singular values."""
    k = min(m, n)
    u = np.linalg.qr(_rand(rng, (m, m), cplx))[0][:, :k]
    v = np.linalg.qr(_rand(rng, (n, n), cplx))[0][:, :k]
    s = 10**(-decades*rng.random(k))
    return (u*s) @ v.conj().T


@case(CASES, 1500, 30000)
def kkt(ctx, rng):
    n = gen.size(rng, 1, 9, 40)
    m = gen.size(rng, 1, 13, 80)
    ncon = int(rng.integers(0, n + 1))
    cplx = rng.random() < 0.5
    decades = float(rng.choice([0, 1, 2]))
    scale = 10**rng.uniform(-3, 3)
    kinds = cplx & (rng.random(4) < 0.6)  # each of the arguments on its own real or complex
    a = scale*_matrix(rng, m, n, kinds[0], decades)
    c = _matrix(rng, ncon, n, kinds[1], decades) if ncon else np.zeros((0, n))
    b, d = _rand(rng, m, kinds[2]), _rand(rng, ncon, kinds[3])
    if rng.random() < 0.3:
        d = 0*d
    if rng.random() < 0.2:
        b, a = b*0, a
    ctx.tag("kkt", m, n, ncon, cplx, decades)
    args = [gen.readonly(x) if rng.random() < 0.5 else np.asfortranarray(x) for x in (a, b, c, d)]
    x = ctx.call(LA.lstsq_ec, *args)
    ctx.ok("shape", x.shape == (n,), shape=x.shape)
    cc = 10**decades
    xn = np.linalg.norm(x) + 1e-300
    ctx.close("constraint", c @ x, d, atol=1e-12*cc*(xn + np.linalg.norm(d)*cc))
    free = np.linalg.svd(c)[2][ncon:].conj().T if ncon else np.eye(n)  # null space of the constraints
    grad = (a @ free).conj().T @ (a @ x - b)
    ca = np.linalg.cond(a @ free) if min(m, n - ncon) > 0 else 1
    if ca > 1e6:
        raise Skip
    an = np.linalg.norm(a)
    ctx.close("stationarity", grad, 0*grad, atol=1e-12*ca*cc*an*(an*xn + np.linalg.norm(b)))
    if m < n - ncon:  # free directions not determined by the data: minimal norm within the null space
        rest = np.linalg.svd(a @ free)[2][min(m, n - ncon):] @ (free.conj().T @ x)
        ctx.close("minimal norm", rest, 0*rest, atol=1e-11*ca*cc*(xn + np.linalg.norm(b)/an*ca))
    # no feasible direction improves the residual
    best = np.linalg.norm(a @ x - b)
    for _ in range(3):
        if n > ncon:
            step = free @ _rand(rng, n - ncon, cplx)*10**rng.uniform(-4, 1)*max(1e-3, xn)
            ctx.ok("no feasible improvement", np.linalg.norm(a @ (x + step) - b) >= best*(1 - 1e-9) - 1e-11*ca*cc*(an*xn + np.linalg.norm(b)))
    for given, orig in zip(args, (a, b, c, d)):
        ctx.ok("inputs unchanged", np.array_equal(given, orig))
    if ncon == 0:
        ctx.close("ordinary least squares", x, np.linalg.lstsq(a, b, rcond=None)[0], rtol=1e-10, atol=1e-10*xn)


@case(CASES, 700, 14000, skip=0.6)
def cutoff(ctx, rng):
    """Singular values below the cut-off do not contribute."""
    n, m = int(rng.integers(2, 8)), int(rng.integers(3, 12))
    ncon = int(rng.integers(0, n - 1))
    cplx = rng.random() < 0.5
    a, b = _matrix(rng, m, n, cplx, 6.0), _rand(rng, m, cplx)
    c, d = _rand(rng, (ncon, n), cplx), _rand(rng, ncon, cplx)
    rcond = float(10**rng.uniform(-5, -0.5))
    vh = np.linalg.svd(c)[2] if ncon else np.eye(n)
    free = vh[ncon:].conj().T
    mat = a @ free
    u, s, v = np.linalg.svd(mat, full_matrices=False)
    if np.any((s > rcond*s[0]/3) & (s < rcond*s[0]*3)):
        raise Skip
    part = np.linalg.pinv(c) @ d if ncon else np.zeros(n)
    keep = s > rcond*s[0]
    z = v.conj().T @ np.where(keep, (u.conj().T @ (b - a @ part))/s, 0)
    want = part + free @ z
    cc = np.linalg.cond(c) if ncon else 1
    if cc > 1e3:
        raise Skip
    ctx.tag("cutoff", n, m, ncon, int(keep.sum()), cplx)
    got = ctx.call(LA.lstsq_ec, a, b, c, d, rcond=rcond)
    ctx.close("cut-off solution", got, want, atol=1e-11*cc/rcond*np.linalg.norm(want) + 1e-12*cc/rcond**2*np.linalg.norm(b))


@case(CASES, 300, 5000)
def degenerate(ctx, rng):
    """Empty systems and redundant zero constraints."""
    n, m = int(rng.integers(1, 7)), int(rng.integers(1, 9))
    cplx = rng.random() < 0.5
    a, b = _rand(rng, (m, n), cplx), _rand(rng, m, cplx)
    got = ctx.call(LA.lstsq_ec, np.zeros((m, 0)), b, np.zeros((0, 0)), np.zeros(0))
    ctx.ok("no unknowns", got.shape == (0,))
    ctx.raises(ValueError, LA.lstsq_ec, a, b, np.zeros((0, n)), np.ones(int(rng.integers(1, 4))))
    ctx.tag("degenerate", n, m, cplx)
    if n > 1:
        c = np.zeros((n - 1, n), dtype=a.dtype)
        live = int(rng.integers(0, n - 1))
        c[:live] = _rand(rng, (live, n), cplx)
        d = np.zeros(n - 1, dtype=a.dtype)
        d[:live] = _rand(rng, live, cplx)
        if rng.random() < 0.4:  # repeated unit vectors, an exact zero in the triangular factor
            live = int(rng.integers(1, n))
            c, d = np.zeros((n - 1, n), dtype=a.dtype), np.zeros(n - 1, dtype=a.dtype)
            cols, vals = rng.permutation(n)[:live], _rand(rng, live, cplx)
            rows = np.sort(np.concatenate([np.arange(live), rng.integers(0, live, n - 1 - live)]))
            c[np.arange(n - 1), cols[rows]] = 1
            d[:] = vals[rows]
        x = ctx.call(LA.lstsq_ec, a, b, c, d)
        cc = max(1, np.linalg.cond(c[:live]) if live else 1)
        if "rows" in locals():
            cc = 1
        ctx.close("redundant constraints", c @ x, d, atol=1e-11*(1 + np.linalg.norm(x))*cc**2)
        free = np.linalg.svd(c)[2][live:].conj().T
        if cc < 1e3 and np.linalg.cond(a @ free) < 1e5:
            grad = (a @ free).conj().T @ (a @ x - b)
            an = np.linalg.norm(a)
            ctx.close("redundant constraints: stationarity", grad, 0*grad,
                      atol=1e-11*cc**2*np.linalg.cond(a @ free)*an*(an*np.linalg.norm(x) + np.linalg.norm(b)))
            if m < n - live:
                rest = np.linalg.svd(a @ free)[2][m:] @ (free.conj().T @ x)
                ctx.close("redundant constraints: minimal norm", rest, 0*rest,
                          atol=1e-11*cc**2*np.linalg.cond(a @ free)*(np.linalg.norm(x) + np.linalg.norm(b)/an))


@case(CASES, 900, 18000)
def complement(ctx, rng):
    m = gen.size(rng, 0, 7, 40)
    n = m + int(rng.integers(1, 6))
    batch = [(), (), (3,), (2, 2)][int(rng.integers(4))]
    cplx = rng.random() < 0.5
    mat = _rand(rng, batch + (n, m), cplx)*10**rng.uniform(-3, 3)
    if rng.random() < 0.2 and m > 1:
        mat[..., -1] = mat[..., 0]  # rank deficient
    ctx.tag("complement", n, m, batch, cplx)
    arg = mat.tolist() if rng.random() < 0.3 and m else gen.readonly(mat)
    perp = ctx.call(LA.orth_compl, arg)
    ctx.ok("shape", perp.shape == batch + (n - m, n), shape=perp.shape)
    prod = perp @ mat
    ctx.close("orthogonal to the matrix", prod, 0*prod, atol=1e-13*n*(np.max(abs(mat), initial=0) + 1e-300))
    gram = perp @ np.swapaxes(perp, -1, -2).conj()
    ctx.close("orthonormal", gram, np.broadcast_to(np.eye(n - m), gram.shape), atol=1e-13*n)
    wide = _rand(rng, batch + (m, m + int(rng.integers(0, 3))), cplx)
    ctx.raises(ValueError, LA.orth_compl, wide)


@case(CASES, 400, 8000)
def incomplete(ctx, rng):
    """Data that do not determine all unknowns (zero columns, zero rows, repeated columns, no data at all)."""
    n, m = int(rng.integers(2, 9)), int(rng.integers(2, 12))
    ncon = int(rng.integers(0, n - 1))
    cplx = rng.random() < 0.5
    a, b = _rand(rng, (m, n), cplx), _rand(rng, m, cplx)
    kind = int(rng.integers(4))
    if kind == 0:
        a[:, rng.random(n) < 0.4] = 0
    elif kind == 1:
        a[rng.random(m) < 0.6] = 0
    elif kind == 2:
        a[:, :n // 2] = a[:, n - n//2:]
    else:
        a[...] = 0
    c, d = _rand(rng, (ncon, n), cplx), _rand(rng, ncon, cplx)
    cc = np.linalg.cond(c) if ncon else 1
    if cc > 1e3:
        raise Skip
    free = (np.linalg.svd(c)[2] if ncon else np.eye(n))[ncon:].conj().T
    u, s, v = np.linalg.svd(a @ free, full_matrices=False)
    top = max(np.linalg.norm(a), 1e-300)
    keep = s > 1e-9*top
    if np.any(keep & (s < 1e-3*top)):
        raise Skip
    ctx.tag("incomplete", kind, n > m, ncon > 0, int(keep.sum()), cplx)
    x = ctx.call(LA.lstsq_ec, a, b, c, d, rcond=1e-6)
    part = np.linalg.pinv(c) @ d if ncon else np.zeros(n)
    z = v.conj().T @ np.where(keep, (u.conj().T @ (b - a @ part))/np.where(keep, s, 1), 0)
    want = part + free @ z
    ctx.close("solution of minimal norm", x, want, atol=1e-8*cc*(np.linalg.norm(want) + np.linalg.norm(d)*cc + 1e-300))
