"""P18: matrix kernels against numpy, with guard regions around every operand."""
import numpy as np
import scipy.linalg as sl
import oracle as o
from drv import ptr, Ev, Sq

RULE = ("random kernel, shapes (rows 0-40, columns 1-9, sub-blocks, offsets, strides, aliasing where documented, adjoint flags, active size "
        "below allocated size); non-trivial when the kernel's result and the guard region around it were compared; the signature is "
        "build + kernel + shape + flags")
ASSUMPTIONS = ["numpy/LAPACK are correct", "round-off within 1e-10 relative, times the condition number for inverses and roots"]
MIN_DISTINCT = 200


def builds(tier):
    return [(c, "driver") for c in ("complex", "inv")]


def cases(tier, seed):
    r = o.rng(seed, 18)
    out = []
    for cfg in ("complex", "inv"):
        for i in range(80 if tier == "quick" else 800):
            out.append({"drv": cfg, "s": int(r.integers(1 << 30)), "reps": 60})
    return out


CAN = 7.25


class GEv:
    """band set inside a larger allocation whose slack must stay untouched"""

    def __init__(self, L, r, n, p):
        self.L, self.n, self.p = L, n, p
        self.cap = max(1, p + int(r.integers(0, 4)))
        c = 2 if n % 2 == 0 and n else 1
        self.e = Ev(L, max(1, n // c), c, self.cap, n // c, 0, max(1, n // c))
        self.e.set(np.full((n, self.cap), CAN))
        L.ev_resize(self.e.h, p, 0)
        self.v = rnd(L, r, (n, p))
        self.e.set(self.v)

    @property
    def h(self):
        return self.e.h

    def done(self, ctx, key, want=None, tol=1e-10, scale=1.0):
        got = self.e.get()
        close(ctx, key, got, self.v if want is None else want, tol, scale, exact=want is None)
        self.L.ev_resize(self.e.h, self.cap, 0)
        raw = self.e.get().ravel()
        if not (raw[self.n * self.p:] == CAN).all():
            ctx.bad(key + ":outside-written", "n=%d p=%d" % (self.n, self.p))
        self.e.free()


class GSq:
    def __init__(self, L, r, p, v=None, cap=None):
        self.L, self.p = L, p
        self.cap = max(1, p + int(r.integers(0, 3)) if cap is None else cap)
        self.e = Sq(L, self.cap)
        self.e.set(np.full((self.cap, self.cap), CAN))
        L.sq_resize(self.e.h, p, 0)
        self.v = rnd(L, r, (p, p)) if v is None else L.arr(v)
        self.e.set(self.v)

    @property
    def h(self):
        return self.e.h

    def done(self, ctx, key, want=None, tol=1e-10, scale=1.0, any=False):
        got = self.e.get()
        if not any:
            close(ctx, key, got, self.v if want is None else want, tol, scale, exact=want is None)
        self.L.sq_resize(self.e.h, self.cap, 0)
        raw = self.e.get().ravel()
        if not (raw[self.p ** 2:] == CAN).all():
            ctx.bad(key + ":outside-written", "p=%d" % self.p)
        self.e.free()
        return got


def rnd(L, r, s):
    x = r.normal(size=s)
    return L.arr(x + 1j * r.normal(size=s)) if L.cplx else x


def close(ctx, key, got, want, tol=1e-10, scale=1.0, exact=False):
    ctx.n("comparisons")
    want = np.asarray(want)
    if got.shape != want.shape:
        ctx.bad(key + ":shape", "%s %s" % (got.shape, want.shape))
        return
    if exact:
        if not np.array_equal(got, want):
            ctx.bad(key + ":input-modified", "")
        return
    if got.size == 0:
        return
    d = np.max(np.abs(got - want)) / (max(scale, 1e-300) * max(1.0, np.max(np.abs(want))))
    if not d <= tol:
        ctx.bad(key, "error %.3g shape %s" % (d, got.shape))


def H(x):
    return np.conj(x).T


def run(c, ctx):
    r = o.rng(c["s"])
    L = ctx.lib(c["drv"])
    for _ in range(c["reps"]):
        k = KERNELS[int(r.integers(len(KERNELS)))]
        n = int(r.choice([0, 1, 2, 3, 5, 8, 16, 17, 24, 33, 40]))
        p = 0 if k not in (k_invert, k_eigen, k_sqrt, k_chol) and r.random() < .06 else int(r.integers(1, 10))
        sig = k(ctx, L, r, n, p)
        ctx.n("kernel_calls")
        ctx.seen("%s %s n=%d p=%d %s" % (c["drv"], k.__name__, n, p, sig))


def k_copy(ctx, L, r, n, p):
    X, Y = GEv(L, r, n, p), GEv(L, r, n, p)
    L.ev_copy(X.h, Y.h)
    X.done(ctx, "evectmatrix_copy", Y.v, 0); Y.done(ctx, "evectmatrix_copy")


def k_copy_slice(ctx, L, r, n, p):
    p2 = int(r.integers(1, 10)); q = int(r.integers(0, min(p, p2) + 1))
    X, Y = GEv(L, r, n, p), GEv(L, r, n, p2)
    ix, iy = int(r.integers(0, p - q + 1)), int(r.integers(0, p2 - q + 1))
    L.ev_copy_slice(X.h, Y.h, ix, iy, q)
    w = X.v.copy(); w[:, ix:ix + q] = Y.v[:, iy:iy + q]
    X.done(ctx, "evectmatrix_copy_slice", w, 0); Y.done(ctx, "evectmatrix_copy_slice")
    return (p2, q, ix, iy)


def k_resize(ctx, L, r, n, p):
    X = GEv(L, r, n, p)
    q = int(r.integers(1, X.cap + 1))
    L.ev_resize(X.h, q, 1)
    got = X.e.get(); m = min(p, q)
    close(ctx, "evectmatrix_resize", got[:, :m], X.v[:, :m], 0)
    L.ev_resize(X.h, m, 1)
    close(ctx, "evectmatrix_resize", X.e.get(), X.v[:, :m], 0)
    X.e.free()
    S = GSq(L, r, p); q = int(r.integers(1, S.cap + 1)); m = min(p, q)
    L.sq_resize(S.h, q, 1)
    close(ctx, "sqmatrix_resize", S.e.get()[:m, :m], S.v[:m, :m], 0)
    L.sq_resize(S.h, m, 1)
    close(ctx, "sqmatrix_resize", S.e.get(), S.v[:m, :m], 0)
    S.e.free()
    return q


def k_aXpbY(ctx, L, r, n, p):
    a, b = [float(x) for x in r.choice([0., 1., -1., 2.5, -.3], 2)]
    X = GEv(L, r, n, p)
    if r.random() < .3:
        L.ev_aXpbY(a, X.h, b, X.h)
        # X and Y equal: X = aX, then X += bX
        X.done(ctx, "evectmatrix_aXpbY(alias)", (a + a * b) * X.v)
        return ("alias", a, b)
    Y = GEv(L, r, n, p)
    L.ev_aXpbY(a, X.h, b, Y.h)
    X.done(ctx, "evectmatrix_aXpbY", a * X.v + b * Y.v); Y.done(ctx, "evectmatrix_aXpbY")
    return (a, b)


def k_aXpbYS(ctx, L, r, n, p):
    a, b = [float(x) for x in r.choice([0., 1., -1., 2.5, -.3], 2)]
    P = p + int(r.integers(0, 5)); i, j = int(r.integers(0, P - p + 1)), int(r.integers(0, P - p + 1))
    dag = int(r.integers(2))
    X, Y, S = GEv(L, r, n, p), GEv(L, r, n, p), GSq(L, r, P)
    L.ev_aXpbYS_sub(a, X.h, b, Y.h, S.h, i * P + j, dag)
    s = S.v[i:i + p, j:j + p]
    X.done(ctx, "evectmatrix_aXpbYS_sub", a * X.v + b * Y.v @ (H(s) if dag else s))
    Y.done(ctx, "evectmatrix_aXpbYS_sub"); S.done(ctx, "evectmatrix_aXpbYS_sub")
    X, Y, S = GEv(L, r, n, p), GEv(L, r, n, p), GSq(L, r, 0, cap=2)
    L.ev_aXpbYS_sub(a, X.h, b, Y.h, S.h, 0, dag)
    X.done(ctx, "evectmatrix_aXpbYS_sub(identity)", a * X.v + b * Y.v); Y.done(ctx, "evectmatrix_aXpbYS_sub")
    S.e.free()
    return (a, b, P, i, j, dag)


def k_XeYS(ctx, L, r, n, p):
    X, Y = GEv(L, r, n, p), GEv(L, r, n, p)
    h = int(r.integers(2))
    S = GSq(L, r, p)
    if h:
        S.v = S.v + H(S.v); S.e.set(S.v)
    L.ev_XeYS(X.h, Y.h, S.h, h)
    X.done(ctx, "evectmatrix_XeYS", Y.v @ S.v); Y.done(ctx, "evectmatrix_XeYS"); S.done(ctx, "evectmatrix_XeYS")
    X, Y, S = GEv(L, r, n, p), GEv(L, r, n, p), GSq(L, r, p)
    a = float(r.normal()); d = int(r.integers(2))
    L.ev_XpaYS(X.h, a, Y.h, S.h, d)
    X.done(ctx, "evectmatrix_XpaYS", X.v + a * Y.v @ (H(S.v) if d else S.v)); Y.done(ctx, "evectmatrix_XpaYS")
    S.done(ctx, "evectmatrix_XpaYS")
    return (h, d)


def k_XtX(ctx, L, r, n, p):
    X, U, S = GEv(L, r, n, p), GSq(L, r, p), GSq(L, r, p)
    L.ev_XtX(U.h, X.h, S.h)
    U.done(ctx, "evectmatrix_XtX", H(X.v) @ X.v, scale=n + 1); X.done(ctx, "evectmatrix_XtX"); S.done(ctx, "evectmatrix_XtX", any=True)


def k_XtY(ctx, L, r, n, p):
    X, Y, U, S = GEv(L, r, n, p), GEv(L, r, n, p), GSq(L, r, p), GSq(L, r, p)
    L.ev_XtY(U.h, X.h, Y.h, S.h)
    U.done(ctx, "evectmatrix_XtY", H(X.v) @ Y.v, scale=n + 1); X.done(ctx, "evectmatrix_XtY"); Y.done(ctx, "evectmatrix_XtY")
    S.done(ctx, "evectmatrix_XtY", any=True)


def k_XtY_slice(ctx, L, r, n, p):
    px, py = p + int(r.integers(0, 4)), p + int(r.integers(0, 4))
    ix, iy = int(r.integers(0, px - p + 1)), int(r.integers(0, py - p + 1))
    X, Y, U, S = GEv(L, r, n, px), GEv(L, r, n, py), GSq(L, r, p), GSq(L, r, p)
    L.ev_XtY_slice(U.h, X.h, Y.h, ix, iy, p, S.h)
    U.done(ctx, "evectmatrix_XtY_slice", H(X.v[:, ix:ix + p]) @ Y.v[:, iy:iy + p], scale=n + 1)
    X.done(ctx, "evectmatrix_XtY_slice"); Y.done(ctx, "evectmatrix_XtY_slice"); S.done(ctx, "evectmatrix_XtY_slice", any=True)
    q = int(r.integers(0, p + 1)); iu = int(r.integers(0, p - q + 1))
    iy = int(r.integers(0, py - q + 1))
    X, Y, U, S1, S2 = GEv(L, r, n, px), GEv(L, r, n, py), GSq(L, r, p), GSq(L, r, p), GSq(L, r, p)
    L.ev_XtY_slice2(U.h, X.h, Y.h, ix, iy, p, q, iu, S1.h, S2.h)
    w = U.v.copy(); w[:, iu:iu + q] = H(X.v[:, ix:ix + p]) @ Y.v[:, iy:iy + q]
    U.done(ctx, "evectmatrix_XtY_slice2", w, scale=n + 1); X.done(ctx, "evectmatrix_XtY_slice2"); Y.done(ctx, "evectmatrix_XtY_slice2")
    S1.done(ctx, "evectmatrix_XtY_slice2", any=True); S2.done(ctx, "evectmatrix_XtY_slice2", any=True)
    return (px, py, ix, iy, q, iu)


def k_XtY_sub(ctx, L, r, n, p):
    P = p + int(r.integers(0, 5)); i, j = int(r.integers(0, P - p + 1)), int(r.integers(0, P - p + 1))
    X, Y, U, S = GEv(L, r, n, p), GEv(L, r, n, p), GSq(L, r, P), GSq(L, r, p)
    L.ev_XtY_sub(U.h, i * P + j, X.h, Y.h, S.h)
    w = U.v.copy(); w[i:i + p, j:j + p] = H(X.v) @ Y.v
    U.done(ctx, "evectmatrixXtY_sub", w, scale=n + 1); X.done(ctx, "evectmatrixXtY_sub"); Y.done(ctx, "evectmatrixXtY_sub")
    S.done(ctx, "evectmatrixXtY_sub", any=True)
    return (P, i, j)


def guard(L, n, cplx):
    a = np.full(n + 6, CAN, L.dtype if cplx else float)
    return a


def k_diag(ctx, L, r, n, p):
    X, Y = GEv(L, r, n, p), GEv(L, r, n, p)
    d, s = guard(L, p, 1), guard(L, p, 1)
    L.ev_XtY_diag(X.h, Y.h, ptr(d[3:]), ptr(s[3:]))
    w = np.full(p + 6, CAN, L.dtype); w[3:3 + p] = np.sum(np.conj(X.v) * Y.v, 0)
    close(ctx, "evectmatrix_XtY_diag", d, w, scale=n + 1)
    d, s = guard(L, p, 0), guard(L, p, 0)
    L.ev_XtY_diag_real(X.h, Y.h, ptr(d[3:]), ptr(s[3:]))
    close(ctx, "evectmatrix_XtY_diag_real", d, w.real, scale=n + 1)
    d, s = guard(L, p, 0), guard(L, p, 0)
    L.ev_XtX_diag_real(X.h, ptr(d[3:]), ptr(s[3:]))
    w = np.full(p + 6, CAN); w[3:3 + p] = np.sum(np.abs(X.v) ** 2, 0)
    close(ctx, "evectmatrix_XtX_diag_real", d, w, scale=n + 1)
    t = np.zeros(2)
    L.ev_traceXtY(X.h, Y.h, ptr(t))
    close(ctx, "evectmatrix_traceXtY", np.array([t[0] + 1j * t[1]]), np.array([np.sum(np.conj(X.v) * Y.v)]), scale=n * p + 1)
    X.done(ctx, "diag"); Y.done(ctx, "diag")


def k_diag_upd(ctx, L, r, n, p):
    m = n * p
    x, y = guard(L, m, 1), rnd(L, r, (n, p))
    xv = rnd(L, r, (n, p)); x[3:3 + m] = xv.ravel()
    a = float(r.choice([0., 1., -2.5, r.normal()]))
    d = rnd(L, r, p); dr = r.normal(size=p)
    L.XpaY_diag(ptr(x[3:]), a, ptr(y), ptr(d), n, p)
    w = guard(L, m, 1); w[3:3 + m] = (xv + a * y * d).ravel()
    close(ctx, "matrix_XpaY_diag", x, w)
    x = guard(L, m, 1); x[3:3 + m] = xv.ravel()
    L.XpaY_diag_real(ptr(x[3:]), a, ptr(y), ptr(dr), n, p)
    w = guard(L, m, 1); w[3:3 + m] = (xv + a * y * dr).ravel()
    close(ctx, "matrix_XpaY_diag_real", x, w)
    x = guard(L, m, 1); x[3:3 + m] = xv.ravel()
    d2 = r.normal(size=p)
    L.X_diag_pY_diag(ptr(x[3:]), ptr(dr), ptr(y), ptr(d2), n, p)
    w = guard(L, m, 1); w[3:3 + m] = (xv * dr + y * d2).ravel()
    close(ctx, "matrix_X_diag_real_pY_diag_real", x, w)
    A = rnd(L, r, (p, p))
    close(ctx, "matrix_re_trace_A_diag_real", np.array([L.re_trace_A_diag(ptr(A), ptr(dr), p)]), np.array([np.sum(np.diag(A).real * dr)]), scale=p)
    t = np.zeros(2); L.diag_trace(ptr(d), p, ptr(t))
    close(ctx, "matrix_diag_trace", np.array([t[0] + 1j * t[1]]), np.array([d.sum()]), scale=p)
    close(ctx, "matrix_diag_real_trace", np.array([L.diag_real_trace(ptr(dr), p)]), np.array([dr.sum()]), scale=p)
    return a


def k_sqprod(ctx, L, r, n, p):
    A, B, C = GSq(L, r, p), GSq(L, r, p), GSq(L, r, p)
    bd, cd = int(r.integers(2)), int(r.integers(2)); a = float(r.normal())
    f = lambda m, d: H(m) if d else m
    w = f(B.v, bd) @ f(C.v, cd)
    if r.random() < .5:
        L.sq_AeBC(A.h, B.h, bd, C.h, cd)
        A.done(ctx, "sqmatrix_AeBC", w)
    else:
        L.sq_ApaBC(A.h, a, B.h, bd, C.h, cd)
        A.done(ctx, "sqmatrix_ApaBC", A.v + a * w)
    B.done(ctx, "sqmatrix product"); C.done(ctx, "sqmatrix product")
    return (bd, cd)


def k_sqsimple(ctx, L, r, n, p):
    A, B = GSq(L, r, p), GSq(L, r, p)
    a, b = [float(x) for x in r.choice([0., 1., -1., 2.5], 2)]
    which = int(r.integers(8)); t = np.zeros(2)
    if which == 0:
        L.sq_copy(A.h, B.h); A.done(ctx, "sqmatrix_copy", B.v, 0)
    elif which == 1:
        L.sq_copy_upper2full(A.h, B.h); A.done(ctx, "sqmatrix_copy_upper2full", np.triu(B.v) + H(np.triu(B.v, 1)), 0)
    elif which == 2:
        L.sq_symmetrize(A.h, B.h); A.done(ctx, "sqmatrix_symmetrize", (B.v + H(B.v)) / 2)
    elif which == 3:
        L.sq_trace(A.h, ptr(t)); close(ctx, "sqmatrix_trace", np.array([t[0] + 1j * t[1]]), np.array([np.trace(A.v)]), scale=p); A.done(ctx, "sqmatrix_trace")
    elif which == 4:
        L.sq_traceAtB(A.h, B.h, ptr(t)); close(ctx, "sqmatrix_traceAtB", np.array([t[0] + 1j * t[1]]), np.array([np.trace(H(A.v) @ B.v)]), scale=p * p)
        A.done(ctx, "sqmatrix_traceAtB")
    elif which == 5:
        L.sq_ApaB(A.h, a, B.h); A.done(ctx, "sqmatrix_ApaB", A.v + a * B.v)
    elif which == 6:
        L.sq_aApbB(a, A.h, b, B.h); A.done(ctx, "sqmatrix_aApbB", a * A.v + b * B.v)
    else:
        L.sq_aApbB(a, A.h, b, A.h); A.done(ctx, "sqmatrix_aApbB(alias)", (a + a * b) * A.v)
    B.done(ctx, "sqmatrix simple %d" % which)
    return which


def herm_mat(L, r, p, kind):
    M = rnd(L, r, (p, p))
    Q, _ = np.linalg.qr(M)
    ev = np.exp(r.uniform(-3, 3, p))
    if kind == "indef":
        ev *= r.choice([-1, 1], p)
    if kind == "degenerate":
        ev[:] = np.repeat(ev[: (p + 1) // 2], 2)[:p]
    A = (Q * ev) @ H(Q)
    return (A + H(A)) / 2, ev


def k_invert(ctx, L, r, n, p):
    kind = str(r.choice(["pd", "indef", "singular", "pd-indef", "degenerate"]))
    W = GSq(L, r, p)
    if kind == "singular":
        A, ev = herm_mat(L, r, p, "pd")
        j = int(r.integers(p)); A[j, :] = 0; A[:, j] = 0    # exactly singular
        U = GSq(L, r, p, A); pd = int(r.integers(2))
        if L.sq_invert(U.h, pd, W.h):
            ctx.bad("singular-inverted", "p=%d pd=%d" % (p, pd))
        U.done(ctx, "sqmatrix_invert", any=True); W.done(ctx, "sqmatrix_invert", any=True)
        return kind
    if kind == "pd-indef":  # declared positive definite, but is not
        A, ev = herm_mat(L, r, p, "pd")
        A = A - np.eye(p) * (ev.min() + ev.max()) if p > 1 else -A
        U = GSq(L, r, p, A)
        if L.sq_invert(U.h, 1, W.h):
            ctx.bad("indefinite-inverted", "p=%d" % p)
        U.done(ctx, "sqmatrix_invert", any=True); W.done(ctx, "sqmatrix_invert", any=True)
        return kind
    A, ev = herm_mat(L, r, p, kind)
    U = GSq(L, r, p, A); pd = 0 if kind == "indef" else int(r.integers(2))
    ok = L.sq_invert(U.h, pd, W.h)
    if not ok:
        ctx.bad("regular-not-inverted", "p=%d pd=%d" % (p, pd))
    U.done(ctx, "sqmatrix_invert", np.linalg.inv(A), scale=np.abs(ev).max() / np.abs(ev).min()); W.done(ctx, "sqmatrix_invert", any=True)
    return (kind, pd)


def k_eigen(ctx, L, r, n, p):
    kind = str(r.choice(["pd", "indef", "degenerate"]))
    A, ev = herm_mat(L, r, p, kind)
    gen = r.random() < .5
    U, W = GSq(L, r, p, A), GSq(L, r, p)
    e = guard(L, p, 0)
    if gen:
        Bm, be = herm_mat(L, r, p, "pd")
        B = GSq(L, r, p, Bm)
        L.sq_gen_eigensolve(U.h, B.h, ptr(e[3:]), W.h)
        w = sl.eigh(A, Bm, eigvals_only=True)
        B.done(ctx, "sqmatrix_gen_eigensolve", any=True)
    else:
        Bm = np.eye(p); be = np.ones(1)
        L.sq_eigensolve(U.h, ptr(e[3:]), W.h)
        w = np.linalg.eigvalsh(A)
    sc = max(1, np.abs(ev).max() / be.min())
    w = np.concatenate([[CAN] * 3, w, [CAN] * 3])
    close(ctx, "sqmatrix_eigensolve", e, w, scale=sc)
    V = H(U.e.get())
    close(ctx, "sqmatrix_eigensolve(vectors)", A @ V, Bm @ V * e[3:3 + p], scale=sc * be.max() / be.min() * 10)
    close(ctx, "sqmatrix_eigensolve(orthonormal)", H(V) @ Bm @ V, np.eye(p), scale=be.max() / be.min() * 10)
    U.done(ctx, "sqmatrix_eigensolve", any=True); W.done(ctx, "sqmatrix_eigensolve", any=True)
    return (kind, gen)


def k_eigvals(ctx, L, r, n, p):
    A = GSq(L, r, p)
    e = np.full(p + 6, CAN, complex)
    L.sq_eigenvalues(A.h, ptr(e[3:]))
    w = list(np.linalg.eigvals(A.v)); g = list(e[3:3 + p])
    worst = 0
    for x in g:   # match as sets
        j = int(np.argmin([abs(x - y) for y in w])); worst = max(worst, abs(x - w.pop(j)))
    if not worst < 1e-6 or not (e[:3] == CAN).all() or not (e[-3:] == CAN).all():
        ctx.bad("sqmatrix_eigenvalues", "error %g" % worst)
    ctx.n("comparisons")
    A.done(ctx, "sqmatrix_eigenvalues")


def k_sqrt(ctx, L, r, n, p):
    A, ev = herm_mat(L, r, p, str(r.choice(["pd", "degenerate"])))
    U, S, W = GSq(L, r, p, A), GSq(L, r, p), GSq(L, r, p)
    L.sq_sqrt(S.h, U.h, W.h)
    got = S.e.get()
    close(ctx, "sqmatrix_sqrt", got @ got, A, scale=max(1, ev.max()) * 10)
    close(ctx, "sqmatrix_sqrt(hermitian)", got, H(got), scale=10)
    if np.linalg.eigvalsh((got + H(got)) / 2)[0] <= 0:
        ctx.bad("sqmatrix_sqrt", "not positive")
    for m in (U, S, W):
        m.done(ctx, "sqmatrix_sqrt", any=True)


def k_blas1(ctx, L, r, n, p):
    ix, iy = int(r.integers(1, 4)), int(r.integers(1, 4))
    x, y = guard(L, n * ix, 1), guard(L, n * iy, 1)
    xs, ys = slice(3, 3 + n * ix, ix), slice(3, 3 + n * iy, iy)
    x[xs] = rnd(L, r, n); y[ys] = rnd(L, r, n)
    x0, y0 = x.copy(), y.copy()
    a = float(r.normal()); al = complex(a, r.normal()) if L.cplx else a
    which = int(r.integers(5))
    if which == 0:
        L.axpy(n, a, ptr(x[3:]), ix, ptr(y[3:]), iy); w = y0.copy(); w[ys] += a * x0[xs]
        close(ctx, "blasglue_axpy", y, w); close(ctx, "blasglue_axpy", x, x0, exact=True)
    elif which == 1:
        L.scal(n, np.real(al), np.imag(al), ptr(x[3:]), ix); w = x0.copy(); w[xs] *= al
        close(ctx, "blasglue_scal", x, w)
    elif which == 2:
        L.rscal(n, a, ptr(x[3:]), ix); w = x0.copy(); w[xs] *= a
        close(ctx, "blasglue_rscal", x, w)
    elif which == 3:
        L.copy(n, ptr(x[3:]), ix, ptr(y[3:]), iy); w = y0.copy(); w[ys] = x0[xs]
        close(ctx, "blasglue_copy", y, w, 0); close(ctx, "blasglue_copy", x, x0, exact=True)
    else:
        t = np.zeros(2); L.dotc(n, ptr(x[3:]), ix, ptr(y[3:]), iy, ptr(t))
        close(ctx, "blasglue_dotc", np.array([t[0] + 1j * t[1]]), np.array([np.sum(np.conj(x0[xs]) * y0[ys])]), scale=n + 1)
    return (which, ix, iy)


def mat(L, r, m, n, fd):
    a = np.full(m * fd + 8, CAN, L.dtype)
    v = a[4:4 + m * fd].reshape(m, fd)
    v[:, :n] = rnd(L, r, (m, n))
    return a, v


def k_gemm(ctx, L, r, n, p):
    m, nn, k = [int(x) for x in r.integers(0, 8, 3)]
    ta, tb = int(r.integers(2)), int(r.integers(2))
    am, an = (k, m) if ta else (m, k)
    bm, bn = (nn, k) if tb else (k, nn)
    fa, fb, fc = [max(1, q) + int(r.integers(0, 3)) for q in (an, bn, nn)]
    A, Av = mat(L, r, am, an, fa); B, Bv = mat(L, r, bm, bn, fb); C, Cv = mat(L, r, m, nn, fc)
    a, b = [float(x) for x in r.choice([0., 1., -1., 2.5], 2)]
    w = C.copy(); wv = w[4:4 + m * fc].reshape(m, fc)
    f = lambda M, d: H(M) if d else M
    wv[:, :nn] = a * f(Av[:, :an], ta) @ f(Bv[:, :bn], tb) + b * Cv[:, :nn]
    A0, B0 = A.copy(), B.copy()
    L.gemm(ord("C") if ta else ord("N"), ord("C") if tb else ord("N"), m, nn, k, a, ptr(A[4:]), fa, ptr(B[4:]), fb, b, ptr(C[4:]), fc)
    close(ctx, "blasglue_gemm", C, w); close(ctx, "blasglue_gemm", A, A0, exact=True); close(ctx, "blasglue_gemm", B, B0, exact=True)
    return (m, nn, k, ta, tb, a, b)


def k_herk(ctx, L, r, n, p):
    m, k = [int(x) for x in r.integers(0, 8, 2)]
    t = int(r.integers(2)); up = int(r.integers(2))
    am, an = (k, m) if t else (m, k)
    fa, fc = max(1, an) + int(r.integers(0, 3)), max(1, m) + int(r.integers(0, 3))
    A, Av = mat(L, r, am, an, fa); C, Cv = mat(L, r, m, m, fc)
    for i in range(m):
        Cv[i, i] = Cv[i, i].real
    a, b = [float(x) for x in r.choice([0., 1., -1., 2.5], 2)]
    M = Av[:, :an]
    full = a * (H(M) @ M if t else M @ H(M)) + b * Cv[:, :m]
    w = C.copy(); wv = w[4:4 + m * fc].reshape(m, fc)
    tri = np.triu_indices(m) if up else np.tril_indices(m)
    wv[:, :m][tri] = full[tri]
    sl_ = Cv[:, :m]
    before = C.copy()
    L.herk(ord("U") if up else ord("L"), ord("C") if t else ord("N"), m, k, a, ptr(A[4:]), fa, b, ptr(C[4:]), fc)
    if k == 0:  # the whole block may then be scaled
        oth = np.tril_indices(m, -1) if up else np.triu_indices(m, 1)
        Cv[:, :m][oth] = wv[:, :m][oth]
    close(ctx, "blasglue_herk", C, w)
    return (m, k, t, up, a, b)


def k_chol(ctx, L, r, n, p):
    up = int(r.integers(2)); fa = p + int(r.integers(0, 3))
    A, ev = herm_mat(L, r, p, "pd")
    X, Xv = mat(L, r, p, p, fa); Xv[:, :p] = A
    w = X.copy(); wv = w[4:4 + p * fa].reshape(p, fa)
    ok = L.potrf(ord("U") if up else ord("L"), p, ptr(X[4:]), fa)
    c = np.linalg.cholesky(A)
    tri = np.triu_indices(p) if up else np.tril_indices(p)
    wv[:, :p][tri] = (H(c) if up else c)[tri]
    sc = ev.max() / ev.min()
    if not ok:
        ctx.bad("lapackglue_potrf", "failed on a positive definite matrix")
    close(ctx, "lapackglue_potrf", X, w, scale=sc)
    ok = L.potri(ord("U") if up else ord("L"), p, ptr(X[4:]), fa)
    wv[:, :p][tri] = np.linalg.inv(A)[tri]
    if not ok:
        ctx.bad("lapackglue_potri", "failed")
    close(ctx, "lapackglue_potri", X, w, scale=sc)
    return (up, fa)


def k_empty(ctx, L, r, n, p):
    U, B, S, V, W = GSq(L, r, 0), GSq(L, r, 0), GSq(L, r, 0), GSq(L, r, 0), GSq(L, r, p)
    e = np.full(6, CAN)
    if not L.sq_invert(U.h, int(r.integers(2)), W.h):
        ctx.bad("sqmatrix_invert(empty)", "reported as singular")
    L.sq_gen_eigensolve(U.h, B.h, ptr(e[3:]), W.h)
    L.sq_eigensolve(U.h, ptr(e[3:]), W.h)
    L.sq_sqrt(S.h, U.h, V.h)
    for m in (U, B, S, V, W):
        m.done(ctx, "sqmatrix(empty)", any=True)
    if not (e == CAN).all():
        ctx.bad("sqmatrix_eigensolve(empty)", "wrote %s" % e)
    ctx.n("comparisons")


KERNELS = [v for k, v in sorted(globals().items()) if k.startswith("k_")]
