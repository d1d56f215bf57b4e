"""P02: eigenvalues and modes of every solver variant against a dense diagonalisation."""
import os
import numpy as np
import scipy.linalg as sl
import h5
import oracle as o
import prog
from drv import MD, ptr
from P01 import setup
from vf import Inconclusive

RULE = ("(a) library: random tensors/lattice/k/grid solved by conjugate gradients or Davidson with random flags, workspace, preconditioner, "
        "block and starting vectors; (b) generic dense Hermitian problems with optional metric and preconditioner; (c) program: random "
        "geometry solved at random k with random block size, workspace, preconditioner, flags and tolerance from random starting fields; "
        "non-trivial when the eigenvalues were compared with a dense diagonalisation; signature is build + variant + grid + bands + settings")
def retry(ctx, one):
    """iterative solvers can stall on an unlucky start: a violation needs five of six independent starts"""
    bad = []
    for a in range(6):
        f = []
        one(a, lambda k, m: f.append((k, m)))
        if not f and not bad:
            return
        if f:
            bad.append(f)
        ctx.n("unlucky_starts", bool(f))
        if a + 1 - len(bad) > 1:
            return
    for k, m in bad[0]:
        ctx.bad(k, m)


ASSUMPTIONS = ["numpy/LAPACK dense eigenvalues are correct", "solver tolerance 1e-9 (relative change) reaches eigenvalues within 2e-6 relative to their sum",
               "starting fields are random: fields reused from another k-point of a decoupled problem can hide a band (known finding)"]
MIN_DISTINCT = 40

PRESERVE, EXACT, APPROX, RESET, ORTHOF, REORTH, DYN, OPREC = 2, 8, 16, 4, 32, 64, 128, 256


def builds(tier):
    return [(c, w) for c in ("complex", "inv", "herm") for w in ("driver", "mpb")]


def cases(tier, seed):
    r = o.rng(seed, 2)
    out = []
    q = tier == "quick"
    for cfg in ("complex", "inv", "herm"):
        for i in range(26 if q else 400):
            out.append({"drv": cfg, "s": int(r.integers(1 << 30)), "mode": "lib", "cost": 2})
        for i in range(8 if q else 100):
            out.append({"drv": cfg, "s": int(r.integers(1 << 30)), "mode": "dense", "cost": .5})
        for i in range(40 if q else 500):
            out.append({"cfg": cfg, "s": int(r.integers(1 << 30)), "mode": "prog", "cost": 2})
    for cfg in ("complex", "inv", "herm"):
        for i in range(10 if q else 120):
            out.append({"cfg": cfg, "s": int(r.integers(1 << 30)), "mode": "tiny", "cost": 1})
    out.append({"cfg": "complex", "s": 0, "mode": "history", "cost": 1})
    out.append({"cfg": "complex", "s": 0, "mode": "tinymu", "cost": 1})
    return out


def run(c, ctx):
    globals()["run_" + c["mode"]](c, ctx)


def rand_flags(r):
    f = RESET | REORTH
    for b in FLAGSET:
        if r.random() < .4:
            f |= b
    return f


FLAGSET = (PRESERVE, EXACT, ORTHOF, DYN)   # forced approximate line minimisation and the orthogonal preconditioner are not reliable by design


def judge(bad, key, tag, got, want, rtol=2e-6):
    got, want = np.asarray(got, float), np.asarray(want, float)
    sc = np.sum(np.abs(want)) / len(want) + abs(want[-1]) + 1e-3
    e = np.max(np.abs(got - want)) if np.isfinite(got).all() else np.inf
    if not e < rtol * sc:
        bad(key, "%s\n got %s\nwant %s" % (tag, got, want))
        return False
    return True


def run_lib(c, ctx):
    r = o.rng(c["s"])
    cfg = c["drv"]
    L = ctx.lib(cfg)
    dim, n, R, G, kk, k = setup(r, cfg, 5)
    while np.prod(n) < 6:
        dim, n, R, G, kk, k = setup(r, cfg, 5)
    kind = str(r.choice(["iso", "diag", "aniso"]))
    herm = L.herm and r.random() < .8
    mk = str(r.choice(["none", "iso", "diag", "aniso"], p=[.6, .1, .1, .2]))
    inv = not L.cplx
    Te = o.rand_tensor_field(r, n, "aniso" if herm else kind, herm, inv)
    epsinv = np.linalg.inv(Te); epsinv = (epsinv + np.conj(np.swapaxes(epsinv, -1, -2))) / 2
    muinv = None
    if mk != "none":
        muinv = np.linalg.inv(o.rand_tensor_field(r, n, mk, herm and r.random() < .5, inv))
        muinv = (muinv + np.conj(np.swapaxes(muinv, -1, -2))) / 2
    N = int(np.prod(n))
    p = int(r.integers(1, min(7, N - 1)))
    md = MD(L, n, p, int(r.integers(1, 6)))
    md.put_inv(o.stored_points(epsinv, n, L.cplx))
    if muinv is not None:
        md.put_inv(o.stored_points(muinv, n, L.cplx), mu=True)
    md.set_k(k, G)
    ref = o.RefOp(n, k, G, epsinv, muinv)
    w = ref.eigs()
    zk = bool(md.info()["zero_k"])
    w = w[2:] if zk else w
    david = muinv is None and N >= 4 * p and r.random() < .3
    prec = int(r.integers(0, 3))
    gen = muinv is not None
    nwork = int(r.choice([4, 5, 6, 8])) if david else int(r.integers(2, 6)) + gen
    if nwork == 2 + gen:
        prec = 2
    if prec == 0:
        prec = int(r.integers(0, 3))
    flags = rand_flags(r)
    if gen:
        flags &= ~(PRESERVE | DYN)
    tol = 1e-7 if david else 1e-11
    tag = "%s n=%s k=%s p=%d eps=%s mu=%s %s nwork=%d prec=%d flags=%d" % (
        cfg, n, kk, p, "herm" if herm else kind, mk, "davidson" if david else "cg", nwork, prec, flags)
    rt = 3e-4 if david else 2e-6

    def one(a, bad):
        x = r.normal(size=(2 * N, p)) + (1j * r.normal(size=(2 * N, p)) if L.cplx else 0)
        Y = md.ev(p, x)
        ev = np.full(p, np.nan)
        it = L.solve(md.h, Y.h, ptr(ev), int(david), 0.0, prec, int(zk), int(gen), nwork, tol, flags)
        ctx.n("iterations", it)
        judge(bad, "eigenvalues", tag, ev, w[:p], rt)
        # modes: orthonormal in the metric, eigenvectors of the operator
        y = Y.get()
        by = md.op(1, Y) if gen else y
        g = np.conj(y).T @ by
        if np.max(np.abs(g - np.eye(p))) > 1e-6:
            bad("not-orthonormal", tag + " %g" % np.max(np.abs(g - np.eye(p))))
        res = md.op(0, Y) - by * ev
        a = md.op(0, Y)
        lim = (3e-2 if david else 3e-3) * (np.max(np.linalg.norm(a, axis=0)) + .1)
        if np.max(np.linalg.norm(res, axis=0)) > lim:
            bad("not-eigenvectors", tag + " residual %g" % np.max(np.linalg.norm(res, axis=0)))
        if (np.diff(ev) < -1e-8).any():
            bad("not-sorted", tag)
        ctx.n("modes", p)
        # the Rayleigh-quotient entry point agrees
        if not gen:
            W1, W2 = md.ev(p), md.ev(p)
            M = r.normal(size=(p, p)) + (1j * r.normal(size=(p, p)) if L.cplx else 0) + 2 * np.eye(p)
            Z = md.ev(p, y @ L.arr(M))
            e2 = np.full(p, np.nan)
            L.get_eigenvals(md.h, Z.h, ptr(e2), W1.h, W2.h)
            judge(bad, "get-eigenvals", tag, e2, ev)
            z = Z.get()
            if np.max(np.abs(np.conj(z).T @ z - np.eye(p))) > 1e-6:
                bad("get-eigenvals-not-orthonormal", tag)
            res = md.op(0, Z) - z * e2
            if np.max(np.linalg.norm(res, axis=0)) > lim:
                bad("get-eigenvals-not-eigenvectors", tag)
            for e in (W1, W2, Z):
                e.free()
        Y.free()
    retry(ctx, one)
    md.free()
    ctx.seen(tag)


def run_dense(c, ctx):
    r = o.rng(c["s"])
    L = ctx.lib(c["drv"])
    n = int(r.integers(12, 61)); p = int(r.integers(1, 6))

    def hpd(lo, hi):
        M = r.normal(size=(n, n)) + (1j * r.normal(size=(n, n)) if L.cplx else 0)
        Q, _ = np.linalg.qr(M)
        H = Q @ np.diag(r.uniform(lo, hi, n)) @ Q.conj().T
        return (H + H.conj().T) / 2
    A = hpd(.5, 20)
    B = hpd(.5, 2) if r.random() < .5 else None
    david = B is None and r.random() < .35
    K = np.linalg.inv(hpd(.5, 3)) if r.random() < .4 else None
    nwork = int(r.choice([4, 6, 8])) if david else int(r.integers(3, 6)) + (B is not None)
    flags = rand_flags(r) | (RESET if r.random() < .7 else 0)
    f = lambda M: None if M is None else L.arr(M)
    a, b, k = f(A), f(B), f(K)
    tag = "dense n=%d p=%d %s B=%s K=%s nwork=%d flags=%d %s" % (n, p, "davidson" if david else "cg", B is not None, K is not None, nwork, flags, c["drv"])

    def one(_, bad):
        x = r.normal(size=(n, p)) + (1j * r.normal(size=(n, p)) if L.cplx else 0)
        Y = L.ev(n, 1, p, x)
        ev = np.full(p, np.nan)
        it = L.dense_solve(n, ptr(a), ptr(b), ptr(k), Y.h, ptr(ev), int(david), nwork, 1e-7 if david else 1e-9, flags)
        ctx.n("iterations", it)
        judge(bad, "dense-eigenvalues", tag, ev, sl.eigh(A, B, eigvals_only=True)[:p], 3e-4 if david else 1e-5)
        y = Y.get()
        By = y if B is None else B @ y
        if np.max(np.abs(np.conj(y).T @ By - np.eye(p))) > 1e-5:
            bad("dense-not-orthonormal", tag)
        Y.free()
    retry(ctx, one)
    ctx.seen(tag)


def settings(r, nb, mu, david_ok=True, size=10**9):
    s = {}
    if r.random() < .5:
        s["eigensolver_block_size"] = int(r.choice([1, 2, 3, -2, -3, 0, 50]))
    if r.random() < .4:
        s["simple_preconditionerQQ"] = "true"
    if r.random() < .4:
        s["eigensolver_nwork"] = int(r.integers(3, 7))
    if r.random() < .3:
        s["eigensolver_flags"] = "(+ EIGS_DEFAULT_FLAGS %s)" % " ".join(
            [x for x in ("EIGS_FORCE_EXACT_LINMIN", "EIGS_DYNAMIC_RESET_CG", "EIGS_ORTHONORMALIZE_FIRST_STEP") if r.random() < .5])
    if not mu and david_ok and size >= 3 * nb and r.random() < .2:
        s["eigensolver_davidsonQQ"] = "true"
        s["eigensolver_nwork"] = int(r.integers(4, 9))
        s.pop("eigensolver_flags", None)
    if r.random() < .3:
        s["deterministicQQ"] = "true"
    return s


def reference(ctx, cfg, P, R, mu):
    T = prog.grid_tensors(os.path.join(R.dir, "in-epsilon.h5"), P.n)
    M = prog.mu_tensors(P, ctx, cfg) if mu else None
    slack = 0
    if mu:   # the object-overlap integrals of libctl repeat only to 1% of a pixel: bound the reference by the mean permeability
        m = h5.read(os.path.join(R.dir, "in-mu.h5"))["data"].reshape(P.n)
        w = np.linalg.eigvalsh(M)
        slack = float(np.max(np.abs(m * (w[..., 0] + w[..., 1]) / 2 - 1)))
        if slack > 2e-2:
            raise Inconclusive("permeability reference off by %g" % slack)
    if cfg == "inv":   # the half grid determines the rest; its self-mirrored planes act through their symmetric part
        inv = lambda X: None if X is None else (X + X[np.ix_(*[(-np.arange(q)) % q for q in P.n])]) / 2
        T, M = inv(T), inv(M)
    return T, M, 20 * slack


# documented stops of the iterative solvers: nothing is returned, but they must stay rare
TOLERATE = ("failure to converge after|non-independent AV subspace|non-positive eigenvalue|bad news: Polak", 8)
DAVIDSON_STOP = "non-independent AV subspace"


def run_prog(c, ctx):
    r = o.rng(c["s"])
    cfg = c["cfg"]
    P = prog.Prob(r, inv=cfg == "inv", herm=cfg == "herm")
    ks = [P.rand_k() for _ in range(int(r.integers(1, 4)))]
    s = settings(r, P.nb, P.has_mu(), size=int(np.prod(P.n)))
    if "eigensolver_davidsonQQ" in s:
        P.tol = 1e-7
    elif P.has_mu():
        P.tol = 1e-12
    tag = "%s %s nb=%d %s" % (cfg, P.tag(), P.nb, sorted(s.items()))
    david = "eigensolver_davidsonQQ" in s
    ref = []

    def one(a, bad):
        R = ctx.mpb(P.ctl(ks, **s) + "(init-params NO-PARITY true)" + "(randomize-fields)" * (3 * a) +
                    ("(output-mu)" if P.has_mu() else "") + "(set! randomize-fields? true)(run-parity NO-PARITY false)"
                    "(vp 'freqs all-freqs)(vp 'last freqs)(vp 'mu (using-mu?))", cfg)
        if R.rc:
            if DAVIDSON_STOP in R.out:
                raise Inconclusive("Davidson stop")
            bad("run-failed", P.tag() + R.out[-800:])
            return
        d = R.vpd()
        if not ref:
            ref.extend(reference(ctx, cfg, P, R, d["mu"][0]))
        if len(d["freqs"][0]) != len(ks):
            bad("k-points-missing", tag)
        for k, fr in zip(ks, d["freqs"][0]):
            w = o.RefOp(P.n, k, P.G, *ref[:2]).eigs(P.nb)
            ctx.n("k_points"); ctx.n("bands", P.nb)
            judge(bad, "frequencies", tag + " k=%s" % k, np.array(fr) ** 2, np.maximum(w, 0), (3e-4 if david else 1e-5) + ref[2])
            if (np.diff(fr) < -1e-6).any():
                bad("frequencies-not-sorted", tag + str(fr))
    retry(ctx, one)
    ctx.seen(tag)


# close to k = 0, which is treated specially, the two acoustic bands alone: their ratio to |k| is what a user reads off


def run_tiny(c, ctx):
    r = o.rng(c["s"])
    cfg = c["cfg"]
    P = prog.Prob(r, inv=cfg == "inv", herm=cfg == "herm")
    while P.has_mu():    # a magnetic problem: see run_tinymu
        P = prog.Prob(r, inv=cfg == "inv", herm=cfg == "herm")
    P.nb, P.tol = 2, 1e-10
    ks = []
    for _ in range(3):
        u = r.normal(size=3) * (np.arange(3) < P.dim)
        if r.random() < .3:
            u = np.eye(3)[int(r.integers(P.dim))]
        ks.append(u / np.linalg.norm(u) * 10 ** r.uniform(-4, -1.6))
    tag = "tiny %s %s" % (cfg, P.tag())
    ref = []

    def one(a, bad):
        R = ctx.mpb(P.ctl(ks) + "(init-params NO-PARITY true)" + "(randomize-fields)" * (3 * a) + ("(output-mu)" if P.has_mu() else "") +
                    "(set! randomize-fields? true)(run-parity NO-PARITY false)(vp 'freqs all-freqs)(vp 'mu (using-mu?))", cfg)
        if R.rc:
            bad("run-failed", P.tag() + R.out[-800:])
            return
        d = R.vpd()
        if not ref:
            ref.extend(reference(ctx, cfg, P, R, d["mu"][0]))
        for k, fr in zip(ks, d["freqs"][0]):
            w = np.sqrt(np.maximum(o.RefOp(P.n, k, P.G, *ref[:2]).eigs(P.nb), 0))
            q = np.linalg.norm(P.G.T @ k)
            ctx.n("small_k_points")
            e = np.abs(np.array(fr) - w) / w
            if not (e < 1e-2).all():
                bad("near-k=0", "%s k=%s |k|=%g got %s want %s" % (tag, k, q, fr, w))
    retry(ctx, one)
    ctx.seen(tag)


MAGNETIC = """(set! geometry-lattice (make lattice (size 1.2061225941736065 0.91803744207079974 no-size) (basis1 0.87291822001190567 -0.48442903837256029 0) (basis2 -0.028580953347864212 1.1912503871546187 0)))
(set! resolution (vector3 4.1455147463063877 2.1785592921881705 1))
(define A (make medium-anisotropic (epsilon-diag 5.518 5.266 5.576) (epsilon-offdiag .1 .2 .1) (mu-diag 3.8631538227355775 3.8631538227355775 3.8631538227355775)))
(set! geometry (list (make sphere (material A) (center 0.35028230519463832 0.049148038203870474 0) (radius 0.22659717848976293))
 (make sphere (material (make medium-anisotropic (epsilon-diag 4.507 2.777 3.612) (epsilon-offdiag .1 .2 .1) (mu-diag 1.0412931230278994 1.0412931230278994 1.0412931230278994))) (center -0.28085183201259672 0.022030641656896419 0) (radius 0.28993650382181541))
 (make cylinder (material A) (center 0.21534996713005064 0.13662983615610839 0) (radius 0.32347976047394555) (height infinity) (axis 0 0 1))))
(set! num-bands 2)(set! tolerance 1e-10)(set! mesh-size 2)(set! filename-prefix "in-")(set! k-points (list (vector3 0.0017394988779156279 0 0)))
(init-params NO-PARITY true)(run)(vp 'freqs freqs)(vp 'k (vector3-norm (reciprocal->cartesian current-k)))
"""


def run_tinymu(c, ctx):
    """a pinned magnetic problem close to k = 0, where the iteration stalls at once and reports it as convergence (known finding)"""
    f = []
    for _ in range(3):
        d = ctx.mpb(MAGNETIC, "complex").vpd()
        f.append(d["freqs"][0][1] / d["k"][0])    # both bands lie below those of vacuum, since eps and mu are at least 1
        ctx.n("small_k_points")
    if min(f) > 1.01:
        ctx.bad("near-k=0:magnetic-5x2", "second band at %s |k|" % f)
    ctx.seen("tinymu")


# a decoupled problem: the modes of the first k-point have no component in a polarisation that the fifth band of the second needs


def run_history(c, ctx):
    P = prog.Prob(o.rng(7, 77))
    ks = [P.rand_k(), P.rand_k()]
    R = ctx.mpb(P.ctl(ks) + "(run)(vp 'freqs all-freqs)", "complex")
    T = prog.grid_tensors(os.path.join(R.dir, "in-epsilon.h5"), P.n)
    for i, (k, fr) in enumerate(zip(ks, R.vpd()["freqs"][0])):
        w = o.RefOp(P.n, k, P.G, T).eigs(P.nb)
        judge(ctx.bad, "reused-fields-miss-band:prob(7,77):k%d" % i, P.tag() + " k=%s" % k, np.array(fr) ** 2, w)
    ctx.n("history_k_points", 2)
    ctx.seen("history")
