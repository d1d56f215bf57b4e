"""P10: exact invariances, as pairs of runs of the real program (metamorphic), and the analytic dispersion of homogeneous media."""
import copy
import os
import numpy as np
import scipy.linalg as sl
import oracle as o
import prog
import h5
from P02 import retry, judge, settings
from prog import f, v3

RULE = ("pairs (or sets) of program runs of a random problem and its transformed image; a pair counts when the frequencies of both were compared; signature is "
        "transformation + build + problem")
ASSUMPTIONS = ["exact invariance of the discretised problem: reversal and supercells are judged on odd grids, where the planewave set is symmetric",
               "without sub-pixel averaging a grid point on an object boundary may fall on either side: such pairs (visible in the epsilon files) are not compared, "
               "but they must stay a small share of the grid"]
TOLERATE = ("failure to converge after|non-independent AV subspace|non-positive eigenvalue|bad news: Polak", 8)
MIN_DISTINCT = 30
MODES = ["reverse", "scale-eps", "rotate", "relabel", "translate", "swap", "super", "homogeneous", "scale-length"]


def builds(tier):
    return [(c, "mpb") for c in ("complex", "inv", "herm")]


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for mi, m in enumerate(MODES):
        for i in range(18 if q else 200):
            out.append({"mode": m, "cfg": ["complex", "inv", "herm"][i % 3], "s": (seed, 10, mi, i), "cost": 6 if m == "super" else 2})
    return out


def make(c, **kw):
    r = o.rng(*c["s"])
    P = prog.Prob(r, inv=c["cfg"] == "inv", herm=c["cfg"] == "herm", nmin=kw.pop("nmin", 2), **kw)
    P.tol = 1e-10
    P.mesh = 1
    if P.has_mu():
        P.tol = 1e-12
    return r, P


def solve(ctx, P, ks, cfg, a, sub, nb=None, parity=None, **s):
    d = os.path.join(ctx.dir(), sub)
    os.makedirs(d, exist_ok=True)
    R = ctx.mpb(P.ctl(ks, **s) + ("(set! num-bands %d)" % nb if nb else "") + "(init-params NO-PARITY true)" + "(randomize-fields)" * (3 * a) +
                "(output-epsilon)(set! randomize-fields? true)(run)(vp 'f all-freqs)", cfg, cwd=d)
    if R.rc:
        return None, None, R
    e = h5.read(os.path.join(d, "in-epsilon.h5"))
    return np.array(R.vpd()["f"][0], float), e, R


def eps(e, P):
    """scalar mean and the invariants of the tensor on the grid"""
    T = np.stack([e["epsilon.%s%s" % p].reshape(P.n) for p in ("xx", "xy", "xz", "yy", "yz", "zz")]) if "epsilon.xx" in e else None
    return e["data"].reshape(P.n)


def ties(ctx, bad, tag, x, y):
    n = int(np.sum(np.abs(x - y) > 1e-6 * (1 + np.abs(x))))
    if n:
        ctx.n("pairs_with_ties")
        if n > max(4, .3 * x.size):
            bad("structure-not-invariant", tag + " %d of %d grid points" % (n, x.size))
    return n


def run(c, ctx):
    cfg, m = c["cfg"], c["mode"]
    globals()["t_" + m.replace("-", "_")](c, ctx, cfg)


def pair(c, ctx, cfg, P, Q, k, kq, factor, perm, tag, rtol=4e-5, **s):
    """w(P, k) = factor * w(Q, kq); perm maps Q's scalar grid to P's (None: not comparable)"""
    tag = "%s %s %s nb=%d k=%s %s" % (c["mode"], cfg, P.tag(), P.nb, np.round(k, 4), tag)

    def one(a, bad):
        f0, e0, R = solve(ctx, P, [k], cfg, a, "a", **s)
        f1, e1, R1 = solve(ctx, Q, [kq], cfg, a, "b", **s)
        if f0 is None or f1 is None:
            bad("run-failed", tag + (R if f0 is None else R1).out[-600:])
            return
        if perm is not None and ties(ctx, bad, tag, e0["data"].reshape(P.n), perm(e1["data"].reshape(Q.n))):
            return
        ctx.n("pairs"); ctx.n("bands", P.nb)
        judge(bad, c["mode"], tag, (f1[0] * factor) ** 2, f0[0] ** 2, rtol)
    retry(ctx, one)
    ctx.seen(tag)


def t_reverse(c, ctx, cfg):
    r, P = make(c, odd=True, nmin=3)
    k = P.rand_k("gen")
    Q = P
    if cfg == "herm":   # reversing time conjugates the tensors
        Q = copy.deepcopy(P)
        Q.mats = [{x: (np.conj(y) if isinstance(y, np.ndarray) else y) for x, y in m.items()} for m in P.mats]
    pair(c, ctx, cfg, P, Q, k, -k, 1, lambda x: x, "", **some(r, P))


def some(r, P):
    return settings(r, P.nb, P.has_mu(), david_ok=False) if r.random() < .4 else {}


def t_scale_eps(c, ctx, cfg):
    r, P = make(c)
    P.default = 0 if P.default is None else P.default
    k = P.rand_k()
    Q = copy.deepcopy(P)
    x = float(r.uniform(.3, 3))
    what = "mu" if P.has_mu() and r.random() < .5 else "eps"
    for m in Q.mats:
        m[what] = m[what] * x
    pair(c, ctx, cfg, P, Q, k, k, np.sqrt(x), (lambda y: y / x) if what == "eps" else (lambda y: y), what, **some(r, P))


def t_scale_length(c, ctx, cfg):
    r, P = make(c)
    k = P.rand_k()
    Q = copy.deepcopy(P)
    x = float(r.uniform(.5, 2))
    Q.size = np.where(np.arange(3) < P.dim, P.size * x, P.size)
    for q in Q.objs:
        for t in ("c", "r", "r2", "h"):
            if q.get(t) is not None:
                q[t] = np.asarray(q[t]) * x if t == "c" else q[t] * x
        if "s" in q:
            q["s"] = [None if z is None else z * x for z in q["s"]]
    kq = np.where(np.arange(3) < P.dim, k, k / x)   # along directions without size k is in units of 1 / the basis length
    pair(c, ctx, cfg, P, Q, k, kq, x, lambda y: y, "")


def rot(r, dim, improper=True):
    if dim == 2:
        a = r.uniform(0, 2 * np.pi)
        Q = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
    else:
        Q, _ = np.linalg.qr(r.normal(size=(3, 3)))
    if improper and r.random() < .4:
        Q = Q @ np.diag([-1, 1, 1])
    return Q


def t_rotate(c, ctx, cfg):
    r, P = make(c)
    k = P.rand_k()
    Q = copy.deepcopy(P)
    T = rot(r, P.dim)
    Q.basis = P.basis @ T.T
    for m in Q.mats:
        for x in ("eps", "mu"):
            if isinstance(m.get(x), np.ndarray):
                m[x] = T @ m[x] @ T.T
    pair(c, ctx, cfg, P, Q, k, k, 1, lambda y: y, "det %d" % round(np.linalg.det(T)), **some(r, P))


def t_relabel(c, ctx, cfg):
    r, P = make(c, dim=int(o.rng(*c["s"], 5).integers(2, 4)))
    k = P.rand_k()
    Q = copy.deepcopy(P)
    p = list(r.permutation(3)) if P.dim == 3 else [1, 0, 2]
    inv = list(np.argsort(p))
    Q.n = tuple(P.n[i] for i in p)
    Q.size, Q.bsize, Q.basis = P.size[p], P.bsize[p], P.basis[p]
    for q in Q.objs:
        q["c"] = np.asarray(q["c"])[p]
        if "ax" in q:
            q["ax"] = [q["ax"][i] for i in p]
        if "e" in q:
            q["e"] = [[row[i] for i in p] for row in q["e"]]
        elif "s" in q:
            q["s"] = [q["s"][i] for i in p]
    pair(c, ctx, cfg, P, Q, k, k[p], 1, lambda y: np.transpose(y, inv), "perm %s" % p, **some(r, P))


def t_translate(c, ctx, cfg):
    r, P = make(c)
    k = P.rand_k()
    Q = copy.deepcopy(P)
    m = np.array([int(r.integers(x)) for x in P.n])
    if cfg == "inv":   # the inversion centre has to stay on the origin: shift by half the cell
        m = np.array([x // 2 if x % 2 == 0 else 0 for x in P.n])
    for q in Q.objs:
        q["c"] = np.asarray(q["c"]) + P.size * m / np.array(P.n) * (np.array(P.n) > 1)
    pair(c, ctx, cfg, P, Q, k, k, 1, lambda y: np.roll(y, [-x for x in m], (0, 1, 2)), "shift %s" % m, **some(r, P))


def t_swap(c, ctx, cfg):
    r, P = make(c, mu=str(o.rng(*c["s"], 5).choice(["iso", "diag", "full"])))
    k = P.rand_k("gen")
    r4 = o.rng(*c["s"], 6)
    if r4.random() < .35:    # permeabilities that differ from that of vacuum in a single off-diagonal entry
        i, j = [(0, 1), (0, 2), (1, 2)][int(r4.integers(3))]
        ph = 1j if P.herm and r4.random() < .5 else 1
        for m in P.mats:
            if m["t"] == "iso":
                m["t"], m["eps"] = "an", np.eye(3) * m["eps"] + 0j
            M = np.eye(3) + 0j
            M[i, j] = ph * r4.uniform(.3, .8) * r4.choice([-1, 1])
            M[j, i] = np.conj(M[i, j])
            m["mu"] = M
        P.kind = P.mukind = "full"
    Q = copy.deepcopy(P)
    Q.mats = [prog.swap_mat(m) for m in P.mats]
    # the statement needs the same material at every point in both runs: compare epsilon with mu
    tag = "swap %s %s nb=%d k=%s" % (cfg, P.tag(), P.nb, np.round(k, 4))

    def one(a, bad):
        res = []
        for S, sub in ((P, "a"), (Q, "b")):
            f, e, R = solve(ctx, S, [k], cfg, a, sub)
            if f is None:
                bad("run-failed", tag + R.out[-600:])
                return
            ctx.mpb(S.ctl([k]) + "(init-params NO-PARITY true)(output-epsilon)(output-mu)", cfg, cwd=os.path.join(ctx.dir(), sub))
            res.append((f[0], *[h5.read(os.path.join(ctx.dir(), sub, "in-%s.h5" % x))["data"].reshape(P.n) for x in ("epsilon", "mu")]))
        (f0, e0, m0), (f1, e1, m1) = res
        if ties(ctx, bad, tag, e0, m1) or ties(ctx, bad, tag, m0, e1):
            return
        ctx.n("pairs"); ctx.n("bands", P.nb)
        judge(bad, "swap", tag, f1 ** 2, f0 ** 2, 4e-5)
    retry(ctx, one)
    ctx.seen(tag)


def t_super(c, ctx, cfg):
    r, P = make(c, odd=True, nmin=3, nmax={1: 15, 2: 7, 3: 5}[1 + int(o.rng(*c["s"], 5).integers(3))])
    P.nb = min(P.nb, 4)
    ax = int(r.integers(P.dim))
    k = P.rand_k()
    Q = copy.deepcopy(P)
    s = np.eye(3)[ax]
    Q.n = tuple(int(x * (3 if i == ax else 1)) for i, x in enumerate(P.n))
    Q.size = P.size * (1 + 2 * s)
    Q.objs = []
    for q in P.objs:
        for j in (-1, 0, 1):
            Q.objs.append(dict(q, c=np.asarray(q["c"]) + j * s * P.size[ax]))
    ks = []
    for j in (-1, 0, 1):
        kk = np.array(k, float)
        kk[ax] = (k[ax] + j) / 3
        ks.append(kk)
    tag = "super %s %s axis %d nb=%d k=%s" % (cfg, P.tag(), ax, P.nb, np.round(k, 4))

    def one(a, bad):
        f0, e0, R = solve(ctx, P, ks, cfg, a, "a")
        f1, e1, R1 = solve(ctx, Q, [k], cfg, a, "b", nb=P.nb + 3)
        if f0 is None or f1 is None:
            bad("run-failed", tag + (R if f0 is None else R1).out[-600:])
            return
        x = e0["data"].reshape(P.n)
        # the centre of the supercell is at the same place: pixel (i + n) mod 3n
        y = np.roll(np.concatenate([x] * 3, ax), 0, ax)
        if ties(ctx, bad, tag, y, e1["data"].reshape(Q.n)):
            return
        top = min(q[-1] for q in f0)
        w = np.sort(f0.ravel())
        m = min(int(np.sum(w < top - 1e-4)), len(f1[0]))
        ctx.n("pairs"); ctx.n("bands", m)
        if m:
            judge(bad, "super", tag, f1[0][:m] ** 2, w[:m] ** 2, 3e-5)
    retry(ctx, one)
    ctx.seen(tag)


def t_homogeneous(c, ctx, cfg):
    r, P = make(c)
    P.objs = [] if r.random() < .5 else [{"t": "block", "m": 0, "c": np.zeros(3), "s": [None] * 3}]
    if not P.objs:
        P.default = 0
    P.mesh = int(r.integers(1, 5))
    k = P.rand_k()
    ei = np.linalg.inv(prog.mat_tensor(P.mats[0]))
    mi = np.linalg.inv(prog.mat_tensor(P.mats[0], "mu"))
    K = o.kplusg(P.n, k, P.G).reshape(-1, 3)
    w = []
    for q in K:
        X = np.array([[0, -q[2], q[1]], [q[2], 0, -q[0]], [-q[1], q[0], 0]])
        # curl 1/eps curl 1/mu : the nonzero eigenvalues, or two zeros at k + G = 0
        e = np.sort(np.linalg.eigvals(-X @ ei @ X @ mi).real)[-2:]
        w += list(e)
    w = np.sort(np.maximum(w, 0))[:P.nb]
    tag = "homogeneous %s %s nb=%d k=%s" % (cfg, P.tag(), P.nb, np.round(k, 4))
    st = some(r, P)

    def one(a, bad):
        f0, e0, R = solve(ctx, P, [k], cfg, a, "a", **st)
        if f0 is None:
            bad("run-failed", tag + R.out[-600:])
            return
        ctx.n("pairs"); ctx.n("bands", P.nb)
        judge(bad, "homogeneous", tag, f0[0] ** 2, w, 4e-5)
    retry(ctx, one)
    ctx.seen(tag)
