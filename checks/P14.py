"""P14: utilities for wavevectors: splitting lists over jobs, first Brillouin zone, conversions, interpolation, search for k."""
import glob
import itertools
import os
import re
import subprocess
from fractions import Fraction
import numpy as np
import oracle as o
import prog
import vbuild
from P02 import retry
from prog import f, v3

RULE = ("sessions of the real program calling each utility on random lattices, lists and wavevectors and logging the results, jobs split by option, by command line and by the mpb-split script, and "
        "searches find-k whose results are solved again directly; a case counts when all its values were compared with definitions evaluated independently (brute force over reciprocal vectors, whole runs, direct solves)")
ASSUMPTIONS = ["solver tolerance 1e-7 reproduces frequencies of separate runs to 1e-4"]
MIN_DISTINCT = 30
TOLERATE = ("failure to converge after|non-independent AV subspace|non-positive eigenvalue|bad news: Polak|inexplicable singularity", 8)
MODES = (("pure", 24), ("zone", 14), ("split", 26), ("findk", 40))


def builds(tier):
    return [(c, "mpb") for c in ("complex", "inv", "cmpi")]


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for mi, (m, n) in enumerate(MODES):
        for i in range(n if q else 10 * n):
            cfg = str(o.rng(seed, 14, mi, i, 9).choice(["complex", "inv", "cmpi"], p=[.6, .25, .15])) if m in ("split", "findk") else "complex"
            out.append({"cfg": cfg, "s": (seed, 14, mi, i), "mode": m, "cost": 4 if m in ("split", "findk") else 1})
    return out


def run(c, ctx):
    globals()["run_" + c["mode"]](c, ctx)


def fl(x):
    return float(Fraction(x)) if isinstance(x, str) and "/" in x else float(x)


def flv(x):
    return np.array([fl(y) for y in x])


def lattice(r):
    """(ctl text, unit basis rows, size, dim): includes strong skew, supercells and uniform directions"""
    while True:
        kind = str(r.choice(["cubic", "hex", "fcc", "bcc", "rand", "skew"]))
        B = {"cubic": np.eye(3), "hex": np.array([[3 ** .5 / 2, .5, 0], [3 ** .5 / 2, -.5, 0], [0, 0, 1]]),
             "fcc": np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0.]]), "bcc": np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1.]])}.get(kind)
        dim = int(r.choice([1, 2, 3], p=[.1, .4, .5])) if kind not in ("fcc", "bcc") else 3
        if B is None:
            B = np.eye(3)
            B[:dim, :dim] += (1.2 if kind == "skew" else .4) * r.uniform(-1, 1, (dim, dim))
            B = B * r.uniform(.7, 1.4, 3)[:, None]
        U = B / np.linalg.norm(B, axis=1)[:, None]
        if abs(np.linalg.det(U)) > (.08 if kind == "skew" else .3):
            break
    bs = r.uniform(.6, 1.7, 3) if r.random() < .3 else np.ones(3)
    size = np.ones(3)
    q = r.random()
    if q < .3:
        size = r.integers(1, 6, 3).astype(float)
    elif q < .6:
        size = r.uniform(.5, 2.5, 3)
    size = np.where(np.arange(3) < dim, size, 1.)
    perm = r.permutation(3) if r.random() < .3 else np.arange(3)
    uni = np.array([i >= dim for i in range(3)])[perm]
    P = np.eye(3)[perm]
    B = P @ B @ P.T
    U, bs, size = B / np.linalg.norm(B, axis=1)[:, None], bs[perm], size[perm]
    t = "(set! geometry-lattice (make lattice (size %s) %s (basis-size %s)))" % (
        " ".join("no-size" if u else f(s) for s, u in zip(size, uni)), " ".join("(basis%d %s)" % (i + 1, " ".join(f(x) for x in B[i])) for i in range(3)), " ".join(f(x) for x in bs))
    return t, U * bs[:, None], size, uni, kind


def reduced(V):
    """integer matrix T such that T @ V is a short basis (pairwise reduction over small combinations)"""
    T = np.eye(len(V), dtype=int)
    while True:
        W = T @ V
        best = None
        for i in range(len(V)):
            for co in itertools.product((-1, 0, 1), repeat=len(V)):
                if co[i]:
                    continue
                t = T[i] + np.array(co) @ T
                if np.linalg.norm(t @ V) < np.linalg.norm(W[i]) * (1 - 1e-9):
                    best = (i, t)
        if best is None:
            return T
        T = T.copy()
        T[best[0]] = best[1]


def shortest(k, G, uni):
    """minimal |G^T (k+n)| over integer n (zero in uniform directions)"""
    per = [i for i in range(3) if not uni[i]]
    V = G[per]
    W = reduced(V) @ V
    x = k @ G
    a = np.linalg.lstsq(W.T, x, rcond=None)[0]
    x = x - np.rint(a) @ W
    best = np.linalg.norm(x)
    for co in itertools.product(range(-2, 3), repeat=len(per)):
        best = min(best, np.linalg.norm(x + np.array(co) @ W))
    return best


def run_pure(c, ctx):
    r = o.rng(*c["s"])
    bad = ctx.bad
    txt, chk = "", []
    # splitting
    for j in range(60):
        L, num = int(r.integers(0, 30)), int(r.integers(1, 13))
        if r.random() < .2:
            L = num * int(r.integers(0, 4))
        txt += "(vp 'sp (map (lambda (i) (let ((q (list-split '(%s) %d i))) (list (car q) (cdr q)))) '(%s)))\n" % (" ".join(str(100 + i) for i in range(L)), num, " ".join(map(str, range(num))))
        txt += "(vp 'spo (map (lambda (i) (cdr (list-split '(1 2 3) %d i))) '(-1 %d %d)))\n" % (num, num, num + 3)
        chk.append((L, num))
    N = [int(x) for x in r.integers(1, 3000, 30)] + [1, 2, 3, 5, 7, 11, 2401, 2402]
    txt += "(vp 'nf (map next-factor2357 '(%s)))\n" % " ".join(map(str, N))
    lats, ks = [], []
    for j in range(25):
        t, U, size, uni, kind = lattice(r)
        K = []
        for i in range(24):
            k = r.uniform(-1, 1, 3) * r.choice([.5, 1, 3])
            if r.random() < .3:
                k = np.rint(2 * k) / 2
            if r.random() < .1:
                k = np.rint(k)
            if r.random() < .1:
                k = np.where(r.random(3) < .5, 0, k)
            K.append(k)
        K[1] = K[0] + .25       # (the mean distance of equal points is zero)
        lats.append((t, U, size, uni, kind)); ks.append(K)
        gs = " ".join(v3(k) for k in K)
        txt += t + "(vp 'fb (map (lambda (k) (vector->list (first-brillouin-zone k))) (list %s)))\n" % gs
        for fn in ("reciprocal->cartesian", "cartesian->reciprocal", "lattice->cartesian", "cartesian->lattice", "lattice->reciprocal", "reciprocal->lattice"):
            txt += "(vp '%s (map (lambda (k) (vector->list (%s k))) (list %s)))" % (fn, fn, gs)
        n, m = int(r.integers(0, 7)), int(r.integers(2, 7))
        txt += "(vp 'in (map vector->list (kinterpolate-uniform %d (list %s))))" % (n, " ".join(v3(k) for k in K[:m]))
        txt += "(vp 'il (map vector->list (interpolate %d (list %s))))\n" % (n, " ".join(v3(k) for k in K[:m]))
        lats[-1] += (n, m)
        R0 = int(r.integers(3, 60)) if r.random() < .5 else r.uniform(3, 40, 3)
        txt += "(set! grid-size false)(set! resolution %s)(vp 'g0 (vector->list (get-grid-size)))(optimize-grid-size!)(vp 'g1 (vector->list (get-grid-size)))(vp 'g2 (vector->list grid-size))\n" % (
            R0 if np.ndim(R0) == 0 else v3(R0))
        lats[-1] += (np.ones(3) * R0,)
    R = ctx.mpb(txt, "complex")
    if R.rc:
        bad("run-failed", R.why())
        return
    d = R.vpd()
    for (L, num), s, so in zip(chk, d["sp"], d["spo"]):
        ctx.n("splits")
        tag = "list-split of %d over %d: %s" % (L, num, s)
        items = [x for q in s for x in (q[1] or [])]
        if items != list(range(100, 100 + L)):
            bad("split-cover", tag)
        for fi, it in s:
            if it and fi != it[0] - 100:
                bad("split-first-index", tag)
        if any(q for q in so):
            bad("split-out-of-range", tag)
    if len(d["sp"]) != len(chk):
        bad("run-failed", "lines")

    def smooth(n):
        for p in (2, 3, 5, 7):
            while n % p == 0:
                n //= p
        return n == 1

    def nxt(n):
        while not smooth(n):
            n += 1
        return n
    if d["nf"][0] != [nxt(n) for n in N]:
        bad("next-factor", "%s for %s" % (d["nf"][0], N))
    ctx.n("next_factors", len(N))
    for j, ((t, U, size, uni, kind, n, m, res), K) in enumerate(zip(lats, ks)):
        G = o.recip(U * size[:, None])
        tag = "lattice %s %s size %s" % (kind, t, np.round(size, 3).tolist())
        want = {"reciprocal->cartesian": lambda k: k @ G, "cartesian->reciprocal": lambda k: np.linalg.solve(G.T, k), "lattice->cartesian": lambda k: k @ U,
                "cartesian->lattice": lambda k: np.linalg.solve(U.T, k), "lattice->reciprocal": lambda k: np.linalg.solve(G.T, k @ U), "reciprocal->lattice": lambda k: np.linalg.solve(U.T, k @ G)}
        for fn, w in want.items():
            for k, x in zip(K, d[fn][j]):
                ctx.n("conversions")
                if np.max(np.abs(flv(x) - w(k))) > 1e-9 * (1 + np.max(np.abs(w(k)))):
                    bad("conversion:" + fn, tag + " %s -> %s, expected %s" % (k, x, w(k)))
                    break
        for k, x in zip(K, d["fb"][j]):
            x = flv(x)
            ctx.n("zone_reductions")
            if np.max(np.abs((x - k) - np.rint(x - k))) > 1e-9 or np.max(np.abs(np.where(uni, x - k, 0))) > 1e-9:
                bad("zone-not-equivalent", tag + " %s -> %s" % (k, x))
            elif np.linalg.norm(x @ G) > shortest(k, G, uni) + 1e-9:
                bad("zone-not-minimal", tag + " %s -> %s of length %g, minimum %g" % (k, x, np.linalg.norm(x @ G), shortest(k, G, uni)))
        C = [np.array(k) @ G for k in K[:m]]
        seg = [np.linalg.norm(b - a) for a, b in zip(C, C[1:])]
        for what, got in (("uniform", d["in"][j]), ("plain", d["il"][j])):
            X = [flv(x) for x in got]
            pos, last = 0, 0
            ctx.n("interpolations")
            for i in range(m - 1):
                # (n+1) |segment| / mean intervals, within rounding; the plain one has n points in each
                cnt = n + 1
                if what == "uniform" and n:
                    e = (n + 1) * seg[i] / np.mean(seg) if np.mean(seg) else 1
                    ok = [q for q in range(max(1, int(np.floor(e - 1e-6))), int(np.ceil(e + 1e-6)) + 2) if q <= e + 1 + 1e-6 and pos + q < len(X) and np.max(np.abs(X[pos + q] - K[i + 1])) < 1e-9]
                    cnt = ok[0] if ok else 0
                if not cnt or pos + cnt >= len(X):
                    bad("interpolate-" + what, tag + " segment %d of %d, n=%d: %d points, lengths %s" % (i, m, n, len(X), np.round(seg, 3).tolist()))
                    break
                for q in range(cnt + 1):
                    w = K[i] + (K[i + 1] - K[i]) * q / cnt
                    if np.max(np.abs(X[pos + q] - w)) > 1e-9 * (1 + np.max(np.abs(w))):
                        bad("interpolate-" + what, tag + " point %d: %s, expected %s" % (pos + q, X[pos + q], w))
                        break
                pos += cnt
            else:
                if pos != len(X) - 1:
                    bad("interpolate-" + what, tag + " %d points, expected %d" % (len(X), pos + 1))
        g0 = [max(1, int(np.ceil(a * b - 1e-9))) if not u else 1 for a, b, u in zip(res, size, uni)]
        g0b = [max(1, int(np.ceil(a * b + 1e-9))) if not u else 1 for a, b, u in zip(res, size, uni)]
        got = [int(fl(x)) for x in d["g0"][j]]
        if got != g0 and g0 == g0b:
            bad("grid-size", tag + " %s, expected %s" % (got, g0))
        if [fl(x) for x in d["g1"][j]] != [nxt(x) for x in got] or d["g1"][j] != d["g2"][j]:
            bad("optimize-grid-size", tag + " %s -> %s" % (got, d["g1"][j]))
        ctx.n("grid_sizes")
    ctx.seen("pure %d" % c["s"][-1])


def run_zone(c, ctx):
    """frequencies at a wavevector and at its image in the first zone are those of the same modes"""
    r = o.rng(*c["s"])
    P = prog.Prob(r, dim=int(r.integers(1, 4)), mu="none", nmin=5, nmax=8 if r.random() < .5 else None, eq=False)
    P.n = tuple({1: 48, 2: 16, 3: 10}[P.dim] if i < P.dim else 1 for i in range(3))
    P.nb, P.tol = 2, 1e-7
    ks = []
    for _ in range(3):
        k = r.uniform(-.5, .5, 3)
        k[P.dim:] = r.uniform(-1.2, 1.2, 3)[P.dim:] if r.random() < .7 else 0
        ks.append(k + np.where(np.arange(3) < P.dim, r.integers(-1, 2, 3), 0))
    txt = P.ctl(ks, mesh_size="1") + "(set! randomize-fields? true)(set! geometry '())(set! default-material (make dielectric (epsilon 2.25)))"
    R = ctx.mpb(txt + "(run)(vp 'f1 all-freqs)(set! k-points (map first-brillouin-zone k-points))(vp 'k (map vector->list k-points))(run)(vp 'f2 all-freqs)", "complex")
    tag = "zone %s %s" % (P.tag(), np.round(ks, 3).tolist())
    if R.rc:
        ctx.bad("stopped:", tag + R.why())
        return
    d = R.vpd()
    a, b = np.array(d["f1"][0], float), np.array(d["f2"][0], float)
    ctx.n("zone_solves", len(ks))
    if np.max(np.abs(a - b)) > 1e-4 * (1 + np.max(a)):
        ctx.bad("zone-frequencies", tag + "\n%s\n%s at %s" % (a, b, d["k"][0]))
    # the empty lattice: the lowest frequency is the distance to the nearest reciprocal vector
    for k, w in zip(ks, b):
        e = shortest(k, P.G, np.arange(3) >= P.dim) / 1.5
        if abs(w[0] - e) > 1e-4 * (1 + e):
            ctx.bad("empty-lattice", tag + " at %s: %g, expected %g" % (k, w[0], e))
    ctx.seen(tag)


def rows_of(t):
    return [(x[0], int(x[1]), flv(x[2].split(", "))) for x in re.findall(r"^(\w*)freqs:, (\d+), (.*)$", t, re.M)]


def run_split(c, ctx):
    """pieces of the job together are the whole job"""
    r = o.rng(*c["s"])
    cfg = c["cfg"]
    np_ = int(r.integers(1, 3)) if cfg == "cmpi" else 0
    P = prog.Prob(r, inv=cfg == "inv", dim=int(r.integers(2, 4)) if np_ else None, mu="none", nmax=6)
    if P.dim == 1:
        P.n = (24, 1, 1)
    P.tol, P.nb = 1e-8, min(int(r.integers(1, 4)), int(np.prod(P.n)) - 1)
    L = int(r.integers(0, 8))
    num = int(r.integers(1, 6)) if r.random() < .85 else int(r.integers(6, 10))
    ks = [P.rand_k("gen") for _ in range(L)]
    how = str(r.choice(["set", "args", "script", "script"])) if not np_ else str(r.choice(["set", "args"]))
    tag = "split %s by %s: %d k-points over %d, %s" % (cfg, how, L, num, P.tag())
    ctl = P.ctl(ks) + "(set! randomize-fields? true)"
    out = "(run output-hfield)(vp 'all all-freqs)"
    spaced = how == "script" and r.random() < .5
    extra = ["num-bands=%d" % P.nb] + (['filename-prefix="a b-"', "tolerance=(* 1e-8 1)"] if spaced else ['filename-prefix="a b-"'] * (how == "args"))
    pre = "a b-" if spaced or how == "args" else "in-"
    if how == "args":
        extra = extra[:]
    def one(a, bad):
        W = ctx.mpb(ctl + "(init-params NO-PARITY true)" + "(randomize-fields)" * (3 * a) + out, cfg, np_=np_)
        if W.rc:
            bad("stopped:", tag + W.why())
            return
        whole = rows_of(W.out)
        if [x[1] for x in whole] != list(range(1, L + 1)):
            bad("whole", tag)
            return
        allw = W.vpd()["all"][0]
        # definitions on the command line are overridden by those of the file: leave them out of the file
        body = re.sub(r"\(set! (num-bands|tolerance) [^)]*\)", "", ctl) if how != "set" else ctl
        if how != "set" and not spaced:
            body = re.sub(r"\(set! num-bands [^)]*\)", "", ctl)
        dirs, text = [], ""
        if how == "script":
            src = open(os.path.join(vbuild.REPO, "mpb/mpb-split-preinstall.in")).read().replace("@SH_JOB@", "/bin/bash")
            dd = ctx.dir()
            open(os.path.join(dd, "split.sh"), "w").write(src)
            os.symlink(ctx.exes["%s:mpb" % cfg], os.path.join(dd, "mpb"))
            open(os.path.join(dd, "in.ctl"), "w").write(prog_prelude() + body + out)
            S = ctx.exec(["bash", "-c", 'echo "PID $$"; exec bash split.sh "$@"', "x", str(num)] + extra + ["in.ctl"], dd)
            if S.rc:
                bad("stopped:", tag + S.why())
                return
            pid = re.search(r"^PID (\d+)", S.out, re.M).group(1)
            if glob.glob("/tmp/mpb-split.%s.*" % pid):
                bad("temporary-files", tag)
                for x in glob.glob("/tmp/mpb-split.%s.*" % pid):
                    os.remove(x)
            if "usage" in S.out.lower() or "Syntax" in S.out:
                bad("script", tag + S.out[-300:])
            text, dirs = S.out, [dd]
            pieces = S.vpd().get("all", [])
        else:
            pieces = []
            dd = ctx.dir()
            for i in range(num):
                st = ["k-split-num=%d" % num, "k-split-index=%d" % i]
                if how == "set":
                    S = ctx.mpb(body + "(set! k-split-num %d)(set! k-split-index %d)" % (num, i) + out, cfg, np_=np_, cwd=dd)
                else:
                    S = ctx.mpb(body + out, cfg, np_=np_, cwd=dd, args=st + extra)
                if S.rc:
                    bad("stopped:", tag + " piece %d " % i + S.why())
                    return
                text += S.out
                pieces += S.vpd()["all"]
            dirs = [dd]
        ctx.n("pieces", num); ctx.n("k_points", L)
        got = rows_of(text)
        if [x[1] for x in got] != list(range(1, L + 1)):
            bad("pieces-cover", tag + ": indices %s" % [x[1] for x in got])
            return
        if len(pieces) != num:
            bad("pieces", tag + " %d runs" % len(pieces))
            return
        for x, y in zip(got, whole):
            if x[2].shape != y[2].shape or np.max(np.abs(x[2] - y[2])) > 1e-4 * (1 + np.max(y[2])):
                bad("pieces-frequencies", tag + "\n%s\n%s" % (x, y))
        cat = [q for p in pieces for q in (p or [])]
        if len(cat) != len(allw) or any(np.max(np.abs(np.subtract(flv(a), flv(b)))) > 1e-4 for a, b in zip(cat, allw)):
            bad("pieces-frequencies", tag + " all-freqs")
        heads = len(re.findall(r"^\w*freqs:, k index", text, re.M))
        if heads != (1 if L else 0):
            bad("pieces-header", tag + " %d" % heads)
        a = sorted(os.path.basename(x)[3:] for x in glob.glob(os.path.join(W.dir, "in-*.h5")))
        b = sorted(os.path.basename(x)[len(pre):] for x in glob.glob(os.path.join(dirs[0], glob.escape(pre) + "*.h5")))
        if a != b:
            bad("pieces-files", tag + " %s and %s" % (b, a))
        ctx.n("files", len(b))

    retry(ctx, one)
    ctx.seen(tag)


def prog_prelude():
    import vf
    return vf.PRELUDE


def run_findk(c, ctx):
    r = o.rng(*c["s"])
    cfg = c["cfg"]
    np_ = int(r.integers(1, 3)) if cfg == "cmpi" else 0
    uniform = r.random() < .7
    dim = int(r.choice([1, 2], p=[.3, .7])) if uniform and not np_ else 2 if uniform else int(r.integers(2, 4)) if np_ else None
    P = prog.Prob(r, inv=cfg == "inv", dim=dim, mu="none" if r.random() < .8 else None, nmin=3, nmax=8 if uniform else 6)
    if P.dim == 1:
        P.n = (32, 1, 1)
    P.tol = 1e-7
    if P.has_mu():
        P.tol = 1e-9
    k0 = np.zeros(3)
    if uniform:
        # along a direction of continuous symmetry every band rises
        kd = np.array([0, 0, 1.]) * r.uniform(.2, 3) if P.dim == 2 or r.random() < .5 else np.array([0, r.uniform(.3, 1), 0])
        if r.random() < .5:
            k0 = np.where(np.arange(3) < P.dim, r.uniform(-.5, .5, 3), 0)
        nb, kmin, kmax = int(r.integers(1, 5)), .05, float(r.uniform(.8, 1.6))
    else:
        kd = np.where(np.arange(3) < P.dim, r.uniform(.1, .5, 3), 0)
        nb, kmin, kmax = 1, .03, float(r.uniform(.15, .25))
        if r.random() < .3 and P.dim < 3:
            k0 = np.array([0, 0, float(r.uniform(.1, .4))])
    b0 = int(r.integers(1, nb + 1))
    G = P.G
    k1 = kd / np.linalg.norm(kd @ G)            # |k1| = 1 in Cartesian units
    S = np.linspace(kmin, kmax, 9)
    par, pre = "NO-PARITY", ""
    if P.zmir and False:
        pass
    W = ctx.mpb(P.ctl([k0 + s * k1 for s in S], num_bands=nb) + "(run)(vp 'all all-freqs)", cfg, np_=np_)
    tag = "findk %s np=%d %s nb=%d..%d k0=%s kd=%s" % (cfg, np_, P.tag(), b0, nb, np.round(k0, 3).tolist(), np.round(kd, 3).tolist())
    if W.rc:
        ctx.bad("stopped:", tag + W.why())
        return
    F = np.array(W.vpd()["all"][0], float)
    lo, hi = F[1, b0 - 1:nb].max(), F[-2, b0 - 1:nb].min()
    if not lo * 1.02 < hi or np.any(np.diff(F[:, b0 - 1:nb], axis=0) < 1e-4):
        ctx.n("not_monotonic")
        return
    om = float(r.uniform(lo + .2 * (hi - lo), hi - .2 * (hi - lo)))
    tol = float(10 ** r.uniform(-6, -3))
    arg = v3(kd)
    form = "vector"
    if np.any(k0) or r.random() < .3:
        form = str(r.choice(["pair", "list"]))
        arg = "(%s %s %s)" % ({"pair": "cons", "list": "list"}[form], v3(k0), v3(kd))
    gs = [float(r.uniform(kmin, kmax)) for _ in range(b0, nb + 1)]
    guess = f(gs[0]) if r.random() < .6 else "(list %s)" % " ".join(map(f, gs))
    bf = r.random() < .6
    fns = "(lambda (b) (vp 'cb (list b (vector->list current-k) freqs))) (lambda () (vp 'th (list 0 (vector->list current-k) freqs)))" if bf else ""
    keep = [P.rand_k() for _ in range(2)]
    nsave = int(r.integers(1, 6))
    first = "(run)" if r.random() < .5 else ""
    tag2 = tag + " omega=%.5g tol=%.1g %s guess=%s" % (om, tol, form, guess)

    def one(a, bad):
        R = ctx.mpb(P.ctl(keep, num_bands=nsave) + "(init-params NO-PARITY true)" + "(randomize-fields)" * (3 * a) + first + "(vp 'ks (find-k %s %s %d %d %s %s %s %s %s %s))(vp 'nb num-bands)(vp 'kp (map vector->list k-points))" % (
            par, f(om), b0, nb, arg, f(tol), guess, f(kmin), f(kmax), fns), cfg, np_=np_)
        if R.rc:
            if "failed to bracket" in R.out:
                bad("stopped:bracket", tag2 + R.why())
            else:
                bad("stopped:", tag2 + R.why())
            return
        d = R.vpd()
        ks = flv(d["ks"][0])
        ctx.n("searches"); ctx.n("roots", len(ks))
        if len(ks) != nb - b0 + 1 or np.any(ks < kmin - 1e-9) or np.any(ks > kmax + 1e-9):
            bad("findk-result", tag2 + " %s" % ks)
            return
        if d["nb"][0] != nsave or any(np.max(np.abs(flv(a) - b)) > 1e-12 for a, b in zip(d["kp"][0], keep)) or len(d["kp"][0]) != 2:
            bad("findk-restore", tag2 + " num-bands %s k-points %s" % (d["nb"][0], d["kp"][0]))
        V = ctx.mpb(P.ctl([k0 + s * k1 for s in ks], num_bands=min(nb + 1, int(np.prod(P.n)) - 1), tolerance="1e-9") + "(set! randomize-fields? true)(run)(vp 'all all-freqs)", cfg, np_=np_)
        if V.rc:
            bad("stopped:", tag2 + V.why())
            return
        A = np.array(V.vpd()["all"][0], float)
        for i, s in enumerate(ks):
            b = b0 + i
            slope = np.max(np.gradient(F[:, b - 1], S)) + .2
            lim = 3 * tol * s * slope + 2e-5 * (1 + om)
            if abs(A[i, b - 1] - om) > lim:
                bad("findk-frequency", tag2 + " band %d: k=%.8g has frequency %.8g (allowed %g)" % (b, s, A[i, b - 1], lim))
        m = re.findall(r"^(\w*)kvals:, (.*)$", R.out, re.M)
        q = flv(m[0][1].split(", ")) if m else []
        e = np.concatenate([[om, b0, nb], k0, k1, ks])
        if len(m) != 1 or len(q) != len(e) or np.max(np.abs(q - e)) > 1e-9 * (1 + np.max(np.abs(e))):
            bad("findk-line", tag2 + " %s, expected %s" % (m, e))
        if bf:
            seq = [(t, int(x[0]), flv(x[1]), flv(x[2])) for t, x in R.vp() if t in ("cb", "th")]
            want = [x for b in range(nb, b0 - 1, -1) for x in (("cb", b), ("th", 0))]
            ctx.n("callbacks", len(seq))
            if [(x[0], x[1]) for x in seq] != want:
                bad("findk-callbacks", tag2 + " %s" % [(x[0], x[1]) for x in seq])
            else:
                for i, b in enumerate(range(nb, b0 - 1, -1)):
                    for x in seq[2 * i:2 * i + 2]:
                        if np.max(np.abs(x[2] - (k0 + ks[b - b0] * k1))) > 1e-9 or len(x[3]) != b or abs(x[3][b - 1] - A[b - b0, b - 1]) > 1e-4 * (1 + om):
                            bad("findk-callbacks", tag2 + " %s at band %d" % (x, b))

    retry(ctx, one)
    ctx.seen(tag)
