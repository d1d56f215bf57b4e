"""P04: parity-restricted runs against the symmetry sectors of a dense operator; parities against true mirror expectation values."""
import os, re
import numpy as np
import oracle as o
import prog
from drv import MD, ptr
from P01 import rel
from P02 import judge, retry, reference
from vf import Inconclusive

RULE = ("(a) library: mirror-symmetric lattice and k, random bands: the projection and the parities against an explicit mirror of the planewave "
        "amplitudes; (b) program: mirror-symmetric random structures (2D, 3D on odd grids), a random sequence of restricted and unrestricted "
        "runs in one session, each compared with the sector of the dense operator, with returned and printed parities; non-trivial when a "
        "restricted spectrum was compared; signature is build + structure + sequence of runs")
ASSUMPTIONS = ["numpy/LAPACK dense eigenvalues are correct", "grid sizes are odd along a 3D mirror axis (an even grid has no exact discrete mirror)",
               "starting fields are random"]
MIN_DISTINCT = 40
TOLERATE = ("failure to converge after|non-independent AV subspace|non-positive eigenvalue|bad news: Polak", 8)

EZ, OZ, EY, OY = 1, 2, 4, 8
RUNS = {"run": (), "run-zeven": ((2, 1),), "run-zodd": ((2, -1),), "run-te": ((2, 1),), "run-tm": ((2, -1),), "run-even": ((2, 1),),
        "run-odd": ((2, -1),), "run-yeven": ((1, 1),), "run-yodd": ((1, -1),), "run-yeven-zeven": ((1, 1), (2, 1)),
        "run-yeven-zodd": ((1, 1), (2, -1)), "run-yodd-zeven": ((1, -1), (2, 1)), "run-yodd-zodd": ((1, -1), (2, -1)),
        "run-te-yeven": ((1, 1), (2, 1)), "run-te-yodd": ((1, -1), (2, 1)), "run-tm-yeven": ((1, 1), (2, -1)), "run-tm-yodd": ((1, -1), (2, -1))}


def builds(tier):
    return [(c, w) for c in ("complex", "inv", "herm") for w in ("driver", "mpb")]


def cases(tier, seed):
    r = o.rng(seed, 4)
    out = []
    q = tier == "quick"
    for cfg in ("complex", "inv", "herm"):
        for i in range(20 if q else 200):
            out.append({"drv": cfg, "s": int(r.integers(1 << 30)), "mode": "lib", "cost": 1})
        for i in range(34 if q else 400):
            out.append({"cfg": cfg, "s": int(r.integers(1 << 30)), "mode": "prog", "cost": 4})
    return out


def run(c, ctx):
    globals()["run_" + c["mode"]](c, ctx)


def run_lib(c, ctx):
    r = o.rng(c["s"])
    L = ctx.lib(c["drv"])
    dim = int(r.integers(1, 4))
    even = r.random() < .25   # on even grids the Nyquist plane has no mirror image: only the parities are judged
    od = lambda: int(r.choice([2, 4, 6] if even else [1, 3, 5, 7]))
    zm, ym = r.random() < .7, r.random() < .6
    if not (zm or ym):
        zm = True
    n = [int(r.integers(2, 7)), 1, 1]
    if dim > 1:
        n[1] = od() if ym else int(r.integers(2, 7))
    if dim > 2:
        n[2] = od() if zm else int(r.integers(2, 7))
    B = o.rand_lattice(r, 3)
    if zm:
        B[2, :2] = 0; B[:2, 2] = 0
    if ym:
        B[1, [0, 2]] = 0; B[[0, 2], 1] = 0
    G = o.recip(B)
    k = r.uniform(-1, 1, 3) * (r.random(3) < .8)
    if zm:
        k[2] = 0
    if ym:
        k[1] = 0
    p = int(r.integers(1, 5))
    md = MD(L, n, p, int(r.integers(1, 4)))
    par = 0
    ops = []
    if ym:
        s = int(r.choice([-1, 1])); ops.append((1, s)); par |= EY if s > 0 else OY
    if zm:
        s = int(r.choice([-1, 1])); ops.append((2, s)); par |= EZ if s > 0 else OZ
    ref = o.RefOp(n, k, G, np.broadcast_to(np.eye(3), tuple(n) + (3, 3)))
    N = md.N
    md.set_k(k, G)
    md.L.md_set_parity(md.h, par)
    i = md.info()
    tag = "%s n=%s k=%s parity=%d" % (c["drv"], n, k, par)
    if i["parity"] != par:
        ctx.bad("parity-not-kept", tag + " -> %d" % i["parity"])
        return
    zk = (np.asarray(k) == 0).all()
    x = r.normal(size=(2 * N, p)) + (1j * r.normal(size=(2 * N, p)) if L.cplx else 0)
    X = md.ev(p, x)

    def amps(ev):
        md.put_inv(o.stored_points(np.broadcast_to(np.eye(3) + 0j, tuple(n) + (3, 3)), n, L.cplx))
        return [ref.Fi(o.to_grid(md.field(0, ev, b, 1)[:, 0], n, L.cplx)) for b in range(p)]
    if even and any(n[a] % 2 == 0 for a in (1, 2)):
        for it in range(2):
            L.constraint(md.h, 0, X.h)
            q = X.get()
            if it and np.max(np.abs(q - q0)) > 1e-12 * np.max(np.abs(q)):
                ctx.bad("projection-not-idempotent", tag)
            q0 = q
            for a, s in ops:
                v = np.empty(p)
                L.parities(md.h, int(a == 1), X.h, ptr(v))
                nz = np.linalg.norm(q, axis=0) > 1e-6
                if np.max(np.abs(v * np.sum(np.abs(q) ** 2, 0) - s * np.sum(np.abs(q) ** 2, 0))[nz], initial=0) > 1e-9 * np.max(np.sum(np.abs(q) ** 2, 0)) \
                        and np.max(np.abs(v - s)[nz], initial=0) > 1e-9:
                    ctx.bad("%sparity-after-projection" % "?yz"[a], tag + " %s" % v)
                ctx.n("even_grid_parities", p)
        X.free(); md.free()
        ctx.seen("lib " + tag)
        return
    H = amps(X)
    want = H
    for a, s in ops:
        want = [(h + s * o.mirror(h, a)) / 2 for h in want]
    # parities of arbitrary states
    for a in (1, 2):
        if not (zm if a == 2 else ym):
            continue
        v = np.empty(p)
        L.parities(md.h, int(a == 1), X.h, ptr(v))
        e = [np.sum(np.conj(h) * o.mirror(h, a)).real / np.sum(np.abs(h) ** 2) for h in H]
        ctx.n("parities", p)
        if np.max(np.abs(v - e)) > 1e-10:
            ctx.bad("%sparity" % "?yz"[a], tag + " got %s want %s" % (v, e))
    L.constraint(md.h, 0, X.h)
    got = amps(X)
    for g, w in zip(got, want):
        ctx.n("projections")
        if np.max(np.abs(g - w)) > 1e-10 * max(np.max(np.abs(h)) for h in H):
            ctx.bad("projection", tag + " %g" % np.max(np.abs(g - w)))
            break
    if zk:   # constant bands: those of the sector
        nc = L.num_const(md.h, X.h)
        z = np.zeros(tuple(n) + (3,)); cnt = 0
        for ax in (1, 2):
            z[:] = 0; z[0, 0, 0, ax] = 1
            cnt += all(np.allclose(o.mirror(z, a), s * z) for a, s in ops)
        if nc != min(cnt, p):
            ctx.bad("constant-bands", tag + " %d, want %d" % (nc, cnt))
        L.constraint(md.h, 3, X.h)
        for h in amps(X):
            if np.abs(h[0, 0, 0]).max() > 1e-12:
                ctx.bad("constant-part-left", tag)
        L.constraint(md.h, 4, X.h)
        for j, h in enumerate(amps(X)[:nc]):
            if abs(np.sum(np.abs(h) ** 2) - 1) > 1e-10 or abs(np.abs(h[0, 0, 0]).max() - 1) > 1e-10 or \
                    any(np.max(np.abs(o.mirror(h, a) - s * h)) > 1e-10 for a, s in ops):
                ctx.bad("constant-band-wrong", tag + " band %d" % j)
    # changing k out of the mirror plane drops the restriction
    k2 = k.copy(); k2[1 if ym else 2] = .3
    md.set_k(k2, G)
    p2 = md.info()["parity"]
    lost = (EY | OY) if ym else (EZ | OZ)
    if n[1 if ym else 2] >= 1 and p2 & lost:
        ctx.bad("parity-survives-incompatible-k", tag + " %d" % p2)
    X.free(); md.free()
    ctx.seen("lib " + tag)


def odd(q):
    return q if q % 2 else q - 1


def run_prog(c, ctx):
    r = o.rng(c["s"])
    cfg = c["cfg"]
    dim = int(r.choice([1, 2, 3], p=[.1, .5, .4]))
    zm = r.random() < .8
    ym = r.random() < .6 or not zm
    P = prog.Prob(r, dim=dim, inv=cfg == "inv", herm=cfg == "herm", zmir=zm, ymir=ym and dim >= 1, mu=None if r.random() < .3 else "none",
                  nmax={1: 12, 2: 9, 3: 5}[dim])
    ns = list(P.n)
    even = r.random() < .2   # a grid without exact mirror images: only the parities are judged
    if zm and dim == 3:
        ns[2] = max(3, odd(ns[2])) + even
    if ym and dim >= 2:
        ns[1] = max(3, odd(ns[1])) + even
    P.n = tuple(ns)
    if r.random() < .75 or P.has_mu():
        P.mesh = 1   # no averaging: the tensors on the grid are exactly mirror symmetric
    if P.has_mu():
        P.tol = 1e-12
    N2 = 2 * int(np.prod(P.n))
    P.nb = int(min(r.integers(1, 6), max(1, N2 // (4 if zm and ym else 2) - 3)))
    if P.nb < 1 or N2 < 12:
        return
    ks = []
    for _ in range(int(r.integers(1, 3))):
        k = P.rand_k()
        if zm:
            k[2] = 0
        if ym:
            k[1] = 0
        ks.append(k)
    names = [q for q, ops in RUNS.items() if all((zm if a == 2 else ym) for a, _ in ops)]
    I3 = np.broadcast_to(np.eye(3), P.n + (3, 3))
    names = [q for q in names if min(len(o.sector_eigs(o.RefOp(P.n, k, P.G, I3), RUNS[q])) for k in ks) >= P.nb + 2]
    if not names:
        return
    seq = [names[int(r.integers(len(names)))] for _ in range(int(r.integers(2, 5)))]
    s = {}
    if r.random() < .4:
        s["eigensolver_block_size"] = int(r.choice([1, 2, -2]))
    if r.random() < .3:
        s["simple_preconditionerQQ"] = "true"
    tag = "%s %s nb=%d ks=%s %s %s" % (cfg, P.tag(), P.nb, [list(np.round(k, 3)) for k in ks], seq, s)
    refs = []
    cache = {}
    setp = r.random(len(seq))   # some runs are made of set-parity and solve-kpoint

    def one(a, bad):
        ctl = P.ctl(ks, **s) + "(set! randomize-fields? true)" + ("(init-params NO-PARITY true)" + "(randomize-fields)" * a)
        for j, q in enumerate(seq):
            if q != "run" and r.random() < .3:
                par = "(+ %s)" % " ".join({(2, 1): "EVEN-Z", (2, -1): "ODD-Z", (1, 1): "EVEN-Y", (1, -1): "ODD-Y"}[x] for x in RUNS[q])
                call = "(run-parity %s %s" % (par, r.choice(["true", "false"]))
            else:
                call = "(" + q
            ctl += '(print "RUN %d\\n")%s display-zparities display-yparities)(vp \'r%d all-freqs)' % (j, call, j) if setp[j] < .85 or q == "run" and not j else (
                '(print "RUN %d\\n")(set-parity (+ %s))(set! all-freqs (map-in-order (lambda (k) (randomize-fields)(solve-kpoint k)(display-zparities)(display-yparities) freqs) k-points))(vp \'r%d all-freqs)' % (
                    j, " ".join({(2, 1): "EVEN-Z", (2, -1): "ODD-Z", (1, 1): "EVEN-Y", (1, -1): "ODD-Y"}[x] for x in RUNS[q]) or "NO-PARITY", j))
            ctl += "(vp 'z%d (compute-zparities))(vp 'y%d (compute-yparities))" % (j, j)
        R = ctx.mpb(ctl + "(output-epsilon)" + ("(output-mu)" if P.has_mu() else "") + "(vp 'mu (using-mu?))", cfg)
        if R.rc:
            bad("stopped:run-failed", tag + R.out[-600:])
            return
        d = R.vpd()
        if not refs:
            refs.extend(reference(ctx, cfg, P, R, d["mu"][0]))
            # libctl's averages are reproducible to a fraction of a pixel only: how far the grid is from the mirror symmetry
            refs.append(max([0] + [asym(P, x, a) for x in (refs[0], refs[1]) if x is not None for a in (1, 2) if (zm if a == 2 else ym)]))
        parts = re.split(r"^RUN \d+$", R.out, flags=re.M)[1:]
        for j, q in enumerate(seq):
            ops = RUNS[q]
            fr = d["r%d" % j][0]
            last = None
            for ki, k in enumerate(ks):
                key = (ki, ops)
                if key not in cache:
                    cache[key] = o.sector_eigs(o.RefOp(P.n, k, P.G, refs[0], refs[1]), ops)
                w = cache[key]
                if even:
                    continue
                judge(bad, "sector-spectrum", tag + " run %d %s k=%s" % (j, q, k), np.array(fr[ki]) ** 2, np.maximum(w[:P.nb], 0), 3e-5 + refs[2] + 20 * refs[3])
                ctx.n("sector_k_points"); ctx.n("bands", P.nb)
                last = w
            for a, nm in ((2, "z"), (1, "y")):
                if not (zm if a == 2 else ym):
                    continue
                v = np.array(d["%s%d" % (nm, j)][0], float)
                ctx.n("parities", len(v))
                if len(v) != P.nb or not (np.abs(v) < 1 + 1e-9).all():
                    bad(nm + "parity-range", tag + " run %d %s" % (j, v))
                s_ = dict(ops).get(a)
                if s_ is not None and np.max(np.abs(v - s_)) > 1e-9:
                    bad(nm + "parity-in-restricted-run", tag + " run %d %s: %s" % (j, q, v))
                # the printed line of the last k-point carries the same numbers
                lines = re.findall(r"^[a-z]*%sparity:, (\d+), ([^\n]*)" % nm, parts[j], re.M)
                if len(lines) != len(ks) or [int(x[0]) for x in lines] != list(range(1, len(ks) + 1)):
                    bad("parity-lines", tag + " run %d: %s" % (j, lines[:3]))
                elif np.max(np.abs(np.array([float(x) for x in lines[-1][1].split(",")]) - v)) > 1e-5:
                    bad("printed-parities", tag + " run %d: %s vs %s" % (j, lines[-1], v))
                if s_ is None and refs[2] == 0 and not even:
                    # a group of degenerate bands has a definite number of even and odd states
                    if len(last) > P.nb:
                        g = np.split(np.arange(P.nb), np.where(np.diff(last[:P.nb]) > 1e-4 * (1 + last[P.nb]))[0] + 1)
                        for q_ in g:
                            if q_[-1] == P.nb - 1 and last[P.nb] - last[P.nb - 1] <= 1e-3 * (1 + last[P.nb]):
                                continue
                            t = np.sum(v[q_])
                            ev = [x for x in ((sum_sector(cache, refs, P, ks[-1], len(ks) - 1, ops, a, sg, last[q_[0]], last[q_[-1]])) for sg in (1, -1))]
                            if refs[3] > 1e-6:
                                continue
                            if abs(t - (ev[0] - ev[1])) > 2e-2:
                                bad(nm + "parity-value", tag + " run %d bands %s: sum of parities %g, want %d" % (j, q_ + 1, t, ev[0] - ev[1]))
                            ctx.n("parity_groups")
    retry(ctx, one)
    ctx.seen(tag)


def asym(P, T, axis):
    n = P.n[axis]
    if np.ndim(T) < 5:
        return 0
    s = np.ones(3); s[axis] = -1
    M = np.take(T, (-np.arange(n)) % n, axis=axis) * s[:, None] * s[None, :]
    return float(np.max(np.abs(M - T)) / np.max(np.abs(T)))


def sum_sector(cache, refs, P, k, ki, ops, axis, sg, lo, hi):
    key = (ki, tuple(ops) + ((axis, sg),))
    if key not in cache:
        cache[key] = o.sector_eigs(o.RefOp(P.n, k, P.G, refs[0], refs[1]), key[1])
    w = cache[key]
    return int(np.sum((w > lo - 3e-5 * (1 + abs(lo))) & (w < hi + 3e-5 * (1 + abs(hi)))))
