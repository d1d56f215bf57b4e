"""P20: operations on eigenvectors."""
import os
import re
import numpy as np
import h5
import oracle as o
import prog
from drv import MD, ptr
from prog import f, v3

RULE = ("random sessions of 12-30 eigenvector operations (get, set, scale, dot, save, load, output, input, phase fixing, new solves, changed number of bands, field queries in between) in all builds; a case counts when "
        "the raw eigenvectors after every change, every inner product, and the matrix functions were compared with a model of the session; and direct calls of the planewave functions of the library")
ASSUMPTIONS = ["the raw eigenvector files hold the coefficients the program works with (P11)"]
MIN_DISTINCT = 30
TOLERATE = ("failure to converge after|non-independent AV subspace|non-positive eigenvalue|bad news: Polak|inexplicable singularity", 4)


def builds(tier):
    return [(c, "mpb") for c in ("complex", "inv", "herm", "cmpi", "invmpi")] + [(c, "driver") for c in ("complex", "inv", "herm")]


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(90 if q else 900):
        cfg = str(o.rng(seed, 20, 0, i, 9).choice(["complex", "inv", "herm", "cmpi", "invmpi"], p=[.4, .2, .1, .2, .1]))
        out.append({"cfg": cfg, "s": (seed, 20, 0, i), "mode": "ses", "cost": 3})
    for i in range(40 if q else 800):
        d = str(o.rng(seed, 20, 1, i, 9).choice(["complex", "inv", "herm"], p=[.6, .2, .2]))
        out.append({"drv": d, "s": (seed, 20, 1, i), "mode": "lib", "cost": 1})
    for i in range(4 if q else 40):
        out.append({"cfg": ["inv", "invmpi"][i % 2], "s": (seed, 20, 2, i), "mode": "imag", "cost": 1})
    return out


def run(c, ctx):
    globals()["run_" + c["mode"]](c, ctx)


# ---------------------------------------------------------------------------------------------------------- the library
def run_lib(c, ctx):
    r = o.rng(*c["s"])
    L = ctx.lib(c["drv"])
    cplx = L.cplx
    n = [int(r.integers(1, 8)) for _ in range(int(r.integers(1, 4)))]
    n = n + [1] * (3 - len(n))
    B = o.rand_lattice(r, 3)
    G = o.recip(B)
    k = r.uniform(-.7, .7, 3) * (r.random(3) < .8)
    p = int(r.integers(1, 5))
    md = MD(L, n, p, 2)
    md.set_k(k, G)
    md.put_inv(o.stored_points(np.broadcast_to(np.eye(3) + 0j, tuple(n) + (3, 3)), n, cplx))
    ref = o.RefOp(n, k, G, np.broadcast_to(np.eye(3), tuple(n) + (3, 3)))
    K = ref.K.reshape(-1, 3)
    N = md.N
    tag = "lib %s n=%s k=%s p=%d" % (c["drv"], n, np.round(k, 3), p)
    x = r.normal(size=(2 * N, p)) + (1j * r.normal(size=(2 * N, p)) if cplx else 0)
    X = md.ev(p, x)
    # dominant planewaves
    for it in range(3):
        if it:
            x = x * 1e-3
            for b in range(p):      # one large coefficient each, in either polarisation
                x[int(r.integers(2 * N)), b] = r.choice([-1, 1]) * (1j if cplx and r.random() < .5 else 1)
            if it == 2:
                x[:, int(r.integers(p))] *= 1e-150 if r.random() < .3 else 1e-8
            X.set(x)
        amp = np.sum(np.abs(x.reshape(N, 2, p)) ** 2, 1)
        for b in range(p):
            kd = np.zeros(3)
            L.dominant(md.h, X.h, b + 1, ptr(kd))
            j = np.where(amp[:, b] >= (1 - 1e-12) * amp[:, b].max())[0]
            ctx.n("dominant")
            if amp[:, b].max() > 0 and np.min(np.max(np.abs(K[j] - kd), axis=1)) > 1e-12 * (1 + np.max(np.abs(K))):
                ctx.bad("dominant", tag + " band %d: %s, expected %s" % (b + 1, kd, K[j]))
        if not np.array_equal(X.get(), x):
            ctx.bad("dominant-changed-bands", tag)
    # planewaves
    if cplx:
        for it in range(4):
            x = X.get().copy()
            b = int(r.integers(p))
            g = np.array([int(r.integers(-((m - 1) // 2), (m - 1) // 2 + 1)) for m in n], np.int32)
            kg = (k + g) @ G
            if np.linalg.norm(kg) < 1e-9:
                kg = np.array([0, 0, 0.])
            ax = np.array([np.eye(3)[int(r.integers(3))], r.normal(size=3)][int(r.random() < .6)], float)
            if not kg.any() or np.linalg.norm(np.cross(kg, ax)) < 1e-3 * np.linalg.norm(kg) * np.linalg.norm(ax):
                continue
            s, q = [complex(*r.normal(size=2)) * (r.random() < .8) for _ in range(2)]
            S, Q = np.array([s.real, s.imag]), np.array([q.real, q.imag])
            L.planewave(md.h, X.h, b + 1, ptr(g), ptr(S), ptr(Q), ptr(ax))
            y = X.get()
            other = [i for i in range(p) if i != b]
            ctx.n("planewaves")
            if not np.array_equal(y[:, other], x[:, other]):
                ctx.bad("planewave-other-bands", tag + " band %d g=%s" % (b + 1, g))
            u = kg / np.linalg.norm(kg)
            pd = np.cross(u, ax); pd /= np.linalg.norm(pd)
            h0 = s * np.cross(u, pd) + q * pd
            H = o.to_grid(md.field(0, X, b, 1)[:, 0], n, True)
            idx = np.stack(np.meshgrid(*[np.arange(m) / m for m in n], indexing="ij"), -1)
            want = np.exp(2j * np.pi * (idx @ g))[..., None] * h0
            if np.max(np.abs(H - want)) > 1e-10 * (1 + np.max(np.abs(h0))):
                ctx.bad("planewave", tag + " band %d g=%s axis=%s s=%s p=%s: %s, expected %s" % (b + 1, g, ax, s, q, H.reshape(-1, 3)[0], h0))
            if s or q:
                kd = np.zeros(3)
                L.dominant(md.h, X.h, b + 1, ptr(kd))
                if np.max(np.abs(kd - kg)) > 1e-10 * (1 + np.max(np.abs(K))):
                    ctx.bad("planewave-dominant", tag + " g=%s: %s, expected %s" % (g, kd, kg))
    X.free(); md.free()
    ctx.seen(tag)


# with inversion symmetry the coefficients are real: a factor that is not must be refused, not rounded
def run_imag(c, ctx):
    r = o.rng(*c["s"])
    P = prog.Prob(r, inv=True, nb=3, dim=2)
    d = ctx.dir()
    z = complex(r.choice([0, 0, 1e-20, r.normal()]), r.choice([-1, 1]) * (r.random() + .1))
    R = ctx.mpb(P.ctl(()) + "(init-params NO-PARITY true)(solve-kpoint %s)(vp 'before 1)(scale-eigenvector 2 %s)(vp 'after 1)" % (v3((.1, .2, 0)), f(z)), c["cfg"], np_=2 * c["cfg"].endswith("mpi"), cwd=d)
    ctx.n("refused_factors")
    if R.vpd().get("after") or not R.rc:
        ctx.bad("complex-factor-accepted", "%s %s factor %s" % (c["cfg"], P.tag(), z))
    ctx.seen("imag %s %s" % (c["cfg"], P.tag()))


# ---------------------------------------------------------------------------------------------------------- sessions
def run_ses(c, ctx):
    r = o.rng(*c["s"])
    cfg = c["cfg"]
    mpi, inv = cfg.endswith("mpi"), cfg in ("inv", "invmpi")
    np_ = int(r.integers(1, 4)) if mpi else 0
    P = prog.Prob(r, inv=inv, herm=cfg == "herm", nb=int(r.integers(2, 7)), dim=int(r.integers(2, 4)) if mpi else None, mu="none" if mpi or r.random() < .5 else None)
    mu = P.has_mu()
    P.tol = 1e-3
    d = ctx.dir()
    pts = [r.uniform(-.5, .5, 3) * P.size for _ in range(2)]
    bs = int(r.choice([-11, 1, 2, 3]))
    t = "(set! filename-prefix \"f-\")" + P.ctl(()) + "(set! eigensolver-block-size %d)(init-params NO-PARITY true)(output-epsilon)\n" % bs
    nb, sets, mats, fnum = P.nb, [], [], 0
    steps = []
    files = []
    kp = 0

    def emit(s, *step):
        nonlocal t
        t += s + "\n"
        if step:
            steps.append(step)

    def snap():
        nonlocal fnum
        fnum += 1
        emit("(save-eigenvectors \"s%d\")" % fnum)
        return fnum

    def solve():
        nonlocal kp
        k = (.13, .21, 0) if mu else tuple(r.uniform(-.5, .5, 3) * (np.arange(3) < P.dim))
        s = "(randomize-fields)(solve-kpoint %s)" % v3(k)
        kp += 1
        if mu:
            s += "(set! filename-prefix \"f%d-\")" % kp + "".join("(output-bfield %d)" % (b + 1) for b in range(nb)) + "(set! filename-prefix \"f-\")"
        emit(s)
        steps.append(("solve", snap(), nb, kp))
    solve()
    for _ in range(int(r.integers(10, 26))):
        op = str(r.choice(["get", "set", "dot", "scale", "io", "loadsave", "fix", "solve", "query", "bands", "mat", "consist"], p=[.15, .15, .18, .12, .08, .06, .06, .03, .05, .02, .05, .05]))
        if op == "get" or op in ("set", "dot", "io", "consist") and not sets:
            b = int(r.integers(1, nb + 1)); n = int(r.integers(1, nb - b + 2))
            emit("(define e%d (get-eigenvectors %d %d))" % (len(sets), b, n), "get", b, n)
            sets.append(n)
        elif op in ("set", "dot"):
            i = int(r.integers(len(sets)))
            if sets[i] > nb:
                continue
            b = int(r.integers(1, nb - sets[i] + 2))
            if op == "set":
                emit("(set-eigenvectors e%d %d)" % (i, b))
                steps.append(("set", i, b, snap()))
            else:
                emit("(define m{m} (dot-eigenvectors e{i} {b}))(vp 'm{m} (list (sqmatrix-size m{m}) (map (lambda (i) (map (lambda (j) (sqmatrix-ref m{m} i j)) (arith-sequence 0 1 {n}))) (arith-sequence 0 1 {n}))))".format(m=len(mats), i=i, b=b, n=sets[i]), "dot", i, b, len(mats))
                mats.append(sets[i])
        elif op == "scale":
            b = int(r.integers(1, nb + 1))
            z = complex(r.normal(), 0 if inv else r.normal())
            emit("(scale-eigenvector %d %s)" % (b, f(z)))
            steps.append(("scale", b, z, snap()))
        elif op == "io":
            i = int(r.integers(len(sets)))
            if sets[i] > nb:
                continue
            emit("(output-eigenvectors e%d \"o%d.h5\")(define e%d (input-eigenvectors \"o%d.h5\" %d))" % (i, len(sets), len(sets), len(sets), sets[i]), "io", i)
            sets.append(sets[i])
        elif op == "loadsave":
            old = [x for x in files if x[1] == nb]
            if not old:
                files.append((snap(), nb)); steps.append(("same", files[-1][0]))
                continue
            x = old[int(r.integers(len(old)))]
            emit("(load-eigenvectors \"s%d\")" % x[0])
            steps.append(("load", x[0], snap()))
        elif op == "fix":
            b = int(r.integers(1, nb + 1)); kind = str(r.choice(["e", "d", "h", "b"]))
            emit("(get-{k}field {b})(fix-field-phase)(vp 'fa (map get-field-point (list {p})))(get-{k}field {b})(vp 'fb (map get-field-point (list {p})))(scale-eigenvector {b} {z})(get-{k}field {b})(fix-field-phase)(vp 'fc (map get-field-point (list {p})))".format(k=kind, b=b, z="-1" if inv else f(np.exp(1j * r.uniform(-3.1, 3.1))), p=" ".join(map(v3, pts))))
            steps.append(("fix", b, snap()))
        elif op == "consist":
            i = int(r.integers(len(sets)))
            if sets[i] > nb:
                continue
            b = int(r.integers(1, nb - sets[i] + 2))
            emit("(vp 'consist (fix-phase-consistency e%d %d))" % (i, b))
            steps.append(("consist", i, b, snap()))
        elif op == "solve":
            solve()
        elif op == "query":
            b = int(r.integers(1, nb + 1))
            emit(str(r.choice(["(get-dfield %d)(compute-field-energy)", "(get-efield %d)(compute-field-divergence)", "(get-hfield %d)(compute-field-energy)", "(compute-zparities)(compute-yparities)(get-epsilon)",
                               "(get-dominant-planewave %d)", "(get-tot-pwr %d)", "(get-poynting %d)(cvector-field-get-point cur-field (vector3 0 0 0))"])).replace("%d", str(b)))
        elif op == "bands":
            nb = int(r.integers(2, 7)); nb = min(nb, 2 * int(np.prod(P.n)) - 2)
            emit("(set! num-bands %d)(init-params NO-PARITY true)" % nb)
            solve()
        elif op == "mat" and len(mats) > 0:
            i = int(r.integers(len(mats)))
            same = [j for j in range(len(mats)) if mats[j] == mats[i]]
            j = same[int(r.integers(len(same)))]
            a, b = int(r.integers(mats[i])), int(r.integers(mats[i]))
            z = complex(r.normal(), 0 if inv else r.normal())
            dl = [complex(r.normal(), 0 if inv else r.normal()) for _ in range(mats[i])]
            n = len(mats)
            emit("(sqmatrix-set m{i} {a} {b} {z})(define m{n} (sqmatrix-mult (sqmatrix-mult m{i} m{j}) (sqmatrix-diagm (list {dl}))))(vp 'm{n} (list (sqmatrix-size m{n}) (map (lambda (i) (map (lambda (j) (sqmatrix-ref m{n} i j)) (arith-sequence 0 1 {p}))) (arith-sequence 0 1 {p}))))(vp 'ev{n} (sqmatrix-eigvals m{n}))".format(
                i=i, a=a, b=b, z=f(z), n=n, j=j, dl=" ".join(f(q) for q in dl), p=mats[i]), "mat", i, j, a, b, z, dl, n)
            mats.append(mats[i])
    # a query while a field is loaded leaves that field, or at least no wrong one
    last = None
    if sets and r.random() < .5:
        i = int(r.integers(len(sets)))
        if sets[i] <= nb:
            last = "(dot-eigenvectors e%d 1)" % i
    if last is None:
        last = str(r.choice(["(get-dominant-planewave 1)", "(get-eigenvectors 1 2)", "(compute-zparities)", "(compute-yparities)", "(compute-1-group-velocity 1)", "(save-eigenvectors \"z\")", "(get-epsilon-point (vector3 0 0 0))"]))
    emit("(get-bfield 2)(vp 'q0 (map get-field-point (list {p})))(print \"LAST\\n\"){l}(vp 'q1 (map get-field-point (list {p})))".format(p=" ".join(map(v3, pts)), l=last))
    tag = "ses %s np=%d %s nb=%d bs=%d %d steps" % (cfg, np_, P.tag(), P.nb, bs, len(steps))
    R = ctx.mpb(t, cfg, np_=np_, cwd=d)
    if R.rc and not ("LAST\n" in R.out and "must be loaded" in R.out + R.why()):
        ctx.bad("stopped:", tag + R.why())
        return
    V = {}
    for x in R.vp():
        V.setdefault(x[0], []).append(x[1])
    cplx = not inv

    def raw(i):
        x = h5.read(os.path.join(d, "s%d.h5" % i))["rawdata"]
        x = x[..., 0] + 1j * x[..., 1] if cplx else x[..., 0]
        return x.reshape(-1, x.shape[2])
    mui, asym = None, 0.
    if mu:
        mui = prog.mu_tensors(P, ctx, cfg)
        if inv:
            # the averaged tensors at a point and its mirror image agree only to the tolerance of the averaging, and the real transforms assume they agree
            mir = np.conj(mui[np.ix_(*[-np.arange(m) % m for m in P.n])])
            asym = 20 * np.max(np.abs(mui - mir))
            mui = (mui + mir) / 2
    bf = {}

    def bfield(kp, b):
        if (kp, b) not in bf:
            x = [q for q in os.listdir(d) if re.match(r"f%d-b\.k\d+\.b%02d\D" % (kp, b), q)]
            bf[kp, b] = prog.field_file(os.path.join(d, x[0]), P.n)[0] if len(x) == 1 else None
        return bf[kp, b]

    def inner(a, b):
        """a, b: (vector, (source, factor))"""
        if not mu:
            return np.vdot(a[0], b[0])
        A, B = bfield(*a[1]), bfield(*b[1])
        if A is None or B is None:
            return None
        return np.conj(a[2]) * b[2] * np.sum(np.conj(A) * np.einsum("...ij,...j->...i", mui, B)) * P.vol / np.prod(P.n)
    H, E, M, nfix, ncon, hist = [], [], {}, 0, 0, {}

    def compare(i, what, tol=0.):
        X = raw(i)
        ctx.n("states"); ctx.n("coefficients", X.size)
        hist[i] = [tuple(q) for q in H]
        if X.shape[1] != len(H):
            ctx.bad(what, tag + " %d bands, expected %d" % (X.shape[1], len(H)))
            return False
        for b, q in enumerate(H):
            if np.max(np.abs(X[:, b] - q[0]), initial=0) > tol * np.max(np.abs(q[0])):
                ctx.bad(what, tag + " band %d of %d: differs by %g" % (b + 1, len(H), np.max(np.abs(X[:, b] - q[0]))))
                return False
        H[:] = [(X[:, b],) + tuple(q[1:]) for b, q in enumerate(H)]
        hist[i] = list(H)
        return True
    for st in steps:
        op = st[0]
        ctx.n("op_" + op)
        ok = True
        if op == "solve":
            X = raw(st[1])
            if X.shape != (2 * np.prod(P.n), st[2]):
                ctx.bad("shape", tag + " %s" % (X.shape,))
                return
            H = [(X[:, b], (st[3], b + 1), 1.) for b in range(st[2])]
            hist[st[1]] = list(H)
            if mu:
                Q = np.array([[inner(x, y) or 0 for y in H] for x in H])
                if np.max(np.abs(Q - np.eye(len(H)))) > (1e-6 + asym if bs < 0 else .05):
                    ctx.bad("orthonormal", tag + " %s" % np.round(Q, 6).tolist())
                    return
        elif op == "get":
            E.append(H[st[1] - 1:st[1] - 1 + st[2]])
        elif op == "set":
            H = list(H)
            H[st[2] - 1:st[2] - 1 + len(E[st[1]])] = E[st[1]]
            ok = compare(st[3], "set")
        elif op == "scale":
            H = list(H)
            q = H[st[1] - 1]
            H[st[1] - 1] = (q[0] * (st[2] if cplx else st[2].real), q[1], q[2] * st[2])
            ok = compare(st[3], "scale", 1e-15)
        elif op == "io":
            E.append(E[st[1]])
        elif op == "same":
            ok = compare(st[1], "changed-by-query")
        elif op == "load":
            if st[1] in hist:
                H = list(hist[st[1]])
                ok = compare(st[2], "load")
        elif op == "fix":
            X = raw(st[2])
            H = list(H)
            q = H[st[1] - 1]
            j = int(np.argmax(np.abs(q[0])))
            ph = X[j, st[1] - 1] / q[0][j]
            if abs(abs(ph) - 1) > 1e-10:
                ctx.bad("fix-modulus", tag + " %s" % ph)
            H[st[1] - 1] = (q[0] * ph, q[1], q[2] * ph)
            ok = compare(st[2], "fix", 1e-12)
            a, b = V["fa"][nfix], V["fb"][nfix]
            nfix += 1
            for x, y in zip(a, b):
                if np.max(np.abs(prog.vec(x) - prog.vec(y))) > 1e-10 * (1 + np.max(np.abs(prog.vec(y)))):
                    ctx.bad("fix-field", tag + " %s, again %s" % (x, y))
            for x, y in zip(V["fc"][nfix - 1], b):
                ctx.n("canonical_values")
                if np.max(np.abs(prog.vec(x) - prog.vec(y))) > 1e-6 * (1 + np.max(np.abs(prog.vec(y)))):
                    ctx.bad("fix-canonical", tag + " band %d from another phase %s, first %s" % (st[1], x, y))
        elif op == "consist":
            X, e, b0 = raw(st[3]), E[st[1]], st[2] - 1
            got = [complex(x) for x in V["consist"][ncon]]
            ncon += 1
            H, bad = list(H), len(got) != len(e)
            for j, x in enumerate(e):
                q = H[b0 + j]
                m = int(np.argmax(np.abs(q[0])))
                ph = X[m, b0 + j] / q[0][m]
                w = inner(x, q)
                if abs(abs(ph) - 1) > 1e-10 or bad or abs(got[j] - np.conj(ph)) > 1e-8:
                    ctx.bad("consistent-phase", tag + " factor %s, returned %s" % (ph, got))
                    return
                if w is not None and abs(w) > 1e-5 * np.linalg.norm(x[0]) * np.linalg.norm(q[0]):
                    ctx.n("phases_made_consistent")
                    if abs(ph * w / abs(w) - 1) > 1e-5 + (10 * asym / min(1, abs(w))):
                        ctx.bad("consistent-phase", tag + " overlap %s times %s is not positive" % (w, ph))
                H[b0 + j] = (q[0] * ph, q[1], q[2] * ph)
            ok = compare(st[3], "consistent-phase-others", 1e-12)
        elif op == "dot":
            got = V["m%d" % st[3]][0]
            e, n = E[st[1]], len(E[st[1]])
            h = H[st[2] - 1:st[2] - 1 + n]
            W = [[inner(x, y) for y in h] for x in e]
            if any(x is None for q in W for x in q):
                ctx.n("no_field_file")
                W = None
            g = np.array([[complex(x) for x in q] for q in got[1]])
            M[st[3]] = g
            ctx.n("inner_products", g.size)
            if int(got[0]) != n or g.shape != (n, n) or W is not None and np.max(np.abs(g - np.array(W))) > (1e-8 + asym) * max(1, np.max(np.abs(W))):
                ctx.bad("dot" + ":mu" * mu, tag + " %d vectors with bands from %d: %s, expected %s" % (n, st[2], np.round(g, 5).tolist(), np.round(W, 5).tolist()))
                return
        elif op == "mat":
            _, i, j, a, b, z, dl, n = st
            if i not in M or j not in M:
                continue
            M[i] = M[i].copy()
            M[i][a, b] = z
            w = M[i] @ (M[j]) @ np.diag(dl)
            g = np.array([[complex(x) for x in q] for q in V["m%d" % n][0][1]])
            ev = np.array([complex(x) for x in V["ev%d" % n][0]])
            M[n] = g
            ctx.n("matrices")
            sc = max(1, np.max(np.abs(w)))
            if np.max(np.abs(g - w)) > 1e-10 * sc:
                ctx.bad("sqmatrix", tag + " %s, expected %s" % (g.tolist(), w.tolist()))
            we = np.linalg.eigvals(g)
            if len(ev) != len(we) or abs(np.sum(ev) - np.trace(g)) > 1e-9 * sc * len(we) or max(np.min(np.abs(ev - x)) for x in we) > 1e-5 * sc:
                ctx.bad("sqmatrix-eigvals", tag + " %s, expected %s" % (ev, we))
        if not ok:
            return
    if not R.rc:
        for x, y in zip(V["q0"][0], V["q1"][0]):
            if np.max(np.abs(prog.vec(x) - prog.vec(y))) > 1e-10 * (1 + np.max(np.abs(prog.vec(y)))):
                ctx.bad("loaded-field-changed", tag + " by %s: %s became %s" % (re.sub(r"\d+", "", last), x, y))
    ctx.n("sessions"); ctx.seen(tag)
