"""P09: the parallel program against the serial one on the same problem, with 1 to 6 processes."""
import glob
import os
import numpy as np
import oracle as o
import prog
import h5
import P08
from P02 import retry
from P08 import flat, phase, sub
from prog import f, v3

RULE = ("the same random problem by the serial program and by mpb-mpi (three builds: Hermitian, complex, inversion-symmetric) with 1-6 processes; a case counts "
        "when frequencies, velocities, energies, points, integrals, files or reloaded data of the two were compared")
ASSUMPTIONS = ["modes of bands separated by less than 1% are compared through frequencies only", "files of the parallel program have their first two axes swapped (documented) and are "
               "compared after swapping them back", "one dimensional cells are not supported in parallel (documented)"]
TOLERATE = ("failure to converge after|non-independent AV subspace|non-positive eigenvalue|bad news: Polak", 8)
MIN_DISTINCT = 20
SER = {"mpi": "herm", "cmpi": "complex", "invmpi": "inv"}


def builds(tier):
    return [(c, "mpb") for c in ("complex", "inv", "herm", "mpi", "cmpi", "invmpi")]


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for mi, (m, n) in enumerate((("fields", 60), ("summary", 40), ("exchange", 30))):
        for i in range(n if q else 15 * n):
            out.append({"cfg": ["mpi", "invmpi", "cmpi", "invmpi"][i % 4], "s": (seed, 9, mi, i), "mode": m, "cost": 6})
    return out


JOBS = 6


def run(c, ctx):
    globals()["run_" + c["mode"]](c, ctx)


def untranspose(path):
    e = h5.read(path)
    for q in e:
        if hasattr(e[q], "dtype") and e[q].dtype.kind == "f" and e[q].ndim >= 2:
            e[q] = e[q][[1, 0, 2]] if q == "lattice vectors" else np.swapaxes(e[q], 0, 1)
    for q in ("Bloch wavevector", "lattice copies"):
        if q in e:
            e[q] = e[q][[1, 0, 2]]
    for q, x in (e.attrs or {}).items():
        if q in ("Bloch wavevector", "lattice copies"):
            e.attrs[q] = x[[1, 0, 2]]
    return e


def agree(bad, tag, R):
    """every process must see the values process 0 sees (the program's control flow depends on them)"""
    for i, x in enumerate(R.ranks[1:], 1):
        a, b = R.ranks[0].split("\n"), x.split("\n")
        for u, w in zip(a, b):
            if u != w:
                bad("processes-disagree:" + "-".join(y for y in u.split(" ")[1].split("-") if not y.isdigit()), tag + " process %d\n%s\n%s" % (i, u[:400], w[:400]))
                return
        if len(a) != len(b):
            bad("processes-disagree", tag + " process %d ended early" % i)


def make(c, **kw):
    r = o.rng(*c["s"])
    cfg = c["cfg"]
    dim = 2 if r.random() < .6 else 3
    P = prog.Prob(r, dim=dim, inv=cfg == "invmpi", herm=cfg == "mpi", nb=int(r.integers(2, 6)), nmin=2 if r.random() < .3 else 3,
                  nmax={2: 9, 3: 5}[dim], mu=None if r.random() < .3 else "none", **kw)
    P.mesh = 1 if r.random() < .6 or P.has_mu() else P.mesh
    P.tol = 1e-12
    np_ = int(r.integers(1, 7))
    return r, P, cfg, np_


def run_fields(c, ctx):
    r, P, cfg, np_ = make(c)
    k = P.rand_k()
    pts = [r.uniform(-1.3, 1.3, 3) * np.where(np.array(P.n) > 1, P.size, 1) for _ in range(5)]
    pts.append((np.array([int(r.integers(m)) for m in P.n]) / np.array(P.n) - .5) * np.where(np.array(P.n) > 1, P.size, 1))
    txt = P08.body(P, k, pts, r, "NO-PARITY")
    tag = "%s np=%d %s k=%s nb=%d" % (cfg, np_, P.tag(), k, P.nb)

    def one(a, bad):
        res = []
        for g, n in ((SER[cfg], None), (cfg, np_)):
            R = ctx.mpb(P.ctl([k]) + "(init-params NO-PARITY true)" + "(randomize-fields)" * (3 * a) + "(set! randomize-fields? true)(run)(vp 'g-freqs freqs)" + txt, g, cwd=sub(ctx, g), np_=n)
            if R.rc:
                bad("run-failed", tag + " " + g + R.why())
                return
            res.append((R, R.vpd()))
        (R0, d0), (R1, d1) = res
        ctx.n("np=%d" % np_)
        agree(bad, tag, R1)
        P08.compare(ctx, bad, P, tag, R0, d0, h5.read(os.path.join(R0.dir, "in-epsilon.h5")), R1, d1, cfg == "invmpi", untranspose)
        x0, x1 = (y(os.path.join(R.dir, "in-e.k01.b01.h5")) for y, R in ((h5.read, R0), (untranspose, R1)))
        for q, x in x0.attrs.items():
            if not isinstance(x, str) and (q not in x1.attrs or np.max(np.abs(x - x1.attrs[q])) > 1e-9):
                bad("file-contents", tag + " attribute " + q)
    retry(ctx, one)
    ctx.seen(tag)


def both(ctx, bad, P, ctl, cfg, np_, tag):
    res = []
    for g, n in ((SER[cfg], None), (cfg, np_)):
        R = ctx.mpb(ctl, g, cwd=sub(ctx, g), np_=n)
        if R.rc:
            bad("run-failed", tag + " " + g + R.why())
            return None
        res.append((R, R.vpd()))
    ctx.n("np=%d" % np_)
    agree(bad, tag, res[1][0])
    return res


def isolated(w):
    return [b for b in range(len(w) - 1) if min(w[b + 1] - w[b], w[b] - w[b - 1] if b else 9) > 1e-2 * max(w[b], .3) and w[b] > .02]


def canonical(path, P, inv, mpi, k):
    """fix-field-phase: sum of squares real and positive, and the real part positive at the last point where it exceeds half its maximum"""
    x = h5.read(path)
    F = np.stack([x[q + ".r"] + 1j * x[q + ".i"] for q in "xyz"], -1)
    shp = (P.n[1], P.n[0], P.n[2], 3) if mpi else (*P.n, 3)
    F = F.reshape(shp)
    ph = prog.bloch_phase(P.n, k, -1)   # files hold the field with its Bloch phase, the rule is about the periodic part
    F = F * (np.swapaxes(ph, 0, 1) if mpi else ph)[..., None]
    if inv:   # only the stored half takes part, and the phase is a sign
        ax = 2 if P.n[2] > 1 else (0 if mpi else 1) if P.n[1] > 1 else 0
        F = np.take(F, range(P.n[{2: 2, 1: 1, 0: 1 if mpi else 0}[ax]] // 2 + 1), ax)
    z, N = np.sum(F * F), np.sum(abs(F) ** 2)
    if not inv and (abs(z.imag) > 1e-6 * N or z.real < -1e-6 * N):
        return "sum of squares %s of %g" % (z, N)
    r = (F.real - F.imag if inv else F.real).ravel()
    m = abs(r).max()
    sure = np.where(abs(r) >= .5001 * m)[0][-1]
    near = np.where(abs(r) >= .4999 * m)[0]
    near = near[near > sure]
    if r[sure] < 0 and not np.any(r[near] > 0):
        return "negative at the last large point %d (%g of %g)" % (sure, r[sure], m)


def run_summary(c, ctx):
    r, P, cfg, np_ = make(c, zmir=c["s"][-1] % 3 == 0)
    P.nb = max(P.nb, 3)
    ks = [P.rand_k() for _ in range(3)]
    par = "run"
    if P.zmir and not P.has_mu() and r.random() < .7:
        par = str(r.choice(["run-zeven", "run-zodd"]))
        ks = [k * [1, 1, 0] for k in ks]
    st = {"target_freq": float(r.uniform(.3, .6))} if 0 else {}
    pt = v3(r.uniform(-.5, .5, 3) * P.size)
    kd = r.normal(size=3) * (np.arange(3) < P.dim)
    w = f(float(r.uniform(.2, .5)))
    txt = """(set! randomize-fields? true)(%s)
(vp 'all all-freqs)(vp 'bands band-range-data)(vp 'gaps gap-list)(vp 'gap1 (map retrieve-gap (list 1 2)))
(vp 'np (list (mpi-num-procs) (using-mpi?)))(vp 'max (mpi-max 3.25))
(vp 'v1 (compute-group-velocity-component (vector3 %s)))(vp 'v2 (map compute-1-group-velocity (list 1 2)))(vp 'v3 (compute-1-group-velocity-reciprocal 2))
(save-eigenvectors "ev.h5")
""" % (par, " ".join(f(x) for x in kd))
    for b in range(1, P.nb):
        txt += """
(vp 'dom-{b} (get-dominant-planewave {b}))
(get-hfield {b})(vp 'sq-{b} (compute-field-integral (lambda (F eps p) (vector3-dot F F))))
(fix-hfield-phase {b})(vp 'fix-{b} (map get-bloch-field-point (list {pt} (vector3 .1 .2 0) (vector3 -.1 .3 .2))))
(output-field)(for-each (lambda (get) (get {b})(fix-field-phase)(output-field)) (list get-dfield get-efield get-bfield))(get-hfield {b})
(let ((a (field-copy cur-field)))
 (field-map! a (lambda (F) (vector3-scale 2+1i F)) cur-field)
 (vp 'int-{b} (integrate-fields (lambda (p F G) (* (+ 1 (vector3-x p)) (vector3-cdot F G))) a cur-field))
 (vp 'fpt-{b} (vector3-norm (cvector-field-get-point a {pt}))))
(get-dfield {b})(compute-field-energy)
(let ((a (field-copy cur-field)))
 (field-map! a (lambda (x) (* x x)) cur-field)
 (vp 'sint-{b} (integrate-fields (lambda (p x y) (* x (sqrt y) (vector3-y p))) cur-field a))
 (vp 'spt-{b} (rscalar-field-get-point a {pt})))
""".format(b=b, pt=pt)
    txt += """(define ev (get-eigenvectors 1 2))(define (mat m) (map (lambda (i) (map (lambda (j) (sqmatrix-ref m i j)) (list 0 1))) (list 0 1)))
(vp 'dot (mat (dot-eigenvectors ev 1)))(scale-eigenvector 1 2)(vp 'dots (mat (dot-eigenvectors ev 1)))(set-eigenvectors ev 1)(vp 'dott (mat (dot-eigenvectors ev 1)))
(vp 'eps (list (get-epsilon-point %s) (get-epsilon-point (vector3 .5 .5 0))))
""" % pt
    if r.random() < .3 and par == "run":
        k = np.where(np.arange(3) < P.dim, r.uniform(.1, .5, 3), 0)
        txt += """(define kd %s)(define (w1 s) (set! num-bands 1)(set! k-points (list (vector3-scale s (cartesian->reciprocal (unit-vector3 (reciprocal->cartesian kd))))))(run)(car freqs))
(define wa (w1 .1))(define wb (w1 .15))(if (> wb (* 1.05 wa)) (vp 'findk (find-k NO-PARITY wa 1 1 kd 1e-5 .12 1e-3 .15)))""" % v3(k)
    tag = "summary %s np=%d %s nb=%d %s ks=%s" % (cfg, np_, P.tag(), P.nb, par, np.round(ks, 3).tolist())

    def one(a, bad):
        res = both(ctx, bad, P, P.ctl(ks, **st) + "(init-params NO-PARITY true)" + "(randomize-fields)" * (3 * a) + txt, cfg, np_, tag)
        if not res:
            return
        (R0, d0), (R1, d1) = res

        def cl(t, tol, x=None, y=None, scale=1):
            x, y = (flat(d0[t]), flat(d1[t])) if x is None else (x, y)
            ctx.n("comparisons")
            if x.shape != y.shape or np.max(np.abs(x - y), initial=0) > tol * scale:
                bad(t.split("-")[0], tag + " %s\n%s\n%s" % (t, np.round(x, 7), np.round(y, 7)))
        if (set(d0) ^ set(d1)) - {'findk'}:
            bad("values", tag + " %s" % sorted(set(d0) ^ set(d1)))
            return
        cl("all", 1e-4)
        cl("eps", 1e-9)
        w = np.array(d0["all"][0][-1], float)
        for t in ("bands",):
            # entries ((min . k) max . k): only the frequencies are unique (symmetric k-points may tie)
            cl(t, 1e-4, flat([(x[0][0], x[1]) for x in d0[t][0]]), flat([(x[0][0], x[1]) for x in d1[t][0]]))
        gaps = [g for g in d0["gaps"][0] if g[0] > .1]
        gapt = [g for g in d1["gaps"][0] if g[0] > .1]
        if len(gaps) == len(gapt):
            cl("gaps", 2e-2, flat(gaps), flat(gapt))
        elif abs(len(gaps) - len(gapt)) > 1:
            bad("gaps", tag)
        if d1["np"][0][0] != np_ or d1["np"][0][1] is not True and d1["np"][0][1] != "#t" or d1["max"][0] != 3.25:
            bad("mpi-info", tag + str(d1["np"]))
        I2 = np.eye(2).ravel()
        for t, q in (("dot", I2), ("dots", np.array([2, 0, 0, 1])), ("dott", I2)):
            if not P.has_mu():
                cl(t, 1e-6, flat(d1[t]), q)
        if "findk" in d0 and "findk" in d1:
            cl("findk", 2e-4)
            ctx.n("find_k")
        if P.has_mu():
            cl("dot", 1e-3); cl("dots", 1e-3)
        iso = isolated(w)
        X = h5.read(os.path.join(R0.dir, "ev.h5"))
        X = X["rawdata"]
        if cfg != "invmpi":
            X = X[..., 0] + 1j * X[..., 1]
        amp = np.sum(np.abs(X.reshape(-1, 2, P.nb)) ** 2, 1)
        G = np.stack(np.meshgrid(*[((np.arange(m) + m // 2) % m - m // 2) for m in P.n], indexing="ij"), -1).reshape(-1, 3)
        for b in iso:
            n, tol = b + 1, 1e-3
            top = np.where(amp[:, b] > (1 - 1e-2) * amp[:, b].max())[0]
            if len(top) == 1:
                ctx.n("dominant_planewaves")
                cl("dom-%d" % n, 1e-6)
            for R, mpi in ((R0, False), (R1, True)):
                for ch in "hdeb":
                    e = canonical(glob.glob(os.path.join(R.dir, "in-%s.k03.b%02d*.h5" % (ch, n)))[0], P, cfg == "invmpi", mpi, ks[-1])
                    ctx.n("phases")
                    if e:
                        bad("phase-not-canonical" + ":mpi" * mpi, tag + " %s band %d %s" % (ch, n, e))
            for t in ("int", "fpt", "sint", "spt"):
                x = flat(d0["%s-%d" % (t, n)])
                cl("%s-%d" % (t, n), 1e-3, x, flat(d1["%s-%d" % (t, n)]), 1 + np.max(np.abs(x)))
        ctx.n("bands", len(iso))
        for b in iso[:2]:
            if b < 2:
                cl("v2", 2e-3, flat(d0["v2"][0][b]), flat(d1["v2"][0][b]))
            cl("v1", 2e-3, flat(d0["v1"][0][b]), flat(d1["v1"][0][b]))
        if 1 in iso:
            cl("v3", 2e-3)
    retry(ctx, one)
    ctx.seen(tag)


def run_exchange(c, ctx):
    """files written with one number of processes and read with another (or serially)"""
    r, P, cfg, np_ = make(c)
    n2 = [None, 1, 2, 3, 5][int(r.integers(5))]
    k = P.rand_k()
    ser = SER[cfg]
    first, second = (cfg, np_), (ser if n2 is None else cfg, n2)
    if n2 is None and r.random() < .5:
        first, second = second, first
    tag = "exchange %s %s->%s %s nb=%d k=%s" % (cfg, first[1], second[1], P.tag(), P.nb, np.round(k, 4))
    d = ctx.dir()
    pts = "(list %s)" % " ".join(v3(r.uniform(-.8, .8, 3) * np.where(np.array(P.n) > 1, P.size, 1)) for _ in range(4))
    q = """(define pts %s)(define (look t) (map (lambda (b) (get-dfield b)(vp (string-append t "d") (map get-field-point pts))(vp (string-append t "e") (compute-field-energy))
 (get-hfield b)(vp (string-append t "h") (map get-bloch-field-point pts))) (list 1 2)))""" % pts
    samelay = (first[1] is None) == (second[1] is None)
    n1 = int(r.integers(1, P.nb + 1))
    A = ctx.mpb(P.ctl([k]) + "(init-params NO-PARITY true)(solve-kpoint %s)" % v3(k) + q + '(look "")(save-eigenvectors "ev.h5")(output-eigenvectors (get-eigenvectors %d %d) "part.h5")' % (n1, P.nb - n1 + 1) +
                '(output-epsilon)(get-hfield 1)(output-field)(get-dfield 2)(compute-field-energy)(output-field)', first[0], cwd=d, np_=first[1])
    if A.rc:
        if "failure to converge" in A.out:
            ctx.n("not_converged")
            return
        ctx.bad("run-failed", tag + A.why())
        return
    a = A.vpd()
    h1 = {x: h5.read(os.path.join(d, x)) for x in ("ev.h5", "part.h5", "in-h.k01.b01.h5")}
    B = ctx.mpb(P.ctl([k]) + "(init-params NO-PARITY true)(set-kpoint-index 1)(define freqs0 (list %s))" % "" + q +
                '(set! randomize-fields? true)(solve-kpoint %s)(load-eigenvectors "ev.h5")(look "l")(save-eigenvectors "ev2.h5")'
                '(set-eigenvectors (input-eigenvectors "part.h5" %d) 1)(output-eigenvectors (get-eigenvectors 1 %d) "part2.h5")' % (v3(k), P.nb - n1 + 1, P.nb - n1 + 1) +
                ('(get-hfield 1)(let ((f (field-make cur-field)))(get-hfield 2)(field-load f))' if 0 else ""), second[0], cwd=d, np_=second[1], name="in2.ctl")
    if B.rc:
        if "failure to converge" in B.out:
            ctx.n("not_converged")
            return
        ctx.bad("run-failed", tag + B.why())
        return
    b = B.vpd()
    if second[1]:
        agree(ctx.bad, tag, B)
    for x, y in (("ev.h5", "ev2.h5"), ("part.h5", "part2.h5")):
        h2 = h5.read(os.path.join(d, y))
        if h1[x]["rawdata"].shape != h2["rawdata"].shape or not np.array_equal(h1[x]["rawdata"], h2["rawdata"]):
            ctx.bad("eigenvectors-changed:" + x, tag)
        ctx.n("eigenvector_files")
    if h1["part.h5"]["rawdata"].ndim != h1["ev.h5"]["rawdata"].ndim or not np.array_equal(h1["ev.h5"]["rawdata"][:, :, n1 - 1:P.nb], h1["part.h5"]["rawdata"]):
        ctx.bad("partial-eigenvectors", tag)
    for t in ("d", "h", "e"):
        for x, y in zip(a[t], b["l" + t]):
            x, y = flat(x), flat(y)
            if t == "e":
                x, y = x[0:1] * 0 + flat(x[1:])[0:1], y[0:1] * 0 + flat(y[1:])[0:1]
            if np.max(np.abs(x - y)) > 1e-5 * (1 + np.max(np.abs(x))) and t != "d":
                ctx.bad("reloaded-" + t, tag + "\n%s\n%s" % (x, y))
            ctx.n("comparisons")
    # the dielectric written by one is read by the other in place of the geometry
    Q = P.ctl([k], epsilon_input_file='"in-epsilon.h5:data"', geometry_lattice=None) if 0 else None
    ctx.seen(tag)
