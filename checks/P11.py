"""P11: what is written to files and read back: eigenvectors, fields, dielectric functions; malformed files."""
import os
import re
import numpy as np
import oracle as o
import prog
import h5
from P02 import retry
from P09 import untranspose
from prog import f, v3

RULE = ("runs of the real programs (mpb, mpbi, Hermitian, mpb-mpi) that write files, read them back (in the same session, or in a new one with another number of processes) and compare; a run "
        "counts when saved and restored data were compared bit for bit, a field file with the field at every grid point, a dielectric file with its interpolation, or a bad file was refused")
ASSUMPTIONS = ["phases of field files start at the corner of the cell (index 0), those of point queries at its centre", "a dielectric file's values are at pixel centres with mirrored ends (as documented in epsilon_file.c)"]
MIN_DISTINCT = 30
TOLERATE = ("failure to converge after|non-independent AV subspace|non-positive eigenvalue|bad news: Polak|inexplicable singularity", 8)


def builds(tier):
    return [(c, "mpb") for c in ("complex", "inv", "herm", "cmpi", "invmpi")]


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for mi, (m, n) in enumerate((("eig", 70), ("field", 90), ("epsfile", 70), ("badeig", 36), ("badeps", 50))):
        for i in range(n if q else 10 * n):
            r = o.rng(seed, 11, mi, i, 9)
            cfg = str(r.choice(["complex", "inv", "herm", "cmpi", "invmpi"], p=[.35, .25, .1, .15, .15]))
            if m in ("badeig", "badeps") and cfg in ("cmpi", "invmpi") and r.random() < .6:
                cfg = "complex"
            out.append({"cfg": cfg, "s": (seed, 11, mi, i), "mode": m, "cost": 4 if "mpi" in cfg else 2})
    return out


def run(c, ctx):
    globals()["run_" + c["mode"]](c, ctx)


def make(c, **kw):
    r = o.rng(*c["s"])
    cfg = c["cfg"]
    mpi = cfg.endswith("mpi")
    if mpi:
        kw.setdefault("dim", int(r.integers(2, 4)))
    P = prog.Prob(r, inv=cfg in ("inv", "invmpi"), herm=cfg == "herm", **kw)
    return r, P, cfg, mpi, int(r.integers(1, 4)) if mpi else 0


def read(path, mpi):
    return untranspose(path) if mpi else h5.read(path)


def refused(R):
    return R.rc != 0 and "CHECK failure" in R.out or "ERROR" in R.out or "Backtrace" in R.out or "error" in R.out.lower()


# ---------------------------------------------------------------------------------------------------------- eigenvectors
def run_eig(c, ctx):
    r, P, cfg, mpi, np_ = make(c)
    P.tol = 1e-6
    k = P.rand_k()
    nb = P.nb
    b0 = int(r.integers(1, nb + 1))
    nr = int(r.integers(1, nb - b0 + 2))
    to = int(r.integers(1, nb - nr + 2))
    bs = int(r.choice([0, 0, 1, 2]))
    tag = "eig %s np=%d %s k=%s nb=%d [%d+%d->%d]" % (cfg, np_, P.tag(), np.round(k, 3), nb, b0, nr, to)
    pts = [r.uniform(-.5, .5, 3) * P.size for _ in range(3)]
    q = "(list %s)" % " ".join("(begin (get-%s %d) (map get-field-point (list %s)))" % (g, b, " ".join(v3(x) for x in pts))
                               for b in range(1, nb + 1) for g in ("bfield", "dfield"))
    base = P.ctl([k]) + "(set! randomize-fields? true)\n" + ("(set! eigensolver-block-size %d)\n" % bs if bs else "")
    how = str(r.choice(["scale", "solve", "fresh-random"]))
    d = ctx.dir()
    ctl = base + "(run)(vp 'before %s)(save-eigenvectors \"A\")(output-eigenvectors (get-eigenvectors %d %d) \"B.h5\")\n" % (q, b0, nr)
    ctl += {"scale": "(scale-eigenvector %d 2.5)(save-eigenvectors \"S\")" % b0, "solve": "(solve-kpoint (vector3 .21 .1 0))",
            "fresh-random": "(init-params NO-PARITY true)(solve-kpoint %s)" % v3(k)}[how]
    # restore: fields with the k of the restored state
    ctl += "(set-kpoint-index 7)(load-eigenvectors \"A.h5\")(save-eigenvectors \"A2\")\n"
    if how == "scale":
        ctl += "(vp 'after %s)" % q
    # a range of bands at another place
    ctl += "(define q (input-eigenvectors \"B\" %d))(set-eigenvectors q %d)(save-eigenvectors \"C\")(output-eigenvectors q \"B2\")" % (nr, to)
    R = ctx.mpb(ctl, cfg, cwd=d, np_=np_)
    if R.rc:
        if "failure to converge" in R.out:
            ctx.n("not_converged")
            return
        ctx.bad("stopped:", tag + R.why())
        return
    A, A2, B, B2, C = (h5.read(os.path.join(d, x + ".h5"))["rawdata"] for x in ("A", "A2", "B", "B2", "C"))
    N = int(np.prod(P.n))
    cplx = cfg not in ("inv", "invmpi")
    want = (N, 2, nb, 2 if cplx else 1)
    if A.shape != want:
        ctx.bad("shape", tag + " %s, expected %s" % (A.shape, want))
        return

    def same(x, y, what):
        ctx.n("compared"); ctx.n("numbers", int(np.size(x)))
        if np.shape(x) != np.shape(y) or not np.array_equal(x, y):
            ctx.bad(what, tag + " %s %s" % (np.shape(x), np.shape(y)))
    same(A, A2, "save-load-save")
    same(B, A[:, :, b0 - 1:b0 - 1 + nr], "range-saved")
    same(B2, B, "range-reloaded")
    E = A.copy()
    E[:, :, to - 1:to - 1 + nr] = B
    same(C, E, "range-set")
    if how == "scale":
        S = h5.read(os.path.join(d, "S.h5"))["rawdata"]
        E = A.copy()
        E[:, :, b0 - 1] *= 2.5
        same(S, E, "scaled")
        a, b = R.vpd()["before"][0], R.vpd()["after"][0]
        if str(a) != str(b):
            ctx.bad("fields-after-load", tag)
    if not np.any(A):
        ctx.bad("zero", tag)
    # a new session, with another number of processes
    np2 = int(r.integers(1, 4)) if mpi else 0
    R2 = ctx.mpb(base + "(init-params NO-PARITY true)(load-eigenvectors \"A\")(save-eigenvectors \"D\")(set! num-bands %d)(init-params NO-PARITY true)(define q (input-eigenvectors \"B\" %d))"
                 "(set-eigenvectors q 1)(save-eigenvectors \"E\")(output-eigenvectors (get-eigenvectors 1 %d) \"F\")" % (nr + 1, nr, nr), cfg, cwd=d, np_=np2)
    if R2.rc:
        ctx.bad("stopped:", tag + R2.why())
        return
    D, F = (h5.read(os.path.join(d, x + ".h5"))["rawdata"] for x in "DF")
    same(A, D, "new-session")
    same(B, F, "new-session-range")
    # starting from a file: nothing is left to do
    if r.random() < .5:
        R3 = ctx.mpb(base + "(run-parity NO-PARITY \"A\")(vp 'w freqs)(save-eigenvectors \"G\")", cfg, cwd=d, np_=np2)
        w0 = [float(x.split(",")[1].strip().split()[0]) for x in []]
        fr = [x for x in R.out.split("\n") if x.startswith("freqs:, 1,")]
        if R3.rc or not fr:
            ctx.bad("stopped:", tag + R3.why())
            return
        w0 = np.array([float(x) for x in fr[0].split(",")[6:6 + nb]])
        w = np.array(R3.vpd()["w"][0], float)
        ctx.n("restarts")
        if P.mukind == "none" and np.max(np.abs(w - w0)) > 1e-3 * np.max(np.abs(w0)):
            # the lowest states are the lowest states; they may only improve
            if np.any(w > w0 + 1e-5):
                ctx.bad("restart", tag + " %s %s" % (w0, w))
    ctx.n("runs"); ctx.seen(tag)


# ---------------------------------------------------------------------------------------------------------- fields
def run_field(c, ctx):
    r, P, cfg, mpi, np_ = make(c, nb=2)
    P.tol = 1e-6
    par = "NO-PARITY"
    k = P.rand_k()
    ks = [P.rand_k() for _ in range(int(r.integers(0, 3)))] + [k]
    kind = str(r.choice(["e", "d", "h", "b", "dpwr", "bpwr", "epsilon", "mu", "tot", "C", "flux"]))
    comp = int(r.choice([-1, -1, 0, 1, 2])) if kind in "edhb" or kind == "flux" else -1
    pre = str(r.choice(["", "sub/", "a.h5-", "x.", "q.h5.d/y-"]))
    b = int(r.integers(1, 3))
    get = {"e": "(get-efield %d)", "d": "(get-dfield %d)", "h": "(get-hfield %d)", "b": "(get-bfield %d)", "dpwr": "(get-dfield %d)(compute-field-energy)",
           "bpwr": "(get-bfield %d)(compute-field-energy)", "epsilon": "(get-epsilon)", "mu": "(get-mu)", "tot": "(get-tot-pwr %d)", "C": "(get-charge-density %d)", "flux": "(get-poynting %d)"}[kind]
    get = get % b if "%" in get else get
    fp = {"dpwr": "get-energy-point", "bpwr": "get-energy-point", "C": "(lambda (x) (cscalar-field-get-point cur-field x))", "epsilon": "(lambda (x) (rscalar-field-get-point cur-field x))"}
    fp = fp.get(kind, "(lambda (x) (rscalar-field-get-point cur-field x))" if kind in ("mu", "tot") else "get-field-point" if kind != "flux" else "(lambda (x) (cvector-field-get-point cur-field x))")
    J = np.stack(np.meshgrid(*[np.arange(m) for m in P.n], indexing="ij"), -1).reshape(-1, 3)
    if len(J) > 120:
        J = J[r.permutation(len(J))[:120]]
    X = (J / np.array(P.n) - .5) * P.size * (np.arange(3) < P.dim)
    pts = "(list %s)" % " ".join(v3(x) for x in X)
    copy = r.random() < .5
    out = "(output-field%s)" % ["", "-x", "-y", "-z"][comp + 1] if kind not in ("flux",) else "(output-field%s)" % ["", "-x", "-y", "-z"][comp + 1]
    ctl = P.ctl(ks, filename_prefix='"%s"' % pre) + "(set! randomize-fields? true)(run)(vp 'w freqs)"
    if copy:   # through a copy, after the current field has become something else
        ctl += "%s(define q (field-copy cur-field))(get-hfield 1)(compute-field-energy)(field-load q)(vp 'p (map %s %s))(define q2 (field-make q))(field-set! q2 q)%s(field-load q2)" % (
            get, fp, pts, "(get-efield 2)" + out if r.random() < .5 else "(get-dfield 2)")
    else:
        ctl += "%s(vp 'p (map %s %s))" % (get, fp, pts)
        nm = {"dpwr": "dpwr", "bpwr": str(r.choice(["bpwr", "hpwr"])), "tot": "tot-pwr", "flux": "poynting", "C": "charge-density", "epsilon": "epsilon", "mu": "mu"}.get(kind, kind + "field")
        named = "(output-%s%s%s)" % (nm, ["", "-x", "-y", "-z"][comp + 1] if kind in "edhb" or kind == "flux" else "", "" if kind in ("epsilon", "mu") else " %d" % b)
        if r.random() < .6:   # by the function that computes and writes the field
            out, pre = named, pre + {"tot": "tot.", "flux": "flux."}.get(kind, "") if pre or kind not in ("tot", "flux") else "in-" + {"tot": "tot.", "flux": "flux."}[kind]
    ctl += out
    d = ctx.dir()
    for x in ("sub", "q.h5.d"):
        os.mkdir(os.path.join(d, x))
    tag = "field %s np=%d %s k=%s %s%s band %d prefix '%s'%s" % (cfg, np_, P.tag(), np.round(k, 3), kind, ["", ".x", ".y", ".z"][comp + 1], b, pre, " copied" if copy else "")
    R = ctx.mpb(ctl, cfg, cwd=d, np_=np_)
    if R.rc:
        if "failure to converge" in R.out:
            ctx.n("not_converged")
            return
        ctx.bad("stopped:", tag + R.why())
        return
    t = {"dpwr": "dpwr", "bpwr": "bpwr", "tot": "rpwr", "C": "C", "flux": "v"}.get(kind, kind)
    if kind == "tot" and R.out.count("rpwr") == 0:
        pass
    name = kind if kind in ("epsilon", "mu") else "%s.k%02d.b%02d%s" % (t, len(ks), b, ["", ".x", ".y", ".z"][comp + 1])
    path = os.path.join(d, (pre or "in-") + name + ".h5")
    if copy and not os.path.exists(path) and kind not in ("epsilon", "mu"):
        # the band number in the name is that of the last field computed
        alt = path.replace(".b%02d" % b, ".b%02d" % (3 - b)).replace(".b%02d" % b, ".b%02d" % 2)
        for bb in (1, 2):
            alt = os.path.join(d, (pre or "in-") + "%s.k%02d.b%02d%s" % (t, len(ks), bb, ["", ".x", ".y", ".z"][comp + 1]) + ".h5")
            if os.path.exists(alt):
                path = alt
    if not os.path.exists(path):
        ctx.bad("file-name", tag + " expected %s, there are %s" % (path[len(d) + 1:], [os.path.join(a, x)[len(d) + 1:] for a, _, y in os.walk(d) for x in y if x.endswith(".h5")]))
        return
    e = read(path, mpi)
    ok = True

    def attr(nm, want, tol=1e-9):
        x = e.get(nm)
        ctx.n("attributes")
        if x is None or np.shape(x) != np.shape(want) or np.max(np.abs(np.asarray(x) - want)) > tol:
            ctx.bad("attribute:" + nm, tag + " %s, expected %s" % (x, want))
    attr("lattice vectors", np.where(np.arange(3)[:, None] < P.dim, P.R, e.get("lattice vectors")))
    vec = kind in ("e", "d", "h", "b", "flux")
    if vec or kind == "C":
        attr("Bloch wavevector", k * (kind != "flux"), 1e-7)
    w = np.array(R.vpd()["w"][0], float)
    bn = re.findall(r"\.k\d\d\.b(\d\d)", os.path.basename(path))
    bn = int(bn[-1]) if bn else b
    want = {"epsilon": "dielectric function, epsilon", "mu": "permeability mu"}.get(kind) or (
        "%s field, kpoint %d, band %d, freq=%.6g" if vec or kind == "C" else "%s field energy density, kpoint %d, band %d, freq=%.6g") % (t[0] if vec or kind == "C" else t[0].upper(), len(ks), bn, w[bn - 1])
    if e.get("description") != want and str(e.get("description", "")).rsplit("=", 1)[0] != want.rsplit("=", 1)[0]:
        ctx.bad("description", tag + " '%s', expected '%s'" % (e.get("description"), want))
    dims = tuple(P.n)
    names = ["%s.%s" % (x, y) for x in ("xyz" if comp < 0 else "xyz"[comp]) for y in "ri"] if vec else ["c.r", "c.i"] if kind == "C" else ["data"]
    have = {q for q in e if q not in ("lattice vectors", "Bloch wavevector", "description")}
    full = set(names) | ({q for q in have if q.startswith("epsilon")} if kind == "epsilon" else set())
    if have != full:
        ctx.bad("datasets", tag + " %s, expected %s" % (sorted(have), sorted(full)))
        return
    got = [x if not isinstance(x, list) else np.array([complex(y) for y in x]) for x in R.vpd()["p"][0]]
    rk = max([i + 1 for i in range(3) if P.n[i] > 1] + [1])
    for q in names:
        if e[q].size != np.prod(dims):
            ctx.bad("size", tag + " %s %s" % (q, e[q].shape))
            return
    ph = np.exp(1j * np.pi * np.sum(np.asarray(k)[:P.dim])) if (vec or kind == "C") and kind != "flux" else 1
    # off-axis components of k have no phase where there is no extent
    A = {q: e[q].reshape(dims) for q in names}
    sc = max(np.max(np.abs(x)) for x in A.values()) + max(np.max(np.abs(np.asarray(x, complex))) for x in got)
    if sc == 0:
        ctx.n("zero_fields")
    worst = 0
    for j, g in zip(J, got):
        j = tuple(j)
        if vec:
            for x in ("xyz" if comp < 0 else "xyz"[comp]):
                worst = max(worst, abs(A[x + ".r"][j] + 1j * A[x + ".i"][j] - g["xyz".index(x)] * ph))
        elif kind == "C":
            z = A["c.r"][j] + 1j * A["c.i"][j]
            worst = max(worst, abs(z - complex(g) * ph))
        else:
            worst = max(worst, abs(A["data"][j] - float(np.real(complex(g)))))
    ctx.n("points", len(J))
    if worst > 1e-9 * sc + 1e-12 and not (kind == "C" and sc < 1e-4):
        ctx.bad("values:" + kind, tag + " differ by %.3g of %.3g" % (worst, sc))
    ctx.n("runs"); ctx.seen(tag)


# ---------------------------------------------------------------------------------------------------------- dielectric files
def pixel_interp(D, x):
    """multilinear between pixel centres, ends mirrored; x in cell units, reduced to [0,1)"""
    D = np.asarray(D).reshape(list(np.shape(D)) + [1] * (3 - np.ndim(D)))
    n = np.array(D.shape)
    t = (x - np.floor(x)) * n - .5
    b = np.floor(t).astype(int)
    w = t - b
    out = 0
    for c in range(8):
        s = np.array([c & 1, c >> 1 & 1, c >> 2 & 1])
        i = np.clip(b + s, 0, n - 1)
        out = out + np.prod(np.where(s == 1, w, 1 - w), -1) * D[i[..., 0], i[..., 1], i[..., 2]]
    return out


def run_epsfile(c, ctx):
    r, P, cfg, mpi, np_ = make(c, mu="none" if o.rng(*c["s"], 3).random() < .7 else None)
    if r.random() < .5:
        P.objs = []
    rank = int(r.integers(1, 4))
    sh = [int(r.integers(1, 8)) for _ in range(rank)]
    if r.random() < .3:
        sh = list(P.n[:rank])
    D = 10 ** r.uniform(0, 1, sh)
    if P.inv:
        for ax in range(rank):   # the ends are mirrored, so that only this is symmetric on the grid
            D = (D + np.flip(D, ax)) / 2
    const = r.random() < .1
    if const:
        D[...] = D.flat[0]
    ext = str(r.choice(["eps.h5", "eps", "d.h5.x/eps.h5"]))
    d = ctx.dir()
    os.mkdir(os.path.join(d, "d.h5.x"))
    p = os.path.join(d, ext if ext.endswith(".h5") else ext + ".h5")
    nm = str(r.choice(["data", "anything", "zzz"]))
    h5.write(p, {nm: D, **({"lattice vectors": np.eye(3)} if nm == "data" and r.random() < .5 else {})})
    P.mesh = int(r.choice([1, 1, 2, 3]))
    tag = "epsfile %s np=%d %s mesh=%d file %s '%s'" % (cfg, np_, P.tag(), P.mesh, sh, ext)
    R = ctx.mpb(P.ctl([], epsilon_input_file='"%s"' % ext) + "(set! num-bands 1)(init-params NO-PARITY true)(output-epsilon)", cfg, cwd=d, np_=np_)
    if R.rc:
        ctx.bad("stopped:", tag + R.why())
        return
    q = os.path.join(d, "in-epsilon.h5")
    if mpi:
        e = untranspose(q)
        h5.write(q, {a: x for a, x in e.items() if not isinstance(x, str)})
    T = prog.grid_tensors(q, P.n, cfg == "herm", inverse=False)
    Ti = prog.grid_tensors(q, P.n, cfg == "herm")
    X = np.stack(np.meshgrid(*[np.arange(m) / m for m in P.n], indexing="ij"), -1)
    W = pixel_interp(D, X)
    lam = np.linalg.eigvalsh(T)
    mats = [prog.mat_tensor(P.mats[x["m"]]) for x in P.objs]
    lo = min([D.min()] + [np.linalg.eigvalsh(m)[0] for m in mats])
    hi = max([D.max()] + [np.linalg.eigvalsh(m)[-1] for m in mats])
    ctx.n("grid_points", int(W.size))
    if lam.min() < lo * (1 - 1e-9) or lam.max() > hi * (1 + 1e-9):
        ctx.bad("bounds", tag + " %g..%g outside of %g..%g" % (lam.min(), lam.max(), lo, hi))
    if np.max(np.abs(T @ Ti - np.eye(3))) > 1e-6 and P.mesh == 1:
        ctx.bad("inverse", tag)
    if P.mesh == 1:
        nfile = 0
        for j in np.ndindex(*P.n):
            dd = np.max(np.abs(T[j] - np.eye(3) * W[j]))
            # at a jump of the periodic continuation, the last bit decides the side
            near = np.any(np.abs(X[j] * 1.0) < 1e-12)
            if dd < 1e-6 * W[j]:
                nfile += 1
                continue
            if any(np.max(np.abs(T[j] - m)) < 1e-6 * hi for m in mats):
                continue
            ctx.bad("interpolation", tag + " at %s: %s, file %g" % (j, np.round(T[j].real, 6).tolist(), W[j]))
            break
        ctx.n("file_points", nfile)
        if not P.objs and nfile != W.size:
            ctx.n("partial")
    elif const and not P.objs and np.max(np.abs(T - np.eye(3) * D.flat[0])) > 1e-6 * D.flat[0]:
        ctx.bad("constant", tag)
    ctx.n("runs"); ctx.seen(tag)


# ---------------------------------------------------------------------------------------------------------- malformed files
def spoil(r, p, kind):
    """kinds that need bytes rather than datasets"""
    if kind == "text":
        open(p, "w").write("not a data file\n" * 99)
    elif kind == "truncated":
        b = open(p, "rb").read()
        open(p, "wb").write(b[:int(r.integers(0, len(b) // 2)) + 8])
    elif kind == "directory":
        if os.path.exists(p):
            os.remove(p)
        os.mkdir(p)
    elif kind == "missing" and os.path.exists(p):
        os.remove(p)
    elif kind == "flip":
        b = bytearray(open(p, "rb").read())
        for _ in range(int(r.integers(1, 4))):
            b[int(r.integers(0, min(len(b), 96)))] ^= 1 << int(r.integers(8))
        open(p, "wb").write(bytes(b))


def run_badeig(c, ctx):
    r, P, cfg, mpi, np_ = make(c, nmax=4, nmin=2, nb=3, dim=int(o.rng(*c["s"], 1).integers(2, 4)))
    P.tol = 1e-3
    d = ctx.dir()
    N, cx = int(np.prod(P.n)), 1 if cfg in ("inv", "invmpi") else 2
    kinds = ["missing", "text", "truncated", "directory", "bands", "grid", "parts", "rank", "name", "scalar", "empty-name", "wrong-count", "zero"]
    k = kinds[c["s"][-1] % len(kinds)]
    sh = {"bands": (N, 2, int(r.choice([1, 2, 4])), cx), "grid": (N + int(r.choice([-1, 1, N])), 2, 3, cx), "parts": (N, 2, 3, 3 - cx), "rank": [(N, 2, 3), (N * 2 * 3 * cx,), (1, N, 2, 3, cx)][int(r.integers(3))],
          "scalar": (), "zero": (0, 2, 3, cx)}.get(k, (N, 2, 3, cx))
    p = os.path.join(d, "V.h5")
    h5.write(p, {"rawdata" if k != "name" else "data": r.normal(size=sh) if sh else np.array(2.)})
    spoil(r, p, k)
    cmd = str(r.choice(["(load-eigenvectors \"V\")", "(define q (input-eigenvectors \"V\" 3))", "(run-parity NO-PARITY \"V\")"]))
    if k == "wrong-count":
        cmd = "(input-eigenvectors \"V\" %d)" % int(r.choice([0, 1, 2, 4, 100, -1]))
    if k == "empty-name":
        cmd = "(load-eigenvectors \"\")"
    tag = "badeig %s np=%d %s %s" % (cfg, np_, k, cmd)
    R = ctx.mpb(P.ctl([P.rand_k("gen")]) + "(init-params NO-PARITY true)(vp 'start 1)\n%s(vp 'end 1)" % cmd, cfg, cwd=d, np_=np_)
    ctx.n("hostile_runs"); ctx.seen(tag)
    v = R.vpd()
    if "end" in v:
        ctx.bad("accepted:" + k, tag)
    elif not refused(R):
        ctx.bad("no-message:" + k, tag + R.out[-200:])


def run_badeps(c, ctx):
    r, P, cfg, mpi, np_ = make(c, nmax=4, nmin=2, nb=1, mu="none")
    P.tol = 1e-3
    P.mesh = int(r.choice([1, 3]))
    d = ctx.dir()
    kinds = ["missing", "text", "truncated", "directory", "rank4", "scalar", "zero", "string", "group-only", "nan", "no-datasets", "huge-name", "flip", "one", "first-not-data"]
    k = kinds[c["s"][-1] % len(kinds)]
    p = os.path.join(d, "V.h5")
    e = {"data": r.uniform(1, 9, (3, 4))}
    if k == "rank4":
        e = {"data": np.ones((2, 2, 2, 2))}
    elif k == "scalar":
        e = {"data": np.array(3.)}
    elif k == "zero":
        e = {"data": np.zeros([(0,), (0, 2), (2, 0), (2, 3, 0)][int(r.integers(4))])}
    elif k == "string":
        e = {"data": "hello"}
    elif k == "nan":
        e["data"][0, 0] = float(r.choice([np.nan, 0, -1, np.inf]))
    elif k == "no-datasets":
        e = {}
    elif k == "one":
        e = {"data": np.ones((1, 1, 1)) * 4}
    elif k == "first-not-data":
        e = {"a description": "text", "data": e["data"]}
    h5.write(p, e)
    spoil(r, p, k)
    fn = "V.h5" if k != "huge-name" else "V" * (100 if mpi else int(r.choice([300, 5000]))) + ".h5"   # (MPI-IO itself does not survive longer names)
    tag = "badeps %s np=%d mesh=%d %s" % (cfg, np_, P.mesh, k)
    R = ctx.mpb(P.ctl([P.rand_k("gen")], epsilon_input_file='"%s"' % fn) + "(vp 'start 1)(init-params NO-PARITY true)(get-epsilon)(vp 'p (map (lambda (x) (rscalar-field-get-point cur-field x)) (list (vector3 0 0 0) (vector3 .5 .5 .5))))(vp 'end 1)",
                cfg, cwd=d, np_=np_)
    ctx.n("hostile_runs"); ctx.seen(tag)
    v = R.vpd()
    must = {"missing", "text", "directory", "rank4", "zero", "string", "no-datasets", "huge-name", "first-not-data"}
    if "end" in v:
        if k in must:
            ctx.bad("accepted:" + k, tag)
        if k in ("scalar", "one"):
            want = 3. if k == "scalar" else 4.
            if not P.objs and any(abs(float(x) - want) > 1e-9 for x in v["p"][0]):
                ctx.bad("values:" + k, tag)
    elif not refused(R):
        ctx.bad("no-message:" + k, tag + R.out[-200:])
