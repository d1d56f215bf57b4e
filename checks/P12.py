"""P12: mpb-data against an independent interpolation of the same file; hostile files; files of the real programs."""
import os
import numpy as np
import oracle as o
import prog
import vf
import h5
from P02 import retry
from prog import f, v3

RULE = ("runs of mpb-data on generated or program-written files with random options; a run counts when every output dataset was compared point by point with an "
        "independent Bloch-periodic interpolation (or a hostile input was refused or processed without a memory error); signature is options + kind of file")
ASSUMPTIONS = ["pixellized output at a point half-way between two grid points may take either of them", "grid sizes of the output within 1e-9 of a half are not judged"]
MIN_DISTINCT = 30
EPS = ["data"] + [p + q for p in ("epsilon.", "epsilon_inverse.") for q in ("xx", "xy", "xz", "yy", "yz", "zz")]


def builds(tier):
    return [("complex", "data"), ("complex", "mpb"), ("inv", "mpb"), ("cmpi", "mpb")]


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for mi, (m, n) in enumerate((("files", 220), ("hostile", 120), ("program", 40), ("untranspose", 16))):
        for i in range(n if q else 12 * n):
            out.append({"cfg": "complex", "s": (seed, 12, mi, i), "mode": m, "cost": {"program": 3, "untranspose": 5}.get(m, 1)})
    return out


def run(c, ctx):
    globals()["run_" + c["mode"]](c, ctx)


# ------------------------------------------------------------------------------------------------ the documented transformation
class Opt:
    def __init__(self):
        self.r, self.e, self.n, self.m, self.P, self.T, self.p, self.d = False, None, None, np.ones(3), 0., False, False, None

    def args(self):
        a = []
        if self.e is not None:
            a += ["-e", "%.17g,%.17g,%.17g" % tuple(self.e)]
        elif self.r:
            a += ["-r"]
        if self.n:
            a += ["-n", "%.17g" % self.n]
        for x, y in zip("xyz", self.m):
            if y != 1:
                a += ["-" + x, "%.17g" % y]
        if self.P:
            a += ["-P", "%.17g" % self.P]
        return a + ["-T"] * self.T + ["-p"] * self.p + (["-d", self.d] if self.d else [])

    def tag(self):
        return " ".join(x[:12] for x in self.args())


def cells(R, opt, copies):
    """input and output cells (rows are vectors), rotation of Cartesian components"""
    Rin = np.asarray(R, float) * (np.ones(3) if copies is None else np.asarray(copies))[:, None]
    Q = np.eye(3)
    Rout = Rin.copy()
    if opt.r or opt.e is not None:
        e = np.asarray(opt.e if opt.e is not None else Rin[0], float)
        e = e / np.linalg.norm(e)
        # along e up to the plane through the ends of the three vectors; the others are freed of their components along e (and each other)
        N = np.cross(Rin[1] - Rin[0], Rin[2] - Rin[0])
        a = e * (Rin[0] @ N) / (e @ N)
        b = Rin[1] - Rin[0]
        b = b - e * (e @ b)
        d = Rin[2] - Rin[0]
        d = d - e * (e @ d)
        d = d - b * (b @ d) / (b @ b)
        Rout = np.stack([a, b, d])
        Q = np.stack([x / np.linalg.norm(x) for x in Rout])   # component i of the output is along output axis i
        if opt.T:
            Q = Q[[1, 0, 2]]
    return Rin, Rout, Rout * opt.m[:, None], Q


def outdims(shape, Rm, opt):
    n = np.array(list(shape) + [1] * (3 - len(shape)))
    if opt.n:
        x = np.linalg.norm(Rm, axis=1) * opt.n + .5
    else:
        x = n * opt.m
    d = np.maximum(np.floor(np.maximum(x, 0)), 1).astype(int)
    d[len(shape):] = 1
    sure = all(abs(x[i] - round(x[i])) > 1e-9 or float(x[i]).is_integer() and not opt.n for i in range(len(shape)))
    return d, sure


def resample(F, Rin, Rm, d, k, opt):
    """F: values on the input grid (last axis: several datasets); returns candidates on the output grid"""
    n = np.array(F.shape[:3])
    M = np.linalg.inv(Rin.T) @ Rm.T     # input-cell coordinates of the output-cell vectors, as columns
    idx = np.stack(np.meshgrid(*[np.arange(x) for x in d], indexing="ij"), -1)
    u = (idx / d - .5) @ M.T + .5
    t = u * n
    out = np.zeros((*d, F.shape[3]), complex)
    amb = np.zeros(tuple(d), bool)
    base = np.floor(t)
    w = t - base
    # a coordinate within rounding of an integer is that integer
    near = np.abs(t - np.round(t)) < 1e-9
    base = np.where(near, np.round(t), base).astype(int)
    w = np.where(near, 0, w)
    if opt.p:
        amb = np.any(np.abs(w - .5) < 1e-7, -1)
        w = np.where(w <= .5, 0., 1.)
    for c in range(8):
        b = np.array([c & 1, c >> 1 & 1, c >> 2 & 1])
        i = base + b
        wt = np.prod(np.where(b == 1, w, 1 - w), -1)
        cell = np.floor_divide(i, n)
        j = i - cell * n
        ph = np.exp(2j * np.pi * (cell @ k))
        out += (wt * ph)[..., None] * F[j[..., 0], j[..., 1], j[..., 2]]
    return out, amb


def get3(x):
    x = np.asarray(x)
    return x.reshape(list(x.shape) + [1] * (3 - x.ndim))


def expected(e, at, opt):
    """name -> (array, ambiguous points) of the outputs for the file e with attributes at"""
    R = at.get("lattice vectors", np.eye(3))
    k = np.asarray(at.get("Bloch wavevector", np.zeros(3)), float)
    cp = at.get("lattice copies")
    Rin, _, Rm, Q = cells(R, opt, cp)
    if cp is not None:
        k = k * np.asarray(cp)
    sc = np.exp(2j * np.pi * opt.P / 360)
    out = {}

    def put(names, F, kk, shape, cplx):
        d, sure = outdims(shape, Rm, opt)
        if not sure:
            return False
        y, amb = resample(F, Rin, Rm, d, kk, opt)
        y = y * sc if cplx else y
        if opt.T:
            y, amb = np.swapaxes(y, 0, 1), np.swapaxes(amb, 0, 1)
        sh = y.shape[:len(shape)]
        for i, nm in enumerate(names):
            if cplx:
                out[nm + ".r"] = (y[..., i].real.reshape(sh), amb.reshape(sh))
                out[nm + ".i"] = (y[..., i].imag.reshape(sh), amb.reshape(sh))
            else:
                out[nm] = (y[..., i].real.reshape(sh), amb.reshape(sh))
        return True
    ok = True
    for nm in ([opt.d] if opt.d else EPS):
        if nm in e and not isinstance(e[nm], str):
            ok &= put([nm], get3(e[nm])[..., None].astype(complex), np.zeros(3), e[nm].shape, False)
        if nm + ".r" in e:
            ok &= put([nm], (get3(e[nm + ".r"]) + 1j * get3(e[nm + ".i"]))[..., None], k, e[nm + ".r"].shape, True)
    if not opt.d:
        have = [q for q in "xyz" if q + ".r" in e and q + ".i" in e]
        if len(have) == 3:
            F = np.stack([get3(e[q + ".r"]) + 1j * get3(e[q + ".i"]) for q in "xyz"], -1)
            ok &= put(list("xyz"), F @ Q.T, k, e["x.r"].shape, True)
        else:
            for q in have:
                ok &= put([q], (get3(e[q + ".r"]) + 1j * get3(e[q + ".i"]))[..., None], k, e[q + ".r"].shape, True)
            for q in "xyz":
                if q in e:
                    ok &= put([q], get3(e[q])[..., None].astype(complex), np.zeros(3), e[q].shape, False)
    return out if ok else None


def options(r, dim, cplx):
    opt = Opt()
    opt.r = r.random() < .45
    if opt.r and r.random() < .6:
        opt.e = r.normal(size=3) * (np.arange(3) < max(dim, 2))
        if r.random() < .3:
            opt.e = np.eye(3)[int(r.integers(dim))] * float(r.choice([1, -1, 3]))
    if r.random() < .5:
        opt.n = float(r.uniform(3, 11))
    for i in range(3):
        if r.random() < .4:
            opt.m[i] = float(r.choice([2, 3, .5, 1.5, float(np.round(r.uniform(.3, 3.3), 3))]))
    if r.random() < .3:
        opt.P = float(r.choice([90, 180, -45, float(r.uniform(-360, 360))]))
    opt.T = r.random() < .25 and dim > 1
    opt.p = r.random() < .25
    return opt


def compare(ctx, bad, tag, out, want, e0, newfile, suffix):
    """out: file after the run; want: expected datasets; e0: contents before"""
    names = {n + suffix for n in want}
    extra = set(out) - names - (set() if newfile else set(e0))
    if extra or names - set(out):
        bad("datasets", tag + " unexpected %s missing %s" % (sorted(extra)[:5], sorted(names - set(out))[:5]))
        return
    for n, (y, amb) in want.items():
        x = out[n + suffix]
        if x.shape != y.shape:
            bad("size", tag + " %s: %s, expected %s" % (n, x.shape, y.shape))
            return
        ctx.n("datasets"); ctx.n("points", int(x.size)); ctx.n("points_not_judged", int(amb.sum()))
        sc = max(1e-300, np.max(np.abs(y)), np.max(np.abs(x)))
        err = np.abs(x - y) > 1e-6 * sc
        if np.any(err & ~amb):
            i = np.unravel_index(np.argmax(np.where(amb, 0, np.abs(x - y))), x.shape)
            bad("values", tag + " %s%s: %g, expected %g (%d of %d points)" % (n, i, x[i], y[i], int(np.sum(err & ~amb)), x.size))
            return
    if not newfile:
        for n in e0:
            if n in names:
                continue
            a, b = e0[n], out[n]
            ctx.n("datasets_untouched")
            if isinstance(a, str) and a != b or not isinstance(a, str) and (a.shape != b.shape or not np.array_equal(a, b)):
                bad("input-changed", tag + " " + n)


def run_files(c, ctx):
    r = o.rng(*c["s"])
    dim = int(r.integers(1, 4))
    kind = str(r.choice(["data", "cplx", "vector", "eps", "partial", "mixed", "custom"]))
    n = [int(r.integers(1 if r.random() < .15 else 2, {1: 20, 2: 9, 3: 6}[dim])) for _ in range(dim)]
    smooth = r.random() < .3

    def rnd():
        return r.normal(size=n) * 10 ** float(r.uniform(-2, 2))
    e = {}
    if kind in ("data", "mixed"):
        e["data"] = rnd()
    if kind in ("cplx", "mixed"):
        e["data.r"], e["data.i"] = rnd(), rnd()
    if kind in ("vector", "mixed"):
        for q in "xyz":
            e[q + ".r"], e[q + ".i"] = rnd(), rnd()
    if kind in ("eps",):
        e = {q: rnd() for q in EPS}
    if kind == "partial":
        q = str(r.choice(list("xyz")))
        e = {q + ".r": rnd(), q + ".i": rnd()} if r.random() < .7 else {q: rnd()}
    opt = options(r, dim, True)
    if kind == "custom":
        e = {"foo": rnd(), "bar.r": rnd(), "bar.i": rnd(), "data": rnd()}
        for q in "xyz":
            if r.random() < .3:
                e[q + ".r"], e[q + ".i"] = rnd(), rnd()
        opt.d = str(r.choice(["foo", "bar", "data", "nothing", "foo", "x"]))
    e["description"] = "a file"
    e["other"] = r.normal(size=4)
    at = {}
    if r.random() < .9:
        R = np.eye(3) if r.random() < .3 else np.diag(r.uniform(.5, 2, 3)) if r.random() < .4 else None
        if R is None:
            R = np.eye(3)
            R[:dim, :dim] = r.normal(size=(dim, dim)) * .5 + np.eye(dim)
            while abs(np.linalg.det(R)) < .2:
                R[:dim, :dim] = r.normal(size=(dim, dim)) * .5 + np.eye(dim)
        at["lattice vectors"] = R
    if r.random() < .7:
        at["Bloch wavevector"] = r.uniform(-.7, .7, 3) * (1 if r.random() < .5 else np.arange(3) < dim)
    if r.random() < .2:
        at["lattice copies"] = r.integers(1, 4, 3).astype(float) * (1 if r.random() < .5 else np.arange(3) < dim) + 0.
        at["lattice copies"] = np.maximum(at["lattice copies"], 1)
    want = expected(e, at, opt)
    tag = "%s rank %d n=%s %s %s" % (kind, dim, n, "+".join(sorted(x.split()[0] for x in at)), opt.tag())
    if want is None or sum(y.size for y, _ in want.values()) > 400000:
        ctx.n("skipped")
        return
    # conditioning of the output axis: e (almost) parallel to the plane through the ends of the vectors makes the output cell infinite
    Rin, Ro, _, Q = cells(at.get("lattice vectors", np.eye(3)), opt, at.get("lattice copies"))
    if not np.all(np.isfinite(Ro)) or np.max(np.abs(Ro)) > 50 or np.min(np.linalg.norm(Ro, axis=1)) < 1e-2:
        ctx.n("skipped")
        return
    if opt.r or opt.e is not None:
        if abs(abs(np.linalg.det(Ro)) - abs(np.linalg.det(Rin))) > 1e-9:
            raise RuntimeError("oracle: volume changed")
    d = ctx.dir()
    p = os.path.join(d, "in.h5")
    e.update(at)      # the library keeps "attributes of a file" as datasets
    h5.write(p, e, {})
    to = r.random() < .4
    a = opt.args() + (["-o", "out.h5"] if to else []) + (["-v"] if r.random() < .3 else [])
    byname = opt.d and r.random() < .4
    if byname:
        a = [x for i, x in enumerate(a) if x != "-d" and (i == 0 or a[i - 1] != "-d")]
    for rep in range(2 if r.random() < .2 else 1):   # a second run replaces the datasets of the first
        R = ctx.data(a + ["in.h5" + (":" + opt.d if byname else "")], d)
        if R.rc:
            ctx.bad("failed", tag + R.why())
            return
    out = h5.read(os.path.join(d, "out.h5" if to else "in.h5"))
    ctx.n("runs")
    compare(ctx, ctx.bad, tag, out, want, e, to, "" if to else "-new")
    if to:
        compare(ctx, ctx.bad, tag, h5.read(p), {}, e, False, "")
    ctx.seen(tag)


def run_hostile(c, ctx):
    r = o.rng(*c["s"])
    d = ctx.dir()
    p = os.path.join(d, "in.h5")
    kinds = ["missing", "text", "empty", "truncated", "rank0", "rank4", "zero-size", "string", "re-im-size", "re-im-rank", "one-part", "attr-shape", "attr-rank1", "attr-missing",
             "long-name", "no-datasets", "vector-sizes", "group", "singular-lattice", "zero-e", "bad-e", "sizes", "nan-option", "no-args", "directory", "big-option", "nan-data", "bitflip"]
    k = kinds[c["s"][-1] % len(kinds)]
    e, at, a, expect = {"data": r.normal(size=(4, 3))}, {"lattice vectors": np.eye(3)}, ["-v"] if r.random() < .5 else [], None
    fn = "in.h5"
    if k == "rank0":
        e = {"data": np.array(3.5)}
    elif k == "rank4":
        e = {"data": r.normal(size=(2, 2, 2, 2))}
    elif k == "zero-size":
        sh = [[(0,), (0, 3), (3, 0), (2, 0, 2)][int(r.integers(4))]][0]
        e = {"data": np.zeros(sh)} if r.random() < .5 else {q + ri: np.zeros(sh) for q in "xyz" for ri in (".r", ".i")}
    elif k == "string":
        e = {"data": "hello"}
    elif k == "re-im-size":
        e = {"data.r": r.normal(size=(4, 3)), "data.i": r.normal(size=[(3, 4), (4, 4), (2, 3)][int(r.integers(3))])}
    elif k == "re-im-rank":
        e = {"data.r": r.normal(size=(4, 3)), "data.i": r.normal(size=[(12,), (4,), (4, 3, 2), (4, 3, 1)][int(r.integers(4))])}
        if r.random() < .5:
            e = {"data.r": e["data.i"], "data.i": e["data.r"]}
    elif k == "one-part":
        e = {str(r.choice(["data.r", "data.i", "x.r", "y.i"])): r.normal(size=(4, 3))}
    elif k == "attr-shape":
        at = {"lattice vectors": r.normal(size=[(2, 2), (3,), (9,), (3, 4), (3, 3, 2)][int(r.integers(5))]),
              "Bloch wavevector": r.normal(size=[(2,), (3, 3), (4,), (1,)][int(r.integers(4))]), "lattice copies": r.normal(size=[(2,), (3, 3), (5,)][int(r.integers(3))])}
        at = {q: x for q, x in at.items() if r.random() < .7}
    elif k == "attr-rank1":
        at = {"lattice vectors": r.normal(size=3)}
        a = ["-v"]
    elif k == "attr-missing":
        at = {}
    elif k == "long-name":
        nm = "d" * int(r.choice([250, 299, 300, 500, 995, 1100, 3000]))
        e = {nm: r.normal(size=(4, 3))} if r.random() < .6 else e
        if r.random() < .5:
            a += ["-d", nm]
        else:
            fn = "in.h5:" + nm
    elif k == "no-datasets":
        e = {"other": np.zeros(3)}
    elif k == "vector-sizes":
        e = {q + ri: r.normal(size=(4, int(r.integers(2, 5)))) for q in "xyz" for ri in (".r", ".i")}
    elif k == "group":
        a += ["-d", "/"]
    elif k == "singular-lattice":
        at = {"lattice vectors": np.ones((3, 3)) if r.random() < .5 else np.zeros((3, 3))}
        a += ["-r", "-n", "5"][:int(r.integers(4))] if r.random() < .5 else ["-r"]
        a = [x for x in a if x not in ("-n",) or "5" in a]
    elif k == "zero-e":
        a += ["-e", str(r.choice(["0,0,0", "1,-1,0", "nan,0,0", "0,0,1"]))] + ([] if r.random() < .5 else ["-n", "4"])
    elif k == "bad-e":
        a += ["-e", str(r.choice(["", "1", "1,2", "x,y,z", "1;2;3"]))]
    elif k == "sizes":
        a += ["-" + str(r.choice(list("xyzm"))), str(r.choice(["0", "-1", "-0.5", "1e-9", "0.1", "abc"]))]
    elif k == "nan-option":
        a += [str(r.choice(["-n", "-x", "-m", "-P"])), str(r.choice(["nan", "inf", "-inf"]))]
    elif k == "no-args":
        fn = None
        a = [str(x) for x in [["-h"], ["-V"], [], ["-Q"], ["-n"], ["-n", "0"], ["-n", "-2"], ["-o"]][int(r.integers(8))]]
    elif k == "big-option":
        a += [str(r.choice(["-n", "-x", "-m"])), str(r.choice(["1e9", "3e9", "1e5", "1e300", "70000"]))]
    elif k == "nan-data":
        e["data"][0, 0] = np.nan
        e["data"][1, 1] = np.inf
    if k not in ("missing", "text", "empty", "directory"):
        h5.write(p, {**e, **at}, {})
    if k == "text":
        open(p, "w").write("this is no HDF5 file\n" * 50)
    elif k == "empty":
        open(p, "w").close()
    elif k == "directory":
        os.mkdir(p)
    elif k == "truncated":
        b = open(p, "rb").read()
        open(p, "wb").write(b[:int(r.integers(8, len(b)))])
    elif k == "bitflip":
        pass
    if k not in ("no-args",) and r.random() < .4:
        a += ["-o", "out.h5"]
    try:
        R = ctx.data(a + ([fn] if fn else []), d, timeout=100)
    except vf.Hang:
        if k != "big-option":
            raise
        ctx.n("slow_with_a_huge_option")
        return
    ctx.n("hostile_runs"); ctx.n("refused" if R.rc else "accepted")
    ctx.seen("%s %s" % (k, " ".join(x[:9] for x in a)))
    must = {"missing", "text", "directory", "truncated", "rank4", "zero-size", "bad-e", "re-im-size"}
    if k in must and R.rc == 0 and not (k == "truncated" and os.path.exists(p)):
        ctx.bad("accepted:" + k, "%s: exit status 0\n%s" % (k, R.out[-300:]))
    if R.rc and not R.out.strip():
        ctx.bad("no-message", k)
    if k == "one-part" and os.path.exists(p):
        x = h5.read(os.path.join(d, "in.h5"))
        if any(q.endswith("-new") for q in x):
            ctx.bad("half-complex-data", str(sorted(x)))


def run_program(c, ctx):
    """files written by the program: the data tool's points against the fields the program itself reports there"""
    r = o.rng(*c["s"])
    cfg = "inv" if r.random() < .3 else "complex"
    P = prog.Prob(r, inv=cfg == "inv", nb=2, nmin=2)
    k = P.rand_k()
    P.tol = 1e-7
    opt = options(r, P.dim, True)
    opt.p = False
    opt.T = False
    ch = str(r.choice(["e", "d", "h", "dpwr", "eps"]))
    d = ctx.dir()
    get = {"e": "(get-efield 1)(output-field)(get-efield 1)", "d": "(get-dfield 1)(output-field)(get-dfield 1)", "h": "(get-hfield 1)(output-field)(get-hfield 1)",
           "dpwr": "(output-dpwr 1)(get-dfield 1)(compute-field-energy)", "eps": ""}[ch]
    # which points: the output grid of the tool, in Cartesian coordinates
    tag = "program %s %s k=%s %s %s" % (cfg, P.tag(), np.round(k, 3), ch, opt.tag())
    Rin, Ro, Rm, Q = cells(P.R, opt, None)
    dd, sure = outdims([m for m in P.n[:P.dim]], Rm, opt)
    if not sure or not np.all(np.isfinite(Ro)) or np.max(np.abs(Ro)) > 20 or np.prod(dd) > 20000:
        ctx.n("skipped")
        return
    idx = np.stack([r.integers(x, size=8) for x in dd], -1)
    X = (idx / dd - .5) @ Rm                 # Cartesian
    L = X @ np.linalg.inv(P.basis / np.linalg.norm(P.basis, axis=1)[:, None] * P.bsize[:, None]) if 0 else np.linalg.solve(P.R.T, X.T).T
    L = L * np.where(np.array(P.n) > 1, P.size, 1)   # lattice coordinates as the program takes them
    pts = "(list %s)" % " ".join(v3(x) for x in L)
    fn = {"dpwr": "get-energy-point", "eps": "get-epsilon-point"}.get(ch, "get-field-point")
    R = ctx.mpb(P.ctl([k]) + "(set! randomize-fields? true)(run)(output-epsilon)%s(vp 'p (map %s %s))" % (get, fn, pts), cfg, cwd=d)
    if R.rc:
        if "failure to converge" in R.out:
            ctx.n("not_converged")
            return
        ctx.bad("run-failed", tag + R.why())
        return
    name = {"dpwr": "in-dpwr.k01.b01.h5", "eps": "in-epsilon.h5"}.get(ch, "in-%s.k01.b01.h5" % ch)
    e0 = h5.read(os.path.join(d, name))
    D = ctx.data(opt.args() + [name], d)
    if D.rc:
        ctx.bad("failed", tag + D.why())
        return
    e1 = h5.read(os.path.join(d, name))
    want = expected(e0, e0, opt)
    if want is not None:
        compare(ctx, ctx.bad, tag, e1, want, e0, False, "-new")
    ctx.n("program_files")
    ctx.seen(tag)
    # physical check, independent of the file's interpretation, at points that fall on grid points of the input
    got = R.vpd()["p"][0]
    t = (np.linalg.solve(P.R.T, X.T).T + .5) * np.array(P.n)
    on = np.all(np.abs(t - np.round(t)) < 1e-6, 1)
    for i in np.where(on)[0]:
        j = tuple(idx[i][:e1[("data" if ch in ("dpwr", "eps") else "x.r") + "-new"].ndim])
        ctx.n("physical_points")
        if ch in ("dpwr", "eps"):
            if ch == "eps":
                continue   # the scalar in the file and the point query average the tensor differently
            x, y = e1["data-new"][j], float(got[i])
        else:
            x = np.array([e1[q + ".r-new"][j] + 1j * e1[q + ".i-new"][j] for q in "xyz"])
            y = Q @ np.array([complex(z) for z in got[i]]) * np.exp(2j * np.pi * opt.P / 360 + 1j * np.pi * np.sum(k))   # the phase in files starts at the corner of the cell
        if np.max(np.abs(x - y)) > 1e-6 * (1 + np.max(np.abs(y))):
            ctx.bad("physical-point", tag + " at %s: file %s, program %s" % (L[i], x, y))


def run_untranspose(c, ctx):
    """-T undoes the axis order of the parallel program (documented): the datasets become those of the same field in serial order"""
    r = o.rng(*c["s"])
    P = prog.Prob(r, dim=int(r.integers(2, 4)), nb=2, nmin=2, nmax=5)
    k = P.rand_k()
    P.tol = 1e-7
    d = ctx.dir()
    R = ctx.mpb(P.ctl([k]) + "(run)(output-epsilon)(get-efield 1)(output-field)(output-dpwr 1)", "cmpi", cwd=d, np_=int(r.integers(1, 4)))
    if R.rc:
        if "failure to converge" in R.out:
            ctx.n("not_converged")
            return
        ctx.bad("run-failed", P.tag() + R.why())
        return
    for name in ("in-e.k01.b01.h5", "in-epsilon.h5", "in-dpwr.k01.b01.h5"):
        e0 = h5.read(os.path.join(d, name))
        D = ctx.data(["-T", name], d)
        if D.rc:
            ctx.bad("failed", P.tag() + D.why())
            return
        e1 = h5.read(os.path.join(d, name))
        for q in e0:
            x = e0[q]
            if not hasattr(x, "ndim") or x.ndim < 2 or q in ("lattice vectors",) or q + "-new" not in e1:
                continue
            ctx.n("untransposed")
            y = e1[q + "-new"]
            if y.shape != np.swapaxes(x, 0, 1).shape or np.max(np.abs(y - np.swapaxes(x, 0, 1))) > 1e-9 * (1 + np.max(np.abs(x))):
                ctx.bad("untranspose", "%s %s dataset %s" % (P.tag(), name, q))
    ctx.seen("T " + P.tag())
