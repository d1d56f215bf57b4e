"""P19: results depend on the current inputs, not on history."""
import os
import re
import shutil
import subprocess
import numpy as np
import h5
import oracle as o
import prog
import vf
from prog import f, v3

RULE = ("(hist) sessions of 4-7 runs over 2-3 random problems that differ in size, materials, permeability, parity, target, solver settings, input files and material grids, with queries in between, every run against the same problem in a fresh process; "
        "(det) the same session twice with deterministic? and different contents of fresh memory; (query) sessions with and without queries")
ASSUMPTIONS = ["with deterministic? the starting fields are the same, so that a band the solver misses is missed in both runs",
               "allocators fill fresh memory with different bytes in the two processes of (det), which shows results that depend on uninitialised memory"]
MIN_DISTINCT = 40
TOLERATE = ("failure to converge after|non-independent AV subspace|non-positive eigenvalue|bad news: Polak|inexplicable singularity|non-independent Y after|singular DtBD", 6)


def builds(tier):
    return [(c, "mpb") for c in ("complex", "inv", "herm", "cmpi", "invmpi")]


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for j, (mode, n) in enumerate([("hist", 112), ("det", 80), ("query", 112)]):
        for i in range(n if q else 16 * n):
            cfg = str(o.rng(seed, 19, j, i, 9).choice(["complex", "inv", "herm", "cmpi", "invmpi"], p=[.4, .25, .1, .15, .1]))
            out.append({"cfg": cfg, "s": (seed, 19, j, i), "mode": mode, "cost": 4 if mode == "hist" else 2})
    return out


def sub(ctx, name):
    d = os.path.join(ctx.dir(), name)
    os.makedirs(d, exist_ok=True)
    return d


def run(c, ctx):
    globals()["run_" + c["mode"]](c, ctx)


# flags 76: the defaults, and always exact line minimisation; otherwise measured times decide between two methods
RESET = """(set! default-material air)(set! geometry '())(set! force-mu? false)(set! target-freq 0)(set! epsilon-input-file "")(set! mu-input-file "")(set! ensure-periodicity true)(set! eigensolver-block-size -11)(set! eigensolver-nwork 3)
(set! simple-preconditioner? false)(set! eigensolver-davidson? false)(set! eigensolver-flags 76)(set! negative-epsilon-ok? false)(set! k-points '())(set! filename-prefix "x-")(set! deterministic? true)(set! randomize-fields? false)
(set! k-split-num 1)(set! k-split-index 0)
"""


def problem(r, cfg, tol=1e-7):
    """-> (settings, run form, problem)"""
    inv, mpi = cfg in ("inv", "invmpi"), cfg.endswith("mpi")
    par = str(r.choice(["NO-PARITY", "EVEN-Z", "ODD-Z", "EVEN-Y", "ODD-Y"], p=[.5, .15, .15, .1, .1]))
    z, y = "Z" in par, "Y" in par
    P = prog.Prob(r, dim=int(r.integers(2, 4)) if mpi else None, inv=inv, herm=cfg == "herm" and not z and not y, zmir=z, ymir=y, nmin=3, ortho=True if y else None, nb=int(r.integers(1, 6)))
    P.tol = tol
    ks = []
    for _ in range(int(r.integers(1, 4))):
        k = P.rand_k("gen")
        if z:
            k[2] = 0
        if y:
            k[1] = 0
        ks.append(k)
    st = {}
    if r.random() < .2 and P.mukind == "none":
        st["target-freq"] = f(float(r.uniform(.2, .6)))
    if r.random() < .25:
        st["eigensolver-block-size"] = str(r.choice([1, 2, 3, -2]))
    if r.random() < .2 and "target-freq" not in st:
        st["eigensolver-nwork"] = "2"
    if r.random() < .2:
        st["simple-preconditioner?"] = "true"
    if r.random() < .2 and not st and P.mukind == "none":
        st.update({"eigensolver-davidson?": "true", "eigensolver-nwork": "4"})
    if r.random() < .15 and "target-freq" not in st and "eigensolver-davidson?" not in st:
        st["force-mu?"] = "true"
    if r.random() < .15:
        st["mesh-size"] = str(r.integers(1, 6))
    if r.random() < .15:
        st["randomize-fields?"] = "true"
    s = RESET + P.ctl(ks) + "".join("(set! %s %s)" % kv for kv in st.items())
    if r.random() < .2 and not (z or y):
        s += "(set! geometry (append geometry (list (make block (center 0) (size 0.4 0.4 0.4) (material (make material-grid (epsilon-min 2) (epsilon-max 6) (size 3 2 1) (matgrid-init (lambda (x y z) (* x x)))))))))"
    elif r.random() < .12 and not (z or y) and P.mukind == "none":
        s += "(set! epsilon-input-file \"struct.h5\")"
    s += "\n"
    return s, "(run-parity %s true)" % par, P, st, par


def struct_file(r, d):
    x = r.uniform(1, 6, (4, 4))
    x = x + x[::-1, ::-1]
    h5.write(os.path.join(d, "struct.h5"), {"epsilon": x})


def queries(r, P, n):
    pts = lambda: v3(r.uniform(-.5, .5, 3) * P.size)
    out = []
    for _ in range(n):
        b = "(min %d num-bands)" % r.integers(1, P.nb + 1)
        out.append(str(r.choice(["(get-dfield {b})(compute-field-energy)", "(get-bfield {b})(compute-field-energy)(get-energy-point {p})", "(get-bfield {b})(get-field-point {p})", "(get-efield {b})(compute-field-divergence)", "(get-efield {b})",
            "(get-charge-density {b})", "(get-epsilon)(get-epsilon-point {p})", "(get-mu)", "(compute-zparities)", "(compute-yparities)", "(compute-group-velocity-component (vector3 1 0.3 0))", "(compute-1-group-velocity {b})",
            "(compute-group-velocities)", "(get-poynting {b})", "(get-tot-pwr {b})", "(get-dominant-planewave {b})", "(define zz-ev (get-eigenvectors 1 {b}))(dot-eigenvectors zz-ev 1)", "(save-eigenvectors \"q\")", "(output-epsilon)", "(output-hfield {b})",
            "(output-dpwr {b})", "(get-dfield {b})(define zz-fl (field-copy cur-field))(field-map! zz-fl (lambda (x) (vector3-scale 2 x)) zz-fl)", "(get-efield {b})(compute-field-integral (lambda (F e r) (vector3-x F)))(get-dfield {b})(compute-field-energy)(compute-energy-in-dielectric 1 5)",
            "(get-epsilon-inverse-tensor-point {p})(gc)", "(get-hfield {b})(field-load (field-copy cur-field))(output-field)", "(get-dfield {b})(compute-field-energy)(compute-energy-in-objects (make sphere (center 0) (radius 0.3)))", "(if (> (length band-range-data) 1) (retrieve-gap 1))"])).replace("{b}", b).replace("{p}", pts()))
    return out


OUT = """(vp 'freqs all-freqs)(vp 'gaps gap-list)(vp 'zpar (compute-zparities))(vp 'ypar (compute-yparities))(vp 'gv (compute-group-velocity-component (vector3 1 0.3 0.2)))
(get-dfield num-bands)(vp 'energy (compute-field-energy))(vp 'etot (compute-energy-in-dielectric 0 1e20))(vp 'eps (get-epsilon-point (vector3 0.13 0.21 0)))(vp 'epsint (compute-energy-integral (lambda (u e r) e)))
"""


def np_of(r, cfg):
    return int(r.integers(1, 4)) if cfg.endswith("mpi") else 0


def nums(x):
    return np.concatenate([nums(y) for y in x]) if isinstance(x, list) and x else np.array([] if isinstance(x, list) else [complex(x)])


# one session of many runs, each against a fresh process
def run_hist(c, ctx):
    r = o.rng(*c["s"])
    cfg = c["cfg"]
    np_ = np_of(r, cfg)
    pool = [problem(r, cfg) for _ in range(int(r.integers(2, 4)))]
    if r.random() < .3:     # same structure, one changed setting
        s, go, P, st, par = pool[0]
        pool[1] = (s + str(r.choice(["(set! num-bands %d)" % (P.nb % 4 + 1), "(set! target-freq 0.37)" if P.mukind == "none" and not set(st) & {"force-mu?", "eigensolver-nwork"} else "", "(set! force-mu? true)" if not set(st) & {"target-freq", "eigensolver-davidson?"} else "", "(set! eigensolver-block-size 1)", "(set! mesh-size 4)", "(set! resolution (vector3+ resolution (vector3 1 1 1)))",
                                     "(set! k-points (list (vector3 0.11 0 0)))", "(set! geometry (if (pair? geometry) (cdr geometry) geometry))"])), go, P, st, par)
    seq = [int(r.integers(len(pool))) for _ in range(int(r.integers(4, 8)))]
    d = sub(ctx, "a")
    struct_file(r, d)
    t = "(define-param q 1)\n"
    for i in seq:
        s, go, P, st, par = pool[i]
        t += s + go + "\n(vp 'run %d)" % i + OUT
        for x in queries(r, P, int(r.integers(0, 5))):
            t += x + "\n"
    tag = "hist %s np=%d seq=%s" % (cfg, np_, seq)
    R = execute(ctx, c, t, np_, d, 255)
    if R.rc:
        ctx.bad("stopped:", tag + R.why())
        return
    fresh = {}
    for i in set(seq):
        d2 = sub(ctx, "f%d" % i)
        shutil.copy(os.path.join(d, "struct.h5"), d2)
        F = execute(ctx, c, pool[i][0] + pool[i][1] + "\n(vp 'run %d)" % i + OUT, np_, d2, 0)
        if F.rc:
            ctx.bad("stopped:", tag + F.why())
            return
        fresh[i] = dict(F.vp())
    cur = None
    blocks = []
    for k, v in R.vp():
        if k == "run":
            blocks.append((v, {}))
        else:
            blocks[-1][1][k] = v
    if [b[0] for b in blocks] != seq:
        ctx.bad("runs", tag + " %s" % [b[0] for b in blocks])
        return
    for pos, (i, got) in enumerate(blocks):
        s, go, P, st, par = pool[i]
        want = fresh[i]
        ctx.n("runs")
        fr = nums(want["freqs"]).real
        # degenerate or nearly degenerate bands may mix, and the last one may belong to such a group
        w = np.abs(nums(want["freqs"][-1]).real)
        gap = min([abs(a - b) for j, a in enumerate(w) for b in w[:j]] + [1])
        same = 0
        for key in want:
            if key == "run":
                continue
            a, b = nums(got.get(key, [])), nums(want[key])
            ctx.n("values", len(b))
            same += np.array_equal(a, b)
            if key in ("zpar", "ypar", "gv", "energy") and gap < 1e-2:
                continue
            if key == "energy":
                a, b = a[1:], b[1:]     # the parts; the total is a normalisation
            tol = {"freqs": 2e-5, "gaps": 1e-2, "eps": 1e-9, "epsint": 1e-9}.get(key, 2e-2)
            if len(a) != len(b) or np.max(np.abs(a - b), initial=0) > tol * max(1, np.max(np.abs(b), initial=0)):
                if key == "gaps" and len(a) != len(b) and min(x for x in [abs(z) for z in np.concatenate([a, b])[::3]]) < 1e-2:
                    continue    # a gap of almost no width
                ctx.bad("history:" + key, tag + " run %d (problem %d: %s %s %s): %s, alone %s" % (pos, i, P.tag(), par, st, np.round(a, 8).tolist(), np.round(b, 8).tolist()))
                return
        ctx.n("bit_identical", int(same == len(want) - 1))
    ctx.n("histories"); ctx.seen(tag + pool[0][2].tag())


def clean(x):
    """the output without timings"""
    return [l for l in x.splitlines() if not re.search(r"elapsed time|time for|seconds|\.k\d\d\.|^\[|mpirun|total", l)]


def raws(d):
    return {n: h5.read(os.path.join(d, n)) for n in sorted(os.listdir(d)) if n.endswith(".h5") or re.match(r"^s\d+$", n)}


# redzone=128 aligns all arrays alike: the alignment decides which variants of the FFTW and BLAS kernels run
NO_ASLR = ["setarch", "-R"] if subprocess.run("setarch -R true", shell=True, stderr=subprocess.DEVNULL).returncode == 0 else []


def execute(ctx, c, t, np_, d, fill):
    """as ctx.mpb, with the contents of fresh memory set"""
    with open(os.path.join(d, "in.ctl"), "w") as fh:
        fh.write((vf.MPI_PRELUDE if np_ else vf.PRELUDE) + t)
    cmd = NO_ASLR + [ctx.exes["%s:mpb" % c["cfg"]], "in.ctl"]
    if np_:
        cmd = ["mpirun", "--oversubscribe", "--bind-to", "none", "-np", str(np_)] + cmd
    R = ctx.exec(cmd, d, extra_env={"ASAN_OPTIONS": vf.ASAN_OPT + ":redzone=128:max_malloc_fill_size=1000000000:malloc_fill_byte=%d" % fill})
    if np_:
        R.ranks = [open(os.path.join(d, "vp.%d" % i), errors="replace").read() if os.path.exists(os.path.join(d, "vp.%d" % i)) else "" for i in range(np_)]
        R.out += "\n" + R.ranks[0]
    return R


def compare(ctx, key, tag, A, B, da, db, out=True):
    a, b = A.vp(), B.vp()
    ctx.n("values_compared", len(a))
    for x, y in zip(a, b):
        if repr(x) != repr(y):
            ctx.bad(key + ":" + x[0], tag + " %s, then %s" % (x, y))
            return False
    if len(a) != len(b):
        ctx.bad(key + ":missing", tag + " %d and %d values" % (len(a), len(b)))
        return False
    fa, fb = raws(da), raws(db)
    for n in fa:
        if n not in fb:
            ctx.bad(key + ":file", tag + " %s" % n)
            return False
        ctx.n("files_compared")
        for ds in fa[n]:
            x, y = fa[n][ds], fb[n].get(ds)
            if not (np.array_equal(x, y) if not isinstance(x, (str, bytes)) else x == y):
                ctx.bad(key + ":file", tag + " %s/%s differs" % (n, ds) + (" by %g" % np.max(np.abs(x - y)) if hasattr(x, "dtype") and x.dtype.kind == "f" and np.shape(x) == np.shape(y) else ""))
                return False
    return True


# two identical sessions, with other bytes in fresh memory
def run_det(c, ctx):
    r = o.rng(*c["s"])
    cfg = c["cfg"]
    np_ = np_of(r, cfg)
    t, tags = "", []
    for j in range(int(r.integers(1, 3))):
        s, go, P, st, par = problem(r, cfg, 1e-4)
        go = go if j == 0 or r.random() < .6 else go.replace("true", "false")
        t += s + go + "\n" + OUT + "(save-eigenvectors \"s%d\")" % j
        for x in queries(r, P, int(r.integers(0, 6))):
            t += x + "\n"
        t += "(output-dfield 1)(output-bfield num-bands)(output-epsilon)\n"
        tags.append(P.tag() + " " + par)
    da, db = sub(ctx, "a"), sub(ctx, "b")
    struct_file(o.rng(*c["s"], 1), da); struct_file(o.rng(*c["s"], 1), db)
    tag = "det %s np=%d %s" % (cfg, np_, tags)
    A, B = execute(ctx, c, t, np_, da, 0), execute(ctx, c, t, np_, db, int(r.choice([0x7f, 0xff, 0x40, 0xbf])))
    if A.rc or B.rc:
        if A.rc != B.rc:
            ctx.bad("det:stopped-once", tag + A.why() + B.why())
        else:
            ctx.bad("stopped:", tag + A.why())
        return
    if compare(ctx, "det", tag, A, B, da, db) and not np_:
        x, y = clean(A.out), clean(B.out)
        if x != y:
            j = [i for i, (p, q) in enumerate(zip(x, y)) if p != q][:1]
            ctx.bad("det:output", tag + " %s" % ([x[j[0]], y[j[0]]] if j else [len(x), len(y)]))
    ctx.n("pairs"); ctx.seen(tag)


# queries change nothing
def run_query(c, ctx):
    r = o.rng(*c["s"])
    cfg = c["cfg"]
    np_ = np_of(r, cfg)
    s, go, P, st, par = problem(r, cfg, 1e-4)
    ta, tb = s, s
    ini = "(init-params %s true)" % par
    ta += ini; tb += ini
    n = int(r.integers(2, 4))
    for j in range(n):
        k = P.rand_k("gen")
        if "Z" in par:
            k[2] = 0
        if "Y" in par:
            k[1] = 0
        x = "(solve-kpoint %s)(vp 'freqs freqs)(save-eigenvectors \"s%d\")\n" % (v3(k), j)
        ta += x; tb += x
        for q in queries(r, P, int(r.integers(1, 7))):
            ta += q + "\n"
    end = OUT.replace("(vp 'freqs all-freqs)(vp 'gaps gap-list)", "") + "(get-efield 1)(vp 'e (get-field-point (vector3 .1 .2 .3)))(output-efield 1)(output-bfield num-bands)"
    da, db = sub(ctx, "a"), sub(ctx, "b")
    struct_file(o.rng(*c["s"], 1), da); struct_file(o.rng(*c["s"], 1), db)
    tag = "query %s np=%d %s %s %s" % (cfg, np_, P.tag(), par, st)
    A, B = execute(ctx, c, ta + end, np_, da, 255), execute(ctx, c, tb + end, np_, db, 255)
    if A.rc or B.rc:
        ctx.bad("stopped:", tag + (A if A.rc else B).why())
        return
    compare(ctx, "query", tag, B, A, db, da)
    ctx.n("pairs"); ctx.seen(tag)
