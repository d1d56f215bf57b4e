"""P08: the complex, inversion-symmetric and Hermitian builds against each other on the same problem."""
import os
import shutil
import numpy as np
import oracle as o
import prog
import h5
from P02 import retry
from P06 import sub_objs
from prog import f, v3

RULE = ("program runs of one random problem (inversion symmetric, or a general one for the complex/Hermitian pair) by two or three builds; a problem counts when "
        "frequencies, velocities, energies, fluxes, tensors, files, interpolated points and integrals of the builds were compared band by band")
ASSUMPTIONS = ["modes of bands separated by less than 1% are compared through frequencies only", "modes solved to 1e-12 agree to 3e-4 up to one phase per band",
               "object averages of libctl repeat to a fraction of a pixel: problems with averaging are compared at the size of the observed difference"]
MIN_DISTINCT = 20


def builds(tier):
    return [(c, "mpb") for c in ("complex", "inv", "herm")]


def cases(tier, seed):
    q = tier == "quick"
    return [{"cfg": "complex", "s": (seed, 8, i), "mode": "prog", "cost": 5} for i in range(120 if q else 1500)]


def run(c, ctx):
    globals()["run_" + c["mode"]](c, ctx)


def body(P, k, pts, r, par):
    """the program text; tags: 'g-…' gauge independent, 'q-…-b' linear in the mode of band b"""
    a = [complex(*r.normal(size=2)) for _ in range(3)]
    fint = "(lambda (F eps p) (* (vector3-cdot (cvector3 %s %s %s) F) (+ 1 eps (vector3-x p))))" % tuple(f(x) for x in a)
    objs = "(list %s)" % " ".join(prog.obj_ctl(q, P.mats) for q in sub_objs(P, r))
    lo = sorted(r.uniform(1, 9, 2))
    s = "(define pts (list %s))(define objs %s)" % (" ".join(v3(p) for p in pts), objs)
    s += "(vp 'g-eps (map get-epsilon-point pts))(vp 'g-tensor (map get-epsilon-inverse-tensor-point pts))(vp 'g-vel (compute-group-velocities))" \
         "(vp 'g-zpar (compute-zparities))(vp 'g-ypar (compute-yparities))"
    s += "(define (pairs u) (if (null? u) u (list (list-ref u 0) (+ (list-ref u 1) (list-ref u 2)) (+ (list-ref u 3) (list-ref u 4)) (+ (list-ref u 5) (list-ref u 6)))))"
    s += "(output-epsilon)"
    for b in range(1, P.nb + 1):
        s += """
(get-dfield {b})(vp 'q-d-{b} (append (map (lambda (p) (get-bloch-field-point p)) pts)))(vp 'q-dp-{b} (map get-field-point pts))
(vp 'q-dint-{b} (compute-field-integral {fint}))(vp 'b-den-{b} (pairs (compute-field-energy)))(vp 'b-dpt-{b} (map get-energy-point pts))
(vp 'b-dobj-{b} (apply compute-energy-in-objects objs))(vp 'b-deps-{b} (compute-energy-in-dielectric {l0} {l1}))
(vp 'b-dint-{b} (compute-energy-integral (lambda (e eps p) (* e (+ eps (vector3-y p) (* .3 (vector3-z p)))))))
(get-efield {b})(vp 'q-e-{b} (map get-bloch-field-point pts))(vp 'q-eint-{b} (compute-field-integral {fint}))
(get-hfield {b})(vp 'q-h-{b} (map get-field-point pts))(vp 'q-hint-{b} (compute-field-integral {fint}))(vp 'b-hen-{b} (pairs (compute-field-energy)))
(get-bfield {b})(vp 'q-b-{b} (map get-field-point pts))(vp 'b-ben-{b} (pairs (compute-field-energy)))
(get-charge-density {b})(vp 'q-rho-{b} (map get-cscalar-point pts))
(get-poynting {b})(vp 'b-s-{b} (map get-field-point pts))(get-tot-pwr {b})(vp 'b-tp-{b} (map get-energy-point pts))
(output-dfield {b})(output-efield {b})(output-hfield {b})(output-bfield {b})(output-poynting {b})(output-tot-pwr {b})(output-dpwr {b})(output-hpwr {b})(output-charge-density {b})
""".format(b=b, fint=fint, l0=f(lo[0]), l1=f(lo[1]))
    return s


def sub(ctx, name):
    d = os.path.join(ctx.dir(), name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def flat(x):
    out = []

    def rec(v):
        if isinstance(v, np.ndarray):
            out.extend(complex(z) for z in v.ravel())
        elif isinstance(v, (list, tuple)):
            for w in v:
                rec(w)
        else:
            out.append(complex(v) if not isinstance(v, str) else np.nan)
    rec(x)
    return np.array(out)


def phase(a, b):
    z = np.vdot(b, a)
    return z / abs(z) if abs(z) > 1e-12 * np.linalg.norm(a) * np.linalg.norm(b) else 1


def run_prog(c, ctx):
    r = o.rng(*c["s"])
    sym = r.random() < .7
    P = prog.Prob(r, inv=sym, nb=int(r.integers(2, 6)), nmin=2 if r.random() < .2 else 3, mu=None if r.random() < .5 else "none")
    k = P.rand_k()
    P.mesh = 1 if r.random() < .7 or P.has_mu() else P.mesh
    P.tol = 1e-12
    pts = [r.uniform(-1.3, 1.3, 3) * np.where(np.array(P.n) > 1, P.size, 1) for _ in range(5)]
    pts.append((np.array([int(r.integers(m)) for m in P.n]) / np.array(P.n) - .5) * np.where(np.array(P.n) > 1, P.size, 1))
    par = "NO-PARITY"
    txt = body(P, k, pts, r, par)
    cfgs = ["complex", "herm"] + (["inv"] if sym else [])
    tag = "%s k=%s nb=%d" % (P.tag(), k, P.nb)

    def one(a, bad):
        res = {}
        for cfg in cfgs:
            R = ctx.mpb(P.ctl([k]) + "(init-params NO-PARITY true)" + "(randomize-fields)" * (3 * a) + "(set! randomize-fields? true)(run)(vp 'g-freqs freqs)" + txt, cfg, cwd=sub(ctx, cfg))
            if R.rc:
                bad("run-failed", tag + " " + cfg + R.out[-600:])
                return
            res[cfg] = (R, R.vpd())
        R0, d0 = res["complex"]
        e0 = h5.read(os.path.join(R0.dir, "in-epsilon.h5"))
        x = e0["data"].reshape(P.n)
        asym = np.max(np.abs(x - x[np.ix_(*[(-np.arange(q)) % q for q in P.n])]))
        for cfg in cfgs[1:]:
            if cfg == "inv" and asym > (1e-9 if P.mesh == 1 else 1e-2):
                ctx.n("structure_not_symmetric_on_the_grid")   # an object boundary through a grid point, or overlapping mirror images
                continue
            if cfg == "inv":
                ctx.n("inversion_pairs")
            compare(ctx, bad, P, tag + " complex/" + cfg, R0, d0, e0, *res[cfg], sym)
    retry(ctx, one)
    ctx.seen(tag)


def compare(ctx, bad, P, tag, R0, d0, e0, R1, d1, sym, rd=None):
    rd = rd or h5.read
    e1 = rd(os.path.join(R1.dir, "in-epsilon.h5"))
    slack = 0
    for q in e0:
        if q not in e1 or np.shape(e0[q]) != np.shape(e1[q]):
            bad("file-contents", tag + " epsilon " + q)
            return
        if hasattr(e0[q], "dtype") and e0[q].dtype.kind == "f" and e0[q].size:
            x = np.max(np.abs(e0[q] - e1[q]) / (1 + np.abs(e0[q])))
            ctx.n("datasets")
            if q in ("data",) or q.startswith("epsilon"):
                slack = max(slack, float(x))
            elif x > 1e-9:
                bad("file-contents", tag + " epsilon " + q)
    if slack > (1e-9 if P.mesh == 1 else 2e-2):
        bad("epsilon", tag + " differs by %g" % slack)
        return
    big = slack > 1e-9
    def cl(key, a, b, tol, scale=None):
        a, b = flat(a), flat(b)
        scale = np.max(np.abs(a), initial=0) if scale is None else scale
        ctx.n("comparisons")
        if a.shape != b.shape or not (np.max(np.abs(a - b), initial=0) <= tol * (scale + 1e-3) * (1 if not big else 1) + 20 * slack * (1 + scale)):
            bad(key, tag + " %s\n%s\n%s" % (key, np.round(a, 6), np.round(b, 6)))
            return False
        return True
    if not cl("frequencies", d0["g-freqs"], d1["g-freqs"], 1e-5, np.max(np.abs(d0["g-freqs"][0])) + .1):
        return
    cl("epsilon-point", d0["g-eps"], d1["g-eps"], 1e-9)
    cl("tensor-point", d0["g-tensor"], d1["g-tensor"], 1e-9)
    if big:
        return
    w = np.array(d0["g-freqs"][0], float)
    for b in range(P.nb - 1):   # the last band's upper neighbour is unknown: skipped
        g = min(w[b + 1] - w[b], w[b] - w[b - 1] if b else np.inf)
        if g < 1e-2 * max(w[b], .3) or w[b] < .02:
            ctx.n("bands_not_isolated")
            continue
        tol = 3e-4 + 3e-6 / g
        cl("velocity", d0["g-vel"][0][b], d1["g-vel"][0][b], tol, 1)
        cl("zparity", d0["g-zpar"][0][b], d1["g-zpar"][0][b], tol, 1)
        cl("yparity", d0["g-ypar"][0][b], d1["g-ypar"][0][b], tol, 1)
        n = b + 1
        sfx = "-%d" % n
        for t in d0:
            if t.startswith("b-") and t.endswith(sfx):
                cl(t[2:-len(sfx)], d0[t], d1[t], 5 * tol)
        # linear quantities share one phase
        f0, f1 = [], []
        for ch in "dehb":
            p0, p1 = (os.path.join(R.dir, "in-%s.k01.b%02d.h5" % (ch, n)) for R in (R0, R1))
            x0, x1 = h5.read(p0), rd(p1)
            if set(x0) != set(x1):
                bad("file-contents", tag + " " + ch)
                return
            for q in ("x", "y", "z"):
                if x0[q + ".r"].shape != x1[q + ".r"].shape:
                    bad("file-contents", tag + " " + ch)
                    return
                f0.append((x0[q + ".r"] + 1j * x0[q + ".i"]).ravel()); f1.append((x1[q + ".r"] + 1j * x1[q + ".i"]).ravel())
            for q in x0:
                if q[:2] not in ("x.", "y.", "z.") and hasattr(x0[q], "dtype") and x0[q].dtype.kind == "f" and np.max(np.abs(x0[q] - x1[q]), initial=0) > 1e-9:
                    bad("file-contents", tag + " %s %s" % (ch, q))
        N = f0[0].size
        a0, a1 = np.concatenate(f0), np.concatenate(f1)
        ph = phase(a0, a1)
        for i, ch in enumerate("dehb"):
            u, v = a0[3 * N * i:3 * N * (i + 1)], a1[3 * N * i:3 * N * (i + 1)]
            cl(ch + "-file", u, v * ph, 5 * tol)
        for t in d0:
            if t.startswith("q-") and t.endswith(sfx):
                sc = np.max(np.abs(flat(d0[t])), initial=0) + .05
                cl(t[2:-len(sfx)] + "-value", d0[t], flat(d1[t]) * ph, 5 * tol, sc)
        p0, p1 = (os.path.join(R.dir, "in-C.k01.b%02d.h5" % n) for R in (R0, R1))
        x0, x1 = h5.read(p0), rd(p1)
        if set(x0) != set(x1) or not {"c.r", "c.i"} <= set(x0):
            bad("file-contents", tag + " charge density %s %s" % (sorted(x0), sorted(x1)))
            return
        u, v = x0["c.r"] + 1j * x0["c.i"], x1["c.r"] + 1j * x1["c.i"]
        cl("charge-file", u.ravel(), v.ravel() * ph, 5 * tol, np.max(np.abs(u), initial=0) + 1)
        for nm in ("flux.v", "tot.rpwr", "dpwr", "bpwr", "hpwr"):
            p0, p1 = (os.path.join(R.dir, "in-%s.k01.b%02d.h5" % (nm, n)) for R in (R0, R1))
            if not os.path.exists(p0) and not os.path.exists(p1):
                ctx.n("files_absent")
                continue
            x0, x1 = h5.read(p0), rd(p1)
            for q in x0:
                if hasattr(x0[q], "dtype") and x0[q].dtype.kind == "f" and x0[q].size >= N:
                    cl(nm + "-file", x0[q].ravel(), x1[q].ravel(), 5 * tol, 1 if nm == "flux.v" else None)
        ctx.n("bands")
