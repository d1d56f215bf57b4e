"""P07: group velocities against the derivative of a dense diagonalisation, and against flux over energy."""
import re
import numpy as np
import oracle as o
import prog
from P02 import retry, settings, reference
from P04 import RUNS, odd
from prog import f, v3

RULE = ("program runs of random problems (all three scalar builds, with and without permeability and parity); a band counts when it is separated "
        "from its neighbours by 1% and its velocity was compared with the central difference of the dense eigenfrequencies")
ASSUMPTIONS = ["central differences (step 1e-4) of LAPACK eigenvalues are accurate to 1e-6", "modes solved to tolerance 1e-10 give velocities to 2e-3"]
MIN_DISTINCT = 20


def builds(tier):
    return [(c, "mpb") for c in ("complex", "inv", "herm")]


def cases(tier, seed):
    out = []
    q = tier == "quick"
    for ci, cfg in enumerate(("complex", "inv", "herm")):
        for i in range(50 if q else 600):
            out.append({"cfg": cfg, "s": (seed, 7, ci, i), "mode": "prog", "cost": 4})
        for i in range(16 if q else 200):
            out.append({"cfg": cfg, "s": (seed, 7, 10 + ci, i), "mode": "parity", "cost": 4})
    return out


def run(c, ctx):
    globals()["run_" + c["mode"]](c, ctx)


def omegas(P, k, T, M, ops, nb):
    ref = o.RefOp(P.n, k, P.G, T, M)
    w = o.sector_eigs(ref, ops, nb) if ops else ref.eigs(nb)
    return np.sqrt(np.maximum(w, 0))


def derivative(P, k, T, M, ops, dirs):
    """frequencies and their derivatives along Cartesian directions (columns); NaN where a band is not isolated or static"""
    w0 = omegas(P, k, T, M, ops, P.nb + 1)
    iG = np.linalg.inv(P.G)
    h = 1e-4
    v = np.full((P.nb, 3), np.nan)
    for c in dirs:
        e = np.zeros(3); e[c] = h
        wp, wm = (omegas(P, np.asarray(k) + s * e @ iG, T, M, ops, P.nb) for s in (1, -1))
        v[:, c] = (wp - wm) / (2 * h)
    gap = np.full(P.nb, np.inf)
    gap[1:] = np.minimum(gap[1:], np.diff(w0)[:P.nb - 1])
    gap[:len(w0) - 1] = np.minimum(gap[:len(w0) - 1], np.diff(w0)[:P.nb])
    ok = (gap > 1e-2 * np.maximum(w0[:P.nb], .3)) & (w0[:P.nb] > .05)
    return w0, v, ok, gap


def run_prog(c, ctx, P=None, names=None):
    r = o.rng(*c["s"])
    cfg = c["cfg"]
    P = P or prog.Prob(r, inv=cfg == "inv", herm=cfg == "herm", nb=int(r.integers(1, 7)), nmax=None if r.random() < .5 else 5)
    k = P.rand_k()
    ops = []
    name = "run"
    if names:
        name, ops = names(r, P, k)
        if name is None:
            return
    P.tol = 1e-11
    if P.has_mu():
        P.mesh = 1
    s = settings(r, P.nb, P.has_mu(), david_ok=False)
    tag = "%s %s %s nb=%d k=%s %s" % (cfg, name, P.tag(), P.nb, k, sorted(s.items()))
    d = r.normal(size=3)
    if r.random() < .3:
        d = np.eye(3)[int(r.integers(3))]
    b1 = int(r.integers(1, P.nb + 1))
    pts = [r.uniform(-.5, .5, 3) for _ in range(3)]
    PT = "(list %s)" % " ".join(v3(p) for p in pts)
    body = "(define pts %s)(define (snap t) (for-each (lambda (b) (get-bfield b)(vp t (map get-bloch-field-point pts))) bands))" % PT
    body += "(define bands (list %s))" % " ".join(str(b + 1) for b in range(P.nb))
    blocks = ["(vp 'all (compute-group-velocities))",
              "(vp 'dir (compute-group-velocity-component %s))" % v3(d),
              "(vp 'one (map compute-1-group-velocity bands))",
              "(vp 'onedir (compute-1-group-velocity-component %s %d))" % (v3(d * r.uniform(.1, 9)), b1),
              "(vp 'onerec (compute-1-group-velocity-reciprocal %d))" % b1,
              "(display-group-velocities)",
              "(vp 'flux (map (lambda (b) (get-poynting b) (map (lambda (g) (real-part (compute-field-integral (lambda (F e p) (g F))))) (list vector3-x vector3-y vector3-z))) bands))"]
    PSTEP = "(step-hook)"
    steps = [blocks[i] for i in r.permutation(len(blocks))]
    body += "(define (step-hook) 0)"
    inside = r.random() < .4
    calls = "(snap 'pre)" + PSTEP.join(steps) + "(snap 'post)"
    if inside:
        body += "(run-%s %s (lambda () %s (vp 'freqs freqs)))" % ("parity", PAR[name], calls) if False else ""
    ref = []
    k1 = [k + .02 * r.normal(size=3) * (np.abs(k) > 1e-9) for _ in range(int(r.integers(0, 2)))]

    def one(a, bad):
        head = P.ctl(k1 + [k], **s) + "(init-params NO-PARITY true)" + "(randomize-fields)" * (3 * a) + ("(output-mu)" if P.has_mu() else "") + \
            "(set! randomize-fields? true)" + body
        if inside:
            prg = head + "(%s (lambda () %s (vp 'freqs freqs)))" % (name, calls)
        else:
            prg = head + "(%s)" % name + calls + "(vp 'freqs freqs)"
        R = ctx.mpb(prg + "(vp 'mu (using-mu?))" + ("" if name == "run" else "(init-params NO-PARITY false)(output-epsilon)"), cfg)
        if R.rc:
            bad("run-failed", tag + R.out[-800:])
            return
        D = R.vpd()
        if not ref:
            T, M, slack = reference(ctx, cfg, P, R, D["mu"][0])
            ref.extend([slack] + list(derivative(P, k, T, M, ops, [i for i in range(3) if not any(x[0] == i for x in ops)])))
        slack, w0, v, ok, gap = ref
        nk = len(k1) + 1 if inside else 1
        got = np.array(D["all"][-1], float)
        fr = np.array(D["freqs"][-1], float)
        scale = 1.0
        if got.shape != (P.nb, 3) or not np.isfinite(got).all():
            bad("velocity-shape", tag + str(got))
            return
        # consistency, for every band
        dc = P.G.T @ d
        dc = dc / np.linalg.norm(dc)
        eq(bad, "directional-component", D["dir"][-1], got @ dc, tag)
        eq(bad, "one-band-velocity", D["one"][-1], got, tag)
        eq(bad, "one-band-component", D["onedir"][-1], (got @ dc)[b1 - 1], tag)
        eq(bad, "one-band-reciprocal", D["onerec"][-1], P.G @ got[b1 - 1], tag)
        for x in ("pre", "post"):
            if len(D[x]) != nk * P.nb:
                bad("missing-output", tag)
                return
        n0 = (nk - 1) * P.nb
        eq(bad, "velocities-change-the-modes", D["post"][n0:], D["pre"][n0:], tag)
        ln = re.findall(r"velocity:, \d+((?:, #\([^)]*\))*)", R.out)
        if len(ln) != nk or len(re.findall(r"#\(", ln[-1])) != P.nb:
            bad("display-line", tag + str(ln)[:300])
        else:
            eq(bad, "display-velocities", [[float(z) for z in q.split()] for q in re.findall(r"#\(([^)]*)\)", ln[-1])], got, tag, tol=1e-5)
        st = fr == 0
        if (np.abs(got[st]) > 0).any():
            bad("static-velocity", tag + str(got))
        flux = np.array(D["flux"][-1]).reshape(P.nb, 3)
        for b in range(P.nb):
            if not ok[b]:
                ctx.n("bands_not_isolated")
                continue
            if abs(fr[b] - w0[b]) > 1e-4 + slack:
                bad("frequency-wrong", tag + " %s want %s" % (fr, w0))
                return
            tol = 2e-3 + 1e-5 / gap[b] + 5 * slack
            e = np.nanmax(np.abs(got[b] - v[b]))
            ctx.n("velocities")
            if P.has_mu():
                ctx.n("velocities_with_mu")
            if not e < tol:
                bad("velocity-is-not-derivative" + ("-mu" if P.has_mu() else ""), tag + " band %d w=%.6f gap %.3g dw=%.2g slack=%.2g\n got %s\nwant %s" % (b + 1, fr[b], gap[b], fr[b] - w0[b], slack, got[b], v[b]))
            for (a, sg) in ops:
                if abs(got[b, a]) > 1e-4:
                    bad("velocity-out-of-mirror-plane", tag + " band %d %s" % (b + 1, got[b]))
            if cfg == "inv" and P.has_mu() and not all(q % 2 for q in P.n if q > 1):
                continue   # unsymmetric tensors on the self-mirrored planes: two pointwise products differ from the product of their symmetric parts
            e = np.max(np.abs(flux[b] - got[b]))
            if not e < 2e-3 + 1e-5 / gap[b]:
                bad("velocity-is-not-flux-over-energy" + ("-mu" if P.has_mu() else ""), tag + " band %d v=%s flux %s" % (b + 1, got[b], flux[b]))
            ctx.n("flux_ratios")
    retry(ctx, one)
    ctx.seen(tag)


PAR = {}


def eq(bad, key, got, want, tag, tol=1e-8):
    got, want = np.array(got), np.array(want)
    if got.shape != want.shape or not np.max(np.abs(got - want)) < tol * (1 + np.max(np.abs(want))):
        bad(key, tag + "\n got %s\nwant %s" % (got, want))


def run_parity(c, ctx):
    r = o.rng(*c["s"])
    cfg = c["cfg"]
    dim = int(r.choice([2, 3], p=[.6, .4]))
    zm = bool(r.random() < .8)
    ym = bool(r.random() < .5) or not zm
    P = prog.Prob(r, dim=dim, inv=cfg == "inv", herm=cfg == "herm", zmir=zm, ymir=ym, mu=None if r.random() < .4 else "none",
                  nmax={2: 9, 3: 5}[dim])
    ns = list(P.n)
    if zm and dim == 3:
        ns[2] = max(3, odd(ns[2]))
    if ym:
        ns[1] = max(3, odd(ns[1]))
    P.n = tuple(ns)
    P.mesh = 1
    P.nb = int(r.integers(1, 5))

    def names(r, P, k):
        if zm:
            k[2] = 0
        if ym:
            k[1] = 0
        I3 = np.broadcast_to(np.eye(3), P.n + (3, 3))
        nm = [q for q, ops in RUNS.items() if ops and all((zm if a == 2 else ym) for a, _ in ops)
              and len(o.sector_eigs(o.RefOp(P.n, k, P.G, I3), ops)) >= P.nb + 3]
        if not nm:
            return None, None
        q = nm[int(r.integers(len(nm)))]
        return q, RUNS[q]
    run_prog(c, ctx, P, names)
