"""P15: material grids: values, derivatives, files, optimisation."""
import itertools
import os
import re
import numpy as np
import h5
import oracle as o
import prog
from P09 import untranspose
from prog import f, v3

RULE = ("random arrangements of objects carrying material grids (shared, overlapping, of all three kinds, in all lattices) in mpb, mpbi and mpb-mpi; a case counts when the dielectric tensor at every grid point, "
        "or every reported derivative, file value or optimisation result of the session was compared with an independent evaluation (interpolation in numpy, finite differences of frequencies, recomputed bands)")
ASSUMPTIONS = ["mesh-size 1: the material is sampled at the grid points", "points within 1e-6 of the surface of an object are not judged"]
MIN_DISTINCT = 30
TOLERATE = ("failure to converge after|non-independent AV subspace|non-positive eigenvalue|bad news: Polak|inexplicable singularity|failure of nlopt", 6)
MODES = (("value", 60), ("file", 24), ("grad", 40), ("deps", 20), ("opt", 16))
KINDS = ("U-MIN", "U-PROD", "U-SUM")


def builds(tier):
    return [(c, "mpb") for c in ("complex", "inv", "cmpi")]


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for mi, (m, n) in enumerate(MODES):
        for i in range(n if q else 10 * n):
            cfg = str(o.rng(seed, 15, mi, i, 9).choice(["complex", "inv", "cmpi"], p=[.6, .2, .2]))
            out.append({"cfg": cfg, "s": (seed, 15, mi, i), "mode": m, "cost": {"opt": 6, "grad": 4}.get(m, 2)})
    return out


def run(c, ctx):
    globals()["run_" + c["mode"]](c, ctx)


def interp(rr, n):
    """[(index, weight)] of multilinear interpolation between pixel centres, mirrored at the edges"""
    ax = []
    for r, m in zip(rr, n):
        r = abs(r) % 2.0
        r = 2 - r if r > 1 else r
        x = min(int(r * m), m - 1)
        d = r * m - x - .5
        x2 = min(max(x + (1 if d >= 0 else -1), 0), m - 1)
        ax.append(((x, 1 - abs(d)), (x2, abs(d))))
    return [((a[0], b[0], c[0]), a[1] * b[1] * c[1]) for a in ax[0] for b in ax[1] for c in ax[2]]


class Geo:
    """objects with grids in a random lattice"""

    def __init__(self, r, cfg, P, mu=False, few=False):
        self.r, self.P, self.inv = r, P, cfg == "inv"
        self.grids, self.objs = [], []
        ng = int(r.integers(1, 4))
        rng0 = (float(r.uniform(1, 3)), float(r.uniform(4, 12)))
        kind0 = int(r.integers(3))
        mus = (1., 1.)
        if mu:
            mus = (float(r.uniform(1, 2)), float(r.uniform(2, 4)))
        for g in range(ng):
            same = r.random() < .6
            near = 0 if same else int(r.integers(1, 4))    # grids that are merged must agree in the rule and both limits
            n = [int(r.integers(1, 3 if few else 6)) if i < P.dim or r.random() < .2 else 1 for i in range(3)]
            co = [float(x) for x in r.uniform(-3, 3, 4)]
            val = np.array([[[.5 + .4 * np.sin(co[0] * (i / n[0] - .5) + co[1] * (j / n[1] - .5) + co[2] * (k / n[2] - .5) + co[3]) for k in range(n[2])] for j in range(n[1])] for i in range(n[0])])
            sets = []
            for _ in range(int(r.integers(0, 3))):
                ix = tuple(int(r.integers(m)) for m in n)
                sets.append((ix, float(r.uniform(.05, .95))))
            if self.inv:
                w = (val + val[::-1, ::-1, ::-1]) / 2
                sets = [(ix, float(w[ix])) for ix in np.ndindex(*n)]
            for ix, x in sets:
                val[ix] = x
            e = rng0 if same or near == 1 else (rng0[0] if near == 2 else float(r.uniform(1, 3)), float(r.uniform(4, 12)))
            if r.random() < .1:
                e = e[::-1]
            self.grids.append({"n": n, "e": e, "mu": mus, "kind": kind0 if same or near == 2 else (kind0 + int(r.integers(1, 3))) % 3 if near == 1 else int(r.integers(3)), "co": co, "val": val, "sets": sets})
        self.default = None
        if r.random() < .35 and not self.inv:      # the edge of a grid that fills the cell has no inversion symmetry
            self.default = int(r.integers(ng))
        self.deps = 1.0 if r.random() < .5 else float(r.uniform(1, 5))
        for _ in range(int(r.integers(1, 5))):
            t = str(r.choice(["block", "sphere", "cylinder"], p=[.65, .25, .1]))
            c = np.array([r.uniform(-.5, .5) * P.size[i] if i < P.dim else 0 for i in range(3)]) * (0 if self.inv else 1)
            m = int(r.integers(ng)) if r.random() < .8 and t != "cylinder" else -float(r.uniform(1, 9))
            q = {"t": t, "c": c, "m": m}
            short = float(min((P.size * np.linalg.norm(P.unit, axis=1))[:P.dim]))
            if t == "block":
                q["s"] = [float(r.uniform(.3, .9)) * P.size[i] if i < P.dim else 1e20 for i in range(3)]
                if r.random() < .2 and not self.inv and P.dim == 1 + 0:
                    q["s"] = [P.size[0], 1e20, 1e20]
                E = np.eye(3)
                if r.random() < .5 and P.dim >= 2:
                    E[:P.dim, :P.dim] += .5 * r.uniform(-1, 1, (P.dim, P.dim))
                q["E"] = E
            else:
                q["r"] = float(r.uniform(.15, .45)) * short
            self.objs.append(q)

    def order(self):
        out = []
        for q in self.objs + ([{"m": self.default}] if self.default is not None else []):
            if not isinstance(q["m"], float) and q["m"] not in out:
                out.append(q["m"])
        return out

    def flat(self):
        """[(grid, index)] in the order in which the program numbers all values"""
        return [(g, ix) for g in self.order() for ix in np.ndindex(*self.grids[g]["n"])]

    def ctl(self):
        t = ""
        for i, g in enumerate(self.grids):
            t += "(define mg%d (make material-grid (epsilon-min %s) (epsilon-max %s) (mu-min %s) (mu-max %s) (material-grid-kind %s) (size %d %d %d) (matgrid-init (lambda (x y z) (+ .5 (* .4 (sin (+ (* %s x) (* %s y) (* %s z) %s))))))))\n" % (
                i, f(g["e"][0]), f(g["e"][1]), f(g["mu"][0]), f(g["mu"][1]), KINDS[g["kind"]], *g["n"], *[f(x) for x in g["co"]])
            t += "(define ma%d (object-property-value mg%d 'matgrid))" % (i, i) + "".join("(array-set! ma%d %s %d %d %d)" % (i, f(x), *ix) for ix, x in g["sets"]) + "\n"
        t += "(set! default-material %s)\n" % ("mg%d" % self.default if self.default is not None else "(make dielectric (epsilon %s))" % f(self.deps))
        ob = []
        for q in self.objs:
            m = "mg%d" % q["m"] if not isinstance(q["m"], float) else "(make dielectric (epsilon %s))" % f(-q["m"])
            h = "(material %s) (center %s)" % (m, " ".join(f(x) for x in q["c"]))
            if q["t"] == "block":
                h += " (size %s) " % " ".join("infinity" if x > 1e19 else f(x) for x in q["s"]) + " ".join("(e%d %s)" % (i + 1, " ".join(f(x) for x in q["E"][i])) for i in range(3))
            elif q["t"] == "sphere":
                h += " (radius %s)" % f(q["r"])
            else:
                h += " (radius %s) (height infinity)" % f(q["r"])
            ob.append("(make %s %s)" % (q["t"], h))
        return t + "(set! geometry (list %s))\n" % "\n ".join(ob)

    def inside(self, q, p):
        """(coordinates within the object or None, distance from its surface)"""
        U = self.P.unit
        d = p - q["c"]
        if q["t"] == "block":
            E = q["E"] / np.linalg.norm(q["E"] @ U, axis=1)[:, None]
            x = np.linalg.solve(E.T, d)
            m = np.array(q["s"]) / 2 - np.abs(x)
            return (.5 + x / np.array(q["s"]) if m.min() >= 0 else None), abs(m.min())
        if q["t"] == "cylinder":
            c, a = d @ U, U[2] / np.linalg.norm(U[2])
            m = q["r"] - np.linalg.norm(c - (c @ a) * a)
            return (np.zeros(3) if m >= 0 else None), abs(m)
        m = q["r"] - np.linalg.norm(d @ U)
        return (.5 + .5 * d / q["r"] if m >= 0 else None), abs(m)

    def stack(self, p):
        """[(object, coordinates)] from the top, or None when it is ambiguous"""
        out = []
        sh = [np.array(s) * self.P.size for s in itertools.product(*[(-1, 0, 1) if i < self.P.dim else (0,) for i in range(3)])]
        for q in reversed(self.objs):
            hit = []
            for s in sh:
                x, m = self.inside(q, p - s)
                if m < 1e-6:
                    return None
                if x is not None:
                    hit.append(x)
            if len(hit) > 1:
                return None
            if hit:
                out.append((q, hit[0]))
        return out

    def parts(self, p):
        """None (ambiguous), a number (plain), or ([(grid, [(index, weight)])], kind, grid on top)"""
        st = self.stack(p)
        if st is None:
            return None
        n = self.P.dim
        rd = np.array([p[i] / self.P.size[i] + .5 if i < n else .5 for i in range(3)])
        top = st[0][0]["m"] if st else (self.default if self.default is not None else None)
        if top is None:
            return self.deps
        if isinstance(top, float):
            return -top
        G = self.grids[top]

        def comp(m):
            return not isinstance(m, float) and m is not None and self.grids[m]["kind"] == G["kind"] and self.grids[m]["e"] == G["e"]
        out = []
        for q, x in st:
            if not comp(q["m"]):
                break
            out.append((q["m"], interp(x, self.grids[q["m"]]["n"])))
        else:
            if comp(self.default):
                out.append((self.default, interp(rd, self.grids[self.default]["n"])))
        return out, G["kind"], G

    def u(self, pt):
        us = [sum(w * self.grids[g]["val"][ix] for ix, w in ws) for g, ws in pt[0]]
        return (min(us), np.prod(us), np.mean(us))[pt[1]], us

    def at(self, p, what="e"):
        pt = self.parts(p)
        if pt is None:
            return None
        if not isinstance(pt, tuple):
            return pt if what == "e" else 1.0
        u = self.u(pt)[0]
        return pt[2][what][0] + u * (pt[2][what][1] - pt[2][what][0])

    def deriv(self, p):
        """{(grid, index): d epsilon / du}; None: ambiguous"""
        pt = self.parts(p)
        if pt is None:
            return None
        if not isinstance(pt, tuple):
            return {}
        uv, us = self.u(pt)
        sc = pt[2]["e"][1] - pt[2]["e"][0]
        out = {}
        if pt[1] == 0 and sum(abs(x - uv) < 1e-9 for x in us) > 1:
            return None
        for (g, ws), u in zip(pt[0], us):
            w0 = [float(abs(u - uv) < 1e-12), uv / u, 1 / len(us)][pt[1]]
            for ix, w in ws:
                out[g, ix] = out.get((g, ix), 0) + sc * w * w0
        return out

    def points(self):
        P = self.P
        for ix in np.ndindex(*P.n):
            yield ix, np.array([(ix[i] / P.n[i] - .5) * P.size[i] if i < P.dim else 0 for i in range(3)])


def make(c, few=False, mu=False, **kw):
    r = o.rng(*c["s"])
    cfg = c["cfg"]
    np_ = int(r.integers(1, 4)) if cfg == "cmpi" else 0
    P = prog.Prob(r, inv=cfg == "inv", mu="none", aniso="iso", nobj=0, dim=int(r.integers(2, 4)) if np_ else None, **kw)
    P.mesh, P.default = 1, None
    P.objs = []
    g = Geo(r, cfg, P, mu=mu, few=few)
    return r, cfg, np_, P, g


def base(P, g, **kw):
    t = P.ctl((), **kw)
    return t.replace("(set! geometry (list ))", "") + g.ctl()


def tensors(path, P, np_):
    d = untranspose(path) if np_ else h5.read(path)
    if "epsilon.xx" not in d:
        return d["data"].reshape(P.n)[..., None, None] * np.eye(3)
    T = np.zeros(tuple(P.n) + (3, 3))
    for a in range(3):
        for b in range(a, 3):
            T[..., a, b] = T[..., b, a] = d["epsilon.%s%s" % ("xyz"[a], "xyz"[b])].reshape(P.n)
    return T


def check_eps(ctx, bad, tag, P, g, R, np_, mu=False):
    import glob
    fs = glob.glob(os.path.join(R.dir, "in-mu.h5" if mu else "in-epsilon.h5"))
    if len(fs) != 1:
        bad("no-file", tag)
        return
    T = tensors(fs[0], P, np_)
    for ix, p in g.points():
        w = g.at(p, "mu" if mu else "e")
        if w is None:
            ctx.n("points_on_a_surface")
            continue
        ctx.n("points")
        if np.max(np.abs(T[ix] - w * np.eye(3))) > 1e-9 * w:
            bad("value" + ":mu" * mu, tag + " at %s (grid point %s): %.12g, expected %.12g" % (np.round(p, 4), ix, T[ix][0, 0], w))
            return


def gtag(c, P, g, np_):
    return "%s %s np=%d %s default=%s %s" % (c["mode"], c["cfg"], np_, P.tag(), g.default, [(q["t"][0], "plain" if isinstance(q["m"], float) else q["m"]) for q in g.objs]) + \
        " grids %s" % [("x".join(map(str, x["n"])), KINDS[x["kind"]]) for x in g.grids]


def run_value(c, ctx):
    mu = o.rng(*c["s"], 5).random() < .25
    r, cfg, np_, P, g = make(c, mu=mu)
    tag = gtag(c, P, g, np_)
    R = ctx.mpb(base(P, g) + "(init-params NO-PARITY true)(output-epsilon)(if (using-mu?) (output-mu))", cfg, np_=np_)
    if R.rc:
        ctx.bad("stopped:", tag + R.why())
        return
    check_eps(ctx, ctx.bad, tag, P, g, R, np_)
    used = [m for m in g.order()]
    if mu and used:
        check_eps(ctx, ctx.bad, tag, P, g, R, np_, mu=True)
    ctx.n("structures"); ctx.seen(tag)


def setvals(g):
    """the current values of all grids, as logged by the program: (vp 'gN list)"""
    return "".join("(vp 'g%d (apply append (map (lambda (x) (if (list? x) (apply append (map (lambda (y) (if (list? y) y (list y))) x)) (list x))) (array->list ma%d))))" % (i, i) for i in range(len(g.grids)))


def run_file(c, ctx):
    r, cfg, np_, P, g = make(c)
    tag = gtag(c, P, g, np_)
    gi = int(r.integers(len(g.grids)))
    G = g.grids[gi]
    big = np.array(G["val"])
    sup = [float(x) for x in (r.integers(1, 4, 3) if r.random() < .6 else r.uniform(.3, 2.5, 3))] if r.random() < .6 else [1., 1., 1.]
    noise = float(r.choice([0, .05, .3, 1, 2.5]))
    hj = int(r.integers(len(g.grids)))
    H = g.grids[hj]
    # the loaded file is one saved by the program or one made here (values outside 0..1, any rank)
    ext = r.random() < .4
    d = ctx.dir()
    if ext:
        rank = int(r.integers(1, 4))
        A = r.uniform(-.3, 1.3, [int(r.integers(1, 7)) for _ in range(rank)])
        h5.write(os.path.join(d, "ext.h5"), {"data": A})
    t = base(P, g) + "(save-material-grid mg%d \"saved.h5\")" % gi
    t += "(randomize-material-grid! mg%d %s)" % (gi, f(noise)) + setvals(g).replace("'g", "'r")
    t += "(load-material-grid! mg%d \"saved.h5\" (vector3 1 1 1))" % gi + setvals(g).replace("'g", "'l")
    t += "(load-material-grid! mg%d \"%s.h5\" %s)" % (hj, "ext" if ext else "saved", v3(sup)) + setvals(g)
    t += "(init-params NO-PARITY true)(output-epsilon)"
    R = ctx.mpb(t, cfg, np_=np_, cwd=d)
    if R.rc:
        ctx.bad("stopped:", tag + R.why())
        return
    v = R.vpd()
    S = h5.read(os.path.join(d, "saved.h5"))["data"]
    if S.shape != tuple(G["n"])[:S.ndim] or any(x != 1 for x in G["n"][S.ndim:]) or np.max(np.abs(S.reshape(G["n"]) - big)) > 1e-15:
        ctx.bad("saved", tag + " %s" % (S.shape,))
    ctx.n("saved_values", big.size)
    x = np.array(v["r%d" % gi][0], float).reshape(G["n"])
    for a, b in zip(x.ravel(), big.ravel()):
        # reflected at 0 and 1 as often as necessary
        e = np.array([a + 2 * m for m in range(-3, 4)] + [-a + 2 * m for m in range(-3, 4)])
        if not 0 <= a <= 1 or np.min(np.abs(e - b)) > noise + 1e-12:
            ctx.bad("randomize", tag + " noise %g: %g from %g" % (noise, a, b))
            break
    if noise == .05 and np.max(np.abs(x - big)) > .1 + 1e-12:
        ctx.bad("randomize", tag + " noise %g changed %s to %s" % (noise, big.ravel(), x.ravel()))
    for i, q in enumerate(g.grids):
        if i != gi and np.max(np.abs(np.array(v["r%d" % i][0], float) - q["val"].ravel())) > 1e-15:
            ctx.bad("other-grid-changed", tag)
    y = np.array(v["l%d" % gi][0], float).reshape(G["n"])
    if np.max(np.abs(y - big)) > 1e-12:
        ctx.bad("loaded", tag + " %s, expected %s" % (y.ravel(), big.ravel()))
    D = (A if ext else S).reshape((A if ext else S).shape + (1,) * (3 - (A if ext else S).ndim))
    want = np.zeros(H["n"])
    edge = False
    for ix in np.ndindex(*H["n"]):
        rr = [((ix[i] + .5) * sup[i] / H["n"][i]) % 1.0 for i in range(3)]
        edge |= any(min(q, 1 - q) < 1e-9 for q in rr)
        want[ix] = min(1, max(0, sum(w * D[j] for j, w in interp(rr, D.shape))))
    got = np.array(v["g%d" % hj][0], float).reshape(H["n"])
    ctx.n("loaded_values", want.size)
    if not edge and np.max(np.abs(got - want)) > 1e-12:
        ctx.bad("loaded-supercell", tag + " %s %s: %s, expected %s" % (D.shape, np.round(sup, 3), np.round(got.ravel(), 5), np.round(want.ravel(), 5)))
    G["val"] = y
    H["val"] = got
    if cfg != "inv":
        check_eps(ctx, ctx.bad, tag, P, g, R, np_)
    if np_:
        for i, s in enumerate(R.ranks[1:], 1):
            if s != R.ranks[0]:
                ctx.bad("processes-disagree", tag)
    ctx.n("structures"); ctx.seen(tag)


def nums(s):
    return np.array([float(x) for x in s.split(", ") if x.strip()])


def run_grad(c, ctx):
    r, cfg, np_, P, g = make(c, few=True, nmax=None if o.rng(*c["s"], 3).random() < .5 else 6)
    if P.dim == 1:
        P.n = (20, 1, 1)
    P.tol = 1e-10
    P.nb = min(int(r.integers(1, 4)), 2 * int(np.prod(P.n)) - 2)
    k = P.rand_k("gen")
    fl = g.flat()
    tag = gtag(c, P, g, np_) + " k=%s" % np.round(k, 3)
    if not fl:
        ctx.n("no_grid_used")
        return
    if any(g.deriv(p) is None or g.parts(p) is None for _, p in g.points()):
        ctx.n("ambiguous_geometry")
        return
    par = str(r.choice(["EVEN-Z", "ODD-Z"])) if P.dim == 2 and r.random() < .5 else "NO-PARITY"
    if par != "NO-PARITY":
        k[2] = 0
    h = 1e-3
    # derivatives of eps at all points tell which values matter
    tot = {}
    for _, p in g.points():
        for a, b in g.deriv(p).items():
            tot[a] = tot.get(a, 0) + abs(b)
    live = [i for i, a in enumerate(fl) if tot.get(a, 0) > 0]
    pick = [int(x) for x in r.permutation(live)[:3]] if live else []

    def mirror(i):
        gr, ix = fl[i]
        return fl.index((gr, tuple(m - 1 - j for m, j in zip(g.grids[gr]["n"], ix))))

    def setu(i, d):
        s = ""
        for j in {i, mirror(i)} if g.inv else {i}:
            gr, ix = fl[j]
            s += "(array-set! ma%d %s %d %d %d)" % (gr, f(g.grids[gr]["val"][ix] + d), *ix)
        return s
    t = base(P, g) + "(define k %s)(init-params %s true)(solve-kpoint k)(vp 'w freqs)" % (v3(k), par)
    for b in range(1, P.nb + 1):
        t += "(print \"GRAD %d\")(print-material-grids-gradient %d)(print \"\\n\")" % (b, b)
    t += "(vp 'v (compute-field-energy))" if False else ""
    for i in pick:
        for s, d in (("p", h), ("m", -h)):
            t += setu(i, d) + "(init-params %s false)(solve-kpoint k)(vp '%s%d freqs)" % (par, s, i)
        t += setu(i, 0)
    ap = pick[0] if pick and not g.inv and r.random() < .6 else None
    if ap is not None:
        t += "(init-params %s false)(vp 'ap (material-grids-approx-gradient k 1 %d %s))" % (par, ap, f(h)) + setvals(g) + "(output-epsilon)"
    R = ctx.mpb(t, cfg, np_=np_)
    if R.rc:
        ctx.bad("stopped:", tag + R.why())
        return
    d = R.vpd()
    w = np.array(d["w"][0], float)
    gr = {int(a): nums(b) for a, b in re.findall(r"^GRAD (\d+)(.*)$", R.out, re.M)}
    for b in range(P.nb):
        v = gr.get(b + 1, np.zeros(0))
        if len(v) != len(fl):
            ctx.bad("gradient-length", tag + " %d for %d values" % (len(v), len(fl)))
            return
        if w[b] < 1e-3 or any(abs(w[b] - w[a]) < 1e-2 for a in range(P.nb) if a != b) or b == P.nb - 1:
            continue
    # the last band may have a degenerate partner outside the set
    iso = [b for b in range(P.nb) if w[b] > 1e-2 and all(abs(w[b] - w[a]) > 1e-2 for a in range(P.nb) if a != b)]
    for b in iso:
        v = gr[b + 1]
        for i, a in enumerate(fl):
            if tot.get(a, 0) == 0 and v[i] != 0:
                ctx.bad("gradient-of-unused", tag + " value %s: %g" % (a, v[i]))
        for i in pick:
            wp, wm = (np.array(d[s + str(i)][0], float) for s in "pm")
            fd, fd1, fd2 = (wp[b] - wm[b]) / (2 * h), (wp[b] - w[b]) / h, (w[b] - wm[b]) / h
            an = v[i] + (v[mirror(i)] if g.inv and mirror(i) != i else 0)
            sc = np.max(np.abs(v)) + 1e-3
            if abs(fd1 - fd2) > .01 * abs(fd) + 1e-4 * sc:
                ctx.n("kinks")
                continue
            ctx.n("derivatives")
            if b == P.nb - 1 and abs(fd - an) > 1e-3 * abs(an) + 2e-4 * sc:
                # a degenerate partner above the computed bands?
                Q = ctx.mpb(base(P, g, num_bands=P.nb + 2) + "(init-params %s true)(solve-kpoint %s)(vp 'w freqs)" % (par, v3(k)), cfg, np_=np_)
                z = np.array(Q.vpd()["w"][0], float) if not Q.rc else []
                if len(z) <= b + 1 or abs(z[b + 1] - z[b]) < 1e-2 or abs(z[b] - w[b]) > 1e-5:
                    ctx.n("degenerate")
                    continue
            if abs(fd - an) > 1e-3 * abs(an) + 2e-4 * sc:
                ctx.bad("gradient", tag + " %s band %d (%.5f) value %s: reported %g, finite difference %g" % (par, b + 1, w[b], fl[i], an, fd))
        if b == 0 and ap is not None and abs(d["ap"][0] - v[ap]) > 2e-2 * abs(v[ap]) + 1e-3 * np.max(np.abs(v)) + 1e-4 and len(iso) == P.nb and P.nb > 1:
            ctx.bad("approx-gradient", tag + " value %s: %g, reported %g" % (fl[ap], d["ap"][0], v[ap]))
    if ap is not None:
        for i, q in enumerate(g.grids):
            if np.max(np.abs(np.array(d["g%d" % i][0], float) - q["val"].ravel())) > 1e-14:
                ctx.bad("approx-gradient-restore", tag)
        check_eps(ctx, ctx.bad, tag, P, g, R, np_)
    ctx.n("structures"); ctx.seen(tag)


def run_deps(c, ctx):
    r, cfg, np_, P, g = make(c, few=True, nmax=5)
    fl = g.flat()
    tag = gtag(c, P, g, np_)
    du = 1e-4
    t = base(P, g) + "(init-params NO-PARITY true)(print-material-grids-deps-du)" + ("(print-material-grids-deps-du-numeric %s)" % f(du) if r.random() < .7 else "") + setvals(g) + "(output-epsilon)"
    R = ctx.mpb(t, cfg, np_=np_)
    if R.rc:
        ctx.bad("stopped:", tag + R.why())
        return
    rows = {k: re.findall(r"^%s:, (\S+), (\d+)(.*)$" % k, R.out, re.M) for k in ("depsdu", "depsduN")}
    d = R.vpd()
    for kind, rs in rows.items():
        if kind == "depsduN" and not rs and "numeric" not in t:
            continue
        if [int(x[1]) for x in rs] != list(range(int(np.prod(P.n)))):
            ctx.bad("deps-lines", tag + " %d lines" % len(rs))
            continue
        for (ix, p), x in zip(g.points(), rs):
            e, dv = g.at(p), g.deriv(p)
            if e is None or dv is None:
                continue
            if g.inv and kind == "depsduN":
                continue      # a change of one value breaks the symmetry that half of the points rely on
            v = nums(x[2])
            want = np.array([dv.get(a, 0) for a in fl])
            ctx.n("derivative_rows")
            if len(v) != len(want) or abs(float(x[0]) - e) > 1e-5 * e or np.max(np.abs(v - want), initial=0) > (1e-5 if kind == "depsdu" else 2e-3) * (1 + np.max(np.abs(want), initial=0)):
                ctx.bad(kind, tag + " at %s: %s %s, expected %.6g %s" % (ix, x[0], v, e, want))
                break
    for i, q in enumerate(g.grids):
        if np.max(np.abs(np.array(d["g%d" % i][0], float) - q["val"].ravel())) > 1e-14:
            ctx.bad("deps-restore", tag)
    check_eps(ctx, ctx.bad, tag, P, g, R, np_)
    ctx.n("structures"); ctx.seen(tag)


def optimum(P, g, fl, cfg, A, lo):
    """the smallest possible error when epsilon is a linear function of all values, else None"""
    from scipy.optimize import lsq_linear
    pts = dict(g.points())
    ax = max(i for i in range(3) if P.n[i] > 1)
    J, b = [], []
    for ix, p in g.points():
        want = sum(w * A[j[0], j[1]] for j, w in interp([(ix[i] + .5) / P.n[i] for i in range(3)], A.shape + (1,)))
        if cfg == "inv" and ix[ax] > P.n[ax] // 2:
            p = pts[tuple(-j % m for j, m in zip(ix, P.n))]
        t = g.parts(p)
        if isinstance(t, tuple) and len(t[0]) > 1 and t[1] != 2:
            return None
        dv = g.deriv(p)
        x = [dv.get(a, 0) for a in fl]
        J.append(x)
        b.append(want - g.at(p) + np.dot(x, [g.grids[q]["val"][i] for q, i in fl]))
    if cfg == "inv":        # a symmetric structure stays symmetric
        mi = [fl.index((q, tuple(m - 1 - j for m, j in zip(g.grids[q]["n"], i)))) for q, i in fl]
        J = (np.array(J) + np.array(J)[:, mi]) / 2
    q = lsq_linear(np.array(J), np.array(b), (lo - 1e-12, 1 + 1e-12), tol=1e-12)
    return np.sqrt(2 * q.cost / len(b))


def run_opt(c, ctx):
    """the optimisers: bounds, reported values, never worse than the start"""
    r = o.rng(*c["s"])
    cfg = c["cfg"]
    np_ = int(r.integers(1, 3)) if cfg == "cmpi" else 0
    P = prog.Prob(r, inv=cfg == "inv", mu="none", aniso="iso", nobj=0, dim=2, nmin=5, nmax=7, ortho=True)
    P.mesh, P.default, P.objs, P.tol = 1, None, [], 1e-9
    g = Geo(r, cfg, P, few=False)
    g.objs = [q for q in g.objs if q["t"] == "block"] or [{"t": "block", "c": np.zeros(3), "m": 0, "s": [P.size[0] * .9, P.size[1] * .9, 1e20], "E": np.eye(3)}]
    fl = g.flat()
    what = str(r.choice(["maxgap", "mingap", "tetm", "match"], p=[.35, .15, .25, .25]))
    tag = gtag(c, P, g, np_) + " " + what
    if not fl:
        ctx.n("no_grid_used")
        return
    P.nb = 3
    b1 = int(r.integers(1, 3))
    ks = [P.rand_k("gen") * [1, 1, 0] for _ in range(int(r.integers(1, 3)))]
    par = str(r.choice(["EVEN-Z", "ODD-Z"]))
    ne = int(r.integers(2, 8))
    d = ctx.dir()
    t = base(P, g) + "(set! k-points (list %s))(set! randomize-fields? true)" % " ".join(v3(k) for k in ks)
    solve = "(run-parity %s true)(vp 'f all-freqs)"
    if what == "tetm":
        t += solve % "EVEN-Z" + solve % "ODD-Z" + "(init-params NO-PARITY true)(vp 'res (material-grids-min-tetm-gap %s %d 1e-4 1e-4 %d 0))" % (v3(ks[0]), b1, ne) + setvals(g) + solve % "EVEN-Z" + solve % "ODD-Z"
    elif what == "match":
        h5.write(os.path.join(d, "want.h5"), {"eps": r.uniform(2, 8, (int(r.integers(3, 9)), int(r.integers(3, 9))))})
        t += "(init-params NO-PARITY true)(material-grids-match-epsilon-file! \"want.h5\" 1e-4)" + setvals(g)
    else:
        t += solve % par + "(init-params %s true)(vp 'res (material-grids-%s (list %s) %d %d 1e-4 1e-4 %d 0))" % (par, what, " ".join(v3(k) for k in ks), b1, b1 + 1, ne) + setvals(g) + solve % par
    R = ctx.mpb(t, cfg, np_=np_, cwd=d)
    if R.rc:
        ctx.bad("stopped:", tag + R.why())
        return
    v = R.vpd()
    prod = any(g.grids[q]["kind"] == 1 for q in g.order())
    for q in g.order():
        x = np.array(v["g%d" % q][0], float)
        if x.min() < (1e-4 if prod else 0) - 1e-15 or x.max() > 1 + 1e-15:
            ctx.bad("bounds", tag + " %g..%g" % (x.min(), x.max()))
    ctx.n("optimisations")
    if cfg == "inv":
        for q in g.order():
            x = np.array(v["g%d" % q][0], float)
            if np.max(np.abs(x - x[::-1])) > 1e-3:
                ctx.bad("symmetry", tag + " %s" % np.round(x, 4))
    if what == "match":
        its = [float(x) for x in re.findall(r"^match-epsilon-file:, \d+, (\S+)$", R.out, re.M)]
        fin = re.search(r"^match-epsilon-file converged to (\S+) after (\d+) iterations", R.out, re.M)
        ctx.n("evaluations", len(its))
        if not fin or int(fin.group(2)) != len(its):
            ctx.bad("match-report", tag)
            return
        # the error of the final grids, evaluated here, is the one reported and not above the first
        A = h5.read(os.path.join(d, "want.h5"))["eps"]

        def err():
            s, amb = 0, False
            pts = dict(g.points())
            ax = max(i for i in range(3) if P.n[i] > 1)
            for ix, p in g.points():
                if cfg == "inv" and ix[ax] > P.n[ax] // 2:      # stored as the mirror image
                    p = pts[tuple(-j % m for j, m in zip(ix, P.n))]
                e = g.at(p)
                if e is None:
                    return None
                s += (e - sum(w * A[j[0], j[1]] for j, w in interp([(ix[i] + .5) / P.n[i] for i in range(3)], A.shape + (1,)))) ** 2
            return np.sqrt(s / np.prod(P.n))
        e0 = err()
        for q in range(len(g.grids)):
            g.grids[q]["val"] = np.array(v["g%d" % q][0], float).reshape(g.grids[q]["n"])
        e1 = err()
        if e0 is None or e1 is None:
            return
        if abs(its[0] - e0) > 1e-4 * (1 + e0) and not prod:
            ctx.bad("match-first", tag + " %g, expected %g" % (its[0], e0))
        if abs(float(fin.group(1)) - e1) > 1e-4 * (1 + e1):
            ctx.bad("match-final", tag + " reported %s, the grids give %g" % (fin.group(1), e1))
        if e1 > its[0] + 1e-6:
            ctx.bad("match-worse", tag + " from %g to %g" % (its[0], e1))
        best = optimum(P, g, fl, cfg, A, 1e-4 if prod else 0)
        if best is not None:
            ctx.n("match_optima")
            if e1 ** 2 - best ** 2 > .02 * (e0 ** 2 - best ** 2) + 1e-6:
                ctx.bad("match-optimum", tag + " error %g (from %g), possible is %g" % (e1, e0, best))
        ctx.seen(tag)
        return
    F = [np.array(x, float) for x in v["f"]]
    if what == "tetm":
        g0, g1 = F[0][0][b1 - 1] - F[1][0][b1 - 1], F[2][0][b1 - 1] - F[3][0][b1 - 1]
        res = float(v["res"][0])
        if abs(res - g1) > 1e-3:
            ctx.bad("result", tag + " %g, the grids give %g" % (res, g1))
        if g1 > g0 + 1e-3:
            ctx.bad("worse", tag + " from %g to %g" % (g0, g1))
    else:
        def gap(x):
            hi, lo = x[:, b1].min(), x[:, b1 - 1].max()
            return 2 * (hi - lo) / (hi + lo)
        g0, g1 = gap(F[0]), gap(F[1])
        res = float(v["res"][0])
        if abs(res - g1) > 2e-3:
            ctx.bad("result", tag + " %g, the grids give %g" % (res, g1))
        if (g1 < g0 - 8e-3) if what == "maxgap" else (g1 > g0 + 8e-3):
            ctx.bad("worse", tag + " from %g to %g" % (g0, g1))
    ctx.seen(tag)
