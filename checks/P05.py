"""P05: effective dielectric tensors against pointwise material samples, laminate theory and the covariances of the average."""
import os, re
import numpy as np
import oracle as o
import prog, h5
from drv import MD, CB_EPS, CB_MEAN, ptr, pack9
from P01 import rel

RULE = ("(a) library: dielectric functions given by callbacks (level sets of random Fourier series with 2-3 tensor materials, half spaces, smooth "
        "tensors), random lattices, grids and meshes: every stored tensor is judged against the samples in its own voxel, and the whole map against "
        "its images under axis permutations, mirrors, pixel translations and scaling; (b) program: random geometries (spheres, cylinders, blocks, "
        "ellipsoids, cones, material functions, nested and overlapping) evaluated independently; non-trivial when tensors were compared; the "
        "signature is build + structure")
ASSUMPTIONS = ["the overlap integrals of libctl are accurate to a few percent of a pixel", "numpy"]
MIN_DISTINCT = 40


def builds(tier):
    return [(c, w) for c in ("complex", "inv", "herm") for w in ("driver", "mpb")]


def cases(tier, seed):
    r = o.rng(seed, 5)
    q = tier == "quick"
    out = []
    for cfg in ("complex", "inv", "herm"):
        for i in range(28 if q else 300):
            out.append({"drv": cfg, "s": int(r.integers(1 << 30)), "mode": "lib", "cost": 2})
        for i in range(8 if q else 60):
            out.append({"drv": cfg, "s": int(r.integers(1 << 30)), "mode": "sym", "cost": 1})
        for i in range(40 if q else 500):
            out.append({"cfg": cfg, "s": int(r.integers(1 << 30)), "mode": "prog", "cost": 3})
    return out


def run(c, ctx):
    globals()["run_" + c["mode"]](c, ctx)


def low(T):   # smallest eigenvalue of Hermitian tensors
    return np.linalg.eigvalsh(T)[..., 0]


def laminate(n, mats, f):
    """effective tensor of layers of the given materials, thickness fractions f, normal n"""
    n = np.asarray(n, float) / np.linalg.norm(n)
    nn = np.outer(n, n)
    # D.n and E_t continuous: e = eps^-1 d.  Solve per unit (D_n, E_t) by the tau transformation in a rotated frame
    a = np.eye(3)[np.argmin(np.abs(n))]
    t = np.cross(n, a); t /= np.linalg.norm(t)
    Q = np.stack([n, t, np.cross(n, t)])
    tau = np.zeros((3, 3), complex)
    for m, w in zip(mats, f):
        e = Q @ m @ Q.T
        x = np.zeros((3, 3), complex)
        x[0, 0] = 1 / e[0, 0]                      # E_n = (D_n - e_nt E_t)/e_nn
        x[0, 1:] = -e[0, 1:] / e[0, 0]
        x[1:, 0] = e[1:, 0] / e[0, 0]              # D_t = e_tn E_n + e_tt E_t
        x[1:, 1:] = e[1:, 1:] - np.outer(e[1:, 0], e[0, 1:]) / e[0, 0]
        tau += w * x
    e = np.zeros((3, 3), complex)
    e[0, 0] = 1 / tau[0, 0]
    e[0, 1:] = -tau[0, 1:] / tau[0, 0]
    e[1:, 0] = tau[1:, 0] / tau[0, 0]
    e[1:, 1:] = tau[1:, 1:] - np.outer(tau[1:, 0], tau[0, 1:]) / tau[0, 0]
    return Q.T @ e @ Q


def run_sym(c, ctx):
    """3x3 tensor kernels"""
    r = o.rng(c["s"])
    L = ctx.lib(c["drv"])
    for _ in range(40):
        A = o.rand_tensor(r, .1, 10, str(r.choice(["diag", "aniso", "iso"])), L.herm)
        if r.random() < .3:
            A = A - np.eye(3) * r.uniform(0, 8)      # indefinite
        if r.random() < .3:
            i = int(r.integers(3)); j = (i + 1) % 3
            A = A.copy(); A[i, j] = A[j, i] = 0
        v = pack9(A)
        w = np.linalg.eigvalsh(A)
        if np.min(np.abs(w)) < 1e-3:
            continue
        e = np.empty(3); L.sm_eigs(ptr(v), ptr(e))
        x = np.empty(9)
        if rel(np.sort(e), w) > 1e-12 or (np.diff(e) < -1e-12).any():
            ctx.bad("sym-eigs", "%s: %s want %s" % (A, e, w))
        for fn in ("sm_invert", "sm_invert_inplace"):
            getattr(L, fn)(ptr(v), ptr(x))
            if rel(x, pack9(np.linalg.inv(A))) > 1e-10:
                ctx.bad(fn, "%s" % A)
        if bool(L.sm_posdef(ptr(v))) != bool(w[0] > 0):
            ctx.bad("posdef", "%s eigs %s" % (A, w))
        n = r.normal(size=3)
        if r.random() < .4:
            n = np.eye(3)[int(r.integers(3))] * r.choice([-1, 1]) + (1e-3 * r.normal(size=3) if r.random() < .5 else 0)
        n = n / np.linalg.norm(n)
        Q = np.empty((3, 3))
        L.rotmat(ptr(Q), ptr(n.copy()))
        if rel(Q[:, 0], n) > 1e-13 or rel(Q.T @ Q, np.eye(3)) > 1e-12:
            ctx.bad("rotation-matrix", "n=%s %s" % (n, Q))
        L.sm_rotate(ptr(v), ptr(np.ascontiguousarray(Q)), ptr(x))
        if rel(x, pack9(Q.T @ A @ Q)) > 1e-12:
            ctx.bad("rotate", "%s" % A)
        y = np.empty(3, complex); z = r.normal(size=3) + 1j * r.normal(size=3)
        L.sm_vec(ptr(v), ptr(z), ptr(y))
        if rel(y, A @ z) > 1e-12:
            ctx.bad("tensor-times-vector", "%s" % A)
        ctx.n("tensors")
    ctx.seen("sym %s %d" % (c["drv"], c["s"]))


class Fun:
    """periodic dielectric function in lattice coordinates: vectorised and as a callback"""

    def __init__(self, r, dim, herm, kind):
        self.kind = kind
        self.g = r.integers(-2, 3, (4, 3)).astype(float)
        self.g[:, dim:] = 0
        if not self.g.any():
            self.g[0, 0] = 1
        self.ph = r.uniform(0, 2 * np.pi, 4)
        self.c = r.uniform(-1, 1, 4)
        ak = str(r.choice(["iso", "diag", "aniso"]))
        self.m = [o.rand_tensor(r, 1, 10, ak, herm) for _ in range(3)]
        if r.random() < .35:    # media that differ in a single entry of the tensor
            for q in (1, 2):
                T = self.m[0].copy()
                i, j = [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)][int(r.integers(6))]
                z = np.linalg.eigvalsh(T)[0] * r.uniform(.2, .6) * (1j if herm and i != j and r.random() < .5 else 1)
                T[i, j] = T[i, j] + z
                if i != j:
                    T[j, i] = np.conj(T[i, j])
                self.m[q] = T
        self.th = np.sort(r.uniform(-.8, .8, 2))
        if kind == "two":
            self.th[1] = 1e9
        self.mul, self.off = 1.0, np.zeros(3)
        self.perm, self.Q = [0, 1, 2], np.eye(3)

    def __call__(self, x):
        x = np.asarray(x)[..., np.argsort(self.perm)] + self.off
        s = np.sum(self.c * np.cos(2 * np.pi * (x @ self.g.T) + self.ph), -1) / np.sqrt(np.sum(self.c ** 2))
        if self.kind == "smooth":
            w = (np.tanh(s) + 1) / 2
            T = w[..., None, None] * self.m[0] + (1 - w)[..., None, None] * self.m[1]
        else:
            i = (s > self.th[0]).astype(int) + (s > self.th[1])
            T = np.array(self.m)[i]
        return self.mul * (self.Q.T @ T @ self.Q)

    def cb(self):
        def f(e, ei, r):
            T = self(np.array([r[0], r[1], r[2]]))
            a, b = pack9(T), pack9(np.linalg.inv(T))
            for i in range(9):
                e[i], ei[i] = a[i], b[i]
        return CB_EPS(f)


def tensors(L, n, mesh, R, F, mean=None, mu=False):
    md = MD(L, n, 1, 1)
    k = np.zeros(3); G = o.recip(R)
    md.set_k(k, G)
    cb = F.cb()
    L.set_dielectric(md.h, int(mu), ptr(np.array(mesh, np.int32)), ptr(np.ascontiguousarray(R)), ptr(np.ascontiguousarray(G)), cb, mean or CB_MEAN())
    v, m = md.get_inv(mu)
    rc = L.check_dielectric(md.h, 0) if not mu else 0
    md.free()
    return v, m, rc


def run_lib(c, ctx):
    r = o.rng(c["s"])
    L = ctx.lib(c["drv"])
    dim = int(r.integers(1, 4))
    n = [int(r.integers(2, (12, 7, 5)[dim - 1])) if i < dim else 1 for i in range(3)]
    R = o.rand_lattice(r, dim)
    mesh = [int(r.choice([1, 2, 3, 4])) if i < dim else 1 for i in range(3)]
    if r.random() < .1:
        mesh[int(r.integers(3))] = int(r.choice([0, -1]))
    F = Fun(r, dim, L.herm, str(r.choice(["two", "three", "smooth"])))
    tag = "%s n=%s mesh=%s %s" % (c["drv"], n, mesh, F.kind)
    T, mean, rc = tensors(L, n, mesh, R, F)
    if rc:
        ctx.bad("not-positive-definite", tag + " %d" % rc)
    pts = np.stack(np.meshgrid(*[np.arange(q) / q for q in n], indexing="ij"), -1)
    st = lambda X: o.stored_points(X, n, L.cplx)
    P = st(pts)                                  # lattice coordinates of the stored points
    if len(P) != len(T):
        ctx.bad("layout", tag + " %d %d" % (len(P), len(T)))
        return
    if not np.isfinite(T).all():
        ctx.bad("not-finite" + (":mesh<1" if min(mesh) < 1 else ""), tag)
        return
    m1 = np.maximum(mesh, 1)
    if np.prod(m1) == 1:
        want = np.linalg.inv(F(P))
        if rel(T, want) > 1e-12:
            ctx.bad("pointwise", tag)
    else:
        off = np.stack(np.meshgrid(*[(np.arange(q) - (q - 1) / 2) / (q * k) for q, k in zip(m1, n)], indexing="ij"), -1).reshape(-1, 3)
        S = F(P[:, None] + off)                  # samples in every voxel
        A = S.mean(1); H = np.linalg.inv(np.linalg.inv(S).mean(1))
        E = np.linalg.inv(T)
        cor = np.stack(np.meshgrid(*[[-.5, .5] if i < dim else [0] for i in range(3)], indexing="ij"), -1).reshape(-1, 3) / np.array(n)
        ce = F(P)
        inter = np.max(np.abs(F(P[:, None] + cor) - ce[:, None]), (1, 2, 3)) > 1e-6
        sc = np.max(np.abs(A))
        if (~inter).any() and np.max(np.abs(E[~inter] - ce[~inter])) > 1e-9 * sc:
            ctx.bad("constant-voxel", tag)
        if inter.any():
            lo, hi = low(E - H)[inter], low(A - E)[inter]
            ctx.n("interface_voxels", inter.sum())
            if min(lo.min(), hi.min()) < -1e-9 * sc:
                ctx.bad("outside-means", tag + " %g %g" % (lo.min(), hi.min()))
    if L.cplx and abs(mean - np.trace(T, axis1=1, axis2=2).real.mean() / 3) > 1e-12 * abs(mean):
        ctx.bad("mean-inverse", tag + " %g" % mean)
    ctx.n("voxels", len(T))
    # the same function as a permeability, through the same maxwell_data interface
    if r.random() < .4:
        T2, mean2, _ = tensors_mu(L, n, mesh, R, F)
        if rel(T2, T) > 1e-14 or abs(mean2 - mean) > 1e-14:
            ctx.bad("mu-differs-from-epsilon", tag)
    full = o.to_grid(T, n, True) if L.cplx else None
    # covariances on the full grid (complex storage)
    if L.cplx:
        F2 = F
        # whole-pixel translation
        sh = [int(r.integers(q)) for q in n]
        F.off = np.array(sh) / np.array(n)
        T2 = o.to_grid(tensors(L, n, mesh, R, F)[0], n, True)
        F.off = np.zeros(3)
        if rel(np.roll(T2, sh, (0, 1, 2)), full) > 1e-7:
            ctx.bad("translation", tag + " %s %g" % (sh, rel(np.roll(T2, sh, (0, 1, 2)), full)))
        F.mul = float(r.uniform(.5, 3))
        T2 = o.to_grid(tensors(L, n, mesh, R, F)[0], n, True)
        if rel(T2 * F.mul, full) > 1e-9:
            ctx.bad("scaling", tag)
        F.mul = 1.0
        # relabelling of the lattice axes
        pm = [0, 1, 2]
        if dim == 3:
            pm = [int(x) for x in r.permutation(3)]
        elif dim == 2 and r.random() < .7:
            pm = [1, 0, 2]
        F.perm = pm                               # new axis a is old axis pm[a]
        n2 = [n[a] for a in pm]
        T2 = o.to_grid(tensors(L, n2, [mesh[a] for a in pm], R[pm], F)[0], n2, True)
        F.perm = [0, 1, 2]
        if rel(np.transpose(T2, list(np.argsort(pm)) + [3, 4]), full) > 1e-9:
            ctx.bad("lattice-axes-relabelled", tag + " %s %g" % (pm, rel(np.transpose(T2, list(np.argsort(pm)) + [3, 4]), full)))
        # signed permutation of the Cartesian axes
        d2 = max(dim, 1)
        q = list(r.permutation(d2)) + list(range(d2, 3))
        Q = np.eye(3)[:, q] * r.choice([-1, 1], 3)
        F.Q = Q
        T2 = o.to_grid(tensors(L, n, mesh, R @ Q, F)[0], n, True)
        F.Q = np.eye(3)
        e = rel(Q @ T2 @ Q.T, full)
        ctx.n("covariances", 4)
        if e > 1e-8:
            ctx.bad("cartesian-axes-relabelled", tag + " %s %g" % (Q.tolist(), e))
    # an analytic mean given by the caller is used where offered
    given = o.rand_tensor(r, 1, 5, "aniso", L.herm)
    calls = []

    def mf(e, ei, nv, d1, d2, d3, tol, rr):
        x = np.array([rr[0], rr[1], rr[2]])
        calls.append((x, d1, d2, d3, tol))
        if int(round(x[0] * n[0])) % 2:
            return 0
        a, b = pack9(given), pack9(np.linalg.inv(given))
        for i in range(9):
            e[i], ei[i] = a[i], b[i]
        return 1
    T3, _, _ = tensors(L, n, mesh, R, F, CB_MEAN(mf))
    if np.prod(m1) > 1:
        use = np.round(P[:, 0] * n[0]).astype(int) % 2 == 0
        want = np.where(use[:, None, None], np.linalg.inv(given), T)
        if rel(T3, want) > 1e-12:
            ctx.bad("given-mean", tag)
        got = np.array([x for x, *_ in calls])
        if len(calls) != len(P) or rel(got[np.lexsort(np.round(got, 9).T)], P[np.lexsort(np.round(P, 9).T)]) > 1e-12:
            ctx.bad("given-mean-points", tag + " %d calls" % len(calls))
        if any(max(abs(d1 - 1 / n[0]), abs(d2 - 1 / n[1]), abs(d3 - 1 / n[2])) > 1e-14 for _, d1, d2, d3, _ in calls):
            ctx.bad("given-mean-voxel", tag)
    # a flat interface: laminate with very nearly the true normal
    if dim > 1:
        half_space(ctx, r, L, n, R, tag)
    ctx.seen(tag + " %d" % c["s"])


def tensors_mu(L, n, mesh, R, F):
    return tensors(L, n, mesh, R, F, mu=True)


class Half(Fun):
    def __init__(self, x0, nl, mats):
        self.x0, self.nl, self.m = x0, nl, mats

    def __call__(self, x):
        s = (np.asarray(x) - self.x0) @ self.nl
        return np.array(self.m)[(s > 0).astype(int)]


def half_space(ctx, r, L, n, R, tag):
    dim = 3 if n[2] > 1 else 2
    nc = r.normal(size=3)
    axis = r.random() < .4
    if axis:
        R = np.diag(np.diag(R))
        nc = np.eye(3)[int(r.integers(dim))]
    nc[dim:] = 0
    nc /= np.linalg.norm(nc)
    nl = R @ nc                                  # s = nc . (R^T x)
    x0 = (np.array([int(r.integers(q)) for q in n]) + r.uniform(-.45, .45, 3)) / n
    x0[dim:] = 0
    iso = r.random() < .5
    mats = [o.rand_tensor(r, 1, 3, "iso" if iso else "aniso", L.herm), o.rand_tensor(r, 6, 12, "iso" if iso else "aniso", L.herm)]
    F = Half(x0, nl, mats)
    mesh = [6, 6, 6 if dim == 3 else 1]
    T, _, _ = tensors(L, n, mesh, R, F)
    E = np.linalg.inv(T)
    pts = o.stored_points(np.stack(np.meshgrid(*[np.arange(q) / q for q in n], indexing="ij"), -1), n, L.cplx)
    off = np.stack(np.meshgrid(*[(np.arange(q) - (q - 1) / 2) / (q * k) for q, k in zip(mesh, n)], indexing="ij"), -1).reshape(-1, 3)
    for p, e in zip(pts, E):
        f = np.mean(((p + off) - x0) @ nl > 0)
        cs = np.sign((p - x0) @ nl + (np.array(list(np.ndindex(2, 2, 2 if dim == 3 else 1))) - [.5, .5, .5 if dim == 3 else 0]) / n @ nl)
        if not (cs > 0).any() or not (cs < 0).any() or f in (0, 1):
            continue
        if axis:
            w = laminate(nc, mats, (1 - f, f))
            ctx.n("flat_axis_voxels")
            if rel(e, w) > 1e-9:
                ctx.bad("flat-interface", tag + " f=%g n=%s got %s want %s" % (f, nc, e.tolist(), w.tolist()))
        elif .2 < f < .8:
            # near the plane the normal comes from a quadrature: judge against normals within a cone
            ctx.n("flat_oblique_voxels")
            w = laminate(nc, mats, (1 - f, f))
            other = max(rel(laminate(nc + .3 * t, mats, (1 - f, f)), w) for t in np.vstack([np.eye(3), -np.eye(3)]))
            if rel(e, w) > 1.1 * other + 1e-6:
                ctx.bad("oblique-interface", tag + " f=%g n=%s off by %g (a cone of .3 gives %g)" % (f, nc, rel(e, w), other))


# ------------------------------------------------------------------------------------------------ program
class Geo:
    """independent evaluation of a list of objects (lattice unit coordinates)"""

    def __init__(self, P):
        self.P = P
        self.M = P.unit                          # Cartesian = x @ M

    def inside(self, q, x):
        """bool for points x (...,3), one copy of object q without periodic images"""
        d = x - np.asarray(q["c"])
        C = d @ self.M
        if q["t"] == "sphere":
            return np.sum(C ** 2, -1) <= q["r"] ** 2
        if q["t"] in ("cylinder", "cone"):
            a = np.asarray(q["ax"], float) @ self.M
            a /= np.linalg.norm(a)
            h = C @ a
            H = 1e20 if q["h"] is None else q["h"]
            rad = q["r"] + ((h + H / 2) / H) * (q["r2"] - q["r"]) if q["t"] == "cone" else q["r"]
            return (np.abs(h) <= H / 2) & (np.linalg.norm(C - h[..., None] * a, axis=-1) <= np.abs(rad))
        e = np.asarray(q.get("e", np.eye(3)), float)
        e = e / np.linalg.norm(e @ self.M, axis=1)[:, None]
        pr = d @ np.linalg.inv(e)                # d = pr @ e
        s = np.array([1e20 if z is None else z for z in q["s"]])
        if q["t"] == "block":
            return (np.abs(pr) <= s / 2).all(-1)
        return np.sum((pr * 2 / s) ** 2, -1) <= 1

    def ids(self, X):
        """index of the topmost object (-1: none) at points X (samples, ...) near the cell, and the number of object copies
        that any sample touches"""
        P = self.P
        rg = [np.arange(-2, 3) if i < P.dim else np.array([0]) for i in range(3)]
        tr = np.stack(np.meshgrid(*rg, indexing="ij"), -1).reshape(-1, 3) * P.size
        out = np.full(X.shape[:-1], -1)
        cnt = np.zeros(X.shape[1:-1], int)
        for i, q in enumerate(P.objs):
            for t in tr:
                h = self.inside(q, X + t)
                cnt += h.any(0)
                out[h] = i
        return out, cnt


def tame(P):
    """no infinite objects along directions that never close on the lattice"""
    for q in P.objs:
        if q["t"] == "cylinder" and q["h"] is None and list(q["ax"]) != [0, 0, 1]:
            q["h"] = .6
        if "s" in q and "e" in q:
            q["s"] = [.5 if z is None and i < P.dim else z for i, z in enumerate(q["s"])]


def run_prog(c, ctx):
    r = o.rng(c["s"])
    cfg = c["cfg"]
    P = prog.Prob(r, inv=cfg == "inv", herm=cfg == "herm", mu=None if r.random() < .3 else "none")
    tame(P)
    if r.random() < .35:
        P.mesh = 1
    G = Geo(P)
    nothing = cfg != "inv" and r.random() < .2 and len(P.objs) > 1
    matfun = cfg != "inv" and r.random() < .2
    ctl = P.ctl([])
    if nothing:
        j = int(r.integers(len(P.objs)))
        P.objs[j] = dict(P.objs[j], m=-1)
    mats = [prog.mat_tensor(m) for m in P.mats]
    dflt = mats[P.default] if P.default is not None else np.eye(3) + 0j
    objs = []
    for q in P.objs:
        objs.append(prog.obj_ctl(dict(q, m=0), P.mats) if q["m"] < 0 else prog.obj_ctl(q, P.mats))
        if q["m"] < 0:
            objs[-1] = objs[-1].replace("(material %s)" % prog.mat_ctl(P.mats[0]), "(material nothing)")
    x0 = float(r.uniform(-.3, .3)) * P.size[0]
    if matfun:   # a slab whose material is given by a function of position, below everything else
        w = float(r.uniform(.3, .9)) * P.size[0]
        mf = "(make material-function (material-func (lambda (p) (if (< (vector3-x p) %s) %s %s))))" % (
            prog.f(x0), prog.mat_ctl(P.mats[0]), prog.mat_ctl(P.mats[1]))
        objs.insert(0, "(make block (material %s) (center 0 0 0) (size %s infinity infinity))" % (mf, prog.f(w)))
        fid = {"t": "block", "s": [w, None, None], "c": np.zeros(3), "m": -2}
        P.objs.insert(0, fid)
    ctl += "(set! geometry (list %s))" % "\n".join(objs)
    pts = [r.uniform(-.5, .5, 3) * P.size * r.choice([1, 1, 3]) for _ in range(6)]
    gp = [[int(r.integers(q)) for q in P.n] for _ in range(4)]
    for g in gp:
        pts.append((np.array(g) / P.n - .5) * P.size)
    for p in pts:
        p[P.dim:] = 0
    ctl += "(set! num-bands 1)(init-params NO-PARITY true)(output-epsilon)"
    for p in pts:
        ctl += "(vp 'e (get-epsilon-point %s))(vp 't (get-epsilon-inverse-tensor-point %s))" % (prog.v3(p), prog.v3(p))
    ctl += "(vp 'grid (get-grid-size))"
    R = ctx.mpb(ctl, cfg)
    tag = "%s %s mesh=%d%s%s" % (cfg, P.tag(), P.mesh, " nothing" * nothing, " function" * matfun)
    if R.rc:
        ctx.bad("run-failed", tag + R.out[-800:])
        return
    d = R.vpd()
    n = P.n
    f = os.path.join(R.dir, "in-epsilon.h5")
    T = prog.grid_tensors(f, n)
    E = prog.grid_tensors(f, n, inverse=False)
    sc = np.max(np.abs(E))
    if rel(np.einsum("...ij,...jk->...ik", T, E), np.broadcast_to(np.eye(3), T.shape)) > 1e-10:
        ctx.bad("file-inverse", tag)
    w = np.linalg.eigvalsh(T)
    if w.min() <= 0:
        ctx.bad("not-positive-definite", tag)
    data = h5.read(f)["data"].reshape(n)
    if rel(data, 2 / (w[..., 0] + w[..., 1])) > 1e-10:
        ctx.bad("file-mean", tag)
    m = re.search(r"epsilon: (\S+)-(\S+), mean (\S+), harm. mean (\S+), (\S+)% > 1, (\S+)% \"fill\"", R.out)
    st = [data.min(), data.max(), data.mean(), 1 / (1 / data).mean(), 100 * np.mean(data > 1.0001),
          100 * (data.mean() - data.min()) / (data.max() - data.min()) if data.max() > data.min() else 100]
    st_got = [float(x) for x in m.groups()]
    if data.max() - data.min() < 1e-9 * data.max():
        st, st_got = st[:5], st_got[:5]
    if np.max(np.abs(np.array(st_got) - st) / (1e-4 + np.abs(st))) > 1e-4:
        ctx.bad("printed-statistics", tag + " %s want %s" % (m.group(0), st))
    # point queries: multilinear periodic interpolation of the inverse tensor
    for p, e, t in zip(pts, d["e"], d["t"]):
        ti = interp(T, (p / P.size + .5) * n, n)
        tm = np.array([[complex(y) for y in x] for x in t])
        ww = np.linalg.eigvalsh(ti)
        ctx.n("point_queries")
        if rel(tm, ti) > 1e-9 and rel(tm, ti.T) > 1e-9:
            ctx.bad("tensor-at-point", tag + " p=%s got %s want %s" % (p, tm.tolist(), ti.tolist()))
        if abs(e - 2 / (ww[0] + ww[1])) > 1e-9 * e:
            ctx.bad("epsilon-at-point", tag + " p=%s got %s want %s" % (p, e, 2 / (ww[0] + ww[1])))
    # materials at points, independently of the package
    def mid(x, i=None):
        if i is None:
            i = G.ids(x[None])[0][0]
        mi = np.array([q["m"] for q in P.objs] + [-1])[i]
        if matfun:
            cell = (x[..., 0] / P.size[0] + .5) % 1 * P.size[0] - P.size[0] / 2
            mi = np.where(mi == -2, np.where(cell < x0, 0, 1), mi)
        return mi
    tens = np.array(mats + [dflt])
    grid = np.stack(np.meshgrid(*[(np.arange(q) / q - .5) for q in n], indexing="ij"), -1) * P.size
    grid[..., P.dim:] = 0
    px = P.size / np.array(n)
    px[P.dim:] = 0
    c0 = mid(grid)
    if P.mesh == 1:
        safe = np.ones(n, bool)
        for dlt in np.vstack([np.eye(3), -np.eye(3)]):
            safe &= mid(grid + 1e-7 * dlt * (px > 0)) == c0
        ctx.n("pixels", safe.sum())
        bad = safe & (np.max(np.abs(E - tens[c0]), (-1, -2)) > 1e-9 * sc)
        if bad.any():
            ix = tuple(np.argwhere(bad)[0])
            ctx.bad("material-at-grid-point", tag + " %d of %d, e.g. %s: got %s want %s" % (bad.sum(), bad.size, ix, E[ix].tolist(), tens[c0[ix]].tolist()))
    else:
        S = {1: 200, 2: 16, 3: 7}[P.dim]
        u = [((np.arange(S) + .5) / S - .5) * 1.02 if i < P.dim else np.zeros(1) for i in range(3)]
        off = np.stack(np.meshgrid(*u, indexing="ij"), -1).reshape(-1, 3) * px
        cor = np.stack(np.meshgrid(*[[-.5, .5] if i < P.dim else [0] for i in range(3)], indexing="ij"), -1).reshape(-1, 3) * px
        X = np.stack([grid] + [grid + q for q in list(cor) + list(off)])
        ai, copies = G.ids(X)
        if cfg == "inv":     # one half of the pixels is obtained from the other
            copies = np.maximum(copies, copies[np.ix_(*[(-np.arange(q)) % q for q in n])])
        am = mid(X, ai)
        nc = 1 + len(cor)
        sm, cm, co = am[nc:], am[:nc], ai[:nc]
        one = (sm == sm[:1]).all(0) & (cm == sm[0]).all(0)
        bad = one & (np.max(np.abs(E - tens[c0]), (-1, -2)) > 1e-9 * sc)
        ctx.n("pixels", E[..., 0, 0].size); ctx.n("interface_pixels", (~one).sum())
        if bad.any():
            ix = tuple(np.argwhere(bad)[0])
            ctx.bad("one-material-pixel", tag + " %d, e.g. %s: got %s want %s" % (bad.sum(), ix, E[ix].tolist(), tens[c0[ix]].tolist()))
        for ix in np.argwhere(~one):
            ix = tuple(ix)
            s_ = sm[(slice(None),) + ix]
            ms = np.unique(np.concatenate([s_, cm[(slice(None),) + ix]]))
            e = E[ix]
            if np.max(np.abs(e - tens[c0[ix]])) < 1e-9 * sc and len(np.unique(cm[(slice(None),) + ix])) == 1:
                ctx.n("unseen_inclusions")
                continue
            fr = np.array([np.mean(s_ == q) for q in ms])
            # within the means for fractions that the pixel's materials can have
            ok = False
            if len(ms) == 2:
                tol = {1: .03, 2: .12, 3: .15}[P.dim]
                if matfun or any(q["t"] == "cone" for q in P.objs) or copies[ix] > 1:
                    tol = 1
                g = np.clip(np.linspace(fr[0] - tol, fr[0] + tol, 201), 0, 1)[:, None, None]
                A = g * tens[ms[0]] + (1 - g) * tens[ms[1]]
                H = np.linalg.inv(g * np.linalg.inv(tens[ms[0]]) + (1 - g) * np.linalg.inv(tens[ms[1]]))
                gap = np.minimum(low(A - e), low(e - H)).max()
                ok = gap > -.012 * tol * sc - 1e-7 * sc
                fr = list(fr) + ["gap", gap]
                ctx.n("two_material_pixels")
            else:
                A = max(np.linalg.eigvalsh(tens[q])[-1] for q in ms)
                H = min(np.linalg.eigvalsh(tens[q])[0] for q in ms)
                we = np.linalg.eigvalsh(e)
                ok = we[0] > H - 1e-7 * sc and we[-1] < A + 1e-7 * sc
            if not ok:
                ctx.bad("outside-means", tag + " pixel %s materials %s fractions %s corners %s tensor %s" % (ix, ms, fr, co[(slice(None),) + ix], e.tolist()))
                break
            # the surface of one simple object: the laminate with its normal
            oc = np.unique(co[(slice(None),) + ix])
            single = copies[ix] == 1
            if len(ms) == 2 and len(oc) == 2 and single and not matfun and oc[1] >= 0:
                q = P.objs[oc[1]]
                nrm = None
                x = grid[ix]
                if q["t"] == "sphere" or (q["t"] == "cylinder" and q["h"] is None):
                    cc = nearest(P, q, x)
                    v = (x - cc) @ P.unit
                    if q["t"] == "cylinder":
                        a = np.asarray(q["ax"], float) @ P.unit; a /= np.linalg.norm(a)
                        v = v - (v @ a) * a
                    rr = np.linalg.norm(v)
                    if rr > .3 * q["r"]:
                        nrm = v / rr
                elif q["t"] == "block" and "e" not in q and sum(z is not None for z in q["s"]) == 1:
                    b = np.linalg.inv(P.unit)[:, [z is not None for z in q["s"]].index(True)]
                    nrm = b / np.linalg.norm(b)
                if nrm is not None:
                    ctx.n("laminate_pixels")
                    i1 = q["m"] if q["m"] >= 0 else len(mats)
                    i2 = [z for z in ms if z != q["m"]]
                    if len(i2) != 1:
                        continue
                    f1 = float(np.mean(s_ == q["m"]))
                    best = min(rel(laminate(nrm, [tens[i1], tens[i2[0]]], (g, 1 - g)), e) for g in np.clip(np.linspace(f1 - .15, f1 + .15, 301), 0, 1))
                    if best > 1e-2 * max(1, np.max(np.abs(tens[i1] - tens[i2[0]])) / np.max(np.abs(e))):
                        ctx.bad("laminate", tag + " pixel %s object %s n=%s f=%g: off by %g" % (ix, q["t"], nrm, f1, best))
                        break
    ctx.seen(tag + " %d" % c["s"])


def nearest(P, q, x):
    rg = [np.arange(-2, 3) if i < P.dim else np.array([0]) for i in range(3)]
    tr = np.stack(np.meshgrid(*rg, indexing="ij"), -1).reshape(-1, 3) * P.size + q["c"]
    d = (x - tr) @ P.unit
    if q["t"] == "cylinder":
        a = np.asarray(q["ax"], float) @ P.unit; a /= np.linalg.norm(a)
        d = d - (d @ a)[:, None] * a
    s = np.abs(np.linalg.norm(d, axis=1) - q["r"])
    return tr[np.argmin(s)]


def interp(T, u, n):
    out = 0
    i0 = np.floor(u).astype(int)
    t = u - i0
    for b in np.ndindex(2, 2, 2):
        w = np.prod([t[a] if b[a] else 1 - t[a] for a in range(3)])
        out = out + w * T[tuple((i0[a] + b[a]) % n[a] for a in range(3))]
    return out
