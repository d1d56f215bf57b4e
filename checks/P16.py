"""P16: symmetry characters."""
import itertools
import os
import re
import numpy as np
import h5
import oracle as o
import prog
from prog import f, v3, vec

RULE = ("random structures (symmetric under random point and space groups, or not at all), k-points and operations; a case counts when every overlap the program returned was compared with the overlap integral "
        "of its own exported fields evaluated in numpy, and, for true symmetries, with the group laws")
ASSUMPTIONS = ["mesh-size 1: symmetric structures are sampled at the grid points by a symmetrised material function",
               "on even grids the one-sided Nyquist component breaks the symmetry slightly: unit modulus and group laws are judged to 2e-2 there (0.08/0.15, and bands 0.03/0.06 apart, on the small grids of skewed lattices, whose box of planewaves is not symmetric either)"]
MIN_DISTINCT = 30
TOLERATE = ("failure to converge after|non-independent AV subspace|non-positive eigenvalue|bad news: Polak|inexplicable singularity", 4)
MODES = (("any", 40), ("sym", 48), ("stop", 8))


def builds(tier):
    return [(c, "mpb") for c in ("complex", "inv", "herm", "cmpi")]


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for mi, (m, n) in enumerate(MODES):
        for i in range(n if q else 10 * n):
            cfg = str(o.rng(seed, 16, mi, i, 9).choice(["complex", "herm"])) if m != "stop" else ("inv", "cmpi", "complex", "complex")[i % 4]
            out.append({"cfg": cfg, "s": (seed, 16, mi, i), "mode": m, "cost": 3})
    return out


def run(c, ctx):
    globals()["run_" + c["mode"]](c, ctx)


def op_ctl(W, w):
    return "(matrix3x3 %s) %s" % (" ".join(v3(W[:, j]) for j in range(3)), v3(w))


def unimod(r, dim):
    """random integer matrix of determinant +-1 on the directions that have a size"""
    W = np.eye(3)
    for _ in range(int(r.integers(0, 4))):
        M = np.eye(3)
        t = r.random()
        if t < .5 and dim > 1:
            i, j = r.permutation(dim)[:2]
            M[i, j] = r.choice([-1, 1])
        elif t < .8 and dim > 1:
            p = list(r.permutation(dim)) + list(range(dim, 3))
            M = np.eye(3)[p]
        else:
            M[int(r.integers(3))] *= -1
        W = M @ W
    return W


def angle(r, P):
    """a rotation by any angle (in Cartesian space), as it acts on lattice coordinates"""
    a = r.uniform(0, 2 * np.pi)
    C = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
    return np.linalg.inv(P.unit.T) @ C @ P.unit.T


class Mode:
    def __init__(self, P, k, u, v):
        """periodic parts of the fields whose inner product is taken: u (left), v (right); arrays n+(3,)"""
        self.P, self.k, self.u, self.v = P, np.asarray(k, float), u, v
        self.R = P.size.copy()
        self.kk = 2 * np.pi * self.k / np.where(np.arange(3) < P.dim, P.size, 1)
        self.p = np.stack(np.meshgrid(*[(np.arange(m) / m - .5) * P.size[i] if i < P.dim else np.zeros(1) for i, m in enumerate(P.n)], indexing="ij"), -1)

    def sample(self, pt):
        n = np.array(self.P.n)
        x = np.where(np.arange(3) < self.P.dim, (pt / self.P.size + .5) * n, 0)
        x = np.where(abs(x - np.round(x)) < 1e-9, np.round(x), x)
        b = np.floor(x).astype(int)
        d = x - b
        s = 0
        for c in itertools.product((0, 1), repeat=3):
            w = np.prod([d[..., i] if c[i] else 1 - d[..., i] for i in range(3)], axis=0)
            j = (b + c) % n
            s = s + w[..., None] * self.v[j[..., 0], j[..., 1], j[..., 2]]
        return s

    def overlap(self, W, w, axial):
        P = self.P
        pt = (self.p - w) @ np.linalg.inv(W).T
        U = P.unit.T
        Wc = U @ W @ np.linalg.inv(U)
        ft = self.sample(pt) @ Wc.T
        ph = np.exp(1j * ((pt - self.p) @ self.kk))
        s = np.sum(np.sum(np.conj(self.u) * ft, -1) * ph) * P.vol / np.prod(P.n)
        return s * (np.linalg.det(W) if axial else 1)


def fields(ctx, d, P, k, bands, mui, cfg):
    """{(band, 'b'|'d'): Mode} of the fields written to d"""
    ei = prog.grid_tensors(os.path.join(d, "in-epsilon.h5"), P.n)
    out = {}
    fs = os.listdir(d)
    ph = prog.bloch_phase(P.n, k, -1)[..., None]
    for b in bands:
        for t in "bd":
            m = [x for x in fs if re.match(r"in-%s\.k\d+\.b%02d" % (t, b), x)]
            if len(m) != 1:
                return None
            F = prog.field_file(os.path.join(d, m[0]), P.n)[0] * ph
            T = ei if t == "d" else mui
            out[b, t] = Mode(P, k, F if T is None else np.einsum("...ij,...j->...i", T, F), F)
    return out


def run_any(c, ctx):
    r = o.rng(*c["s"])
    P = prog.Prob(r, herm=c["cfg"] == "herm", nb=int(r.integers(1, 4)))
    k = P.rand_k()
    P.tol = 1e-4
    ops = []
    for _ in range(5):
        W = unimod(r, P.dim) if r.random() < .75 or P.dim == 1 else angle(r, P)
        if W[2, 2] != 1 and P.dim == 2 and np.any(W[2, :2]):
            W = np.eye(3)
        w = np.array([r.choice([0., r.integers(P.n[i]) / P.n[i] * P.size[i], r.uniform(-1.5, 1.5)]) if i < P.dim or r.random() < .2 else 0. for i in range(3)])
        ops.append((W, w))
    tag = "any %s %s k=%s" % (c["cfg"], P.tag(), np.round(k, 3))
    t = "(set! filename-prefix \"in-\")" + P.ctl((), ) + "(init-params NO-PARITY true)(output-epsilon)(solve-kpoint %s)" % v3(k)
    for b in range(1, P.nb + 1):
        t += "(output-bfield %d)(output-dfield %d)" % (b, b)
        for i, q in enumerate(ops):
            x = op_ctl(*q)
            t += "(vp 'c{b}-{i} (compute-symmetry {b} {x}))(get-bfield {b})(vp 'b{b}-{i} (transformed-overlap {x}))(get-dfield {b})(vp 'd{b}-{i} (transformed-overlap {x}))".format(b=b, i=i, x=x)
    for i, q in enumerate(ops):
        t += "(vp 'all%d (compute-symmetries %s))" % (i, op_ctl(*q))
    # not a field of these kinds, not an isometry: refused with the value 0
    t += "(get-efield 1)(vp 'refuse1 (transformed-overlap %s))(get-bfield 1)(vp 'refuse2 (transformed-overlap (matrix3x3 (vector3 2 0 0) (vector3 0 1 0) (vector3 0 0 1)) (vector3 0 0 0)))(get-bfield 1)(output-bfield 1)(compute-field-energy)(vp 'refuse3 (transformed-overlap %s))" % (op_ctl(*ops[0]), op_ctl(*ops[0]))
    R = ctx.mpb(t, c["cfg"], name="in.ctl")
    if R.rc:
        ctx.bad("stopped:", tag + R.why())
        return
    mui = prog.mu_tensors(P, ctx, c["cfg"]) if P.has_mu() else None
    M = fields(ctx, R.dir, P, k, range(1, P.nb + 1), mui, c["cfg"])
    if M is None:
        ctx.bad("no-files", tag)
        return
    v = R.vpd()
    for n in (1, 2, 3):
        if complex(v["refuse%d" % n][0]) != 0:
            ctx.bad("refused", tag + " %d: %s" % (n, v["refuse%d" % n]))
    for b in range(1, P.nb + 1):
        for i, (W, w) in enumerate(ops):
            for key, t in (("c", "b"), ("b", "b"), ("d", "d")):
                got = complex(v["%s%d-%d" % (key, b, i)][0])
                want = M[b, t].overlap(W, w, t == "b")
                ctx.n("overlaps")
                if abs(got - want) > 1e-7:
                    ctx.bad("overlap:" + key, tag + " band %d W=%s w=%s: %s, expected %s" % (b, W.tolist(), np.round(w, 4), got, want))
                    return
            if abs(complex(v["all%d" % i][0][b - 1]) - complex(v["c%d-%d" % (b, i)][0])) > 1e-12:
                ctx.bad("compute-symmetries", tag)
    ctx.n("structures"); ctx.seen(tag)


def lattice_group(P):
    """integer matrices (on lattice coordinates, columns) that preserve lengths and map the grid onto itself"""
    Gm = P.R @ P.R.T
    out = []
    d = P.dim
    for e in itertools.product((-1, 0, 1), repeat=d * d):
        W = np.eye(3)
        W[:d, :d] = np.array(e).reshape(d, d)
        if abs(abs(np.linalg.det(W)) - 1) > 1e-9 or np.max(np.abs(W.T @ Gm @ W - Gm)) > 1e-9:
            continue
        if any(W[i, j] and P.n[i] != P.n[j] for i in range(d) for j in range(d)):
            continue
        out.append(W)
        if d < 3:
            W = W.copy()
            W[2, 2] = -1
            out.append(W)
    return out


def key(W, w):
    return tuple(W.astype(int).ravel()), tuple(np.round(w * 24).astype(int) % 24)


def closure(gens):
    G = {key(np.eye(3), np.zeros(3)): (np.eye(3), np.zeros(3))}
    todo = list(G.values())
    while todo:
        A = todo.pop()
        for B in gens:
            C = (B[0] @ A[0], (B[0] @ A[1] + B[1]) % 1)
            C = (C[0], np.where(C[1] > 1 - 1e-9, 0, C[1]))
            if key(*C) not in G:
                G[key(*C)] = C
                todo.append(C)
            if len(G) > 100:
                return None
    return list(G.values())


LAT = {"square": (2, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], (1, 1, 1)), "rect": (2, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], (1, 1.3, 1)),
       "hex": (2, [[.5 * 3 ** .5, .5, 0], [.5 * 3 ** .5, -.5, 0], [0, 0, 1]], (1, 1, 1)), "rhomb": (2, [[.8, .6, 0], [.8, -.6, 0], [0, 0, 1]], (1, 1, 1)),
       "line": (1, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], (1, 1, 1)),
       "sc": (3, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], (1, 1, 1)), "fcc": (3, [[0, 1, 1], [1, 0, 1], [1, 1, 0]], (.7, .7, .7)),
       "bcc": (3, [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], (.8, .8, .8)), "tet": (3, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], (1, 1, .7)),
       "hex3": (3, [[.5 * 3 ** .5, .5, 0], [.5 * 3 ** .5, -.5, 0], [0, 0, 1]], (1, 1, .9)), "orth": (3, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], (.8, 1, 1.2))}


def make_sym(r):
    """a lattice, a space group on it, a dielectric (and perhaps magnetic) function with that symmetry"""
    while True:
        name = str(r.choice(list(LAT), p=[.14, .12, .14, .08, .1, .1, .06, .06, .08, .06, .06]))
        dim, B, bs = LAT[name]
        P = prog.Prob(r, dim=dim, mu="none", aniso="iso", nobj=0, ortho=True, size=False)
        P.basis = np.array(B, float)
        P.bsize = np.array(bs, float)
        P.unit = P.basis / np.linalg.norm(P.basis, axis=1)[:, None] * P.bsize[:, None]
        P.size = np.ones(3)
        P.R, P.G, P.vol = P.unit, o.recip(P.unit), abs(np.linalg.det(P.unit))
        fr = r.random() < .4 and dim > 1
        den = int(r.choice([2, 2, 3])) if fr else 1
        if dim == 3:
            m = int(r.choice([6] if fr else [5, 6, 7]))
        else:
            m = int(r.choice([12] if fr else [9, 11, 12])) if dim == 2 else int(r.choice([15, 16, 21]))
        P.n = tuple(m if i < dim else 1 for i in range(3))
        P.mesh, P.default, P.objs = 1, None, []
        L = lattice_group(P)
        gens = []
        for _ in range(int(r.integers(1, 4))):
            W = L[int(r.integers(len(L)))]
            w = np.array([r.integers(den) / den if i < dim else 0. for i in range(3)]) if fr else np.zeros(3)
            gens.append((W, w))
        G = closure(gens)
        if G is None or len(G) < 2 or len(G) > 48:
            continue
        return name, P, G


def series(r, P, G, base):
    A = {}
    for _ in range(3):
        m = np.array([int(r.integers(-1, 2)) if i < P.dim else 0 for i in range(3)])
        if not m.any():
            continue
        a = r.uniform(.5, 1) * np.exp(2j * np.pi * r.random())
        for W, w in G:
            Wi = np.linalg.inv(W)
            m2 = m @ Wi
            A[tuple(np.round(m2).astype(int))] = A.get(tuple(np.round(m2).astype(int)), 0) + a * np.exp(-2j * np.pi * (m2 @ w))
    s = sum(abs(x) for x in A.values()) or 1
    return "(+ %s %s)" % (f(base), " ".join("(* %s (cos (+ (* %s (vector3-x p)) (* %s (vector3-y p)) (* %s (vector3-z p)) %s)))" % (
        f(.8 * (base - 1) * abs(x) / s), *[f(2 * np.pi * q) for q in m], f(float(np.angle(x)))) for m, x in sorted(A.items()) if abs(x) > 1e-12))


def run_sym(c, ctx):
    r = o.rng(*c["s"])
    name, P, G = make_sym(r)
    d = P.dim
    P.tol = 1e-11
    eps, mu = series(r, P, G, float(r.uniform(3, 7))), None
    if r.random() < .3:
        mu = series(r, P, G, float(r.uniform(1.5, 3)))
    # a k-point with as many of the operations as the draw gives
    best = None
    for _ in range(6):
        t = r.uniform(.05, .45)
        k = np.array([r.choice([0, .5, 1 / 3, -1 / 3, t, -t]) if i < d else 0. for i in range(3)])
        lit = [(W, w) for W, w in G if np.max(np.abs((q := k @ np.linalg.inv(W) - k) - np.round(q))) < 1e-9]
        if best is None or len(lit) > len(best[1]) and r.random() < .7:
            best = k, lit
    k, ops = best
    P.nb = 6 if d > 1 else 4
    odd = all(m % 2 for m in P.n[:d])
    rough = name in ("fcc", "bcc", "hex3")      # the box of planewaves has not the symmetry of the lattice, and is small
    gap = .06 if rough else .03 if name == "hex" else 2e-3
    tol = .15 if rough else .08 if name == "hex" else 2e-4 if odd else 2e-2
    # translates of operations by lattice vectors are operations too
    ops = [(W, w + [int(r.integers(-1, 2)) if i < d and r.random() < .3 else 0 for i in range(3)]) for W, w in ops]
    T = np.array([int(r.integers(-2, 3)) if i < d else 0 for i in range(3)], float)
    tag = "sym %s %s n=%s |G|=%d |Gk|=%d k=%s mu=%d" % (c["cfg"], name, P.n[:d], len(G), len(ops), np.round(k, 3), mu is not None)
    mirror = [i for i, (W, w) in enumerate(ops) if np.allclose(W, np.diag([1, 1, -1])) and not w.any()] if d < 3 and k[2] == 0 else []
    ymirror = [i for i, (W, w) in enumerate(ops) if np.allclose(W, np.diag([1, -1, 1])) and not w.any()] if name in ("line", "square", "rect", "sc", "tet", "orth") and k[1] == 0 else []
    base = P.ctl(()) + "(set! default-material (make material-function (material-func (lambda (p) (make medium (epsilon %s)%s)))))\n(set! geometry (list))" % (eps, " (mu %s)" % mu if mu else "")
    t = base + "(define k %s)(init-params NO-PARITY true)(output-epsilon)" % v3(k)
    for rep in range(2):
        t += "(randomize-fields)(solve-kpoint k)(vp 'w%d freqs)(vp 'id%d (compute-symmetries %s))(vp 'tr%d (compute-symmetries %s))" % (rep, rep, op_ctl(np.eye(3), np.zeros(3)), rep, op_ctl(np.eye(3), T))
        for i, q in enumerate(ops):
            t += "(vp 'b{r}-{i} (compute-symmetries {x}))(vp 'd{r}-{i} (map (lambda (b) (get-dfield b) (transformed-overlap {x})) (arith-sequence 1 1 num-bands)))".format(r=rep, i=i, x=op_ctl(*q))
        t += "(vp 'z%d (compute-zparities))(vp 'y%d (compute-yparities))" % (rep, rep)
    R = ctx.mpb(t, c["cfg"], name="in.ctl")
    if R.rc:
        ctx.bad("stopped:", tag + R.why())
        return
    v = R.vpd()
    w0, w1 = np.array(v["w0"][0], float), np.array(v["w1"][0], float)
    if np.max(np.abs(w0 - w1)) > 1e-5:
        ctx.n("stuck_solves")      # P02's subject
        return
    # groups of degenerate bands, all within the computed set and away from w=0 (whose two modes are arbitrary)
    groups, i = [], 0
    while i < len(w0):
        j = i + 1
        while j < len(w0) and w0[j] - w0[j - 1] < gap:
            j += 1
        if j < len(w0) and w0[i] > 1e-3 and (i == 0 or w0[i - 1] > 1e-3):
            groups.append(list(range(i, j)))
        i = j
    chi = {}
    for rep in range(2):
        for b in range(P.nb):
            if w0[b] < 1e-3:
                continue
            x = complex(v["id%d" % rep][0][b])
            if abs(x - 1) > 1e-6:
                ctx.bad("identity", tag + " band %d: %s" % (b + 1, x))
            x, e = complex(v["tr%d" % rep][0][b]), np.exp(-2j * np.pi * (k @ T))
            ctx.n("translations")
            if abs(x - e) > 1e-6:
                ctx.bad("translation", tag + " band %d by %s: %s, expected %s" % (b + 1, T, x, e))
    for g in groups:
        for i, (W, w) in enumerate(ops):
            tr = [[sum(complex(v["%s%d-%d" % (t, rep, i)][0][b]) for b in g) for t in "bd"] for rep in range(2)]
            ctx.n("characters")
            X = chi[g[0], i] = tr[0][0]
            what = tag + " bands %s (%.5f) W=%s w=%s" % ([b + 1 for b in g], w0[g[0]], W.astype(int).tolist(), w)
            for rep in range(2):
                if abs(tr[rep][0] - tr[rep][1]) > tol * len(g):
                    ctx.bad("field-kind", what + ": B %s, D %s" % tuple(tr[rep]))
            if abs(tr[0][0] - tr[1][0]) > tol * len(g):
                ctx.bad("basis", what + ": %s and %s from two starts" % (tr[0][0], tr[1][0]))
            if len(g) == 1 and abs(abs(X) - 1) > tol:
                ctx.bad("modulus", what + ": %s" % X)
            if abs(X) > len(g) * (1 + tol):
                ctx.bad("modulus", what + ": %s" % X)
            if len(g) == 1 and (i in mirror or i in ymirror):
                p = float(v["zy"[i in ymirror] + "0"][0][g[0]])
                ctx.n("mirrors")
                if abs(X - p) > tol:
                    ctx.bad("parity", what + ": %s, parity %s" % (X, p))
        # orthogonality theorem: the mean of |chi|^2 is a positive integer
        s = sum(abs(chi[g[0], i]) ** 2 for i in range(len(ops))) / len(ops)
        if abs(s - round(s)) > 3 * tol * len(g) or round(s) < 1:
            ctx.bad("norm", tag + " bands %s: mean square of the characters %g" % ([b + 1 for b in g], s))
        if len(g) == 1:
            # products
            ix = {key(W, w): i for i, (W, w) in enumerate(ops)}
            for i, j in {(int(r.integers(len(ops))), int(r.integers(len(ops)))) for _ in range(6)}:
                W, w = ops[i][0] @ ops[j][0], ops[i][0] @ ops[j][1] + ops[i][1]
                if key(W, w) not in ix:
                    ctx.bad("harness", tag)
                    continue
                m = ix[key(W, w)]
                # {W|w} = {1|t}{W|w_m}, and {1|t} gives exp(-i k t)
                e = chi[g[0], m] * np.exp(-2j * np.pi * (k @ (w - ops[m][1])))
                ctx.n("products")
                if abs(chi[g[0], i] * chi[g[0], j] - e) > 2 * tol:
                    ctx.bad("product", tag + " band %d: %s * %s is not %s" % (g[0] + 1, chi[g[0], i], chi[g[0], j], e))
    ctx.n("groups", len(groups)); ctx.n("structures"); ctx.seen(tag)


def run_stop(c, ctx):
    """refusals: programs that cannot do it stop with the documented message; nothing loaded gives 0"""
    r = o.rng(*c["s"])
    P = prog.Prob(r, inv=c["cfg"] == "inv", dim=2, nb=2)
    np_ = 2 if c["cfg"] == "cmpi" else 0
    q = op_ctl(np.eye(3), np.zeros(3))
    if c["cfg"] == "complex":
        R = ctx.mpb(P.ctl(()) + "(vp 'a (transformed-overlap %s))(init-params NO-PARITY true)(vp 'b (transformed-overlap %s))(solve-kpoint (vector3 .1 .2 0))(vp 'c (transformed-overlap %s))(get-hfield 1)(vp 'd (transformed-overlap %s))(vp 'e (magnitude (compute-symmetry 1 %s)))" % (q, q, q, q, q), c["cfg"])
        if R.rc:
            ctx.bad("stopped:", R.why())
            return
        v = R.vpd()
        if any(complex(v[x][0]) for x in "abcd") or abs(float(v["e"][0]) - 1) > 1e-6:
            ctx.bad("refused", "%s" % v)
    else:
        R = ctx.mpb(P.ctl(()) + "(init-params NO-PARITY true)(solve-kpoint (vector3 .1 .2 0))(compute-symmetry 1 %s)" % q, c["cfg"], np_=np_)
        if R.rc == 0 or "not yet implemented" not in R.why() + R.out:
            ctx.bad("not-refused", "%s exit %s %s" % (c["cfg"], R.rc, R.why()))
    ctx.n("refusals"); ctx.seen("stop %s %s" % (c["cfg"], P.tag()))
