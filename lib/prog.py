"""Random photonic-crystal problems as control files, with what is needed to judge the program's answers."""
import os
import numpy as np
import oracle as o


def f(x):
    if isinstance(x, complex) or np.iscomplexobj(x):
        x = complex(x)
        if x.imag == 0:
            return f(x.real)
        return "%s%+.17gi" % (f(x.real), x.imag)
    return "%.17g" % x


def v3(v):
    return "(vector3 %s %s %s)" % tuple(f(x) for x in v)


def mat_ctl(m):
    if m["t"] == "iso":
        return "(make medium (epsilon %s)%s)" % (f(m["eps"]), " (mu %s)" % f(m["mu"]) if m.get("mu", 1) != 1 else "")
    s = "(make medium-anisotropic (epsilon-diag %s)" % v3(np.diag(m["eps"]).real)
    od = [m["eps"][0, 1], m["eps"][0, 2], m["eps"][1, 2]]
    if any(abs(x) > 0 for x in od):
        s += " (epsilon-offdiag (cvector3 %s %s %s))" % tuple(f(x) for x in od)
    if "mu" in m:
        s += " (mu-diag %s)" % v3(np.diag(m["mu"]).real)
        od = [m["mu"][0, 1], m["mu"][0, 2], m["mu"][1, 2]]
        if any(abs(x) > 0 for x in od):
            s += " (mu-offdiag (cvector3 %s %s %s))" % tuple(f(x) for x in od)
    return s + ")"


def mat_tensor(m, what="eps"):
    v = m.get(what, 1.0)
    return np.eye(3) * v + 0j if np.ndim(v) == 0 else np.asarray(v, complex)


def swap_mat(m):
    r = dict(m)
    r["eps"], r["mu"] = m.get("mu", 1.0 if m["t"] == "iso" else np.eye(3) + 0j), m["eps"]
    return r


def obj_ctl(q, mats):
    m = "(material %s)" % mat_ctl(mats[q["m"]])
    c = "(center %s %s %s)" % tuple(f(x) for x in q["c"])
    if q["t"] == "sphere":
        return "(make sphere %s %s (radius %s))" % (m, c, f(q["r"]))
    if q["t"] in ("cylinder", "cone"):
        return "(make %s %s %s (radius %s) (height %s) (axis %s %s %s)%s)" % (
            q["t"], m, c, f(q["r"]), "infinity" if q["h"] is None else f(q["h"]), *[f(x) for x in q["ax"]],
            " (radius2 %s)" % f(q["r2"]) if q["t"] == "cone" else "")
    s = " ".join("infinity" if x is None else f(x) for x in q["s"])
    e = ""
    if "e" in q:
        e = " ".join("(e%d %s %s %s)" % (i + 1, *[f(x) for x in q["e"][i]]) for i in range(3))
    return "(make %s %s %s (size %s) %s)" % (q["t"], m, c, s, e)


class Prob:
    """dim, n, R (rows: lattice vectors), G, mats, objs, default, k list, nb"""

    def __init__(self, r, dim=None, nmax=None, odd=False, inv=False, herm=False, mu=None, aniso=None, ortho=None, nobj=None,
                 zmir=False, ymir=False, nmin=2, nb=None, size=None, axes_z=False, tmtez=False, hi=9.0, eq=False):
        self.r = r
        self.dim = dim = int(dim or r.choice([1, 2, 3], p=[.2, .45, .35]))
        nmax = nmax or {1: 24, 2: 10, 3: 6}[dim]
        ns = []
        for i in range(3):
            q = int(r.integers(max(nmin, 2), nmax + 1)) if i < dim else 1
            if odd and q % 2 == 0:
                q += 1 if q < nmax else -1
            ns.append(q)
        if eq:
            ns = [ns[0] if i < dim else 1 for i in range(3)]
        self.n = tuple(ns)
        self.ortho = bool(r.random() < .5) if ortho is None else ortho
        while True:
            B = np.eye(3)
            if not self.ortho:
                if dim == 3:
                    B = B + .4 * r.uniform(-1, 1, (3, 3))
                elif dim == 2:
                    B[:2, :2] += .5 * r.uniform(-1, 1, (2, 2))
                if zmir or axes_z:   # z is perpendicular to the rest
                    B[2, :2] = 0; B[:2, 2] = 0
                if ymir:
                    B[1, [0, 2]] = 0; B[[0, 2], 1] = 0
                B *= r.uniform(.8, 1.2, 3)[:, None]
            U = B / np.linalg.norm(B, axis=1)[:, None]
            if abs(np.linalg.det(U)) > .4:
                break
        self.basis = B
        self.bsize = r.uniform(.7, 1.3, 3) if r.random() < .3 and not self.ortho else np.ones(3)
        use = (r.random() < .6) if size is None else size
        self.size = np.array([float(r.uniform(.7, 1.5)) if use and i < dim else 1.0 for i in range(3)])
        self.unit = U * self.bsize[:, None]
        self.R = self.unit * self.size[:, None]
        self.G = o.recip(self.R)
        self.vol = abs(np.linalg.det(self.R))
        self.inv, self.herm, self.zmir, self.ymir = inv, herm, zmir, ymir
        self.tez = tmtez
        kind = str(aniso or r.choice(["iso", "diag", "full"], p=[.5, .15, .35]))
        self.kind = kind
        mk = mu if mu is not None else str(r.choice(["none", "iso", "diag", "full"], p=[.6, .15, .1, .15]))
        self.mukind = mk
        self.mats = [self.rand_mat(kind, mk, hi) for _ in range(int(r.integers(2, 4)))]
        self.default = int(r.integers(len(self.mats))) if r.random() < .5 else None
        self.objs = []
        for _ in range(int(r.integers(1, 4)) if nobj is None else nobj):
            self.add_obj()
        self.nb = nb or int(r.integers(1, 7))
        self.nb = min(self.nb, 2 * int(np.prod(self.n)) - 2)
        self.mesh = int(r.choice([1, 2, 3, 5]))
        self.tol = 1e-9

    def tensor(self, kind, hi):
        r = self.r
        T = o.rand_tensor(r, 1.0, hi, "diag" if kind == "diag" else "aniso", self.herm and r.random() < .7)
        if self.zmir or self.tez:
            T = T.copy(); T[0, 2] = T[2, 0] = T[1, 2] = T[2, 1] = 0
        if self.ymir:
            T = T.copy(); T[0, 1] = T[1, 0] = T[1, 2] = T[2, 1] = 0
        return T

    def rand_mat(self, kind, mk, hi=9.0):
        r = self.r
        if kind == "iso" and mk in ("none", "iso"):
            m = {"t": "iso", "eps": float(r.uniform(1, hi))}
            if mk == "iso":
                m["mu"] = float(r.uniform(1, 4))
            return m
        m = {"t": "an", "eps": np.eye(3) * float(r.uniform(1, hi)) + 0j if kind == "iso" else self.tensor(kind, hi)}
        if mk != "none":
            m["mu"] = np.eye(3) * float(r.uniform(1, 4)) + 0j if mk == "iso" else self.tensor(mk, 4.0)
        return m

    def add_obj(self):
        r = self.r
        t = str(r.choice(["sphere", "cylinder", "block", "ellipsoid", "cone"], p=[.25, .3, .3, .1, .05]))
        if t == "cone" and (self.inv or self.zmir or self.ymir):
            t = "cylinder"
        c = np.array([r.uniform(-.5, .5) * self.size[i] if i < self.dim else 0 for i in range(3)])
        q = {"t": t, "m": int(r.integers(len(self.mats)))}
        mx = float(min(self.size[:self.dim] * np.linalg.norm(self.unit, axis=1)[:self.dim]))
        if t in ("sphere", "cylinder", "cone"):
            q["r"] = float(r.uniform(.12, .45)) * mx
        if t in ("cylinder", "cone"):
            q["ax"] = [0, 0, 1] if self.dim < 3 or r.random() < .4 else [float(x) for x in r.normal(size=3)]
            if self.zmir or self.ymir:
                q["ax"] = [0, 0, 1]
            q["h"] = None if r.random() < .5 and t == "cylinder" else float(r.uniform(.2, .9))
            if self.dim < 3 and q["ax"] == [0, 0, 1]:
                q["h"] = None if t == "cylinder" else 1.0
            if t == "cone":
                q["r2"] = float(r.uniform(0, .3)) * mx
        if t in ("block", "ellipsoid"):
            q["s"] = [float(r.uniform(.15, .8)) * self.size[i] if i < self.dim else (None if t == "block" else 3.0) for i in range(3)]
            if t == "block" and r.random() < .25:
                q["s"][int(r.integers(3))] = None
            if r.random() < .5 and self.dim == 3 and not (self.zmir or self.ymir):
                E = np.eye(3) + .5 * r.uniform(-1, 1, (3, 3))
                q["e"] = E.tolist()
            elif r.random() < .5 and self.dim >= 2 and not self.ymir:
                a = r.uniform(0, np.pi)
                q["e"] = [[np.cos(a), np.sin(a), 0], [-np.sin(a), np.cos(a), 0], [0, 0, 1]]
        if self.inv or self.zmir or self.ymir:
            # make the set of objects symmetric: self-symmetric at the centre, or pairs
            if r.random() < .5:
                c = np.where(c != 0, 0, c)
                q["c"] = c
                if not self.inv:
                    c2 = np.array([r.uniform(-.5, .5) * self.size[i] if i < self.dim else 0 for i in range(3)])
                    q["c"] = np.array([c2[0], 0 if self.ymir else c2[1], 0 if self.zmir else c2[2]])
                self.objs.append(q)
            else:
                ops = []
                if self.inv:
                    ops.append(np.array([-1, -1, -1]))
                if self.zmir and self.dim == 3:
                    ops.append(np.array([1, 1, -1]))
                if self.ymir and self.dim >= 2:
                    ops.append(np.array([1, -1, 1]))
                if self.zmir and self.dim < 3:
                    pass
                if self.ymir and q["t"] in ("block", "ellipsoid"):
                    q.pop("e", None)
                imgs = [c]
                for op in ops:
                    imgs += [op * x for x in imgs]
                # overlapping images of one material: order does not matter
                for x in imgs:
                    self.objs.append(dict(q, c=x))
        else:
            q["c"] = c
            self.objs.append(q)

    def lattice_ctl(self):
        s = " ".join(f(self.size[i]) if i < self.dim else "no-size" for i in range(3))
        out = "(set! geometry-lattice (make lattice (size %s)" % s
        for i in range(3):
            out += " (basis%d %s %s %s)" % (i + 1, *[f(x) for x in self.basis[i]])
        if (self.bsize != 1).any():
            out += " (basis-size %s %s %s)" % tuple(f(x) for x in self.bsize)
        return out + "))\n"

    def ctl(self, ks=(), mu_only=False, mats=None, **set_):
        mats = mats or self.mats
        if mu_only:
            mats = [swap_mat(m) for m in mats]
        s = "(set! dimensions %d)\n" % max(self.dim, 1) if self.dim < 3 and self.r is not None and False else ""
        s += self.lattice_ctl()
        res = [(self.n[i] - 1e-6) / self.size[i] if i < self.dim else 1 for i in range(3)]
        s += "(set! resolution %s)\n" % v3(res)
        if self.default is not None:
            s += "(set! default-material %s)\n" % mat_ctl(mats[self.default])
        s += "(set! geometry (list %s))\n" % "\n ".join(obj_ctl(q, mats) for q in self.objs)
        s += "(set! num-bands %d)\n(set! tolerance %s)\n(set! mesh-size %d)\n" % (self.nb, f(self.tol), self.mesh)
        if len(ks):
            s += "(set! k-points (list %s))\n" % " ".join(v3(k) for k in ks)
        for k, v in set_.items():
            s += "(set! %s %s)\n" % (k.replace("_", "-").replace("QQ", "?"), v)
        return s

    def has_mu(self):
        return self.mukind != "none"

    def rand_k(self, kind=None):
        r = self.r
        kind = kind or str(r.choice(["gen", "zero", "axis", "edge"], p=[.6, .1, .2, .1]))
        k = {"gen": r.uniform(-.7, .7, 3), "zero": np.zeros(3), "axis": np.array([r.uniform(.05, .45), 0, 0]),
             "edge": np.array([.5, 0 if self.dim < 2 else .5, 0])}[kind]
        if kind == "gen":
            for i in range(self.dim, 3):
                if r.random() < .6:
                    k[i] = 0
        if kind == "gen" and self.tez:
            k[2] = 0
        return k

    def tag(self):
        return "dim%d n=%s eps=%s mu=%s inv=%d ortho=%d objs=%s" % (
            self.dim, "x".join(map(str, self.n)), self.kind, self.mukind, self.inv, self.ortho, "".join(q["t"][0] for q in self.objs))


def grid_tensors(path, n, herm=False, inverse=True):
    """(n,3,3) tensors from an epsilon file"""
    import h5
    d = h5.read(path)
    p = "epsilon_inverse" if inverse else "epsilon"
    T = np.zeros(tuple(n) + (3, 3), complex)
    for a in range(3):
        for b in range(a, 3):
            nm = "%s.%s%s" % (p, "xyz"[a], "xyz"[b])
            v = d[nm].reshape(n).astype(complex)
            if nm + ".i" in d:
                v = v + 1j * d[nm + ".i"].reshape(n)
            T[..., a, b] = v
            if a != b:
                T[..., b, a] = np.conj(v)
    return T


def field_file(path, n, comps="xyz"):
    import h5
    d = h5.read(path)
    return np.stack([d[c + ".r"].reshape(n) + 1j * d[c + ".i"].reshape(n) for c in comps], -1), d


def vec(x):
    return np.array([complex(a) for a in x])


def bloch_phase(n, k, sign=1):
    g = np.stack(np.meshgrid(*[np.arange(m) / m for m in n], indexing="ij"), -1)
    return np.exp(sign * 2j * np.pi * (g @ np.asarray(k)))


def mu_tensors(P, ctx, cfg, k=(0, 0, 0)):
    """inverse-permeability tensors on the grid, through a run with eps and mu exchanged (mu averaging is the same code)"""
    s = P.ctl([], mu_only=True) + "(set! num-bands 0)(set! filename-prefix \"muonly-\")\n(init-params NO-PARITY true)(output-epsilon)\n"
    r = ctx.mpb(s, cfg, name="muonly.ctl")
    p = os.path.join(r.dir, "muonly-epsilon.h5")
    if not os.path.exists(p):
        return None
    return grid_tensors(p, P.n)
