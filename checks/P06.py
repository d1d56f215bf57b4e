"""P06: field output of the real program against Maxwell's equations evaluated independently on the grid.

The dielectric tensors come from the program's own epsilon.h5 (their relation to the geometry is P05's matter), the magnetic field
of each band from its output file.  From these two an independent spectral evaluation gives D, E, B, all energies, fractions,
integrals, fluxes, divergences and interpolated values, which are compared with everything the program reports about the band.
"""
import os
import re
import numpy as np
import oracle as o
import prog
import h5
from vf import Inconclusive
from prog import f, v3
from P02 import retry

RULE = ("program runs of random problems (1-3D, all three scalar builds, with and without permeability); a band counts as observed when its "
        "D, E, B, H files, energy densities, integrals and point values have been compared with the independent evaluation")
ASSUMPTIONS = ["the iterative solver's vectors are accurate to about the square root of the tolerance: relations which hold only for exact eigenvectors "
               "(curl E = i omega B, electric = magnetic energy) are judged at 2e-3, definitions at 1e-6",
               "the inversion-symmetric build is compared spectrally on odd grids only (one-sided Nyquist plane)"]
MIN_DISTINCT = 8


def builds(tier):
    return [("complex", "mpb"), ("inv", "mpb"), ("herm", "mpb")]


def cases(tier, seed):
    n = 150 if tier == "quick" else 1200
    return [{"mode": "static", "s": (seed, 6, 0), "cfg": "complex", "cost": 1}] + [{"mode": "fields", "cfg": ["complex", "inv", "complex", "herm", "inv", "complex"][i % 6], "s": (seed, 6, i), "cost": 1, "timeout": 400}
            for i in range(n)]


def run(c, ctx):
    globals()["run_" + c["mode"]](c, ctx)


def run_static(c, ctx):
    """the zero-frequency modes at k = 0 are uniform B fields normalised without regard to the permeability"""
    R = ctx.mpb('''(set! geometry-lattice (make lattice (size 1 no-size no-size)))(set! resolution 8)(set! mesh-size 1)
(set! geometry (list (make block (center 0 0 0) (size .6 infinity infinity) (material (make medium (epsilon 2) (mu 3))))))
(set! num-bands 3)(set! k-points (list (vector3 0)))(run)(vp 'freqs freqs)
(vp 'u (map (lambda (b) (get-bfield b) (car (compute-field-energy))) (list 1 2 3)))''')
    d = R.vpd()
    fr, u = d["freqs"][0], d["u"][0]
    for i in range(3):
        if abs(u[i] - 1) > 1e-6:
            ctx.bad("magnetic-energy-1:static-slab-mu3:band%d" % (i + 1), "freq %g energy %g" % (fr[i], u[i]))
        ctx.n("static_bands")
    ctx.seen("static")


def interp(T, u):
    n = T.shape[:3]
    out = 0
    i0 = np.floor(u).astype(int)
    t = u - i0
    for b in np.ndindex(2, 2, 2):
        w = np.prod([t[a] if b[a] else 1 - t[a] for a in range(3)])
        out = out + w * T[tuple((i0[a] + b[a]) % n[a] for a in range(3))]
    return out


def mean_eps(T):
    w = np.linalg.eigvalsh(T)
    return 2 / (w[..., 0] + w[..., 1])


FIELDS = """
(get-efield {b})(define fe (field-copy cur-field))
(get-dfield {b})(define fd (field-copy cur-field))
(get-charge-density {b})(define fc (field-copy cur-field))
(get-epsilon)(define fn (field-copy cur-field))
(vp 'fn (map (lambda (p) (rscalar-field-get-point fn p)) pts))
{MU}
(vp 'if1 (integrate-fields (lambda (r e d n) (* (+ n (vector3-x r) (* .3 (vector3-y r))) (vector3-cdot e d))) fe fd fn))
(vp 'if2 (integrate-fields (lambda (r c e) (* (+ 1 (vector3-z r) (vector3-x r)) c (vector3-x e))) fc fe))
(vp 'if0 (integrate-fields (lambda (r) (+ (vector3-x r) (* 2 (vector3-y r)) (- (vector3-z r))))))
(define fs (cvector-field-make fn))
(field-map! fs (lambda (e d) (vector3+ (vector3-scale 2 e) d)) fe fd)
(vp 'fs1 (map (lambda (p) (cvector-field-get-point fs p)) pts))
(vp 'fs2 (map (lambda (p) (cvector-field-get-point-bloch fs p)) pts))
(define fr (rscalar-field-make fe))
(field-map! fr (lambda (e n) (* n (real-part (vector3-cdot e e)))) fe fn)
(vp 'fr1 (map (lambda (p) (rscalar-field-get-point fr p)) pts))
(field-load fr)
(vp 'fr2 (map get-energy-point pts))
(vp 'fr3 (compute-energy-integral (lambda (e eps p) (* e (+ 1 (* .3 (vector3-x p)))))))
(field-set! fs fe)
(field-load fs)
(vp 'fs3 (map get-field-point pts))
(vp 'fc (list (fields-conform? fs fe) (fields-conform? fs fr)))
"""


def run_fields(c, ctx):
    r = o.rng(*c["s"])
    cfg = c["cfg"]
    odd = bool(r.random() < (.6 if cfg == "inv" else .4))
    P = prog.Prob(r, inv=cfg == "inv", herm=cfg == "herm", odd=odd, nb=int(r.integers(2, 6)), nmin=2 if r.random() < .2 else 3)
    if P.has_mu():
        P.mesh = 1
    P.tol = 1e-10
    n = P.n
    N = int(np.prod(n))
    k = P.rand_k()
    if r.random() < .2:
        k = np.round(k * 4) / 4
    tag = "%s %s k=%s" % (cfg, P.tag(), k)
    size = np.where(np.array(n) > 1, P.size, 1.0)
    spec = cfg != "inv" or all(m % 2 for m in n if m > 1)
    bands = sorted(set([1, P.nb, int(r.integers(1, P.nb + 1))]))
    pts = []
    for _ in range(5):
        u = r.uniform(-1.6, 1.6, 3)
        if r.random() < .25:
            a = int(r.integers(3)); u[a] = r.choice([-.5, .5, 0, -1.5, .5 - 1 / n[a], 1.0])
        pts.append(u * size)
    pts.append((np.array([int(r.integers(m)) for m in n]) / np.array(n) - .5) * size)
    P.pts = pts
    lo = sorted(r.uniform(1, 9, 3))
    lo[0] = 0.0 if r.random() < .3 else lo[0]
    objs = "(list %s)" % " ".join(prog.obj_ctl(q, P.mats) for q in (sub_objs(P, r)))
    PT = "(list %s)" % " ".join(v3(p) for p in pts)
    s = P.ctl([k]) + "(init-params NO-PARITY true)(output-epsilon)(solve-kpoint %s)(vp 'freqs freqs)(vp 'mu (using-mu?))" % v3(k)
    if P.has_mu():
        s += "(output-mu)"
    s += "(define pts %s)(define objs %s)\n" % (PT, objs)
    s += "(vp 'epspt (map get-epsilon-point pts))(vp 'epsten (map (lambda (p) (let ((m (get-epsilon-inverse-tensor-point p)))" \
         " (list (cmatrix3x3-col m 0) (cmatrix3x3-col m 1) (cmatrix3x3-col m 2)))) pts))\n" if False else ""
    s += "(vp 'epspt (map get-epsilon-point pts))\n"
    a = [complex(*r.normal(size=2)) for _ in range(3)]
    fint = "(lambda (F eps p) (+ (vector3-cdot (cvector3 %s %s %s) F) (* eps (vector3-x p) (vector3-dot F F))))" % tuple(f(x) for x in a)
    eint = "(lambda (e eps p) (* e (+ 1 (* 0.3 (vector3-x p)) (* .2 (vector3-y p)) (* -.4 (vector3-z p)) (* .05 eps))))"
    for b in bands:
        order = list(r.permutation(10))
        blk = ["(output-dfield %d)" % b, "(output-efield %d)" % b, "(output-hfield %d)" % b, "(output-bfield %d)" % b,
               "(get-dfield {b})(vp 'dpt-{b} (map get-bloch-field-point pts))(vp 'dfp-{b} (map get-field-point pts))(vp 'dint-{b} (compute-field-integral {fint}))"
               "(vp 'ud-{b} (compute-field-energy))(vp 'dept-{b} (map get-energy-point pts))"
               "(vp 'edi-{b} (list (compute-energy-in-dielectric {l0} {l1}) (compute-energy-in-dielectric {l1} {l2})))"
               "(vp 'eob-{b} (compute-energy-in-object-list objs))(vp 'eint-{b} (compute-energy-integral {eint}))(output-field)",
               "(get-bfield {b})(vp 'ub-{b} (compute-field-energy))(vp 'bept-{b} (map get-energy-point pts))(vp 'beint-{b} (compute-energy-integral {eint}))(output-field)",
               "(get-efield {b})(vp 'ept-{b} (map get-bloch-field-point pts))(vp 'efp-{b} (map get-field-point pts))(vp 'eflint-{b} (compute-field-integral {fint}))",
               "(get-hfield {b})(vp 'hfp-{b} (map get-field-point pts))",
               "(get-charge-density {b})(vp 'cpt-{b} (map get-bloch-cscalar-point pts))(vp 'cfp-{b} (map get-cscalar-point pts))(output-field)",
               "(output-poynting {b})(get-poynting {b})(vp 'spt-{b} (map get-field-point pts))(get-tot-pwr {b})(vp 'tpt-{b} (map get-energy-point pts))(output-tot-pwr {b})"]
        for j in order:
            s += blk[j].replace("{fint}", fint).replace("{eint}", eint).replace("{l0}", f(lo[0])).replace("{l1}", f(lo[1])).replace("{l2}", f(lo[2])).replace("{b}", str(b)) + "\n"
    s += "(get-dfield %d)(compute-field-divergence)(vp 'divd (map get-bloch-cscalar-point pts))\n" % bands[-1]
    s += "(get-bfield %d)(compute-field-divergence)(vp 'divb (map get-bloch-cscalar-point pts))\n" % bands[-1]
    fb = bands[0]
    s += FIELDS.replace("{b}", str(fb)).replace("{MU}", "(get-mu)(define fm (field-copy cur-field))(vp 'fm (map (lambda (p) (rscalar-field-get-point fm p)) pts))" if P.has_mu() else "")
    s += "(set! filename-prefix \"fix-\")"
    fx = str(r.choice(["h", "d", "e", "b"]))
    s += "(fix-%sfield-phase %d)(output-field)" % (fx, bands[0]) + "".join("(output-%sfield %d)" % (q, bands[0]) for q in "dh")
    def one(a_, bad):
        R = ctx.mpb(s, cfg)
        if R.rc:
            bad("run-failed", tag + R.out[-700:])
            return
        d = R.vpd()
        mu = d["mu"][0]
        T = prog.grid_tensors(os.path.join(R.dir, "in-epsilon.h5"), n)
        M = prog.mu_tensors(P, ctx, cfg) if mu else np.broadcast_to(np.eye(3), n + (3, 3))
        if mu:
            q = h5.read(os.path.join(R.dir, "in-mu.h5"))["data"].reshape(n)
            if np.max(np.abs(q - mean_eps(M))) > 1e-6:
                raise Inconclusive("object boundary passes through grid points")
        ref = o.RefOp(n, k, P.G, T, M if mu else None)
        # with one object boundary through a grid point everything is off: nothing to compare
        w = np.array(d["freqs"][0], float)
        if len(w) != P.nb:
            bad("freq-count", tag)
            return
        vol = P.vol

        def close(key, got, want, tol, scale=None, what=""):
            got, want = np.asarray(got), np.asarray(want)
            if got.shape != want.shape:
                bad(key, "%s %s: shape %s, want %s" % (tag, what, got.shape, want.shape))
                return
            sc = scale if scale is not None else max(np.max(np.abs(want)), 1e-12)
            e = np.max(np.abs(got - want)) if got.size else 0
            if not e <= tol * sc:
                i = np.unravel_index(np.argmax(np.abs(got - want)), got.shape) if got.ndim else ()
                bad(key, "%s %s: off by %g of %g; got %s want %s" % (tag, what, e, sc, got[i], want[i]))

        ph = prog.bloch_phase(n, k)
        us = [(p / size + .5) * n for p in pts]
        pphase = [np.exp(2j * np.pi * np.dot(k, p / size)) for p in pts]
        eps = mean_eps(T)
        close("epsilon-point", d["epspt"][0], [mean_eps(interp(T, u)) for u in us], 1e-6)
        grid = np.stack(np.meshgrid(*[np.arange(m) for m in n], indexing="ij"), -1)
        pos = grid / np.array(n) * size - np.where(np.array(n) > 1, size / 2, 0)
        igphase = np.exp(2j * np.pi * ((pos / size) @ k))
        fwd = ref.F
        kg = ref.kG if hasattr(ref, "kG") else o.kplusg(n, k, P.G)
        last = {}
        for b in bands:
            nm = "k01.b%02d" % b
            fl = {}
            for q in "dehb":
                p = os.path.join(R.dir, "in-%s.%s.h5" % (q, nm))
                if not os.path.exists(p):
                    bad("no-output-file", tag + p)
                    return
                v, at = prog.field_file(p, n)
                fl[q] = v / ph[..., None]
                a_ = at.attrs if hasattr(at, "attrs") else {}
                if "Bloch wavevector" in a_ and not np.allclose(np.ravel(a_["Bloch wavevector"]), k, atol=1e-9):
                    bad("file-kvector", tag + str(a_["Bloch wavevector"]))
            D, E, H, B = fl["d"], fl["e"], fl["h"], fl["b"]
            om = w[b - 1]
            nrm = 1 / np.sqrt(vol)
            close("E=inv-eps.D", E, np.einsum("xyzab,xyzb->xyzab"[:-2] + "a", T, D) if False else np.einsum("...ab,...b->...a", T, D), 1e-6, what="band %d" % b)
            close("H=inv-mu.B", H, np.einsum("...ab,...b->...a", M, B), 1e-6, what="band %d" % b)
            Hf, Ef, Bf, Df = (np.fft.ifftn(x, axes=(0, 1, 2)) for x in (H, E, B, D))
            if cfg == "inv":   # only the inversion-symmetric part of the fields exists in the truncated dimension
                Ef, Hf = Ef.real, Hf.real
            scl = -1.0 if om < 1e-8 else -1 / om
            if spec:
                close("D=curlH", Df * (1 / scl), o.cross(kg, Hf), 1e-5 if om > 1e-3 else 1e-3, scale=max(np.abs(Hf).max() * np.abs(kg).max() * .1, np.abs(Df).max() * max(om, 1e-9)), what="band %d om=%g" % (b, om))
            if spec:
                close("divB=0", np.einsum("...a,...a->...", kg, Bf), 0 * Bf[..., 0], 1e-6, scale=np.abs(Bf).max() * np.abs(kg).max(), what="band %d" % b)
            if spec:
                close("divD=0", np.einsum("...a,...a->...", kg, Df), 0 * Df[..., 0], 1e-6, scale=max(np.abs(Df).max(), 1e-9) * np.abs(kg).max(), what="band %d" % b)
            if om > 1e-2 and spec:
                close("curlE=omega.B", o.cross(kg, Ef), om * Bf, 4e-3, scale=np.abs(Ef).max() * np.abs(kg).max() + om * np.abs(Bf).max(), what="band %d om=%g" % (b, om))
            ue = np.sum(np.conj(E) * D, -1).real
            um = np.sum(np.conj(H) * B, -1).real
            UM = um.sum() * vol / N
            UE = ue.sum() * vol / N
            if mu and not k.any() and om < 1e-6:
                ctx.n("static_bands_with_mu")   # see run_static
            else:
                close("magnetic-energy-1", UM, 1.0, 1e-6, what="band %d" % b)
            if om > 1e-2:
                close("electric-energy-1", UE, 1.0, 2e-5, what="band %d om=%g" % (b, om))
            for q, X, Y, U in (("d", E, D, UE), ("b", H, B, UM)):
                q_ = q
                got = np.array(d["u%s-%d" % (q, b)][0], float)
                t = np.stack([(X.real * Y.real).sum((0, 1, 2)), (X.imag * Y.imag).sum((0, 1, 2))], -1).ravel() * vol / N
                close("energy-of-" + q, got[0], U, 1e-6, scale=max(U, 1e-6), what="band %d" % b)
                if U > 1e-6 and om > 1e-2:
                    if cfg != "inv":
                        close("fractions-of-" + q, got[1:], t / U, 1e-6, scale=1, what="band %d" % b)
                    else:
                        close("fractions-of-" + q, got[1:], t / U, 1e-6, scale=1, what="band %d" % b)
                ln = re.findall(r"^%s-energy-components:, (\d+), (\d+), (.*)$" % q.upper(), R.out, re.M)
                ln = [x for x in ln if int(x[1]) == b]
                if not ln:
                    bad("no-energy-line", tag + q)
                elif om > 1e-2:
                    tt = t[0::2] + t[1::2]
                    close("printed-components-" + q, np.array([float(x) for x in ln[0][2].split(",")]), tt / U, 1e-5, scale=1, what="band %d" % b)
            sc = np.abs(ue).max() + 1e-9
            close("energy-point", d["dept-%d" % b][0], [interp(ue, u) for u in us], 1e-6, sc)
            close("b-energy-point", d["bept-%d" % b][0], [interp(um, u) for u in us], 1e-6, np.abs(um).max())
            close("tot-energy-point", d["tpt-%d" % b][0], [interp(um + ue, u) for u in us], 1e-6, np.abs(um).max() + sc)
            for nmf, dens in (("dpwr", ue), ("bpwr", um), ("tot.rpwr", ue + um)):
                p = os.path.join(R.dir, "in-%s.%s.h5" % (nmf, nm))
                if not os.path.exists(p):
                    bad("no-density-file", tag + nmf + str([x for x in os.listdir(R.dir) if "pwr" in x]))
                    continue
                close("density-file-" + nmf, h5.read(p)["data"].reshape(n), dens, 1e-6, np.abs(um).max() + sc, what="band %d" % b)
            for q, X in (("d", D), ("e", E)):
                g = np.array([prog.vec(x) for x in d["%spt-%d" % (q, b)][0]])
                close(q + "-bloch-point", g, [interp(X, u) for u in us], 1e-6, np.abs(X).max() + 1e-9)
            for q, X in (("d", D), ("e", E), ("h", H)):
                g = np.array([prog.vec(x) for x in d["%sfp-%d" % (q, b)][0]])
                close(q + "-point", g, [interp(X, u) * z for u, z in zip(us, pphase)], 1e-6, np.abs(X).max() + 1e-9)
            # integrals
            for q, X in (("dint", D), ("eflint", E)):
                F = X * igphase[..., None]
                t = (np.einsum("a,...a->...", np.conj(a), F) + eps * pos[..., 0] * np.sum(F * F, -1)).sum() * vol / N
                close("field-integral", complex(d["%s-%d" % (q, b)][0]), t, 1e-6, scale=(np.abs(F).max() + np.abs(F).max() ** 2) * vol * 9 + 1e-9, what="band %d %s" % (b, q))
            for q, e_ in (("eint", ue), ("beint", um)):
                t = (e_ * (1 + pos @ np.array([.3, .2, -.4]) + .05 * eps)).sum() * vol / N
                close("energy-integral", float(d["%s-%d" % (q, b)][0]), t, 1e-6, scale=max(abs(t), 1e-6), what="band %d %s" % (b, q))
            # energy in ranges of the dielectric
            want = [ue[(eps >= lo[i]) & (eps <= lo[i + 1])].sum() / max(ue.sum(), 1e-30) for i in (0, 1)]
            if om > 1e-2 and min(np.min(np.abs(eps - x)) for x in lo) > 1e-5:
                close("energy-in-dielectric", d["edi-%d" % b][0], want, 1e-6, 1.0, what="band %d" % b)
            if P.inside is not None:
                m, amb = P.inside(pos)
                if not amb:
                    close("energy-in-objects", d["eob-%d" % b][0], ue[m].sum() * vol / N, 1e-6, scale=max(UE, 1e-6), what="band %d" % b)
                    ctx.n("object_energies")
            # flux
            S = np.cross(np.conj(E), H)
            p = os.path.join(R.dir, "in-flux.v.%s.h5" % nm)
            if not os.path.exists(p):
                bad("no-flux-file", tag + str([x for x in os.listdir(R.dir) if "flux" in x]))
            else:
                v, _ = prog.field_file(p, n)
                close("poynting-file", v, S, 1e-6, np.abs(S).max() + 1e-9, what="band %d" % b)
            g = np.array([prog.vec(x) for x in d["spt-%d" % b][0]])
            close("poynting-point", g, [interp(S, u) for u in us], 1e-6, np.abs(S).max() + 1e-9, what="band %d" % b)
            # charge density = div E
            C = np.fft.fftn(1j * 2 * np.pi * np.einsum("...a,...a->...", kg, Ef), axes=(0, 1, 2))
            csc = np.abs(Ef).max() * np.abs(kg).max() * 2 * np.pi + 1e-9
            if not spec:   # the values in the files are consistent with the point values
                C = None
                p = os.path.join(R.dir, "in-C.%s.h5" % nm)
                if os.path.exists(p):
                    v = h5.read(p)
                    C = (v["c.r"] + 1j * v["c.i"]).reshape(n) / ph
                    # away from the Nyquist planes it is the divergence
                    Cf = np.fft.ifftn(C, axes=(0, 1, 2))
                    m = np.ones(n, bool)
                    for a_ in range(3):
                        if n[a_] > 1 and n[a_] % 2 == 0:
                            m[(slice(None),) * a_ + (n[a_] // 2,)] = False
                    close("charge-spectrum", Cf[m], (2j * np.pi * np.einsum("...a,...a->...", kg, Ef))[m], 1e-5, csc, what="band %d" % b)
            close("charge-point", np.array(d["cpt-%d" % b][0], complex), [interp(C, u) for u in us], 1e-5, csc, what="band %d" % b)
            close("charge-phase-point", np.array(d["cfp-%d" % b][0], complex), [interp(C, u) * z for u, z in zip(us, pphase)], 1e-5, csc, what="band %d" % b)
            p = os.path.join(R.dir, "in-C.%s.h5" % nm)
            if os.path.exists(p):
                v = h5.read(p)
                vv = (v["c.r"] + 1j * v["c.i"]).reshape(n) if "c.r" in v else None
                if vv is None:
                    bad("charge-file-names", tag + str(list(v)))
                else:
                    close("charge-file", vv, C * ph, 1e-5, csc, what="band %d" % b)
            else:
                bad("no-charge-file", tag + str(os.listdir(R.dir)))
            if b == fb:
                V = vol / N
                c1 = np.sum(np.conj(E) * D, -1)
                close("integrate-fields-1", complex(d["if1"][0]), np.sum((eps + pos[..., 0] + .3 * pos[..., 1]) * c1) * V, 1e-6, scale=max(UE * 9, 1e-6), what="band %d" % b)
                if C is not None:
                    t = (1 + pos[..., 2] + pos[..., 0]) * C * E[..., 0]
                    close("integrate-fields-C", complex(d["if2"][0]), t.sum() * V, 1e-5, scale=max(np.abs(t).max() * vol, csc * 1e-3, 1e-6), what="band %d" % b)
                close("integrate-fields-0", complex(d["if0"][0]), np.sum(pos[..., 0] + 2 * pos[..., 1] - pos[..., 2]) * V, 1e-9, scale=vol)
                for key, X in (("fs1", 2 * E + D), ("fs3", E)):
                    g = np.array([prog.vec(x) for x in d[key][0]])
                    close("field-map-point", g, [interp(X, u) * z for u, z in zip(us, pphase)], 1e-6, np.abs(X).max() + 1e-9, what=key)
                g = np.array([prog.vec(x) for x in d["fs2"][0]])
                close("field-map-bloch-point", g, [interp(2 * E + D, u) for u in us], 1e-6, np.abs(E).max() + np.abs(D).max() + 1e-9)
                X = (mean_eps(T) * np.sum(np.abs(E) ** 2, -1))
                for key in ("fr1", "fr2"):
                    close("rscalar-" + key, d[key][0], [interp(X, u) for u in us], 1e-6, X.max() + 1e-9)
                close("rscalar-integral", float(d["fr3"][0]), np.sum(X * (1 + .3 * pos[..., 0])) * V, 1e-6, X.max() * vol + 1e-9)
                close("epsilon-copy", d["fn"][0], [interp(eps, u) for u in us], 1e-6)
                if d["fc"][0] != [True, False if False else d["fc"][0][1]]:
                    bad("fields-conform", tag + str(d["fc"]))
                if P.has_mu() and mu:
                    close("mu-copy", d["fm"][0], [interp(mean_eps(M), u) for u in us], 1e-6)
                ctx.n("field_objects", 6)
            last = {"D": D, "B": B, "Df": Df, "Bf": Bf}
            ctx.n("bands"); ctx.n("field_values", 12 * N)
            ctx.n("zero_freq_bands", int(om < 1e-2))
        for q in "db":
            x = np.array(d["div" + q][0], complex)
            close("divergence-" + q, x, 0 * x, 1e-6, np.abs(last[q.upper() + "f"]).max() * np.abs(kg).max() * 2 * np.pi * 10 + 1e-9)
        # canonical phase: the sum of squares becomes real and non-negative (inv: only a sign), every other field follows
        p = os.path.join(R.dir, "fix-%s.k01.b%02d.h5" % (fx, bands[0]))
        if not os.path.exists(p):
            bad("no-fix-file", tag + str([x for x in os.listdir(R.dir) if "fix" in x]))
        else:
            X, _ = prog.field_file(p, n)
            X = X / ph[..., None]
            X0 = prog.field_file(os.path.join(R.dir, "in-%s.k01.b%02d.h5" % (fx, bands[0])), n)[0] / ph[..., None]
            z = np.vdot(X0, X) / max(np.vdot(X0, X0).real, 1e-30)
            close("fix-phase-unit", X, z * X0, 1e-6, np.abs(X0).max() + 1e-9)
            if np.abs(X0).max() > 1e-6:
                close("fix-phase-modulus", abs(z), 1.0, 1e-6)
                if cfg == "inv":
                    close("fix-phase-sign", z.imag, 0.0, 1e-9, 1.0)
                else:
                    s2 = np.sum(X * X)
                    if abs(s2) > 1e-3 * np.sum(np.abs(X) ** 2) and not (s2.real > 0 and abs(s2.imag) < 1e-5 * abs(s2)):
                        bad("fix-phase-max", "%s: sum of squares %s" % (tag, s2))
                    # sign: the last point of large real part is positive
                    re_ = X.reshape(-1).real
                    m = np.abs(re_).max()
                    big = np.where(np.abs(re_) >= m / 2)[0]
                    margin = np.min(np.abs(np.abs(re_) - m / 2)) / m
                    if margin > 1e-6 and re_[big[-1]] < 0 and np.sum(np.abs(re_) > m * (1 - 1e-9)) >= 1:
                        bad("fix-phase-sign", "%s field %s: value %g at index %d" % (tag, fx, re_[big[-1]], big[-1]))
                for q in "dh":
                    Y, _ = prog.field_file(os.path.join(R.dir, "fix-%s.k01.b%02d.h5" % (q, bands[0])), n)
                    Y0, _ = prog.field_file(os.path.join(R.dir, "in-%s.k01.b%02d.h5" % (q, bands[0])), n)
                    close("fix-phase-follows", Y, z * Y0, 1e-6, np.abs(Y0).max() + 1e-9)
            ctx.n("phases_fixed")
    retry(ctx, one)
    ctx.seen(tag)


def sub_objs(P, r):
    """objects whose membership is certain: spheres and blocks along the axes; None when not judged"""
    P.inside = None
    out = []
    n = np.array(P.n)
    size = np.where(n > 1, P.size, 1.0)
    for _ in range(int(r.integers(1, 3))):
        c = np.array([r.uniform(-.5, .5) * size[i] if n[i] > 1 else 0 for i in range(3)])
        t = str(r.choice(["sphere", "block"]))
        if t == "sphere":
            out.append({"t": "sphere", "m": 0, "c": c, "r": float(r.uniform(.15, .45))})
        else:
            out.append({"t": "block", "m": 0, "c": c, "s": [float(r.uniform(.2, .9) * size[i]) if n[i] > 1 else 1e20 for i in range(3)]})

    def inside(pos):
        m = np.zeros(pos.shape[:3], bool)
        amb = False
        for q in out:
            for sh in np.ndindex(5, 5, 5):
                s_ = (np.array(sh) - 2)
                if (s_[n == 1] != 0).any():
                    continue
                dx = pos - q["c"] - s_ * size
                if q["t"] == "sphere":
                    rr = np.linalg.norm(dx @ P.unit, axis=-1)
                    g = rr - q["r"]
                else:
                    g = np.max(np.abs(dx) * np.linalg.norm(P.unit, axis=1) - np.array(q["s"]) / 2, -1)
                amb |= bool(np.min(np.abs(g)) < 1e-7)
                m |= g < 0
        return m, amb
    P.inside = inside
    for q in out:
        if q["t"] == "block":
            q["s"] = [x if x < 1e19 else None for x in q["s"]]
    for q in out:
        q["s_"] = q.get("s")
    # keep numbers for the test of membership
    res = [dict(q) for q in out]
    for q in out:
        if q["t"] == "block":
            q["s"] = [1e20 if x is None else x for x in q["s"]]
    return res
