"""P01: the operators of the Maxwell library against a dense/FFT reference on random problems."""
import numpy as np
import oracle as o
from drv import MD, ptr

RULE = ("random lattice, k (generic, zero, on an axis, zone edge), grid (1-3 D, odd/even/unequal), band count, FFT batch, tensor field "
        "(isotropic, diagonal, anisotropic, Hermitian) and optional 1/mu field; a case is non-trivial when the applied operator was "
        "compared with the reference on a non-zero set of bands; the signature is build + grid + bands/batch + tensor kinds + k kind")
ASSUMPTIONS = ["FFTW, BLAS and numpy are correct", "round-off within 1e-9 relative"]
MIN_DISTINCT = 20


def builds(tier):
    return [(c, "driver") for c in ("complex", "inv", "herm")]


def cases(tier, seed):
    r = o.rng(seed, 1)
    out = []
    nper = 45 if tier == "quick" else 700
    for cfg in ("complex", "inv", "herm"):
        for i in range(nper):
            out.append({"drv": cfg, "s": int(r.integers(1 << 30)), "mode": "op"})
        out.append({"drv": cfg, "s": int(r.integers(1 << 30)), "mode": "plans", "cost": 3})
    return out


def setup(r, cfg, nmax=6):
    dim = int(r.choice([1, 2, 3], p=[.15, .35, .5]))
    n = [1, 1, 1]
    for i in range(dim):
        n[i] = int(r.integers(1 if r.random() < .1 else 2, nmax + 1 if dim == 3 else 2 * nmax + 1))
    R = o.rand_lattice(r, 3 if r.random() < .5 else dim)
    G = o.recip(R)
    kk = r.choice(["gen", "zero", "axis", "edge", "kz"])
    k = {"gen": r.uniform(-1, 1, 3), "zero": np.zeros(3), "axis": np.array([r.uniform(-.5, .5), 0, 0]),
         "edge": np.array([.5, .5, 0]), "kz": np.array([0, 0, r.uniform(-1, 1)])}[kk]
    return dim, n, R, G, kk, k


def rel(a, b):
    return float(np.max(np.abs(a - b)) / (1e-300 + max(np.max(np.abs(a)), np.max(np.abs(b)), 1e-12)))


def run(c, ctx):
    r = o.rng(c["s"])
    cfg = c["drv"]
    L = ctx.lib(cfg)
    if c["mode"] == "plans":
        return plans(c, ctx, L, r)
    dim, n, R, G, kk, k = setup(r, cfg)
    if r.random() < .25:    # some k+G close to the z axis, the y axis or zero, or with components of very different sizes
        kk = "near"
        v = 10 ** r.uniform(-10, -1, 3) * r.choice([-1, 1, 0], 3, p=[.4, .4, .2])
        j = int(r.integers(-1, 3))
        if j >= 0:
            v[j] = r.uniform(-1, 1)
        k = np.asarray(R) @ v    # k.a_i in cartesian coordinates, so that sum_i k_i b_i = v
        if r.random() < .5:
            k = k + np.array([int(r.integers(-(q - 1) // 2, q // 2 + 1)) if q > 1 else 0 for q in n])
    p = int(r.integers(1, 7)); nfft = int(r.integers(1, 6))
    kind = str(r.choice(["iso", "diag", "aniso"]))
    herm = L.herm and r.random() < .8
    mk = str(r.choice(["none", "iso", "diag", "aniso"], p=[.4, .2, .2, .2]))
    inv = not L.cplx
    Te = o.rand_tensor_field(r, n, "aniso" if herm else kind, herm, inv)
    epsinv = np.linalg.inv(Te); epsinv = (epsinv + np.conj(np.swapaxes(epsinv, -1, -2))) / 2
    muinv = None
    if mk != "none":
        muinv = np.linalg.inv(o.rand_tensor_field(r, n, mk, herm and r.random() < .5, inv))
        muinv = (muinv + np.conj(np.swapaxes(muinv, -1, -2))) / 2
    md = MD(L, n, p, nfft)
    N = md.N
    md.put_inv(o.stored_points(epsinv, n, L.cplx))
    if muinv is not None:
        md.put_inv(o.stored_points(muinv, n, L.cplx), mu=True)
    if r.random() < .5:  # a previous k must leave nothing behind
        md.set_k(r.uniform(-1, 1, 3), G)
    md.set_k(k, G)
    if (np.asarray(k) @ G == 0).all() != bool(md.info()["zero_k"]):
        ctx.bad("zero-k-flag", "k=%s zero_k=%s" % (k, md.info()["zero_k"]))
    ref = o.RefOp(n, k, G, epsinv, muinv)

    def rnd(q):
        x = r.normal(size=(2 * N, q)) + (1j * r.normal(size=(2 * N, q)) if L.cplx else 0)
        return x
    nfb = min(nfft, p)

    def amps(ev, q):
        """Cartesian planewave amplitudes of every band, from the library's own position-space field"""
        full = []
        b = 0
        while b < q:
            m = min(nfb, q - b)
            f = md.field(0, ev, b, m)
            for j in range(m):
                full.append(o.to_grid(f[:, j], n, L.cplx))
            b += m
        return [ref.Fi(f) for f in full]
    x = rnd(p)
    X = md.ev(p, x)
    H = amps(X, p)
    tag = "%s n=%s k=%s p=%d nfft=%d eps=%s mu=%s" % (cfg, n, kk, p, nfft, "herm" if herm else kind, mk)
    for b in range(p):
        t = np.sum(ref.K * H[b], -1)
        if np.max(np.abs(t)) > 1e-9 * (1 + np.max(np.abs(ref.K))) * np.max(np.abs(H[b])):
            ctx.bad("not-transverse", tag + " |(k+G).H|=%g" % np.max(np.abs(t)))
        if abs(np.sum(np.abs(H[b]) ** 2) - np.sum(np.abs(x[:, b]) ** 2)) > 1e-9 * np.sum(np.abs(x[:, b]) ** 2):
            ctx.bad("norm", tag)
        if not L.cplx and np.max(np.abs(H[b].imag)) > 1e-9 * np.max(np.abs(H[b])):
            ctx.bad("real-amplitudes", tag)
    ctx.n("bands", p)

    def cmp(key, ev, refs, extra=""):
        got = amps(ev, len(refs))
        for b, (g, w) in enumerate(zip(got, refs)):
            ctx.n("band_comparisons")
            e = rel(g, w)
            if not e < 1e-9:
                ctx.bad(key, tag + " band %d rel.err %.3g %s" % (b, e, extra))
                return
    # fields
    for b0 in range(0, p, nfb):
        m = min(nfb, p - b0)
        d = md.field(1, X, b0, m); e = md.field(2, X, b0, m)
        for j in range(m):
            for key, f, w in (("d-field", d, ref.d(H[b0 + j])), ("e-field", e, ref.e(H[b0 + j]))):
                er = rel(o.to_grid(f[:, j], n, L.cplx), w)
                ctx.n("field_comparisons")
                if not er < 1e-9:
                    ctx.bad(key, tag + " rel.err %.3g" % er)
    # operators
    ax = md.op(0, X)
    AX = md.ev(p, ax)
    cmp("operator", AX, [ref.A(h) for h in H])
    if not np.array_equal(X.get(), L.arr(x)):
        ctx.bad("input-modified", tag)
    mx = md.op(1, X)
    MX = md.ev(p, mx)
    cmp("muinv-operator", MX, [ref.muop(h) for h in H])
    u = r.normal(size=3)
    U = md.ev(p)
    L.ucross(md.h, X.h, U.h, ptr(np.ascontiguousarray(u)))
    # (with a permeability the vectors are B, and u is crossed with the whole of H = B / mu)
    full = (lambda h: h) if ref.muinv is None else (lambda h: ref.Fi(ref.mul(ref.muinv, ref.F(h))))
    cmp("ucross-operator", U, [ref.transverse(ref.ucross(full(h), u)) for h in H])
    if muinv is None:
        w0 = float(r.uniform(.05, 1.5))
        t1 = md.op(3, X, w0); t2 = md.op(2, X, w0)
        S = 1 + np.max(np.abs(ax))
        r1 = ax - w0 ** 2 * L.arr(x)
        E1 = md.ev(p, r1)
        r2 = md.op(0, E1) - w0 ** 2 * r1
        if not rel(t1, r1) < 1e-9:
            ctx.bad("shifted-operator", tag)
        if not rel(t2, r2) < 1e-9:
            ctx.bad("squared-operator", tag)
        E1.free()
    # Hermitian, positive
    gram = np.conj(L.arr(x)).T @ ax
    sc = np.max(np.abs(gram)) + 1e-12
    if np.max(np.abs(gram - gram.conj().T)) > 1e-9 * sc:
        ctx.bad("not-hermitian", tag)
    if np.linalg.eigvalsh((gram + gram.conj().T) / 2)[0] < -1e-9 * sc:
        ctx.bad("not-positive", tag)
    # one band at a time and in other batch sizes
    for _ in range(2):
        b = int(r.integers(p))
        Y = md.ev(1, x[:, b:b + 1])
        L.md_num_bands(md.h, int(r.integers(1, p + 1)))
        y = md.op(0, Y)
        if not rel(y[:, 0], ax[:, b]) < 1e-9:
            ctx.bad("batch-dependence", tag)
        Y.free()
    L.md_num_bands(md.h, p)
    # 1/mu applied to a slice of bands only touches that slice
    q = int(r.integers(1, p + 1)); b0 = int(r.integers(0, p - q + 1)); h0 = int(r.integers(0, p - q + 1))
    q = min(q, nfb)
    z = rnd(p)
    Z = md.ev(p, z)
    L.H_from_B(md.h, X.h, Z.h, b0, h0, q)
    zz = Z.get()
    want = L.arr(z).copy(); want[:, h0:h0 + q] = mx[:, b0:b0 + q]
    if not rel(zz, want) < 1e-9:
        ctx.bad("h-from-b-slice", tag + " b0=%d h0=%d q=%d" % (b0, h0, q))
    # preconditioners: Hermitian, positive definite, finite
    I = L.sq(p, np.eye(p))
    ev = np.ones(p)
    for which in (0, 1, 2, 3, 4):
        Y = md.ev(p)
        L.precond(md.h, which, X.h, Y.h, X.h, ptr(ev), I.h, 0.3)
        g = np.conj(L.arr(x)).T @ Y.get()
        if not np.isfinite(g).all():
            ctx.bad("preconditioner-not-finite", tag + " which=%d" % which)
        else:
            s = np.max(np.abs(g))
            if np.max(np.abs(g - g.conj().T)) > 1e-9 * s or np.linalg.eigvalsh((g + g.conj().T) / 2)[0] < -1e-9 * s:
                ctx.bad("preconditioner-not-hpd", tag + " which=%d" % which)
        ctx.n("preconditioners")
        Y.free()
    # the scale factors of the metric may be combined inside (Xin * YtY)
    M = r.normal(size=(p, p)) + (1j * r.normal(size=(p, p)) if L.cplx else 0)
    M = M @ np.conj(M).T + np.eye(p)
    Sq = L.sq(p, M)
    Y = md.ev(p); L.precond(md.h, 0, X.h, Y.h, X.h, ptr(ev), Sq.h, 0.3)
    X2 = md.ev(p, L.arr(x) @ L.arr(M)); Y2 = md.ev(p); L.precond(md.h, 0, X2.h, Y2.h, X.h, ptr(ev), I.h, 0.3)
    if not rel(Y.get(), Y2.get()) < 1e-8:
        ctx.bad("preconditioner-metric", tag)
    otherhalf(ctx, L, md, r, n, tag)
    for e in (X, AX, MX, U, Z, I, Sq, Y, X2, Y2):
        e.free()
    md.free()
    ctx.seen(tag)


def otherhalf(ctx, L, md, r, n, tag):
    """the stored half of a Bloch field determines the other half: A(R-x) e^{ik(R-x)} = conj(A(x)e^{ikx} e^{-ikR})"""
    if L.cplx:
        return
    ph = r.uniform(-1, 1, 3)
    full = r.normal(size=tuple(n) + (3,)) + 1j * r.normal(size=tuple(n) + (3,))
    for idx in np.ndindex(*n):
        m = tuple((-i) % q for i, q in zip(idx, n))
        if m > idx:
            full[m] = np.conj(full[idx])
        elif m == idx:
            full[idx] = full[idx].real
    j = np.stack(np.meshgrid(*[np.arange(q) / q for q in n], indexing="ij"), -1)
    bl = full * np.exp(2j * np.pi * (j @ ph))[..., None]
    s, last = o.halfshape(n)
    sl = tuple(slice(0, q) for q in s)
    other = tuple(slice(s[i], n[i]) if i == last else slice(0, n[i]) for i in range(3))
    room = md.info()["fft_output_size"]
    # vectors
    buf = np.zeros((room, 3), complex); buf[:] = bl[sl].reshape(-1, 3)
    L.otherhalf(md.h, 0, ptr(buf), *ph)
    w = bl[other].reshape(-1, 3)
    if len(w) and not rel(buf[:len(w)], w) < 1e-9:
        ctx.bad("otherhalf-vector", tag)
    cs = np.ascontiguousarray(bl[..., 1])
    buf = np.zeros(room, complex); buf[:] = cs[sl].reshape(-1)
    L.otherhalf(md.h, 1, ptr(buf), *ph)
    w = cs[other].reshape(-1)
    if len(w) and not rel(buf[:len(w)], w) < 1e-9:
        ctx.bad("otherhalf-cscalar", tag)
    re = np.abs(full[..., 0])
    buf = np.zeros(room); buf[:] = re[sl].reshape(-1)
    L.otherhalf(md.h, 2, ptr(buf), 0, 0, 0)
    w = re[other].reshape(-1)
    if len(w) and not rel(buf[:len(w)], w) < 1e-12:
        ctx.bad("otherhalf-scalar", tag)
    ctx.n("otherhalf")


def plans(c, ctx, L, r):
    """more different transform shapes than any cache can hold, revisited"""
    n = [3, 2, 2]
    G = np.eye(3)
    md = MD(L, n, 45, 45)
    md.put_inv(o.stored_points(np.linalg.inv(o.rand_tensor_field(r, n, "aniso", False, not L.cplx)), n, L.cplx))
    md.set_k([.1, .2, .3], G)
    x = r.normal(size=(24, 45)) + (1j * r.normal(size=(24, 45)) if L.cplx else 0)
    X = md.ev(45, x)
    full = md.op(0, X)
    for q in list(range(45, 0, -1)) + [int(v) for v in r.integers(1, 46, 20)]:
        Y = md.ev(q, x[:, :q])
        L.md_num_bands(md.h, q)
        y = md.op(0, Y)
        if not rel(y, full[:, :q]) < 1e-9:
            ctx.bad("plan-cache", "q=%d" % q)
        ctx.n("plan_shapes")
        Y.free()
    X.free(); md.free()
    ctx.seen("plans %s" % c["drv"])
