"""P13: the frequency table, band ranges, gaps and callbacks of (run) against the frequencies themselves."""
import re
from fractions import Fraction
import numpy as np
import oracle as o
import prog
from prog import f, v3

RULE = ("sessions of mpb, mpbi and mpb-mpi with one or more (run…) calls whose callbacks log every frequency list the program shows them; a run counts when table, ranges, gaps, "
        "lists and callback order were recomputed from the log; the range and gap functions are also driven with synthetic frequencies (ties, zeros, unequal lengths)")
ASSUMPTIONS = ["frequencies of the table are the %g rendering of those returned"]
MIN_DISTINCT = 30
TOLERATE = ("failure to converge after|non-independent AV subspace|non-positive eigenvalue|bad news: Polak|inexplicable singularity", 8)
PAR = {"run": "", "run-te": "te", "run-tm": "tm", "run-zeven": "zeven", "run-zodd": "zodd", "run-yeven": "yeven", "run-yodd": "yodd"}


def builds(tier):
    return [(c, "mpb") for c in ("complex", "inv", "cmpi")]


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for mi, (m, n) in enumerate((("run", 110), ("pure", 24))):
        for i in range(n if q else 10 * n):
            cfg = str(o.rng(seed, 13, mi, i, 9).choice(["complex", "inv", "cmpi"], p=[.5, .25, .25]))
            out.append({"cfg": cfg, "s": (seed, 13, mi, i), "mode": m, "cost": 3 if cfg == "cmpi" else 2})
    return out


def fl(x):
    """a number as the program prints it (Guile prints exact ones as fractions)"""
    return float(Fraction(x)) if isinstance(x, str) and "/" in x else float(x)


def run(c, ctx):
    globals()["run_" + c["mode"]](c, ctx)


def ranges(rows, ks):
    """per band: (min, index of the first k with it, max, index)"""
    out = []
    nb = max([len(x) for x in rows] + [0])
    for b in range(nb):
        mn, mx, i0, i1 = 1e20, -1e20, -1, -1
        for i, x in enumerate(rows):
            if b < len(x):
                if x[b] < mn:
                    mn, i0 = x[b], i
                if x[b] > mx:
                    mx, i1 = x[b], i
        out.append((mn, i0, mx, i1))
    return out


def check_ranges(bad, tag, got, want, ks):
    """got: parsed ((min . k) . (max . k)) entries"""
    if len(got) != len(want):
        bad("band-ranges", tag + " %d entries for %d bands" % (len(got), len(want)))
        return
    for b, (g, (mn, i0, mx, i1)) in enumerate(zip(got, want)):
        g = [g[0][0], list(g[0][1]) if isinstance(g[0][1], list) else g[0][1:], g[1], list(g[2]) if isinstance(g[2], list) else g[2:]]
        if fl(g[0]) != mn or fl(g[2]) != mx:
            bad("band-ranges", tag + " band %d: %s..%s, expected %.17g..%.17g" % (b + 1, g[0], g[2], mn, mx))
            return
        for q, i in ((g[1], i0), (g[3], i1)):
            q = [fl(x) for x in np.ravel(q)]
            if q != [fl(x) for x in ks[i]]:
                bad("band-range-k", tag + " band %d: at %s, expected %s (of %s)" % (b + 1, q, ks[i], np.round(ks, 3).tolist()))
                return


def gaps_of(rg):
    """for a single run: (percent, lower, upper, band) where the maximum of a band is below the minimum of the next"""
    out = []
    for b in range(len(rg) - 1):
        lo, hi = rg[b][2], rg[b + 1][0]
        if lo < hi:
            out.append((200 * (hi - lo) / (hi + lo), lo, hi, b + 1))
    return out


def close(x, y, tol=1e-12):
    return np.shape(x) == np.shape(y) and (np.size(x) == 0 or np.max(np.abs(np.asarray(x, float) - np.asarray(y, float))) <= tol * (1 + np.max(np.abs(np.asarray(y, float)))))


def check_gap_output(bad, tag, txt, rg, ks, gl, ret, ngap):
    """the printed ranges and gaps, gap-list and retrieve-gap"""
    ps = re.findall(r"^Band (\d+) range: (\S+) at (#\([^)]*\)|\S+) to (\S+) at (#\([^)]*\)|\S+)$", txt, re.M)
    if ngap and [int(x[0]) for x in ps] != list(range(1, len(rg) + 1)):
        bad("printed-ranges", tag + " %d lines for %d bands" % (len(ps), len(rg)))
        return
    for x, (mn, i0, mx, i1) in zip(ps, rg):
        if not close([fl(x[1]), fl(x[3])], [mn, mx]) or any(not close([fl(y) for y in z[2:-1].split()], ks[i]) for z, i in ((x[2], i0), (x[4], i1))):
            bad("printed-ranges", tag + " %s, expected %s" % (x, (mn, i0, mx, i1)))
            return
    g = gaps_of(rg) if ngap else []
    pg = re.findall(r"^Gap from band (\d+) \((\S+)\) to band (\d+) \((\S+)\), (\S+)%$", txt, re.M)
    if [(int(x[0]), int(x[2])) for x in pg] != [(x[3], x[3] + 1) for x in g] or any(not close([fl(x[4]), fl(x[1]), fl(x[3])], y[:3]) for x, y in zip(pg, g)):
        bad("printed-gaps", tag + " %s, expected %s" % (pg, g))
    if len(gl) != len(g) or any(not close([fl(z) for z in x], y[:3]) for x, y in zip(gl, g)):
        bad("gap-list", tag + " %s, expected %s" % (gl, g))
    for b, x in enumerate(ret or []):
        lo, hi = rg[b][2], rg[b + 1][0]
        if hi + lo and not close(fl(x), (hi - lo) / (.005 * (hi + lo)), 1e-10):
            bad("retrieve-gap", tag + " band %d: %s for %g..%g" % (b + 1, x, lo, hi))


def run_run(c, ctx):
    r = o.rng(*c["s"])
    cfg = c["cfg"]
    mpi = cfg == "cmpi"
    inv = cfg == "inv"
    np_ = int(r.integers(1, 4)) if mpi else 0
    sym = r.random() < .4
    P = prog.Prob(r, inv=inv, zmir=sym, dim=int(r.integers(2, 4)) if mpi or sym else None, mu="none" if r.random() < .7 else None, nmax={True: 6, False: None}[mpi or r.random() < .5])
    if P.dim == 1 and r.random() < .5:
        P.n = (32, 1, 1)
    P.tol = fl(r.choice([1e-3, 1e-5]))
    calls = []
    txt = """(set! randomize-fields? true)
(define (cb n) (lambda (b) (vp n (list b (vector->list current-k) freqs (get-kpoint-index) num-bands))))
(define (th n) (lambda () (vp n (list 0 (vector->list current-k) freqs (get-kpoint-index) num-bands))))
"""
    L = int(r.choice([0, 1, 2, 3, 4, 6], p=[.05, .2, .25, .2, .2, .1]))
    pool = [P.rand_k() * ([1, 1, 0] if sym else [1, 1, 1]) for _ in range(max(1, L - int(r.integers(0, 2))))]
    kx = [0.25, 0.5, 1 / 3, 1e-9]
    obj = "(make sphere (center %s) (radius %s) (material air))" % (" ".join(f(x) for x in r.uniform(-.4, .4, 3)), f(r.uniform(.1, .5)))
    nrun = int(r.integers(1, 3))
    for j in range(nrun):
        par = str(r.choice(["run", "run-zeven", "run-zodd"] + (["run-te", "run-tm"] if P.dim == 2 else []))) if sym else "run"
        nb = int(r.integers(1, 7)) if r.random() < .95 else 0
        nb = min(nb, int(np.prod(P.n)) - 1)
        ks = [pool[int(r.integers(len(pool)))] for _ in range(L)]
        if r.random() < .3:
            ks = [k if r.random() < .5 else np.zeros(3) for k in ks]
        num = int(r.integers(1, 5)) if r.random() < .35 else 1
        ix = int(r.integers(0, num))
        fs, names = [], []
        for q in range(int(r.integers(0, 4))):
            t = str(r.choice(["b", "t", "c", "k", "d"], p=[.3, .2, .2, .2, .1]))
            n = "'%s%d-%d" % (t, j, q)
            gk = ks[int(r.integers(L))] if L else np.zeros(3)
            if t == "k" and r.random() < .3:
                gk = gk + np.array([1e-6, 0, 0])
            em = fl(r.choice([-1, 0.3, 2]))
            names.append((t, n[1:], gk, em))
            fs.append({"b": "(cb %s)" % n, "t": "(th %s)" % n, "c": "(combine-band-functions (cb %s) (th %s) (cb %s))" % (n, n, n), "k": "(output-at-kpoint %s (cb %s) (th %s))" % (v3(gk), n, n),
                       "d": "(output-dpwr-in-objects (cb %s) %s %s)" % (n, f(em), obj)}[t])
        txt += "(set! k-points (list %s))(set! num-bands %d)(set! k-split-num %d)(set! k-split-index %d)(vp 'start %d)\n(%s %s)(vp 'all all-freqs)(vp 'br band-range-data)(vp 'gaps gap-list)" % (
            " ".join(v3(k) for k in ks), nb, num, ix, j, par, " ".join(fs))
        txt += "(vp 'ret (map retrieve-gap (list %s)))(vp 'kps (map vector->list k-points))(vp 'end %d)\n" % (" ".join(str(b) for b in range(1, nb)) if L and -(-L // num) * ix < L else "", j)
        calls.append((par, nb, ks, num, ix, names))
    tag0 = "run %s np=%d %s %s" % (cfg, np_, P.tag(), [(p, n, len(k), "%d/%d" % (i, m), "".join(x[0] for x in nm)) for p, n, k, m, i, nm in calls])
    R = ctx.mpb(P.ctl() + txt, cfg, np_=np_)
    if R.rc:
        ctx.bad("stopped:", tag0 + R.why())
        return
    body = R.out
    d = R.vpd()
    seqs, cur = [], None
    for n, x in R.vp():
        if n == "start":
            cur = []
        elif n == "end":
            seqs.append(cur)
        elif cur is not None and n not in ("all", "br", "gaps", "ret", "kps"):
            cur.append((n, x))
    # the text of each call: between successive "Initializing eigensolver data" / done
    parts = re.split(r"^done\.$", body, flags=re.M)
    for j, (par, nb, ks, num, ix, names) in enumerate(calls):
        tag = tag0 + " call %d" % j
        Lk = len(ks)
        bs = -(-Lk // num)
        st = ix * bs
        mine = list(range(min(st, Lk), min(Lk, st + bs))) if nb else []
        K = [[fl(f(x)) for x in ks[i]] for i in mine]
        allf = [[fl(y) for y in x] for x in d["all"][j]]
        ctx.n("calls"); ctx.n("k_points", len(K))

        def bad(key, m):
            ctx.bad(key, m)
        if len(allf) != len(K) or any(len(x) != nb for x in allf):
            bad("all-freqs", tag + " %s for %d k-points" % ([len(x) for x in allf], len(K)))
            continue
        for x in allf:
            if any(a > b + 1e-6 for a, b in zip(x, x[1:])) or not np.all(np.isfinite(x)):
                bad("order", tag + " %s" % x)
        # callbacks
        want = []
        for i, k in zip(mine, K):
            row = allf[mine.index(i)]
            for t, n, gk, em in names:
                bands = list(range(1, nb + 1))
                if t == "b":
                    want += [(n, b, i) for b in bands]
                elif t == "t":
                    want += [(n, 0, i)]
                elif t == "c":
                    for b in bands:
                        want += [(n, b, i)] + ([(n, 0, i)] if b == 1 else []) + [(n, b, i)]
                elif t == "k":
                    g = [fl(f(x)) for x in gk]
                    if np.linalg.norm(np.subtract(k, g)) <= 1e-8 * np.linalg.norm(g):
                        for b in bands:
                            want += [(n, b, i)] + ([(n, 0, i)] if b == 1 else [])
        seq = seqs[j]
        dn = {n: em for t, n, gk, em in names if t == "d"}
        got = [(n, int(x[0]), int(x[3]) - 1) for n, x in seq if n not in dn]
        ctx.n("callbacks", len(seq))
        if got != want:
            q = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            bad("callbacks", tag + " %d calls, expected %d; first difference at %d: %s, expected %s" % (len(got), len(want), q, got[q:q + 2], want[q:q + 2]))
        for n, x in seq:
            i = int(x[3]) - 1
            if i not in mine:
                bad("k-index", tag + " %d" % i)
                break
            m = mine.index(i)
            if [fl(y) for y in x[1]] != K[m] or [fl(y) for y in x[2]] != allf[m] or int(x[4]) != nb:
                bad("callback-values", tag + " %s %s, expected %s" % (n, x, allf[m]))
                break
        text = parts[j]
        # the table
        pf = PAR[par]
        head = re.findall(r"^(\w*)freqs:, k index, k1, k2, k3, kmag/2pi(.*)$", text, re.M)
        rows = re.findall(r"^(\w*)freqs:, (\d+), (.*)$", text, re.M)
        # (a later piece of a list of k-points continues the table of the first)
        if K and len(head) != (mine[0] == 0) or head and (head[0] != (head[0][0], "".join(", %s%sband %d" % (head[0][0], " " if head[0][0] else "", b) for b in range(1, nb + 1)))):
            bad("header", tag + " %s" % head)
        if [int(x[1]) for x in rows] != [i + 1 for i in mine]:
            bad("table", tag + " rows %s, expected %s" % ([x[1] for x in rows], [i + 1 for i in mine]))
            continue
        for x, k, w in zip(rows, K, allf):
            q = x[2].split(", ")
            km = np.linalg.norm(P.G.T @ np.array(k) if np.ndim(P.G) == 2 else 0)
            e = ["%g" % y for y in k] + ["%g" % y for y in w]
            if len(q) != 4 + nb or any(a != b and abs(fl(a) - fl(b)) > 2e-6 * abs(fl(b)) for a, b in zip(q[:3] + q[4:], e)):
                bad("table", tag + " %s, expected %s" % (q, e))
                break
            if all(abs(k[i]) < 1e-12 for i in range(P.dim, 3)) and abs(fl(q[3]) - km) > 1e-5 * (1 + km):
                bad("kmag", tag + " %s, expected %g" % (q[3], km))
                break
            ctx.n("rows")
        if len(set(x[0] for x in rows)) > 1 or rows and pf and rows[0][0] not in (pf, {"te": "zeven", "tm": "zodd", "zeven": "te", "zodd": "tm"}.get(pf, pf)) or rows and not pf and rows[0][0]:
            bad("parity-prefix", tag + " %s" % rows[0][0])
        rg = ranges(allf, K)
        check_ranges(bad, tag, d["br"][j] if nb else [], rg, K)
        # with fewer than two k-points, no ranges and no gaps are reported
        many = len(K) > 1
        if not many and re.search(r"^Band \d+ range|^Gap from", text, re.M):
            bad("ranges-of-one-k", tag)
        if nb:
            check_gap_output(bad, tag, text, rg, K, d["gaps"][j], d["ret"][j], many)
        ctx.n("gaps", len(gaps_of(rg)) if many else 0)
        if [[fl(y) for y in x] for x in d["kps"][j]] != [[fl(f(x)) for x in k] for k in ks]:
            bad("k-points-changed", tag)
        # gating by energy in objects
        if dn:
            en = re.findall(r"^dpwr:, (\d+), (\S+), (\S+)$", text, re.M)
            nd = [n for t, n, _, _ in names if t == "d"]
            exp, want = len(nd) * len(K) * nb, []
            if len(en) != exp:
                bad("dpwr-lines", tag + " %d of %d" % (len(en), exp))
                continue
            it = iter(en)
            for i, w in zip(mine, allf):
                for n in nd:
                    for b in range(1, nb + 1):
                        x = next(it)
                        if int(x[0]) != b or not close(fl(x[1]), w[b - 1]) or not -1e-9 <= fl(x[2]) <= 1 + 1e-9:
                            bad("dpwr-lines", tag + " %s" % (x,))
                        if fl(x[2]) >= dn[n]:
                            want.append((n, b, i))
            got = [(n, int(x[0]), int(x[3]) - 1) for n, x in seq if n in dn]
            if got != want:
                bad("dpwr-gating", tag + " %s, expected %s" % (got[:6], want[:6]))
    if mpi:
        for i, x in enumerate(R.ranks[1:], 1):
            if x != R.ranks[0]:
                ctx.bad("processes-disagree", tag0)
    ctx.n("runs"); ctx.seen(tag0)


def run_pure(c, ctx):
    r = o.rng(*c["s"])
    sets, txt = [], ""
    for j in range(60):
        nb, L = int(r.integers(1, 8)), int(r.integers(1, 7))
        kind = str(r.choice(["smooth", "integers", "zeros", "ragged", "spread"]))
        W = np.sort(r.uniform(0, 1, (L, nb)), 1)
        if kind == "integers":
            W = np.sort(r.integers(0, 4, (L, nb)), 1).astype(float)
        if kind == "zeros":
            W[:, :int(r.integers(0, nb + 1))] = 0
        if kind == "spread":
            W = np.sort(W * .1 + np.arange(nb) * fl(r.uniform(.05, .2)), 1)
        rows = [list(x) for x in W]
        if kind == "ragged":
            rows = [x[:int(r.integers(1, nb + 1))] for x in rows]
        ks = r.uniform(-.5, .5, (L, 3))
        sets.append((rows, ks, kind))
        txt += "(set! band-range-data '())" + "".join("(set! band-range-data (update-band-range-data band-range-data (list %s) %s))" % (" ".join(f(y) for y in x), v3(k)) for x, k in zip(rows, ks))
        m = max(len(x) for x in rows)
        ok = kind != "zeros" and kind != "integers"
        txt += "(print \"SET %d\\n\")(output-band-range-data band-range-data)(vp 'g (output-gaps band-range-data))(vp 'br band-range-data)(vp 'ret (map retrieve-gap (list %s)))\n" % (
            j, " ".join(str(b) for b in range(1, m)) if ok else "")
    txt += "(print \"SET end\\n\")(vp 'bad (map (lambda (b) (catch #t (lambda () (retrieve-gap b)) (lambda x 'error))) (list (length band-range-data) (+ 1 (length band-range-data)))))"
    R = ctx.mpb(txt, "complex")
    if R.rc:
        ctx.bad("run-failed", R.why())
        return
    d = R.vpd()
    parts = re.split(r"^SET .*$", R.out, flags=re.M)[1:]
    for j, (rows, ks, kind) in enumerate(sets):
        tag = "pure set %d %s %s" % (j, kind, np.round(np.array(rows, dtype=object).tolist() if kind == "ragged" else rows, 4).tolist() if kind != "ragged" else "")
        rg = ranges(rows, ks)
        check_ranges(ctx.bad, tag, d["br"][j], rg, [[fl(f(x)) for x in k] for k in ks])
        check_gap_output(ctx.bad, tag, parts[j], rg, [[fl(f(x)) for x in k] for k in ks], d["g"][j], d["ret"][j], True)
        ctx.n("synthetic_sets"); ctx.n("synthetic_gaps", len(gaps_of(rg)))
    if d["bad"][0] != ["error", "error"]:
        ctx.bad("retrieve-gap-range", str(d["bad"][0]))
    ctx.seen("pure %d" % c["s"][-1])
