"""P17: no sequence of interface calls corrupts memory."""
import re
import numpy as np
import oracle as o
import vf
import prog
from prog import f, v3

RULE = ("random sessions of 8-40 interface calls in any order (before initialisation, wrong field kinds, out-of-range bands, indices and points, objects kept over re-initialisation with other sizes, damaged or missing "
        "files) in all builds under AddressSanitizer and UBSan; a case counts when the session ended or stopped with a message, and, when it ended, a fixed small problem solved afterwards gave its known frequencies")
ASSUMPTIONS = ["the sanitizers see the package's own code; the libraries it calls (Guile, libctl, LAPACK, FFTW, HDF5) are watched only at the intercepted calls and at the allocator"]
HANG_IS_VIOLATION = False   # termination is not part of the property
MIN_DISTINCT = 60

# vector b: a band or index; %v a point; %n number; %F field object; %E eigenvector set; %M matrix; %i small integer; %p integer parameter
OPS = """
(get-dfield %b)
(get-hfield %b)
(get-bfield %b)
(get-efield %b)
(get-efield-from-dfield)
(get-epsilon)
(get-mu)
(get-charge-density %b)
(get-poynting %b)
(get-tot-pwr %b)
(fix-field-phase)
(fix-dfield-phase %b)
(fix-hfield-phase %b)
(fix-efield-phase %b)
(fix-bfield-phase %b)
(compute-field-energy)
(compute-field-divergence)
(get-epsilon-point %v)
(get-epsilon-inverse-tensor-point %v)
(get-energy-point %v)
(get-bloch-field-point %v)
(get-field-point %v)
(get-bloch-cscalar-point %v)
(get-cscalar-point %v)
(compute-energy-in-dielectric %n %n)
(compute-field-integral (lambda (F eps r) (vector3-x F)))
(compute-field-integral (lambda (u eps r) (* u eps)))
(compute-energy-integral (lambda (u eps r) u))
(compute-energy-in-objects (make sphere (center %v) (radius %n)))
(compute-energy-in-objects)
(transformed-overlap (matrix3x3 (vector3 -1 0 0) (vector3 0 1 0) (vector3 0 0 1)) %v)
(compute-symmetries (matrix3x3 (vector3 -1 0 0) (vector3 0 -1 0) (vector3 0 0 1)) %v)
(compute-symmetry %b (matrix3x3 (vector3 1 0 0) (vector3 0 1 0) (vector3 0 0 -1)) %v)
(compute-symmetry %b (matrix3x3 %v %v %v) %v)
(output-field-to-file %i "x-")
(output-field-to-file -1 "y-")
(output-field)
(output-epsilon)
(output-mu)
(output-field-x)
(output-hfield %b)
(output-bfield-z %b)
(output-dfield %b)
(output-efield-y %b)
(output-hpwr %b)
(output-dpwr %b)
(output-charge-density %b)
(output-poynting %b)
(output-tot-pwr %b)
(output-dpwr-in-objects output-dfield %n (make block (center 0) (size 1 1 1)))
(set-kpoint-index %p)
(get-kpoint-index)
(set! e%d (get-eigenvectors %b %p))
(set! e%d (get-eigenvectors 1 %b))
(set-eigenvectors %E %b)
(set! m%d (dot-eigenvectors %E %b))
(scale-eigenvector %b %n)
(scale-eigenvector %b +0.3-0.4i)
(output-eigenvectors %E "E%d.h5")
(set! e%d (input-eigenvectors "E%d.h5" %p))
(set! e%d (input-eigenvectors "E%d.h5" num-bands))
(save-eigenvectors "S%d")
(load-eigenvectors "S%d")
(load-eigenvectors "E%d.h5")
(load-eigenvectors "nowhere")
(input-eigenvectors "bad.h5" 2)
(load-eigenvectors "bad.h5")
(get-dominant-planewave %b)
(sqmatrix-size %M)
(sqmatrix-ref %M %i %i)
(sqmatrix-set %M %i %i %n)
(set! m%d (sqmatrix-mult %M %M))
(set! m%d (sqmatrix-diagm (list %n %n)))
(set! m%d (sqmatrix-diagm '()))
(sqmatrix-eigvals %M)
(sqmatrix-diag %M)
(fix-phase-consistency %E %b)
(cur-field? %F)
(set! f%d (rscalar-field-make %F))
(set! f%d (cvector-field-make %F))
(set! f%d (cscalar-field-make %F))
(set! f%d (field-make %F))
(set! f%d (field-copy %F))
(cvector-field-nonbloch! %F)
(fields-conform? %F %F)
(field-set! %F %F)
(field-load %F)
(field-map! %F (lambda (x) x) %F)
(field-map! %F (lambda (x y) (vector3-cdot x y)) %F %F)
(field-map! %F (lambda (x y) x) %F %F)
(field-map! %F (lambda () 1.0))
(field-map! %F (lambda () (vector3 1 2 3)))
(integrate-fields (lambda (r) (vector3-x r)))
(integrate-fields (lambda (r x) 1) %F)
(integrate-fields (lambda (r x y) (vector3-cdot x y)) %F %F)
(rscalar-field-get-point %F %v)
(cscalar-field-get-point %F %v)
(cvector-field-get-point %F %v)
(cvector-field-get-point-bloch %F %v)
(field? %F)
(randomize-material-grid! %G 0.3)
(randomize-material-grid! %G -2.5)
(save-material-grid %G "g%d.h5")
(load-material-grid! %G "g%d.h5" %v)
(load-material-grid! %G "f-epsilon.h5" (vector3 1 1 1))
(load-material-grid! %G "bad.h5" (vector3 1 1 1))
(material-grids-match-epsilon-file! "f-epsilon.h5" %n)
(material-grids-match-epsilon-file! "bad.h5" 0.1)
(print-material-grids-gradient %b)
(print-material-grids-deps-du)
(print-material-grids-deps-du-numeric 1e-3)
(material-grids-approx-gradient %k %b 0 0.01)
(compute-zparities)
(compute-yparities)
(compute-group-velocity-component %v)
(compute-1-group-velocity-component %v %b)
(compute-1-group-velocity %b)
(compute-1-group-velocity-reciprocal %b)
(compute-group-velocities)
(display-group-velocities)
(display-zparities)
(retrieve-gap %b)
(mpi-max %n)
(using-mu?)
(set-parity %y)
(randomize-fields)
(gc)
""".strip().split("\n")
BIG = """
(solve-kpoint %v)
(solve-kpoint %k)
(solve-kpoint %k)
(begin (set! k-points (list %k %k)) (run))
(begin (set! k-points (list %k)) (run-te output-hfield-z))
(begin (set! k-points (list %k)) (run-tm fix-efield-phase (output-at-kpoint %v output-efield)))
(begin (set! k-points (list %k)) (run-yeven display-yparities))
(begin (set! k-points (list)) (run))
(init-params %y true)
(init-params %y false)
(begin (set! num-bands %p) (init-params %y true))
(begin (set! num-bands %p) (init-params NO-PARITY false))
(begin (set! resolution %r) (init-params NO-PARITY %t))
(begin (set! resolution (vector3 %p %p %p)) (init-params NO-PARITY %t))
(begin (set! mesh-size %i) (init-params NO-PARITY true))
(begin (set! geometry-lattice (make lattice (size %s))) (init-params NO-PARITY %t))
(begin (set! geometry-lattice (make lattice (size %s) (basis1 1 0.2 0) (basis2 0.1 1 0))) (init-params %y %t))
(begin (set! geometry (list %o)) (init-params NO-PARITY %t))
(begin (set! geometry (list %o %o)) (init-params NO-PARITY %t) (output-epsilon))
(begin (set! geometry '()) (init-params NO-PARITY %t))
(begin (set! default-material %m) (init-params NO-PARITY %t))
(begin (set! target-freq %n) (init-params NO-PARITY %t))
(begin (set! eigensolver-block-size %p) (init-params NO-PARITY %t))
(begin (set! eigensolver-nwork %p) (init-params NO-PARITY %t))
(begin (set! simple-preconditioner? %t) (set! deterministic? %t) (init-params NO-PARITY %t))
(begin (set! force-mu? %t) (init-params NO-PARITY %t))
(begin (set! ensure-periodicity %t) (init-params NO-PARITY %t))
(begin (set! epsilon-input-file "f-epsilon.h5") (init-params NO-PARITY true) (set! epsilon-input-file ""))
(begin (set! epsilon-input-file "bad.h5") (init-params NO-PARITY true))
(begin (set! mu-input-file "f-epsilon.h5") (init-params NO-PARITY true) (set! mu-input-file ""))
(begin (set! filename-prefix "%w") (output-epsilon) (set! filename-prefix "f-"))
(material-grids-maxgap (list %k) %b %b 1e-2 0.1 2 10.0)
(material-grids-mingap (list %k %k) 1 2 1e-2 0.1 2 10.0)
(material-grids-min-tetm-gap %k %b 1e-2 0.1 2 10.0)
(find-k NO-PARITY 0.2 1 1 (vector3 1) 1e-2 0.2 0 0.5)
""".strip().split("\n")
INT_WILD = ["0", "-1", "1000000", "2147483647", "-2147483648", "7"]
NUM_WILD = ["0", "-1", "1e300", "-1e-300", "1e10", "+inf.0", "+nan.0"]


def builds(tier):
    return [(c, "mpb") for c in ("complex", "inv", "herm", "cmpi", "invmpi")]


def cases(tier, seed):
    out = []
    for i in range(160 if tier == "quick" else 6000):
        cfg = str(o.rng(seed, 17, 0, i, 9).choice(["complex", "inv", "herm", "cmpi", "invmpi"], p=[.45, .2, .15, .12, .08]))
        out.append({"cfg": cfg, "s": (seed, 17, 0, i), "cost": 3, "timeout": 600})
    SU = [("no-size", "1", ""), ("no-size", "1", " (mu 2)"), (".8", "2", "")]
    for q in range(NPROBE if tier == "quick" else NPROBE * 9):
        g = q // NPROBE
        out.append({"probe": 1, "cfg": ["complex", "inv", "herm"][g // 3 if tier != "quick" else (q + seed) % 3], "setup": SU[g % 3 if tier != "quick" else (q // 3 + seed) % 3], "ops": list(range(q % NPROBE, len(PROBES), NPROBE)), "s": (seed, 17, 1, q), "cost": 9, "timeout": 700})
    return out


# every call in a fixed good state, one argument at a time at and beyond the ends of its range; %d is a slot number, not an argument
PROBE_MORE = """
(sqmatrix-mult %M (sqmatrix-diagm (list 1 2)))
(compute-1-group-velocity-component (vector3 1 0 0) %b)
(get-eigenvectors %b 2)
(get-eigenvectors 1 %p)
(get-eigenvectors %b %p)
(begin (set-eigenvectors e0 %b) (get-dfield 1))
(begin (solve-kpoint (vector3 .1 .2 0)) (set-eigenvectors %E %b) (get-bfield 1))
(begin (scale-eigenvector %b 2) (get-dfield 1))
(begin (set! num-bands 7) (init-params NO-PARITY true) (set-eigenvectors e0 %b))
(begin (set! num-bands 2) (init-params NO-PARITY false) (set-eigenvectors e0 %b))
(begin (set! num-bands 2) (init-params NO-PARITY false) (dot-eigenvectors e0 %b))
(begin (set! num-bands 6) (init-params NO-PARITY false) (dot-eigenvectors e0 %b))
(begin (set! resolution 3) (init-params NO-PARITY true) (set-eigenvectors e0 %b))
(begin (set! resolution 7) (init-params NO-PARITY true) (dot-eigenvectors e0 %b))
(begin (set! resolution 3) (init-params NO-PARITY true) (field-load %F))
(begin (set! resolution 7) (init-params NO-PARITY true) (field-map! cur-field (lambda (x) x) %F))
(begin (set! resolution 7) (init-params NO-PARITY true) (integrate-fields (lambda (r x) 1) %F))
(begin (set! resolution 7) (init-params NO-PARITY true) (rscalar-field-get-point %F %v))
(begin (get-epsilon) (get-energy-point %v))
(begin (get-dfield 1) (compute-field-energy) (get-energy-point %v))
(begin (get-dfield 1) (compute-field-divergence) (get-bloch-cscalar-point %v))
(begin (get-hfield 1) (get-bloch-field-point %v))
(begin (get-hfield 1) (output-field-to-file %i "z-"))
(begin (get-dfield 1) (compute-field-energy) (output-field-to-file %i "z-"))
(begin (output-eigenvectors e0 "q.h5") (input-eigenvectors "q.h5" %p))
(begin (output-eigenvectors e0 "q.h5") (set! resolution 3) (init-params NO-PARITY true) (input-eigenvectors "q.h5" 4))
(begin (output-eigenvectors e0 "q.h5") (set! resolution 7) (init-params NO-PARITY true) (input-eigenvectors "q.h5" 4))
(begin (save-eigenvectors "q.h5") (set! num-bands 6) (init-params NO-PARITY true) (load-eigenvectors "q.h5"))
(begin (fix-phase-consistency (get-eigenvectors 1 %p) %b) (get-dfield 1))
(begin (set! geometry (list (make block (size 1 1 1) (center 0) (material gg)))) (init-params NO-PARITY true) (solve-kpoint (vector3 .1 0 0)) (print-material-grids-gradient %b))
(material-grids-match-epsilon-file! %w 0.1)
(load-material-grid! gg %w (vector3 1 1 1))
(input-eigenvectors %w 2)
(load-eigenvectors %w)
""".strip().split("\n")
EDGE = {"b": ["-2147483648", "-2", "-1", "0", "1", "4", "5", "6", "100000000", "2147483647"], "p": ["-2147483648", "-1", "0", "1", "3", "4", "5", "9", "2147483647"],
        "i": ["-2147483648", "-3", "-2", "-1", "0", "1", "3", "4", "5", "2147483647"],
        "v": ["(vector3 1e10 0 -1e10)", "(vector3 -0.5 0.5 0.5)", "(vector3 0.99999999 -1e-17 7)", "(vector3 +nan.0 0 0)", "(vector3 -1e300 1e300 0)", "(vector3 0 +inf.0 0)"], "k": ["(vector3 7 -5 0)", "(vector3 0 0 1)"],
        "n": ["0", "-1", "1e300", "+nan.0", "-inf.0"], "F": ["'cur-field", "f0", "f1", "f2", "m0", "e0", "#f"], "E": ["e0", "e1", "m0", "f0", "#f"], "M": ["m0", "m1", "m2", "e0", "#f"], "G": ["gg", "gg2", "ggz", "e0"],
        "y": ["0", "17", "-1", "EVEN-Z", "ODD-Y"], "w": ['""', '"nowhere"', '"bad.h5"', '"."', '"q0.h5"', '"q0.h5:"', '"q0.h5:nodata"', '"q1.h5"', '"%s"' % ("n" * 3000)]}
GOOD = {"b": "2", "p": "2", "i": "1", "v": "(vector3 .1 .2 .3)", "k": "(vector3 .1 0 0)", "n": "0.3", "F": "f0", "E": "e0", "M": "m0", "G": "gg", "y": "NO-PARITY", "d": "0", "w": '"q0.h5"'}
PROBES = []
for _x in PROBE_MORE + OPS + [x.replace("%%", "%") for x in ["(output-field-to-file %i \"x-\")"]]:
    _n = [m for m in re.findall(r"%([a-zA-Z])", _x) if m in EDGE]
    _alls = set()
    for _i in range(len(_n)):
        for _e in EDGE[_n[_i]]:
            for _o in range(2 if len(_n) > 1 else 1):
                _it = iter(range(len(_n)))

                def _sub(m, _it=_it, _i=_i, _e=_e, _o=_o):
                    if m.group(1) not in EDGE:
                        return GOOD[m.group(1)]
                    j = next(_it)
                    return _e if j == _i else GOOD[m.group(1)] if not _o else {"b": "1", "i": "0", "p": "4", "F": "f1", "M": "m1", "E": "e1"}.get(m.group(1), GOOD[m.group(1)])
                _alls.add(re.sub(r"%([a-zA-Z])", _sub, _x))
    PROBES += sorted(_alls)
PROBE_SETUP = """(use-modules (ice-9 popen))
(set! num-bands 4)(set! tolerance 1e-2)(set! resolution 5)(set! mesh-size 2)(set! geometry-lattice (make lattice (size 1 1 %s)))(set! filename-prefix "f-")(set! eigensolver-block-size 3)
(define gg (make material-grid (epsilon-min 1) (epsilon-max 9) (size 3 2 %s) (matgrid-init (lambda (x y z) (* x 0.7)))))
(define gg2 (make material-grid (epsilon-min 2) (epsilon-max 5) (material-grid-kind U-PROD) (size 2 3 1) (matgrid-init (lambda (x y z) (* y 0.9)))))
(define ggz (make material-grid (epsilon-min 2) (epsilon-max 5) (material-grid-kind U-SUM) (size 1 1 1) (matgrid-init (lambda (x y z) 0.5))))
(set! geometry (list (make cylinder (center 0.1 0) (radius 0.3) (height infinity) (material (make medium (epsilon 8)%s)))))
(init-params NO-PARITY true)(solve-kpoint (vector3 .3 .1 0))
(define e0 (get-eigenvectors 1 4))(define e1 (get-eigenvectors 2 2))(define m0 (dot-eigenvectors e0 1))(define m1 (sqmatrix-diagm (list 1 2)))(define m2 (dot-eigenvectors e1 2))
(output-eigenvectors e0 "q0.h5")(save-material-grid gg "q1.h5")(output-epsilon)
(get-dfield 2)(define f0 (field-copy 'cur-field))(get-epsilon)(define f1 (field-copy 'cur-field))(get-dfield 1)(compute-field-divergence)(define f2 (field-copy 'cur-field))(get-hfield 1)
(define (probe i th)
  (vp 'op i) (force-output (current-output-port)) (flush-all-ports)
  (let ((pid (primitive-fork)))
    (if (= pid 0)
        (begin
          (alarm 40)
          (vp 'result (list i (catch #t (lambda () (th) 'returned) (lambda (key . args) 'caught)))) (flush-all-ports)
          (sqmatrix-eigvals m0) (dot-eigenvectors e0 1) (get-dfield 1) (compute-field-energy) (gc)
          (vp 'alive i) (flush-all-ports) (primitive-_exit 0))
        (let ((st (cdr (waitpid pid)))) (vp 'status (list i (if (status:term-sig st) (status:term-sig st) 0) (if (status:exit-val st) (status:exit-val st) -1)))))))
"""


def run_probe(c, ctx):
    d = ctx.dir()
    r = o.rng(*c["s"])
    open(d + "/bad.h5", "wb").write(bytes(r.integers(0, 256, 700).astype(np.uint8)))
    t = PROBE_SETUP % tuple(c["setup"]) + "".join("(probe %d (lambda () %s))\n" % (i, PROBES[i]) for i in c["ops"])
    R = ctx.mpb(t, c["cfg"], cwd=d, timeout=500, crash=False)
    if R.rc:
        ctx.bad("probe-stopped", R.why() + R.out[-500:])
        return
    for part in re.split(r"^(?=VP op \d+$)", R.out, flags=re.M)[1:]:
        i = int(re.match(r"VP op (\d+)", part).group(1))
        st = re.findall(r"^VP status \((\d+) (-?\d+) (-?\d+)\)", part, re.M)
        ctx.n("probes")
        if not st:
            ctx.bad("probe-lost", PROBES[i])
            continue
        sig, ex = int(st[-1][1]), int(st[-1][2])
        k = vf.classify(part, -sig if sig else ex)
        what = re.match(r"\(+([^ )]+)", PROBES[i]).group(1)
        if k:
            ctx.bad("probe:%s:%s" % (k[0], what), PROBES[i] + " " + k[1])
        elif ex and "\nVP result" not in part and not part.split("\nVP status")[0].partition("\n")[2].strip():
            ctx.bad("silent-stop", PROBES[i] + " exits with status %d and says nothing" % ex)
        ctx.n("probes-" + ("refused" if ex else "caught" if re.search(r"VP result \(\d+ caught", part) else "returned"))
        ctx.n("f:" + what)
    ctx.seen("probe %s %s" % (c["cfg"], c["ops"]))


def session(r, cfg):
    mpi, inv = cfg.endswith("mpi"), cfg in ("inv", "invmpi")
    wild = float(r.choice([0, .05, .15, .35]))
    dim = int(r.integers(2, 4)) if mpi else int(r.integers(1, 4))
    nb = int(r.integers(2, 5))

    def w(pool, ok):
        return str(r.choice(pool)) if r.random() < wild else ok()

    def vec(scale=1., cut=False):
        return v3(r.uniform(-scale, scale, 3) * (np.arange(3) < (dim if cut else 3)))

    def size():
        return " ".join(str(r.choice(["no-size", "0", "1e-3"], p=[.8, .1, .1])) if r.random() < wild else ("no-size" if i >= dim else f(round(r.uniform(.6, 1.6), 2))) for i in range(3))

    def mat():
        m = str(r.choice(["(make medium (epsilon %s))", "(make medium (epsilon 3) (mu %s))", "(make medium-anisotropic (epsilon-diag 2 3 %s))", "(make medium-anisotropic (epsilon-diag 4 4 %s) (epsilon-offdiag .1 0 .2))",
                          "(make material-function (material-func (lambda (p) (make medium (epsilon (+ 2 (* %s (vector3-x p) (vector3-x p))))))))", "nothing", "vacuum", "%%G", "(make medium (mu-diag 1 2 %s)(epsilon 2))"]))
        return m.replace("%s", w(["0", "-2", "1e-8", "1e300", "+inf.0"], lambda: f(round(r.uniform(1.5, 9), 2)))).replace("%%", "%")

    def obj():
        n = lambda: w(["0", "-1", "1e20", "1e-12"], lambda: f(round(r.uniform(.1, .6), 2)))
        q = str(r.choice(["sphere|(radius %s)", "cylinder|(radius %s) (height %s) (axis %s %s %s)", "block|(size %s %s %s)", "block|(size %s %s %s) (e1 1 0 0) (e2 %s 1 0)", "cone|(radius %s) (radius2 %s) (height %s)", "ellipsoid|(size %s %s %s)",
                          "wedge|(radius %s) (height %s) (wedge-angle %s)", "prism|(vertices (list (vector3 0 0) (vector3 %s 0) (vector3 0 %s))) (height %s) (axis 0 0 1)"]))
        k, a = q.split("|")
        while "%s" in a:
            a = a.replace("%s", n(), 1)
        return "(make %s (center %s) (material %s) %s)" % (k, vec(.5), mat(), a)

    def fill(s):
        S = {"b": lambda: w(INT_WILD + [str(nb + 1)], lambda: str(int(r.integers(1, nb + 1)))),
             "p": lambda: w(["0", "-1", "-3", "40"], lambda: str(int(r.integers(1, 6)))),
             "i": lambda: w(INT_WILD, lambda: str(int(r.integers(0, 3)))),
             "v": lambda: w(["(vector3 1e10 0 -1e10)", "(vector3 -7.5 3 2)", "(vector3 1e-300 0 0)"], lambda: vec()),
             "k": lambda: vec(.5, True), "n": lambda: w(NUM_WILD, lambda: f(round(r.normal(), 3))),
             "F": lambda: str(r.choice(["cur-field", "f0", "f1", "f2"])), "E": lambda: str(r.choice(["e0", "e1", "e2"])), "M": lambda: str(r.choice(["m0", "m1", "m2"])),
             "d": lambda: str(int(r.integers(3))), "y": lambda: str(r.choice(["NO-PARITY", "EVEN-Z", "ODD-Z", "EVEN-Y", "ODD-Y", "(+ EVEN-Z ODD-Y)"] + (["(+ EVEN-Z ODD-Z)", "17", "PREV-PARITY"] if wild else []))),
             "r": lambda: w(["0", "-1", "0.1", "3.7"], lambda: str(int(r.integers(2, 8)))), "t": lambda: str(r.choice(["true", "false"])), "s": size, "o": obj, "m": mat,
             "G": lambda: w(["gg2"], lambda: "gg"), "w": lambda: w(["", "a" * (60 if mpi else 300), "nodir/x-"], lambda: "h-")}
        while True:
            m = re.search(r"%([a-zA-Z])", s)
            if not m:
                return s
            s = s[:m.start()] + S[m.group(1)]() + s[m.end():]
    # %%G protects nothing else: fill() expands material grids too
    T = ["(define e0 #f)(define e1 #f)(define e2 #f)(define m0 (sqmatrix-diagm (list 1 2)))(define m1 m0)(define m2 m0)(define f0 'cur-field)(define f1 'cur-field)(define f2 'cur-field)",
         fill("(define gg (make material-grid (epsilon-min 1) (epsilon-max 9) (size %s) (matgrid-init (lambda (x y z) (* x 0.7)))))" % " ".join(w(["1", "7"], lambda: str(int(r.integers(1, 5)))) for _ in range(3))),
         "(define gg2 (make material-grid (epsilon-min 2) (epsilon-max 5) (material-grid-kind U-PROD) (size 2 3 1) (matgrid-init (lambda (x y z) (* y 0.9)))))",
         "(set! num-bands %d)(set! tolerance 1e-3)(set! resolution %d)(set! geometry-lattice (make lattice (size %s)))(set! filename-prefix \"f-\")" % (nb, r.integers(2, 7), " ".join("no-size" if i >= dim else f(round(r.uniform(.6, 1.6), 2)) for i in range(3)))]
    ops = [fill("(set! geometry (list %s))" % " ".join(obj() for _ in range(int(r.integers(0, 3)))))]
    if r.random() < .8:
        ops.append(fill("(init-params %y true)"))
        if r.random() < .85:
            ops.append(fill("(solve-kpoint %k)"))
    n = int(r.integers(8, 41))
    for j in range(n):
        ops.append(fill(str(r.choice(BIG if r.random() < .16 else OPS))))
        if "(set! e" not in ops[-1] and r.random() < .1:
            ops.append(fill("(set! e%d (get-eigenvectors %b 1))"))
        if r.random() < .08:
            ops.append(fill(str(r.choice(["(set! f%d (field-copy cur-field))", "(get-dfield %b)", "(get-bfield %b)", "(solve-kpoint %k)", "(set! m%d (dot-eigenvectors %E %b))"]))))
    return T, ops


CANARY = """(set! num-bands 3)(set! tolerance 1e-8)(set! resolution 6)(set! mesh-size 3)(set! geometry-lattice (make lattice (size 1 1 no-size)))(set! default-material air)(set! force-mu? false)(set! target-freq 0)
(set! geometry (list (make cylinder (center 0.1 0) (radius 0.3) (height infinity) (material (make dielectric (epsilon 8))))))(set! epsilon-input-file "")(set! mu-input-file "")(set! filename-prefix "c-")(set! ensure-periodicity true)
(set! eigensolver-block-size -11)(set! eigensolver-nwork 3)(set! simple-preconditioner? false)(set! deterministic? false)(set! k-points (list (vector3 0.3 0.1 0)))
(run-tm)(vp 'canary freqs)(run-te)(vp 'canary freqs)
"""
WANT = {}
MAXRUN = 9
NPROBE = 24


def run(c, ctx):
    if "probe" in c:
        return run_probe(c, ctx)
    r = o.rng(*c["s"])
    cfg = c["cfg"]
    np_ = int(r.integers(1, 4)) if cfg.endswith("mpi") else 0
    if cfg not in WANT:
        R = ctx.mpb(CANARY, cfg, np_=np_)
        if R.rc:
            ctx.bad("canary-alone", R.why())
            return
        WANT[cfg] = R.vpd()["canary"]
    T, ops = session(r, cfg)
    d = ctx.dir()
    open(d + "/bad.h5", "wb").write(bytes(r.integers(0, 256, 700).astype(np.uint8)))
    tag = cfg
    for attempt in range(MAXRUN):
        t = "".join(x + "\n" for x in T)
        for j, x in enumerate(ops):
            t += "(vp 'op %d)(catch #t (lambda () %s) (lambda (key . args) (print \"CAUGHT \" key \"\\n\")))\n" % (j, x)
        t += "(vp 'op 'end)\n" + CANARY
        try:
            R = ctx.mpb(t, cfg, np_=np_, cwd=d, timeout=90)
        except vf.Hang:     # slow calls are not what this check is about
            ctx.n("slow")
            break
        # in parallel any process may be the first to stop the others
        done = max((re.findall(r"^VP op (\d+|end)$", x, re.M) for x in ([R.out] if not np_ else R.ranks)), key=len)
        last = done[-1] if done else "none"
        tag = "%s np=%d, %d calls" % (cfg, np_, len(ops))
        ctx.n("calls", len(done)); ctx.n("caught", R.out.count("\nCAUGHT "))
        for x in set(re.match(r"\(+(?:set! \w+ \()?(?:begin \(set! )?([^ )]+)", x).group(1) for x in ops[:len(done)]):
            ctx.n("f:" + x)
        if not R.rc:
            got = R.vpd().get("canary")
            ctx.n("completed")
            if got is None or any(np.max(np.abs(np.array(a, float) - np.array(b, float))) > 1e-5 for a, b in zip(got, WANT[cfg])) or len(got) != 2:
                ctx.bad("canary", tag + " %s, expected %s" % (got, WANT[cfg]))
            break
        if not np_ and done and not R.out[R.out.rfind("\nVP op ") + 7:].partition("\n")[2].strip():
            ctx.bad("silent-stop", tag + " in call %s %s:%s" % (last, ops[int(last)] if last.isdigit() else "", R.why()))
            break
        ctx.n("stopped")
        if last == "none":
            break
        if last == "end" and np_ > 1:    # a process may get ahead of the one that stops
            last = str(len(ops) - 1)
        if last == "end" or not ops:
            ctx.bad("cannot-continue", tag + " %s" % R.why())
            break
        # go on without the call the program refused
        del ops[int(last)]
    ctx.seen(tag + str(ops[:3]))
