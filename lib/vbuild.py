"""Builds /repo's current working tree (out of tree, in /verif/build) with sanitizers.

A "flavour" is (cfg, san): cfg in complex/inv/herm/mpi/invmpi/cmpi, san in asan/plain.  Objects are cached by
a hash of the source, of every header in the tree, and of the flags, so nothing stale is ever used.
"""
import hashlib, os, re, subprocess, sys, glob, shutil, threading, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
LIBCTL = "/usr/share/libctl"
SER = "/usr/lib/x86_64-linux-gnu/hdf5/serial"
PAR = "/usr/lib/x86_64-linux-gnu/hdf5/openmpi"
SANF = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=nonnull-attribute"]


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


class Flavour:
    def __init__(self, cfg, san="asan", log=None):
        self.cfg, self.san = cfg, san
        self.mpi = cfg.endswith("mpi")
        self.cc = "mpicc" if self.mpi else "gcc"
        self.dir = os.path.join(BUILD, "%s-%s" % (cfg, san))
        self.obj = os.path.join(BUILD, "obj")
        self.gen = os.path.join(self.dir, "gen")
        os.makedirs(self.gen, exist_ok=True)
        os.makedirs(self.obj, exist_ok=True)
        opt = ["-g", "-O1", "-fno-omit-frame-pointer", "-fPIC", "-w"]
        self.cflags = opt + (SANF if san == "asan" else [])
        self.ldflags = SANF if san == "asan" else []
        inc = "/usr/include/hdf5/openmpi" if self.mpi else "/usr/include/hdf5/serial"
        h5 = PAR if self.mpi else SER
        s = os.path.join(REPO, "src")
        self.incs = ["-DHAVE_CONFIG_H", "-I" + self.gen] + \
            ["-I" + os.path.join(s, d) for d in ("util", "matrices", "matrixio", "maxwell")] + ["-I" + inc]
        self.libs = ["-L" + h5, "-Wl,-rpath," + h5, "-lhdf5", "-lz"] + \
            (["-lfftw3_mpi"] if self.mpi else []) + ["-llapack", "-lblas", "-lfftw3", "-lm"]
        self.guile_inc = ["-I/usr/include/guile/3.0"]
        self.guile_libs = ["-lnlopt", "-lctl", "-lguile-3.0", "-lgc", "-lpthread", "-ldl"]

    # -- generated files ---------------------------------------------------
    def _put(self, name, data):
        p = os.path.join(self.gen, name)
        if isinstance(data, str):
            data = data.encode()
        if not os.path.exists(p) or _read(p) != data:
            with open(p, "wb") as f:
                f.write(data)
        return p

    def generate(self, mpb=False):
        self._put("config.h", _read(os.path.join(VERIF, "config", self.cfg, "config.h")))
        # sphere-quad.h is made by running src/util/sphere-quad.c, as the package's build does
        sq = os.path.join(REPO, "src/util/sphere-quad.c")
        key = _h(_read(sq))
        cached = os.path.join(self.obj, "sphere-quad-%s.h" % key)
        if not os.path.exists(cached):
            exe = cached + ".%d.exe" % os.getpid()
            _run(["gcc", "-O1", "-w", "-DHAVE_CONFIG_H", "-I" + self.gen, "-I" + os.path.join(REPO, "src/util"),
                  sq, "-o", exe, "-lm"])
            out = _run([exe] + self._sphere_args())
            with open(cached + ".tmp%d" % os.getpid(), "w") as f:
                f.write(out)
            os.rename(cached + ".tmp%d" % os.getpid(), cached)
            os.remove(exe)
        self._put("sphere-quad.h", _read(cached))
        if mpb:
            eps = _read(os.path.join(REPO, "mpb/epsilon.c")).decode()
            self._put("mu.c", eps.replace("epsilon", "mu").replace("eps_inv", "mu_inv"))
            scm = _read(os.path.join(REPO, "mpb/mpb.scm.in")).decode()
            flags = []
            for l in open(os.path.join(REPO, "src/matrices/eigensolver.h")):
                if "#define EIGS_" in l:
                    l = l.rstrip("\n")
                    l = re.sub(r"#define ([A-Za-z0-9_]*) \(1<<([0-9]*)\)", r"(define \1 (pow2 \2))", l)
                    l = re.sub(r"#define ([A-Za-z0-9_]*) \((.*)\)", r"(define \1 (+ \2))", l)
                    flags.append(re.sub(r" *\| *", " ", l))
            scm = scm.replace("@LIBCTL_DIR@", LIBCTL).replace("@EIGS_FLAGS_SCM@", "".join(flags)) \
                .replace("@ACTIVATE_READLINE@", "")
            spec = self._put("mpb.scm", scm)
            for n, d in (("main.c", "base"), ("geom.c", "utils")):
                self._put(n, _read(os.path.join(LIBCTL, d, n)))
            key = _h(scm, _read(LIBCTL + "/utils/geom.scm"))
            for kind, n in (("--code", "ctl-io.c"), ("--header", "ctl-io.h")):
                c = os.path.join(self.obj, "%s-%s" % (key, n))
                if not os.path.exists(c):
                    t = os.path.join(self.gen, n)
                    _run(["gen-ctl-io", kind, "-o", t, spec, LIBCTL],
                         env=dict(os.environ, GUILE_AUTO_COMPILE="0", LC_ALL="C.UTF-8"), cwd=self.gen)
                    shutil.copy(t, c + ".tmp%d" % os.getpid())
                    os.rename(c + ".tmp%d" % os.getpid(), c)
                self._put(n, _read(c))

    def _sphere_args(self):
        mk = open(os.path.join(REPO, "src/util/Makefile.am")).read()
        m = re.search(r"sphere_quad[^\n]*?(\d+)\s*>\s*\$@", mk)
        return [m.group(1)] if m else []

    # -- compiling -----------------------------------------------------------
    def headers_hash(self):
        hs = []
        for pat in ("src/*/*.h", "mpb/*.h", "mpb/epsilon.c", "src/util/sphere-quad.c"):
            hs += sorted(glob.glob(os.path.join(REPO, pat)))
        hs += sorted(glob.glob(os.path.join(self.gen, "*.h"))) + sorted(glob.glob(os.path.join(self.gen, "mu.c")))
        return _h(*[os.path.basename(p).encode() + _read(p) for p in hs])

    def compile(self, jobs):
        """jobs: list of (src, extra_flags, name) -> list of object paths"""
        hh = self.headers_hash()
        todo, objs = [], []
        for src, extra, name in jobs:
            fl = [self.cc] + self.cflags + self.incs + extra
            # paths of the tree and of the build do not matter for the result
            key = _h(hh, _read(src), " ".join(fl), name)
            o = os.path.join(self.obj, "%s-%s.o" % (name, key))
            objs.append(o)
            if not os.path.exists(o):
                todo.append((fl, src, o))

        def one(t):
            fl, src, o = t
            tmp = o + ".%d.%d.o" % (os.getpid(), threading.get_ident())
            _run(fl + ["-c", src, "-o", tmp])
            os.rename(tmp, o)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, todo))
        return objs

    def lib_jobs(self):
        jobs = []
        for d in ("util", "matrices", "matrixio", "maxwell"):
            for c in sorted(glob.glob(os.path.join(REPO, "src", d, "*.c"))):
                b = os.path.basename(c)
                if b == "sphere-quad.c":
                    continue
                jobs.append((c, [], d + "_" + b[:-2]))
        return jobs

    def mpb_jobs(self, defs=()):
        ver = "mpb"
        d = ["-DHAVE_CTL_HOOKS=1", "-DHAVE_CTL_EXPORT_HOOK=1",
             '-DCTL_SCM="%s/base/ctl.scm"' % LIBCTL, '-DINCLUDE_SCM="%s/base/include.scm"' % LIBCTL,
             '-DSPEC_SCM="%s/mpb.scm"' % self.gen, '-DVERSION_STRING="%s"' % ver,
             "-I" + os.path.join(REPO, "mpb")] + self.guile_inc + list(defs)
        jobs = [(c, d, "mpb_" + os.path.basename(c)[:-2]) for c in sorted(glob.glob(os.path.join(REPO, "mpb", "*.c")))
                if os.path.basename(c) not in ("epsilon.c", "mu.c")]
        jobs += [(os.path.join(self.gen, n), d, "mpbg_" + n[:-2]) for n in ("main.c", "geom.c", "ctl-io.c")]
        return jobs

    def _link(self, out, objs, args):
        key = _h(*(objs + args))
        cached = os.path.join(self.obj, "%s-%s" % (os.path.basename(out), key))
        if not os.path.exists(cached):
            tmp = cached + ".%d" % os.getpid()
            _run([self.cc] + self.ldflags + objs + args + ["-o", tmp])
            os.rename(tmp, cached)
        return cached

    def _lock(self):
        f = open(os.path.join(self.dir, ".lock"), "w")
        fcntl.flock(f, fcntl.LOCK_EX)
        return f

    def mpb(self):
        with self._lock():
            self.generate(mpb=True)
            objs = self.compile(self.lib_jobs() + self.mpb_jobs())
            return self._link("mpb", objs, self.guile_libs + self.libs)

    def data(self):
        with self._lock():
            self.generate()
            objs = self.compile(self.lib_jobs() + [(os.path.join(REPO, "utils/mpb-data.c"), [], "mpbdata")])
            return self._link("mpb-data", objs, ["-lctlgeom"] + self.libs)

    def driver(self):
        """shared library with the package's libraries and /verif/harness/drv.c"""
        with self._lock():
            self.generate()
            objs = self.compile(self.lib_jobs() + [(os.path.join(VERIF, "harness/drv.c"), [], "drv")])
            return self._link("libdrv.so", objs, ["-shared"] + self.libs)


def asan_preload():
    return subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()


def san_env(extra=None):
    e = dict(os.environ)
    e.update(LC_ALL="C.UTF-8", HOME="/root", GUILE_AUTO_COMPILE="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=66:"
                          "allocator_may_return_null=0:detect_odr_violation=0:handle_segv=1:print_legend=0",
             UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=67",
             OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_plm="isolated", OMPI_MCA_mpi_yield_when_idle="1",
             OMPI_MCA_btl="self,vader", PRTE_MCA_plm="isolated")
    if extra:
        e.update(extra)
    return e


if __name__ == "__main__":
    import time
    for a in sys.argv[1:]:
        cfg, what = a.split(":")
        t = time.time()
        print(cfg, what, getattr(Flavour(cfg), what)(), "%.1fs" % (time.time() - t))
