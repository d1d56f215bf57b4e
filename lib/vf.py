"""Check framework: build, run cases in (sanitized) worker processes, judge, write evidence."""
import json, os, re, subprocess, sys, time, tempfile, shutil, importlib, signal, hashlib, threading
from concurrent.futures import ThreadPoolExecutor

LIB = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(LIB)
sys.path.insert(0, LIB)
sys.path.insert(0, os.path.join(VERIF, "checks"))
import vbuild

PY = "python3-vt"
ASAN_OPT = ("detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=66:detect_odr_violation=0:"
            "max_malloc_fill_size=1000000000:malloc_fill_byte=255:allocator_may_return_null=1:print_legend=0:"
            "handle_abort=0:quarantine_size_mb=64:redzone=64")


def env(extra=None, preload=False):
    e = vbuild.san_env()
    e["ASAN_OPTIONS"] = ASAN_OPT
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=67"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["MKL_NUM_THREADS"] = "1"
    if preload:
        e["LD_PRELOAD"] = vbuild.asan_preload()
    if extra:
        e.update(extra)
    return e


class Crash(Exception):
    """the program under test died in a way no input may cause"""

    def __init__(self, key, msg):
        Exception.__init__(self, key)
        self.key, self.msg = key, msg


class Hang(Exception):
    pass


class Inconclusive(Exception):
    pass


def classify(text, rc):
    """-> (key, excerpt) when `text`/`rc` show a memory error, undefined behaviour or a fatal signal, else None"""
    m = re.search(r"ERROR: AddressSanitizer:? ([^\n]*)", text)
    if m:
        kind = m.group(1).split()[0]
        if kind == "attempting":
            kind = "bad-free" if "free" in m.group(1) else m.group(1).split()[1]
        fr = re.search(r"#\d+ 0x\w+ in (\w+) [^\n]*/(?:src|mpb|utils|gen)/[^\n]*", text[m.start():])
        return "asan:%s:%s" % (kind.rstrip(":"), fr.group(1) if fr else "?"), text[m.start():m.start() + 1500]
    m = re.search(r"(\S+?):\d+:\d+: runtime error: ([^\n]*)", text)
    if m:
        what = re.sub(r"-?\d[\d.e+-]*|0x\w+", "N", m.group(2))[:60]
        return "ubsan:%s:%s" % (os.path.basename(m.group(1)), what), text[m.start():m.start() + 1200]
    if rc is not None and rc < 0 and -rc not in (signal.SIGALRM,):
        return "signal:%d" % -rc, text[-1500:]
    if rc in (134, 136, 139, 135, 132):
        return "signal:%d" % (rc - 128), text[-1500:]
    return None


class Run:
    def __init__(self, rc, out, d):
        self.rc, self.out, self.dir = rc, out, d

    def why(self):
        """the error messages of a failed run"""
        x = re.findall(r"^.*(?:CHECK failure|ERROR|runtime error|In procedure|HDF5-DIAG|MPI_ERR|no value|Abort).*$", self.out, re.M)
        return " exit %s: %s" % (self.rc, " | ".join(y[:200] for y in x[:6]) or self.out.split("\nVP ")[0][-300:])

    def vp(self):
        """values printed by the (vp tag value) helper: list of (tag, value)"""
        return [(t, parse_sexp(v)) for t, v in re.findall(r"^VP (\S+) (.*)$", self.out, re.M)]

    def vpd(self):
        d = {}
        for t, v in self.vp():
            d.setdefault(t, []).append(v)
        return d


def tok(s):
    return re.findall(r'#\(|\(|\)|"(?:[^"\\]|\\.)*"|[^\s()]+', s)


def num(a):
    a0 = a
    if a.startswith("#e") or a.startswith("#i"):
        a = a[2:]
    m = re.match(r"^([-+]?(?:[\d.]+(?:e[-+]?\d+)?|inf\.0|nan\.0|\d+/\d+))?(?:([-+](?:[\d.]+(?:e[-+]?\d+)?|inf\.0|nan\.0|\d+/\d+)?)i)?$", a)
    if not m or (m.group(1) is None and m.group(2) is None):
        return a0

    def f(x):
        x = x.replace("inf.0", "inf").replace("nan.0", "nan")
        if "/" in x:
            p, q = x.split("/")
            return int(p) / int(q)
        if re.match(r"^[-+]?\d+$", x):
            return int(x)
        return float(x)
    re_ = f(m.group(1)) if m.group(1) is not None else 0
    if m.group(2) is not None:
        im = m.group(2)
        return complex(re_, f(im if len(im) > 1 else im + "1"))
    return re_


def parse_sexp(s):
    stack = [[]]
    for t in tok(s):
        if t in ("(", "#("):
            stack.append([])
        elif t == ")":
            x = stack.pop()
            stack[-1].append(x)
        elif t == ".":
            pass   # (a . b) reads as [a, b], (a . (b c)) as [a, b, c]
        elif t == "#t":
            stack[-1].append(True)
        elif t == "#f":
            stack[-1].append(False)
        elif t[0] == '"':
            stack[-1].append(t[1:-1])
        else:
            stack[-1].append(num(t))
    return stack[0][0] if stack[0] else None


PRELUDE = """
(define (vp tag . vals) (display "VP ") (display tag) (display " ")
  (write (if (= (length vals) 1) (car vals) vals)) (newline))
"""

# in parallel every process records its own values; those of process 0 stand for the run
MPI_PRELUDE = """
(define vp-port (open-file (string-append "vp." (getenv "OMPI_COMM_WORLD_RANK")) "w"))
(define (vp tag . vals) (display "VP " vp-port) (display tag vp-port) (display " " vp-port)
  (write (if (= (length vals) 1) (car vals) vals) vp-port) (newline vp-port) (force-output vp-port))
"""


class Ctx:
    """given to a check's run(): counters, failures and access to the built programs"""

    def __init__(self, exes, seed, tier):
        self.exes, self.seed, self.tier = exes, seed, tier
        self.fail, self.count, self.sig, self.note = [], {}, [], None
        self.libs = {}
        self.tmp = None
        self.patience = 1   # 2 when a case that hung is run again

    def bad(self, key, msg):
        self.fail.append([key, str(msg)[:2000]])

    def n(self, k, v=1):
        self.count[k] = self.count.get(k, 0) + int(v)

    def seen(self, s):
        self.sig.append(s if isinstance(s, str) else json.dumps(s, default=str))

    def lib(self, cfg):
        import drv
        if cfg not in self.libs:
            self.libs[cfg] = drv.Lib(self.exes["%s:driver" % cfg])
        return self.libs[cfg]

    def dir(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix="vf-", dir=os.environ.get("VERIF_TMP", "/tmp"))
        return self.tmp

    def cleanup(self):
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None

    def exec(self, cmd, cwd, timeout=None, extra_env=None, crash=True):
        timeout = (timeout or (150 if self.tier == "quick" else 600)) * self.patience
        e = env(extra_env)
        e.pop("LD_PRELOAD", None)
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.communicate()
            raise Hang("no end after %ds: %s" % (timeout, " ".join(cmd)))
        out = out.decode("utf-8", "replace")
        c = classify(out, p.returncode)
        if c and crash:
            raise Crash(*c)
        self.n("program_runs")
        return Run(p.returncode, out, cwd)

    def mpb(self, ctl, cfg="complex", args=(), np_=None, timeout=None, cwd=None, name="in.ctl", crash=True, prelude=True):
        d = cwd or self.dir()
        with open(os.path.join(d, name), "w") as f:
            f.write(((MPI_PRELUDE if np_ else PRELUDE) if prelude else "") + ctl)
        cmd = [self.exes["%s:mpb" % cfg]] + list(args) + [name]
        if np_:
            cmd = ["mpirun", "--oversubscribe", "--bind-to", "none", "-np", str(np_)] + cmd
            for i in range(np_):
                p = os.path.join(d, "vp.%d" % i)
                if os.path.exists(p):
                    os.remove(p)
        R = self.exec(cmd, d, timeout, crash=crash)
        if np_:
            R.ranks = []
            for i in range(np_):
                p = os.path.join(d, "vp.%d" % i)
                R.ranks.append(open(p, errors="replace").read() if os.path.exists(p) else "")
            R.out += "\n" + R.ranks[0]
        return R

    def data(self, args, cwd, timeout=120, crash=True):
        return self.exec([self.exes["complex:data"]] + list(args), cwd, timeout, crash=crash)


# ---------------------------------------------------------------------------------------------- worker side
def worker_main(pid, casefile, exefile, outfile):
    mod = importlib.import_module(pid)
    cases = json.load(open(casefile))
    exes = json.load(open(exefile))
    seed, tier = int(os.environ["VERIF_SEED"]), os.environ["VERIF_TIER"]
    ctx = Ctx(exes, seed, tier)
    hangs = 0
    with open(outfile, "a", buffering=1) as out:
        for c in cases:
            out.write(json.dumps({"begin": c["i"]}) + "\n")
            libs = ctx.libs
            ctx = Ctx(exes, seed, tier)
            ctx.libs = libs
            ctx.patience = c.get("patience", 1)
            if hangs >= 2 and ctx.patience == 1:   # enough to judge by
                out.write(json.dumps({"end": c["i"], "status": "inconclusive", "fail": [], "count": {}, "sig": [], "note": "not run: others hung"}) + "\n")
                continue
            signal.alarm((int(c.get("timeout", 120 if c.get("drv") else 330)) + 30) * ctx.patience * (1 if tier == "quick" else 4))
            status, tc = "ok", time.time()
            try:
                mod.run(c, ctx)
            except Crash as e:
                ctx.bad(e.key, e.msg)
            except Hang as e:
                status = "hang"
                hangs += 1
                ctx.note = str(e)
            except Inconclusive as e:
                status = "inconclusive"
                ctx.note = str(e)
            finally:
                ctx.cleanup()
            signal.alarm(0)
            out.write(json.dumps({"end": c["i"], "status": status, "fail": ctx.fail, "count": ctx.count, "sig": ctx.sig,
                                  "note": ctx.note, "wall": round(time.time() - tc, 1)}, default=str) + "\n")


# ---------------------------------------------------------------------------------------------- parent side
def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def run_group(pid, cases, exes, tmpd, gname, seed, tier):
    """runs cases in one worker at a time, restarting after a crash; returns records"""
    recs, todo, gen = {}, list(cases), 0
    cfg = cases[0].get("drv")
    while todo:
        gen += 1
        base = os.path.join(tmpd, "%s.%d" % (gname, gen))
        json.dump(todo, open(base + ".cases", "w"))
        json.dump(exes, open(base + ".exes", "w"))
        err = open(base + ".err", "wb")
        p = subprocess.Popen([PY, os.path.join(LIB, "vf.py"), "--worker", pid, base + ".cases", base + ".exes", base + ".out"],
                             env=env({"VERIF_SEED": str(seed), "VERIF_TIER": tier, "VERIF_TMP": tmpd}, preload=bool(cfg)),
                             stdout=err, stderr=err, stdin=subprocess.DEVNULL, cwd=tmpd, start_new_session=True)
        p.wait()
        err.close()
        began = None
        if os.path.exists(base + ".out"):
            for line in open(base + ".out"):
                r = json.loads(line)
                if "begin" in r:
                    began = r["begin"]
                else:
                    recs[r["end"]] = r
                    began = None
        if p.returncode == 0 and began is None:
            break
        text = open(base + ".err", errors="replace").read()
        if began is None:
            raise vbuild.BuildError("worker failed (rc %s) outside a case:\n%s" % (p.returncode, text[-3000:]))
        if p.returncode == -signal.SIGALRM:
            recs[began] = {"end": began, "status": "hang", "fail": [], "count": {}, "sig": [], "note": "case watchdog"}
        else:
            c = classify(text, p.returncode)
            if c is None and cfg is None or (c is None and "Traceback" in text):
                raise vbuild.BuildError("harness error in case %s:\n%s" % (began, text[-3000:]))
            if c is None:  # the package stopped the process with an error message
                msg = re.findall(r"(?:CHECK|error|ERROR)[^\n]*", text)
                c = ("stopped:%s" % (msg[-1][:80] if msg else p.returncode), text[-1500:])
            recs[began] = {"end": began, "status": "ok", "fail": [list(c)], "count": {}, "sig": [], "note": None}
        done = set(recs)
        todo = [c for c in todo if c["i"] not in done]
    return recs


def run_cases(pid, cases, exes, tmpd, seed, tier, jobs=8):
    groups = {}
    for c in cases:
        groups.setdefault(c.get("drv") or "", []).append(c)
    units = []
    for g, cs in groups.items():
        cost = sum(c.get("cost", 1) for c in cs)
        total = sum(c.get("cost", 1) for c in cases)
        k = max(1, min(len(cs), round(2 * jobs * cost / total)))
        for j in range(k):
            part = cs[j::k]
            if part:
                units.append(("%s%d" % (g or "exe", j), part))
    recs = {}
    lock = threading.Lock()

    def one(u):
        r = run_group(pid, u[1], exes, tmpd, u[0], seed, tier)
        with lock:
            recs.update(r)
    with ThreadPoolExecutor(jobs) as ex:
        for f in [ex.submit(one, u) for u in units]:
            f.result()
    return recs


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    only = [int(x) for x in argv[argv.index("--case") + 1].split(",")] if "--case" in argv else None
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    t0 = time.time()
    mod = importlib.import_module(pid)
    tmpd = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return _main(pid, tier, seed, replay, only, t0, mod, tmpd, "-v" in argv)
    except vbuild.BuildError as e:
        print("ERROR: %s" % e)
        return 2
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)


def _main(pid, tier, seed, replay, only, t0, mod, tmpd, verbose):
    exes = {}
    for cfg, what in mod.builds(tier):
        exes["%s:%s" % (cfg, what)] = getattr(vbuild.Flavour(cfg), what)()
    tb = time.time() - t0
    if replay:
        rj = json.load(open(replay))
        seed, tier = rj["seed"], rj["tier"]
        cases = [rj["case"]]
    else:
        cases = mod.cases(tier, seed)
        for i, c in enumerate(cases):
            c["i"] = i
        if only is not None:
            cases = [c for c in cases if c["i"] in only]
    recs = run_cases(pid, cases, exes, tmpd, seed, tier, getattr(mod, "JOBS", 8))
    # a case that does not end although cases take seconds is run again, with few others and twice the time, before it counts
    hung = [c for c in cases if recs[c["i"]]["status"] == "hang"]
    if hung and getattr(mod, "HANG_IS_VIOLATION", True):
        again = [dict(c, patience=2) for c in hung[:3]]
        with ThreadPoolExecutor(3) as ex:
            for c, r in zip(again, ex.map(lambda c: run_cases(pid, [c], exes, tempfile.mkdtemp(dir=tmpd), seed, tier, 1)[c["i"]], again)):
                if r["status"] == "hang":
                    r["fail"].append(["hang", r["note"]])
                recs[c["i"]] = r
    known = [k for k in load_known()["findings"] if k["property"] == pid]
    # stops the package documents for its iterative solvers: inconclusive while rare
    tol = getattr(mod, "TOLERATE", None)
    if tol:
        st = [c for c in cases if any(k.startswith("stopped:") and re.search(tol[0], k + m) for k, m in recs[c["i"]]["fail"])]
        if len(st) <= max(1, tol[1] * len(cases) // 250):
            for c in st:
                recs[c["i"]].update(fail=[], status="inconclusive", note="documented stop")
    nviol, hit, out, samples, counts, sigs, inconc = 0, {}, [], [], {}, set(), 0
    rdir = os.path.join(VERIF, "evidence", "replay")
    for c in cases:
        r = recs[c["i"]]
        if r["status"] != "ok":
            inconc += 1
        for k, v in r["count"].items():
            counts[k] = counts.get(k, 0) + v
        sigs.update(r["sig"])
        if len(samples) < 4 and r["status"] == "ok" and r["sig"]:
            samples.append({"case": {k: v for k, v in c.items() if k != "ctl"}, "observed": r["count"], "sig": r["sig"][:3]})
        for key, msg in r["fail"]:
            kf = [k for k in known if k["key"] == key or (k.get("regex") and re.fullmatch(k["regex"], key))]
            if kf:
                hit.setdefault(kf[0]["key"], (kf[0], c, msg))
                continue
            nviol += 1
            os.makedirs(rdir, exist_ok=True)
            p = os.path.join(rdir, "%s-%d-%d.json" % (pid, seed, nviol))
            json.dump({"property": pid, "seed": seed, "tier": tier, "key": key, "message": msg, "case": c}, open(p, "w"), indent=1)
            if nviol <= 10 or verbose:
                out.append("  case %d key=%s: %s" % (c["i"], key, msg.strip()[:700 if not verbose else 4000]))
            if nviol <= 25:
                out.append("VIOLATION property=%s replay=%s" % (pid, p))
    if tier == "quick" or not known:
        pass
    for k in known:
        w = " (observed in this run)" if k["key"] in hit else ""
        print("KNOWN-FINDING: property=%s %s%s" % (pid, k["what"], w))
    for l in out:
        print(l)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": dict({"evaluations": len(cases), "distinct_nontrivial": len(sigs), "rule": mod.RULE, "samples": samples,
                            "inconclusive": inconc, "slowest_case_s": max([recs[c["i"]].get("wall", 0) for c in cases] + [0]), "observed": counts, "known_findings_observed": sorted(hit)}),
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    if not replay and only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    print("%s tier=%s seed=%d cases=%d distinct=%d inconclusive=%d violations=%d build=%.1fs wall=%.1fs %s" %
          (pid, tier, seed, len(cases), len(sigs), inconc, nviol, tb, time.time() - t0, json.dumps(counts)))
    if verbose:
        for c in cases:
            if recs[c["i"]]["status"] != "ok":
                print("inconclusive case", c["i"], recs[c["i"]]["note"])
    if nviol:
        return 1
    if not replay and only is None and (len(sigs) < getattr(mod, "MIN_DISTINCT", 5) or inconc > len(cases) // 4):
        print("ERROR: the run observed too little (distinct=%d, inconclusive=%d of %d)" % (len(sigs), inconc, len(cases)))
        return 3
    return 0


if __name__ == "__main__":
    import vf  # so that the classes above exist once
    if sys.argv[1] == "--worker":
        vf.worker_main(*sys.argv[2:6])
    else:
        sys.exit(vf.main(sys.argv[1:]))
