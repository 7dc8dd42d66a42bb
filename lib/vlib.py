"""Shared machinery of the checks: build from /repo's working tree, run instrumented
harnesses, collect what their monitors observed, decide, write evidence.

Outcome of a check: exit 0 (held on everything observed), exit 1 with VIOLATION lines,
exit 2 (the check itself failed: nothing can be said).
"""
import concurrent.futures as cf
import hashlib
import itertools
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "pairinteraction")
BUILD = os.path.join(VERIF, "build")
REPLAY = os.path.join(VERIF, "replays")

HEAVY = {
    "hm": ["Hamiltonianmatrix.cpp"],
    "sys": ["SystemBase.cpp", "SystemOne.cpp", "SystemTwo.cpp"],
    "backend": ["HamiltonianOne.cpp", "HamiltonianTwo.cpp", "Interface.cpp"],
}
ALL_HEAVY = {f for v in HEAVY.values() for f in v} | {"main.cpp"}

BASE = ["-std=c++17", "-DWITH_GSL", "-DFMT_HEADER_ONLY=1", "-isystem", "/usr/include/eigen3",
        "-fno-omit-frame-pointer", "-w"]
LAPACK = ["-DEIGEN_USE_BLAS", "-DEIGEN_USE_LAPACKE", "-Dlapack_complex_double=std::complex<double>",
          "-Dlapack_complex_float=std::complex<float>"]
FLAVOURS = {
    # name: (compiler, compile flags, link flags)
    "plain": ("g++", ["-O1", "-fopenmp", "-D_GLIBCXX_ASSERTIONS"] + LAPACK, ["-fopenmp"]),
    "asan": ("g++", ["-O1", "-g1", "-fopenmp", "-fsanitize=address"] + LAPACK,
             ["-fopenmp", "-fsanitize=address"]),
    "ubasan": ("g++", ["-O1", "-g1", "-fopenmp", "-fsanitize=address,undefined",
                       "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"] + LAPACK,
               ["-fopenmp", "-fsanitize=address,undefined"]),
    "tsan": ("g++", ["-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    # OpenMP pragmas are compiled, but the run time is the instrumented stand-in of stubs/gomp
    "tsanomp": ("g++", ["-O1", "-g1", "-fopenmp", "-fsanitize=thread"], ["-fsanitize=thread"]),
}
LIBS = ["-lgsl", "-lgslcblas", "-lsqlite3", "-lpthread", "-ldl"]
LAPACKLIBS = ["-llapacke", "-llapack", "-lopenblas"]


COUNTER = itertools.count()


class HarnessError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(hashlib.sha256(p).digest())
    return h.hexdigest()[:24]


def readb(p):
    with open(p, "rb") as f:
        return f.read()


class Ctx:
    def __init__(self, pid, level="exploration"):
        self.pid = pid
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        self.t0 = time.time()
        self.violations = []  # (key, msg, replay dict)
        self.evaluations = 0
        self.distinct = set()
        self.distinct_n = 0
        self.samples = []
        self.counters = {}
        self.notes = []
        self.hangs = 0
        os.makedirs(BUILD, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix=f"vf_{pid}_")
        self._gen = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 10) if self.thorough else quick

    # ------------------------------------------------------------------ build
    def gendir(self):
        """version.hpp and EmbeddedDatabase.hpp as CMake would configure them."""
        if self._gen:
            return self._gen
        sql = open(f"{SRC}/databases/quantum_defects.sql").read()
        emb = open(f"{SRC}/EmbeddedDatabase.hpp.in").read().replace("@QUANTUM_DEFECT_DATABASE_CONTENT@", sql)
        cm = open(f"{REPO}/CMakeLists.txt").read()

        def ver(name, default):
            m = re.search(r'set\(%s "([^"]*)"' % name, cm)
            return m.group(1) if m else default

        v = open(f"{SRC}/version.hpp.in").read()
        v = v.replace("@VERSION_SOFTWARE@", "v0.0.0").replace("@VERSION_SETTINGS@", ver("VERSION_SETTINGS", "v18"))
        v = v.replace("@VERSION_CACHE@", ver("VERSION_CACHE", "v18"))
        d = os.path.join(BUILD, "gen-" + sha(emb, v))
        if not os.path.isdir(d):
            t = tempfile.mkdtemp(dir=BUILD)
            open(f"{t}/EmbeddedDatabase.hpp", "w").write(emb)
            open(f"{t}/version.hpp", "w").write(v)
            try:
                os.rename(t, d)
            except OSError:
                shutil.rmtree(t)
        self._gen = d
        return d

    def _headers_hash(self):
        parts = []
        for root, dirs, files in sorted(os.walk(SRC)):
            dirs[:] = sorted(d for d in dirs if d not in ("unit_test", "benchmarks", "databases"))
            for f in sorted(files):
                if not f.endswith((".cpp", ".in", ".i", ".txt")):
                    parts += [f, readb(os.path.join(root, f))]
        for root, _, files in sorted(os.walk(f"{VERIF}/stubs")):
            for f in sorted(files):
                parts += [f, readb(os.path.join(root, f))]
        parts.append(self.gendir())
        return sha(*parts)

    def _compile(self, src, flavour, extra=(), hh=None):
        cc, cflags, _ = FLAVOURS[flavour]
        inc = [f"-I{SRC}", f"-I{self.gendir()}", f"-I{VERIF}/stubs", f"-I{VERIF}/harness"]
        hdr = b"" if src.startswith(SRC) else readb(f"{VERIF}/harness/vh.hpp")
        for f in sorted(os.listdir(f"{VERIF}/harness")) if not src.startswith(SRC) else []:
            if f.endswith(".hpp"):
                hdr += readb(f"{VERIF}/harness/{f}")
        cmd = [cc] + BASE + list(cflags) + list(extra) + inc
        key = sha(" ".join(cmd), src, readb(src), hh or self._headers_hash(), hdr)
        obj = os.path.join(BUILD, "obj", key + ".o")
        if os.path.exists(obj):
            return obj
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = f"{obj}.{os.getpid()}.{next(COUNTER)}.tmp"  # another thread may compile the same
        r = subprocess.run(cmd + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode != 0:
            raise HarnessError(f"compiling {src} ({flavour}) failed:\n{r.stderr[:4000]}")
        os.rename(tmp, obj)
        return obj

    def build(self, harness, flavour="plain", groups=(), extra=(), more=(), name=None, ldextra=(), only=None):
        """Compile the repository's sources (those in only, or the light set plus groups) and a harness;
        return the executable. When symbols are missing the set of sources grows."""
        allsrc = sorted(f for f in os.listdir(SRC) if f.endswith(".cpp"))
        wanted = [f for f in allsrc if f not in ALL_HEAVY]
        # heavy translation units first: they dominate the wall time
        heavy = [f for g in groups for f in HEAVY[g] if f in allsrc]
        hsrc = [harness if os.path.isabs(harness) else f"{VERIF}/harness/{harness}"]
        hsrc += [m if os.path.isabs(m) else f"{VERIF}/harness/{m}" for m in more]
        hh = self._headers_hash()

        def attempt(files):
            with cf.ThreadPoolExecutor(max_workers=8) as ex:
                hs = []
                heavy_first = [ex.submit(self._compile, f"{SRC}/{f}", flavour, extra, hh) for f in files if f in ALL_HEAVY]
                hs = [ex.submit(self._compile, s, flavour, extra, hh) for s in hsrc]
                rest = [ex.submit(self._compile, f"{SRC}/{f}", flavour, extra, hh) for f in files if f not in ALL_HEAVY]
                return [f.result() for f in hs], [f.result() for f in heavy_first + rest]

        def link(hobj, robj):
            cc, cflags, lflags = FLAVOURS[flavour]
            key = sha(*(hobj + robj), " ".join(lflags), " ".join(ldextra))
            exe = os.path.join(BUILD, "exe", f"{name or os.path.basename(hsrc[0]).split('.')[0]}-{flavour}-{key[:12]}")
            if os.path.exists(exe):
                return exe, None
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            ar = os.path.join(self.tmp, f"{key}.{next(COUNTER)}.a")
            subprocess.run(["ar", "rcs", ar] + robj, check=True)
            libs = LIBS + (LAPACKLIBS if "-DEIGEN_USE_LAPACKE" in cflags else [])
            tmp = exe + f".{os.getpid()}.{next(COUNTER)}.tmp"
            r = subprocess.run([cc] + lflags + hobj + [ar] + list(ldextra) + libs + ["-o", tmp],
                               capture_output=True, text=True)
            os.unlink(ar)
            if r.returncode != 0:
                return None, r.stderr
            os.rename(tmp, exe)
            return exe, None

        exe = None
        if only is not None:
            try:
                exe, err = link(*attempt([f for f in only if f in allsrc]))
            except HarnessError:
                if any(f in allsrc for f in only):
                    raise
        if exe is None:
            exe, err = link(*attempt(heavy + wanted))
        if exe is None:
            # a helper may live in a translation unit outside the usual set: take everything
            hobj, robj = attempt([f for f in allsrc if f != "main.cpp"])
            exe, err = link(hobj, robj)
            if exe is None:
                raise HarnessError(f"linking {harness} ({flavour}) failed:\n{err[:4000]}")
        return exe

    def build_many(self, specs):
        """specs: list of kwargs dicts for build(); built concurrently."""
        self.gendir()
        with cf.ThreadPoolExecutor(max_workers=max(1, len(specs))) as ex:
            return [f.result() for f in [ex.submit(self.build, **s) for s in specs]]

    # -------------------------------------------------------------------- run
    def run(self, exe, args=(), env=None, timeout=300, label=None, cwd=None, allow_rc=(0,), retry_hang=True, stdin=None):
        """Run a harness; digest its event lines; turn sanitizer reports and crashes into violations."""
        label = label or os.path.basename(exe).split("-")[0]
        wd = cwd or tempfile.mkdtemp(dir=self.tmp)
        log = os.path.join(wd, "san.log")
        evf = os.path.join(wd, "events.jsonl")
        e = dict(os.environ)
        e.update({
            "VERIF_SEED": str(self.seed), "VERIF_TIER": self.tier, "VERIF_EVENTS": evf,
            "VERIF_SCRATCH": wd, "TMPDIR": wd, "OPENBLAS_NUM_THREADS": "1",
            "ASAN_OPTIONS": f"detect_leaks=0:abort_on_error=0:exitcode=99:log_path={log}:detect_stack_use_after_return=1:allocator_may_return_null=1:max_allocation_size_mb=4096",
            "UBSAN_OPTIONS": f"print_stacktrace=1:log_path={log}:exitcode=99",
            "TSAN_OPTIONS": f"halt_on_error=0:exitcode=0:log_path={log}:history_size=5:suppressions={VERIF}/lib/tsan.supp",
        })
        if env:
            e.update({k: str(v) for k, v in env.items()})
            e["ASAN_OPTIONS"] += e.get("VERIF_ASAN", "")
        cmd = [exe] + [str(a) for a in args]
        if "-tsan" in exe:
            cmd = ["setarch", "-R"] + cmd  # fixed address space layout for the race detector
        hung = False
        if not self.thorough:
            timeout = min(timeout, 60 if self.hangs else 170)
        for attempt in range(1 if self.hangs else 2):
            for f in os.listdir(wd):
                if f.startswith("san.log"):
                    os.unlink(os.path.join(wd, f))
            if os.path.exists(evf):
                os.unlink(evf)
            p = subprocess.Popen(cmd, env=e, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                                 start_new_session=True)
            try:
                out, err = p.communicate(timeout=timeout)
                hung = False
                break
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                out, err = p.communicate()
                hung = True
                if not retry_hang:
                    break
        out = out.decode("utf-8", "replace")
        err = err.decode("utf-8", "replace")
        done = False
        viol = 0
        last = None
        if os.path.exists(evf):
            with open(evf, errors="replace") as f:
                for line in f:
                    try:
                        ev = json.loads(line)
                    except ValueError:
                        continue
                    k = ev.get("ev")
                    if k == "violation":
                        viol += 1
                        self.violation(ev["key"], ev.get("msg", ""), {"case": ev.get("case"), "cmd": cmd, "label": label})
                    elif k == "sample":
                        if len(self.samples) < 40:
                            self.samples.append({"from": label, "case": ev.get("case")})
                    elif k == "count":
                        nm = f"{label}.{ev['name']}"
                        old = self.counters.get(nm, 0)
                        self.counters[nm] = max(old, ev["value"]) if ev["name"].startswith("worst") else old + ev["value"]
                    elif k == "case":
                        last = ev.get("case")
                    elif k == "error":
                        raise HarnessError(f"{label}: {ev.get('msg')}")
                    elif k == "done":
                        done = True
                        self.evaluations += ev.get("evaluations", 0)
                        self.distinct_n += ev.get("distinct", 0)
        reports = self._san_reports(wd)
        if not reports and re.search(r"runtime error: |ERROR: AddressSanitizer|WARNING: ThreadSanitizer", err):
            reports = list(dict(parse_san(err)).items())  # the log file was not used
        for key, text in reports:
            self.violation(f"{label}:{key}", text, {"case": last, "cmd": cmd, "label": label, "report": text})
        if hung:
            self.hangs += 1
            self.violation(f"{label}:hang", f"no result within {timeout} s; last case {last}", {"case": last, "cmd": cmd})
        elif p.returncode not in allow_rc and not reports:
            if p.returncode < 0:
                sig = signal.Signals(-p.returncode).name
                if sig == "SIGKILL":
                    raise HarnessError(f"{label}: killed (memory?) {err[-500:]}")
                self.violation(f"{label}:crash:{sig}:{crash_key(err)}", f"{sig}; last case {last}; stderr: {err[-1500:]}", {"case": last, "cmd": cmd})
            else:
                raise HarnessError(f"{label}: exit {p.returncode}\n{out[-1500:]}\n{err[-3000:]}")
        elif not done and not reports and p.returncode in allow_rc and viol == 0:
            raise HarnessError(f"{label}: ended without its closing event\n{err[-2000:]}")
        return p.returncode, out, err

    def run_many(self, jobs, workers=8):
        """jobs: list of kwargs dicts for run(); executed concurrently."""
        with cf.ThreadPoolExecutor(max_workers=workers) as ex:
            return [f.result() for f in [ex.submit(self.run, **j) for j in jobs]]

    def _san_reports(self, wd):
        res = []
        for f in sorted(os.listdir(wd)):
            if not f.startswith("san.log"):
                continue
            txt = open(os.path.join(wd, f), errors="replace").read()
            res += parse_san(txt)
        # deduplicate by key
        d = {}
        for k, t in res:
            d.setdefault(k, t)
        return list(d.items())

    # --------------------------------------------------------------- verdict
    def violation(self, key, msg, replay=None):
        self.violations.append((key, msg, replay or {}))

    def count(self, name, v=1):
        self.counters[name] = self.counters.get(name, 0) + v

    def evaluate(self, distinct_key=None, sample=None):
        self.evaluations += 1
        if distinct_key is not None:
            self.distinct.add(distinct_key)
        if sample is not None and len(self.samples) < 40:
            self.samples.append(sample)

    def finish(self, rule, min_evaluations=1, assumptions=None):
        shutil.rmtree(self.tmp, ignore_errors=True)
        known = load_known(self.pid)
        new, seen = {}, {}
        for key, msg, rp in self.violations:
            (seen if key in known else new).setdefault(key, []).append((msg, rp))
        distinct = self.distinct_n + len(self.distinct)
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {"evaluations": self.evaluations, "distinct_nontrivial": distinct, "rule": rule,
                         "samples": self.samples[:40], "observed": self.counters},
            "violations": len(new),
            "wall_s": round(time.time() - self.t0, 1),
            "assumptions": assumptions or [],
        }
        if new:
            ev["coverage"]["violations_seen"] = [{"key": k, "count": len(v), "message": v[0][0][:1500]} for k, v in new.items()]
        if seen:
            ev["coverage"]["known_findings_seen"] = sorted(seen)
        json.dump(ev, open(f"{VERIF}/evidence/{self.pid}.json", "w"), indent=1)
        for key in sorted(known):
            print(f"KNOWN-FINDING: property={self.pid} {known[key]}")
        if new:
            os.makedirs(REPLAY, exist_ok=True)
            for i, (key, v) in enumerate(sorted(new.items())):
                path = f"{REPLAY}/{self.pid}-{i}.json"
                json.dump({"property": self.pid, "key": key, "message": v[0][0], "seed": self.seed, "tier": self.tier,
                           "replay": v[0][1], "rerun": f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} /verif/check {self.pid}",
                           "occurrences": len(v)}, open(path, "w"), indent=1, default=str)
                print(f"violation {key}: " + " ".join(v[0][0].split())[:300])
                print(f"VIOLATION property={self.pid} replay={path}")
                if i >= 4:
                    break
            return 1
        if self.evaluations < min_evaluations:
            print(f"{self.pid}: only {self.evaluations} evaluations (need {min_evaluations}): inconclusive")
            return 2
        print(f"{self.pid}: held on {self.evaluations} executions ({distinct} distinct non-trivial), "
              f"{ev['wall_s']} s; {json.dumps(self.counters)[:1500]}")
        return 0


def crash_key(err):
    m = re.findall(r"(?:what\(\):\s*|Assertion `)([^\n']{0,80})", err)
    return re.sub(r"[0-9]+|0x[0-9a-f]+", "N", m[-1]).strip() if m else ""


def norm_frame(l):
    m = re.search(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (\S+?):(\d+)", l)
    if not m:
        return None
    fn = m.group(1)
    for _ in range(6):
        fn = re.sub(r"<[^<>]*>", "", fn)
    fn = re.sub(r"\(.*", "", fn).split(" ")[-1][-80:]
    return f"{fn}@{os.path.basename(m.group(2))}"


def parse_san(txt):
    """Split a sanitizer log into (key without line numbers, text) pairs."""
    res = []
    if "ThreadSanitizer" in txt:
        for blk in re.split(r"={18,}", txt):
            m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]+)", blk)
            if not m:
                continue
            kind = m.group(1).strip()
            tops = []
            for part in re.split(r"\n\s*\n", blk):
                fr = [norm_frame(l) for l in part.splitlines() if re.match(r"\s+#\d+", l)]
                fr = [f for f in fr if f and re.search(r"@(?!.*(std_|stl_|bits|basic_string|unique_ptr|shared_ptr|sanitizer|tsan|alloc|atomic|thread|functional|new_|invoke))", f)]
                if re.search(r"(Write|Read|write|read) of size", part) and fr:
                    tops.append(fr[0])
            res.append((f"tsan:{kind}:" + "|".join(sorted(set(tops))), blk.strip()[:3500]))
        return res
    for m in re.finditer(r"ERROR: AddressSanitizer:? ([^\n]*)", txt):
        seg = txt[m.start():m.start() + 4000]
        kind = re.split(r"[ :(]", m.group(1).strip())[0]
        fr = [norm_frame(l) for l in seg.splitlines() if re.match(r"\s+#\d+", l)]
        own = [f for f in fr if f and re.search(r"\.(cpp|hpp)$", f)]
        res.append((f"asan:{kind}:{own[0] if own else (fr[0] if fr and fr[0] else '?')}", seg))
    for m in re.finditer(r"([^\s]+?):(\d+):\d+: runtime error: ([^\n]*)", txt):
        res.append((f"ubsan:{os.path.basename(m.group(1))}:{re.sub(r'[-+]?[0-9][0-9.e+-]*', 'N', m.group(3))[:80]}", txt[m.start():m.start() + 1500]))
    return res


def load_known(pid):
    """KNOWN_FINDINGS.txt: 'finding: property=C01 key=<key> :: what fails' (and 'fixed:' lines, which suppress nothing)."""
    res = {}
    path = f"{VERIF}/KNOWN_FINDINGS.txt"
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\S+) key=(.+?) :: (.*)", l.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res
