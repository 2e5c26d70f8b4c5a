"""Common machinery of the checks: building /repo's sources, running drivers, running TLC.

Every check does the same three things:
  1. run TLC on the design configuration of its specification (spec/MC*.cfg);
  2. build a driver from /repo's working tree, run scripts through the real code and record a log of events;
  3. have TLC judge the log against the specification (spec/*Trace.cfg).
"""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
SHIM = os.path.join(VERIF, "shim")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4


def die_with_parent():
    """Run in a child before exec: a check that is killed leaves nothing running"""
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


class CheckError(Exception):
    """The check itself could not do its job (exit 2)"""


class BuildError(CheckError):
    pass


# --------------------------------------------------------------------------------------------- building

_pkg = {}

PKGS = ("openssl", "libxml++-2.6", "xmlsec1-openssl", "sndfile", "libopenjp2", "xerces-c", "fmt", "libavcodec", "libavutil")


def pkg(*args):
    if args not in _pkg:
        out = subprocess.run(("pkg-config",) + args + PKGS, check=True, capture_output=True, text=True).stdout
        _pkg[args] = [x for x in out.split() if not ("\\" in x or '"' in x)]
    return _pkg[args]


def base_flags():
    """Those of /opt/vp/libdcp/gen.py, which are those of ./waf configure"""
    return ["-D_FILE_OFFSET_BITS=64", "-D__STDC_FORMAT_MACROS", "-std=c++11", "-w", '-DLIBDCP_VERSION="devel"', "-DLIBDCP_LINUX",
            "-DLIBDCP_MPEG2_TRANSCODE", "-DLIBDCP_HAVE_NO_CHECK_TIME=1", "-DLIBDCP_HAVE_WEAKLY_CANONICAL=1",
            "-DLIBDCP_HAVE_COPY_OPTIONS=1", "-DLIBDCP_HAVE_REPLACE_EXTENSION=1", "-DLIBDCP_HAVE_HARU=1",
            "-fPIC", "-pthread", "-g1"] + pkg("--cflags")


LIBS = ["-lboost_filesystem", "-lboost_system", "-lboost_date_time", "-lhpdf", "-ldl"]

_filehash = {}


def file_hash(path):
    try:
        st = os.stat(path)
    except OSError:
        return None
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _filehash:
        with open(path, "rb") as f:
            _filehash[k] = hashlib.sha256(f.read()).hexdigest()
    return _filehash[k]


def compile_one(src, flags):
    """Compile src, reusing an object made from identical inputs (source, every header it read, flags)"""
    cmd = ["g++"] + flags
    key = hashlib.sha256(json.dumps([src, cmd]).encode()).hexdigest()[:24]
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    man = os.path.join(d, key + ".json")
    srchash = file_hash(src)
    if srchash is None:
        raise BuildError("no such source: " + src)
    try:
        with open(man) as f:
            for entry in json.load(f):
                if all(file_hash(p) == h for p, h in entry["deps"].items()) and os.path.exists(entry["obj"]):
                    return entry["obj"]
    except (OSError, ValueError, KeyError):
        pass
    fd, tmp = tempfile.mkstemp(suffix=".o", dir=d)
    os.close(fd)
    dep = tmp + ".d"
    r = subprocess.run(cmd + ["-MD", "-MF", dep, "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        for p in (tmp, dep):
            if os.path.exists(p):
                os.unlink(p)
        raise BuildError("compiling %s:\n%s" % (src, r.stderr[-4000:]))
    with open(dep) as f:
        names = f.read().replace("\\\n", " ").split(":", 1)[1].split()
    os.unlink(dep)
    deps = {}
    for n in names:
        n = os.path.abspath(n)
        if n.startswith((REPO + "/", VERIF + "/")):
            deps[n] = file_hash(n)
    obj = os.path.join(d, key + "-" + hashlib.sha256(json.dumps(deps, sort_keys=True).encode()).hexdigest()[:16] + ".o")
    os.rename(tmp, obj)
    try:
        with open(man) as f:
            entries = json.load(f)
    except (OSError, ValueError):
        entries = []
    entries = ([{"deps": deps, "obj": obj}] + [e for e in entries if e["obj"] != obj])[:6]
    fd, tmp = tempfile.mkstemp(dir=d)
    with os.fdopen(fd, "w") as f:
        json.dump(entries, f)
    os.rename(tmp, man)
    return obj


def core_sources():
    """Every source of the library that includes neither of the missing libraries (as /opt/vp/libdcp/gen.py does)"""
    inc = re.compile(r'^\s*#\s*include\s*(["<])([^">]+)', re.M)
    cache = {}

    def needs(path, stack=()):
        if path in cache:
            return cache[path]
        res = False
        with open(path, encoding="utf-8", errors="replace") as f:
            text = f.read()
        for _, name in inc.findall(text):
            if name.startswith(("libcxml/", "asdcp/")):
                res = True
                break
            for d in (os.path.dirname(path), REPO + "/src"):
                q = os.path.normpath(os.path.join(d, name))
                if os.path.isfile(q):
                    if q not in stack and needs(q, stack + (path,)):
                        res = True
                    break
            if res:
                break
        cache[path] = res
        return res

    with open(REPO + "/src/wscript") as f:
        text = re.sub(r"^\s*#.*$", "", f.read(), flags=re.M)
    out = []
    for n in sorted(set(re.findall(r"\b(\w+)\.cc\b", text))):
        q = f"{REPO}/src/{n}.cc"
        if n != "version" and os.path.exists(q) and not needs(q):
            out.append(n)
    return out


def build(name, driver, repo_sources, flags=(), extra_sources=(), libs=(), shim=True, link_flags=(), driver_flags=(), opt="-O1"):
    """Build harness/<driver> with the named sources of /repo/src.  Returns the executable's path"""
    common = base_flags() + [opt] + list(flags)
    incs = (["-I" + SHIM] if shim else []) + ["-I" + REPO + "/src", "-I" + HARNESS]
    cflags = common + incs
    jobs = []
    drv = driver if isinstance(driver, (list, tuple)) else [driver]
    for d in drv:
        jobs.append((os.path.join(HARNESS, d), cflags + list(driver_flags)))
    for e in extra_sources:
        jobs.append((e if e.startswith("/") else os.path.join(VERIF, e), cflags))
    for s in repo_sources:
        jobs.append((f"{REPO}/src/{s}.cc", cflags))

    def compile_all(jobs):
        with cf.ThreadPoolExecutor(CPUS) as ex:
            return list(ex.map(lambda j: compile_one(*j), jobs))

    objs = compile_all(jobs)

    def link(objs):
        h = hashlib.sha256(json.dumps([objs, list(libs), list(flags), list(link_flags)]).encode()).hexdigest()[:20]
        d = os.path.join(BUILD, "bin")
        os.makedirs(d, exist_ok=True)
        exe = os.path.join(d, name + "-" + h)
        if os.path.exists(exe):
            return exe, None
        fd, tmp = tempfile.mkstemp(dir=d)
        os.close(fd)
        san = [f for f in flags if f.startswith("-fsanitize")]
        r = subprocess.run(["g++", "-pthread"] + san + list(link_flags) + objs + ["-o", tmp, "-Wl,--as-needed"] + LIBS + list(libs) + pkg("--libs"),
                           capture_output=True, text=True)
        if r.returncode != 0:
            if os.path.exists(tmp):
                os.unlink(tmp)
            return None, r.stderr
        os.rename(tmp, exe)
        # keep only a few executables of each name
        mine = sorted((os.path.join(d, f) for f in os.listdir(d) if f.rsplit("-", 1)[0] == name), key=lambda f: -os.stat(f).st_mtime)
        for old in mine[6:]:
            os.unlink(old)
        return exe, None

    exe, err = link(objs)
    if exe is None and "undefined reference" in err:
        # a change may have moved something to a source not listed: take the whole core library
        more = [s for s in core_sources() + ["exceptions", "locale_convert"] if s not in repo_sources]
        jobs2 = [(f"{REPO}/src/{s}.cc", cflags) for s in dict.fromkeys(more)]
        good = []
        with cf.ThreadPoolExecutor(CPUS) as ex:
            futs = [ex.submit(compile_one, *j) for j in jobs2]
            for f in futs:
                try:
                    good.append(f.result())
                except BuildError:
                    pass
        exe, err = link(objs + good)
    if exe is None:
        raise BuildError("linking %s:\n%s" % (name, err[-4000:]))
    return exe


def library_sources():
    """Every source of the library named in its build file"""
    with open(REPO + "/src/wscript") as f:
        text = re.sub(r"^\s*#.*$", "", f.read(), flags=re.M)
    names = sorted(set(re.findall(r"\b(\w+)\.cc\b", text)))
    return [n for n in names if n != "version" and os.path.exists(f"{REPO}/src/{n}.cc")]


def build_full(name, driver, flags=(), opt="-O1"):
    """Build harness/<driver> with the whole library, on the stand-ins for the two missing libraries (shim/)"""
    cflags = base_flags() + [opt] + list(flags) + ["-I" + SHIM, "-I" + REPO + "/src", "-I" + HARNESS]
    jobs = [os.path.join(HARNESS, driver)] + [f"{REPO}/src/{n}.cc" for n in library_sources()]
    jobs += [os.path.join(SHIM, "impl", n) for n in ("asdcp.cc", "cxml.cc")]
    with cf.ThreadPoolExecutor(CPUS) as ex:
        objs = list(ex.map(lambda j: compile_one(j, cflags), jobs))

    def link(kind, objs, args, suffix):
        d = os.path.join(BUILD, "bin")
        os.makedirs(d, exist_ok=True)
        stem = name if kind == "bin" else "libfull"
        out = os.path.join(d, "%s-%s%s" % (stem, hashlib.sha256(json.dumps([objs, args]).encode()).hexdigest()[:20], suffix))
        if os.path.exists(out):
            return out
        fd, tmp = tempfile.mkstemp(dir=d)
        os.close(fd)
        r = subprocess.run(["g++", "-pthread"] + [f for f in flags if f.startswith("-fsanitize")] + args[0] + objs + ["-o", tmp] + args[1] + LIBS + pkg("--libs"),
                           capture_output=True, text=True)
        if r.returncode != 0:
            if os.path.exists(tmp):
                os.unlink(tmp)
            raise BuildError("linking %s:\n%s" % (name, r.stderr[-4000:]))
        os.rename(tmp, out)
        mine = sorted((os.path.join(d, f) for f in os.listdir(d) if f.rsplit("-", 1)[0] == stem and f.endswith(suffix)), key=lambda f: -os.stat(f).st_mtime)
        for old in mine[6:]:
            os.unlink(old)
        return out

    lib = link("lib", objs[1:], [["-shared", "-Wl,-z,defs"], []], ".so")
    return link("bin", [objs[0], lib], [["-Wl,-rpath," + os.path.dirname(lib)], []], "")


# --------------------------------------------------------------------------------------------- TLC

class TLCResult:
    def __init__(self):
        self.generated = 0      # states generated = transitions taken (+ initial states)
        self.distinct = 0
        self.depth = 0
        self.ok = False
        self.prints = []        # values printed by the specification, as text
        self.out = ""
        self.violated = None
        self.coverage = {}


def tlc(module, cfg=None, env=None, workers=1, heap="2g", timeout=800, simulate=None, depth=None, seed=None, extra=(), stack="64m"):
    """Run TLC on spec/<module>.tla.  Raises CheckError for anything but success or a property violation"""
    meta = tempfile.mkdtemp(prefix="tlc.", dir=scratch_root())
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss" + stack, "-Djava.io.tmpdir=" + meta, "-cp", JARS]
    cmd += ["tlc2.TLC", "-config", (cfg or module + ".cfg"), "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-nowarning"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
        if depth:
            cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
    cmd += list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    res = TLCResult()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout, preexec_fn=die_with_parent)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res.out = r.stdout + r.stderr
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
    if m:
        res.generated, res.distinct = int(m.group(1)), int(m.group(2))
    m = re.search(r"The depth of the complete state graph search is (\d+)", r.stdout)
    if m:
        res.depth = int(m.group(1))
    if simulate:
        m = re.findall(r"The number of states generated: (\d+)", r.stdout)
        if m:
            res.generated = int(m[-1])
    res.prints = [x for x in r.stdout.split("\n") if x.startswith('"')]
    if r.returncode == 0:
        res.ok = True
        return res
    m = re.search(r"Error: (Invariant|Action property|Temporal properties|Assumption|The postcondition|Postcondition)[^\n]*", r.stdout)
    if m and r.returncode in (10, 11, 12, 13):
        res.violated = m.group(0)
        return res
    useful = "\n".join(x for x in res.out.split("\n") if not x.startswith(("Parsing file", "Semantic processing", "Linting")))
    raise CheckError("TLC failed on %s (exit %d):\n%s" % (module, r.returncode, useful[:3000]))


_scratch = None


def scratch_root():
    global _scratch
    if _scratch is None:
        base = os.path.join(BUILD, "run")
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="r%d." % os.getpid(), dir=base)
    return _scratch


def cleanup():
    if _scratch and os.path.isdir(_scratch):
        subprocess.run(["chmod", "-R", "u+rwx", _scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(_scratch, ignore_errors=True)


# --------------------------------------------------------------------------------------------- the context of one check

class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.violations = []      # (what, replay path)
        self.known = []
        self.exhaustive = []
        self.quiet = False

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def tmp(self, name):
        return os.path.join(scratch_root(), name)

    # ---- design checks

    def design(self, module, cfg=None, workers=None, **kw):
        """Exhaustive check of the specification itself.  A failure here is an error of the specification"""
        r = tlc(module, cfg, workers=workers or CPUS, heap=kw.pop("heap", "6g"), **kw)
        if not r.ok:
            raise CheckError("the specification %s violates its own properties: %s\n%s" % (module, r.violated, r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.notes.setdefault("design_runs", []).append({"module": module, "config": cfg or module + ".cfg", "distinct_states": r.distinct, "states_generated": r.generated, "depth": r.depth})
        self.log("design %s/%s: %d distinct states, %d generated" % (module, cfg or "", r.distinct, r.generated))
        return r

    def generate(self, module, cfg=None, out=None, **kw):
        """Have TLC write behaviours (ndjson) for the driver to replay: the module writes to IOEnv.OUT"""
        path = out or self.tmp(module + ".gen.ndjson")
        env = dict(kw.pop("env", {}))
        env["OUT"] = path
        r = tlc(module, cfg, env=env, heap=kw.pop("heap", "4g"), **kw)
        if not r.ok:
            raise CheckError("generation with %s failed: %s\n%s" % (module, r.violated, r.out[-2000:]))
        self.states += r.distinct
        self.transitions += r.generated
        with open(path) as f:
            cases = [json.loads(x) for x in f if x.strip()]
        self.log("generated %d cases with %s" % (len(cases), module))
        self.notes.setdefault("generated_from_spec", {})[module + "/" + (cfg or "")] = len(cases)
        return cases

    # ---- conformance

    def drive(self, exe, script, args=(), timeout=120, env=None, cwd=None, tag="drv", prefix=()):
        """Feed the lines of script to the driver.  Returns (list of event lines, failure or None)"""
        p = subprocess.Popen(list(prefix) + [exe] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=dict(os.environ, LC_ALL="C", LIBDCP_RESOURCES=REPO, **(env or {})), cwd=cwd or scratch_root(), start_new_session=True, preexec_fn=die_with_parent)
        try:
            out, err = p.communicate(("\n".join(script) + "\n").encode("utf-8", "surrogateescape"), timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            return [x for x in out.decode("utf-8", "replace").split("\n") if x], "no answer within %d s" % timeout
        lines = [x for x in out.decode("utf-8", "replace").split("\n") if x]
        if p.returncode == 77:
            raise CheckError("driver: " + err.decode("utf-8", "replace")[-2000:])
        if p.returncode != 0:
            return lines, "driver ended with status %d: %s" % (p.returncode, err.decode("utf-8", "replace")[-1500:])
        return lines, None

    def run_scripts(self, exe, scripts, args=(), timeout=200, env=None, jobs=None, cwd=None, prefix=()):
        """Each script is a list of command lines; the driver logs a reset event before each.
        Returns a list of event lists, in order.  A driver that dies is retried script by script, so that the
        script that kills it is identified; such a script gets an event {"op":"died"}."""
        jobs = jobs or CPUS
        chunks = [scripts[i::jobs] for i in range(jobs)]
        results = [None] * len(scripts)
        deaths = []

        def split(lines):
            out = []
            for x in lines:
                if x.startswith('{"op":"reset"'):
                    out.append([])
                elif out:
                    out[-1].append(x)
            return out

        def one(ci):
            todo = list(range(ci, len(scripts), jobs))
            wanted = chunks[ci]
            pos = 0
            while pos < len(wanted):
                if len(deaths) > 12:
                    # enough to report; what has not been run counts as empty
                    for k in range(pos, len(wanted)):
                        results[todo[k]] = []
                    break
                lines, fail = self.drive(exe, [l for s in wanted[pos:] for l in ["reset"] + s], args, timeout, env, cwd, prefix=prefix)
                tr = split(lines)
                if fail is None:
                    if len(tr) != len(wanted) - pos:
                        raise CheckError("driver produced %d traces for %d scripts" % (len(tr), len(wanted) - pos))
                    for k, t in enumerate(tr):
                        results[todo[pos + k]] = t
                    break
                # everything before the last started trace is complete
                done = max(len(tr) - 1, 0)
                for k in range(done):
                    results[todo[pos + k]] = tr[k]
                pos += done
                lines, fail2 = self.drive(exe, ["reset"] + wanted[pos], args, timeout, env, cwd, prefix=prefix)
                t = split(lines)
                t = t[0] if t else []
                if fail2 is not None:
                    deaths.append(pos)
                    # an incomplete last line is dropped
                    t = [x for x in t if is_json(x)]
                    t.append(json.dumps({"op": "died", "why": fail2}))
                results[todo[pos]] = t
                pos += 1

        with cf.ThreadPoolExecutor(jobs) as ex:
            list(ex.map(one, range(min(jobs, len(scripts)))))
        return results

    def judge(self, module, traces, cfg=None, jobs=None, timeout=800, heap="2g", env=None):
        """Validate traces (lists of event lines) with spec/<module>.  Returns {trace index: (event index, clauses)}"""
        jobs = min(jobs or CPUS, max(1, sum(len(t) for t in traces) // 200 + 1))
        order = list(range(len(traces)))
        # balance by number of bytes
        load = [0] * jobs
        parts = [[] for _ in range(jobs)]
        for i in sorted(order, key=lambda i: -sum(map(len, traces[i]))):
            k = load.index(min(load))
            parts[k].append(i)
            load[k] += sum(map(len, traces[i])) + 50

        rejected = {}

        def one(k):
            path = self.tmp("%s.%d.%d.ndjson" % (module, os.getpid(), k) + str(time.time_ns()))
            where = []
            died = {}
            with open(path, "w") as f:
                for i in parts[k]:
                    f.write('{"op":"reset"}\n')
                    where.append((i, -1))
                    for j, x in enumerate(traces[i]):
                        if x.startswith('{"op": "died"'):
                            died[i] = (j, "the code under test died: " + json.loads(x)["why"][-600:])
                        else:
                            f.write(x + "\n")
                            where.append((i, j))
            e = dict(env or {})
            e["TRACE"] = path
            r = tlc(module, cfg, env=e, heap=heap, timeout=timeout)
            if not r.ok:
                raise CheckError("trace validation with %s did not run to the end: %s\n%s" % (module, r.violated, r.out[-3000:]))
            bad = dict(died)
            for p in r.prints:
                m = re.match(r'"REJECT (\d+) (.*)"$', p)
                if m:
                    i, j = where[int(m.group(1)) - 1]
                    bad.setdefault(i, (j, m.group(2)))
            if r.out.count("REJECT ") > len([p for p in r.prints if p.startswith('"REJECT ')]):
                raise CheckError("unparsed rejection in output of %s:\n%s" % (module, r.out[-2000:]))
            os.unlink(path)
            return bad, r

        with cf.ThreadPoolExecutor(jobs) as ex:
            for bad, r in ex.map(one, range(jobs)):
                rejected.update(bad)
                self.states += r.distinct
                self.transitions += r.generated
        return rejected

    def conform(self, exe, module, scripts, cfg=None, args=(), timeout=200, env=None, known=None, what="", max_report=1, jobs=None, cwd=None,
                heap="2g", judge_env=None, samples=2, prefix=(), post=None):
        """Run scripts through the driver, judge the traces, confirm rejections by a second execution"""
        t0 = time.time()
        traces = self.run_scripts(exe, scripts, args, timeout, env, jobs, cwd, prefix)
        if post:
            traces = [post(t) for t in traces]
        t1 = time.time()
        rej = self.judge(module, traces, cfg, heap=heap, env=judge_env)
        nev = sum(len(t) for t in traces)
        self.events += nev
        self.traces += len(traces)
        self.log("%s: %d traces, %d events, %d rejected (run %.1fs, judge %.1fs)" % (what or module, len(traces), nev, len(rej), t1 - t0, time.time() - t1))
        by = self.notes.setdefault("events_by_operation", {})
        for t in traces:
            for x in t:
                m = re.match(r'\{"op": ?"([^"]+)"', x)
                if m:
                    by[m.group(1)] = by.get(m.group(1), 0) + 1
        pick = sorted(range(len(traces)), key=lambda i: (i * 7919) % max(1, len(traces)))[:samples]
        for i in pick:
            self.samples.append({"trace_spec": module, "script": [s[:300] for s in scripts[i][:12]], "events": [shorten(x) for x in traces[i][:6]]})
        if not rej:
            return traces, {}
        idx = sorted(rej)
        if not known:
            idx = idx[:40]
        # confirm on a fresh execution
        again = self.run_scripts(exe, [scripts[i] for i in idx], args, timeout, env, jobs, cwd, prefix)
        if post:
            again = [post(t) for t in again]
        rej2 = self.judge(module, again, cfg, heap=heap, env=judge_env)
        confirmed = {}
        for k, i in enumerate(idx):
            if k in rej2:
                j, clauses = rej2[k]
                ev = again[k][j] if 0 <= j < len(again[k]) else "{}"
                confirmed[i] = (j, clauses, ev)
            else:
                self.log("rejection of trace %d was not repeated; ignored: %s" % (i, rej[i]))
        reported = 0
        for i, (j, clauses, ev) in sorted(confirmed.items(), key=lambda x: sum(map(len, scripts[x[0]]))):
            key = known(scripts[i], j, ev, clauses) if known else None
            if key and key in known_findings(self.prop):
                if key not in self.known:
                    self.known.append(key)
                continue
            if reported < max_report and len(self.violations) < 3:
                self.violation(clauses, {"property": self.prop, "trace_spec": module, "script": scripts[i], "failed_event_index": j,
                                         "failed_event": json.loads(ev) if is_json(ev) else ev, "clauses": clauses,
                                         "driver": os.path.basename(exe), "what": what})
            reported += 1
        if reported > max_report:
            self.log("... and %d more" % (reported - max_report))
        return traces, confirmed

    def violation(self, what, replay):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump(replay, f, indent=1)
        self.violations.append((what, path))
        self.log("rejected:", what, shorten(json.dumps(replay.get("failed_event")), 300))

    def finish(self, level, rule=None, extra=None):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "samples": self.samples[:8]}
        cov.update(self.notes)
        if extra:
            cov.update(extra)
        if rule:
            cov["rule"] = rule
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        fd, tmp = tempfile.mkstemp(dir=os.path.dirname(path))
        with os.fdopen(fd, "w") as f:
            json.dump(ev, f, indent=1)
        os.chmod(tmp, 0o644)
        os.rename(tmp, path)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known_findings(self.prop)[k]))
        for what, replay in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
        return 1 if self.violations else 0


def is_json(x):
    try:
        json.loads(x)
        return True
    except ValueError:
        return False


def shorten(x, n=400):
    return x if len(x) <= n else x[:n] + "..."


_known = None


def known_findings(prop):
    """{key: description} from known-findings.txt; lines `KNOWN property=<id> key=<key> <what fails>`"""
    global _known
    if _known is None:
        _known = {}
        path = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    m = re.match(r"KNOWN property=(\S+) key=(\S+) (.*)", line)
                    if m:
                        _known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return _known.get(prop, {})


def hexs(s):
    """Text for a driver: '-' for empty, otherwise hex"""
    if isinstance(s, str):
        s = s.encode("utf-8", "surrogateescape")
    return s.hex() or "-"
