"""Shared machinery of the checks: build drivers from /repo, run TLC, validate traces, write evidence."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
DRIVERS = os.path.join(VERIF, "drivers")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 1)

BUILD_SETTINGS = """#ifndef EDYN_BUILD_SETTINGS_H
#define EDYN_BUILD_SETTINGS_H
#define EDYN_DISABLE_PROFILING
#endif
"""


class CheckError(Exception):
    """The check itself could not be carried out (never a verdict)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        base = os.path.join(VERIF, ".build")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + "-", dir=base)
        self.inc = os.path.join(self.dir, "include")
        os.makedirs(os.path.join(self.inc, "edyn"))
        with open(os.path.join(self.inc, "edyn", "build_settings.h"), "w") as f:
            f.write(BUILD_SETTINGS)
        self.states = self.transitions = self.traces = 0
        self.samples, self.rejections, self.models = [], [], []
        self.events = {}
        self.exhaustive = None
        self.assumptions = []
        self.notes = {}

    thorough = property(lambda s: s.tier == "thorough")

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def log(self, *a):
        print(f"[{self.prop} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    # ------------------------------------------------------------------ build
    def build(self, name, drivers, repo_sources=(), flags=(), shim=False, cxx="g++", opt="-O1",
              link=(), repo_flags=(), per_file=None, link_sanitize=True):
        """Compile driver(s) from /verif/drivers together with sources of /repo's working tree."""
        if isinstance(drivers, str):
            drivers = [drivers]
        inc = [f"-I{self.inc}", f"-I{REPO}/include", f"-I{DRIVERS}"]
        if shim:
            inc.append(f"-I{VERIF}/shim")
        common = [cxx, "-std=c++17", opt, "-g1", "-w", "-DEDYN_DEBUG", "-ffunction-sections", "-fdata-sections", *inc, *flags]
        jobs = []
        objdir = self.path("obj-" + name)
        os.makedirs(objdir, exist_ok=True)
        for src in drivers:
            jobs.append((os.path.join(DRIVERS, src), os.path.join(objdir, src.replace("/", "_") + ".o"),
                         list((per_file or {}).get(src, []))))
        for src in repo_sources:
            jobs.append((os.path.join(REPO, "src/edyn", src),
                         os.path.join(objdir, "repo_" + src.replace("/", "_") + ".o"),
                         list(repo_flags) + list((per_file or {}).get(src, []))))

        def comp(j):
            src, obj, extra = j
            r = sh(common + extra + ["-c", src, "-o", obj])
            return src, r
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for src, r in ex.map(comp, jobs):
                if r.returncode:
                    raise CheckError(f"cannot compile {src}:\n{r.stdout[-6000:]}")
        exe = self.path(name)
        r = sh([cxx, *[f for f in flags if f.startswith("-fsanitize") and link_sanitize],
                *[j[1] for j in jobs], "-o", exe, "-Wl,--gc-sections", "-lpthread", "-ldl", *link])
        if r.returncode and "undefined reference" in r.stdout:
            # code may have moved between files: add the sources that mention what is missing, then all that compile
            done = {j[0]: j[1] for j in jobs}
            sources = {}
            for d, _, fs in os.walk(os.path.join(REPO, "src/edyn")):
                for f in sorted(fs):
                    if f.endswith(".cpp"):
                        q = os.path.join(d, f)
                        sources[q] = open(q, errors="replace").read()
            extra = []
            for attempt in range(8):
                names = set(re.findall(r"undefined reference to [`'](?:[\w ]+ for )?(?:[\w:]*::)?~?(\w+)", r.stdout))
                last = attempt == 7
                more = [q for q, text in sorted(sources.items()) if q not in done and
                        (last or any(re.search(r"(?m)^\S[^;{}]*\b%s\s*(\(|=|\{|;)" % re.escape(n), text) for n in names))]
                if not more and not last:
                    continue
                rest = [(q, os.path.join(objdir, "x%d_%s.o" % (len(extra) + i, os.path.basename(q))), list(repo_flags)) for i, q in enumerate(more)]
                with cf.ThreadPoolExecutor(NPROC) as ex:
                    for j, (src, rr) in zip(rest, ex.map(comp, rest)):
                        done[j[0]] = j[1]
                        if rr.returncode == 0:
                            extra.append(j[1])
                lib = self.path("all-" + name + ".a")
                if os.path.exists(lib):
                    os.remove(lib)
                if extra:
                    sh(["ar", "rcs", lib, *extra])
                self.log("linked with", len(extra), "further sources:", ", ".join(os.path.basename(q) for q in more))
                r = sh([cxx, *[f for f in flags if f.startswith("-fsanitize") and link_sanitize],
                        *[j[1] for j in jobs], *([lib] if extra else []), "-o", exe, "-Wl,--gc-sections", "-lpthread", "-ldl", *link])
                if r.returncode == 0 or "undefined reference" not in r.stdout:
                    break
        if r.returncode:
            raise CheckError(f"cannot link {name}:\n{r.stdout[-6000:]}")
        return exe

    # ------------------------------------------------------------------ driver
    def drive(self, exe, args, out, timeout=300, env=None):
        """Run a driver that writes ndjson to `out`. An abnormal end becomes one more event of the
        trace, so that the specification (which has no such action) decides about it."""
        e = dict(os.environ)
        e.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1")
        e.setdefault("UBSAN_OPTIONS", "halt_on_error=1:abort_on_error=1:print_stacktrace=0")
        if env:
            e.update(env)
        errf = out + ".err"
        crash = None
        with open(errf, "w") as ef:
            try:
                r = subprocess.run([exe, *map(str, args), out], stdout=ef, stderr=ef, timeout=timeout, env=e,
                                   cwd=self.dir)
                if r.returncode < 0 or r.returncode > 1 or r.returncode == 1:
                    crash = f"exit {r.returncode}"
                if r.returncode == 3:
                    raise CheckError(f"driver {exe} reports a usage error: {open(errf).read()[-2000:]}")
            except subprocess.TimeoutExpired:
                crash = "hang"
        err = open(errf, errors="replace").read()
        i = err.find("ERROR: AddressSanitizer")
        if i >= 0:
            err = err[i:i + 1500]
        if crash:
            self.log("driver ended abnormally:", crash, err[-1500:])
            # drop a partial last line, then append the event
            data = open(out, "rb").read() if os.path.exists(out) else b""
            cut = data.rfind(b"\n") + 1
            with open(out, "wb") as f:
                f.write(data[:cut])
                f.write((json.dumps({"e": "crash", "what": crash, "stderr": err[-300:]}) + "\n").encode())
        return out

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=1, heap="3g", timeout=800, extra=()):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        e = dict(os.environ)
        if env:
            e.update({k: str(v) for k, v in env.items()})
        gc = "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC"
        cmd = ["java", gc, f"-Xmx{heap}", "-Xss16m", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
               "-noGenerateSpecTE", "-metadir", meta, "-config", cfg or module + ".cfg", *extra, module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC timed out on {module}")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        return r.returncode, r.stdout, gen, dist

    def model_check(self, module, cfg=None, env=None, workers=NPROC, heap="8g", timeout=800, extra=()):
        """Exhaustive check of the specification itself."""
        rc, out, gen, dist = self.tlc(module, cfg, env, workers, heap, timeout, extra)
        if rc != 0:
            raise CheckError(f"model checking of {module}/{cfg} failed (rc {rc}):\n{out[-4000:]}")
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "config": cfg or module + ".cfg", "states": dist, "transitions": gen})
        self.log(f"model {cfg or module}: {dist} distinct states, {gen} transitions")
        return out

    def generate(self, module, cfg, name, env=None, timeout=600, heap="4g", expect_min=1, extra=()):
        """Let TLC enumerate behaviours of the specification; each is one line of the returned file."""
        f = self.path(name)
        if os.path.exists(f):
            os.unlink(f)
        ev = dict(env or {})
        ev["GEN_FILE"] = f
        rc, out, gen, dist = self.tlc(module, cfg, ev, 1, heap, timeout, extra)
        if rc != 0 or not os.path.exists(f):
            raise CheckError(f"generation from {module}/{cfg} failed (rc {rc}):\n{out[-4000:]}")
        n = sum(1 for _ in open(f))
        if n < expect_min:
            raise CheckError(f"generation from {module}/{cfg}: only {n} behaviours")
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "config": cfg, "states": dist, "transitions": gen, "behaviours": n})
        self.log(f"generated {n} behaviours from {cfg} ({dist} states)")
        return f

    # ------------------------------------------------------------------ traces
    def _split(self, trace, parts, whole):
        lines = open(trace, errors="replace").read().splitlines()
        if not lines:
            raise CheckError(f"empty trace {trace}")
        starts = [i for i, l in enumerate(lines) if l.startswith('{"e":"reset"')] if whole else list(range(len(lines)))
        if whole and (not starts or starts[0] != 0):
            raise CheckError("trace does not begin with a reset event")
        per = max(1, (len(lines) + parts - 1) // parts)
        chunks, cur = [], 0
        bounds = starts[1:] + [len(lines)]
        begin = 0
        for b in bounds:
            if b - begin >= per:
                chunks.append((begin, b)); begin = b
        if begin < len(lines):
            chunks.append((begin, len(lines)))
        return lines, chunks

    def distinct(self, traces, out):
        """Keep one copy of every distinct history of the given traces."""
        seen, runs = set(), 0
        with open(out, "w") as o:
            def flush(h):
                t = "".join(h)
                k = hashlib.sha1(t.encode()).digest()
                if k not in seen:
                    seen.add(k)
                    o.write(t)
            for tr in traces:
                h = []
                for line in open(tr, errors="replace"):
                    if line.startswith('{"e":"reset"') and h:
                        runs += 1
                        flush(h)
                        h = []
                    h.append(line if line.endswith("\n") else line + "\n")
                if h:
                    runs += 1
                    flush(h)
        return runs, len(seen)

    def validate(self, module, trace, cfg=None, whole=True, parts=NPROC, heap="3g", timeout=800,
                 count_key="e", env=None):
        """Check a recorded trace against the specification. Rejections are collected."""
        lines, chunks = self._split(trace, parts, whole)
        nreset = 0
        for l in lines:
            m = re.match(r'\{"%s":"([^"]*)"' % count_key, l)
            if m:
                k = m.group(1)
                self.events[k] = self.events.get(k, 0) + 1
                nreset += k == "reset"
        self.traces += nreset if whole else len(lines)

        def one(c):
            a, b = c
            f = f"{trace}.{a}.part"
            with open(f, "w") as fh:
                fh.write("\n".join(lines[a:b]) + "\n")
            ev = dict(env or {})
            ev["TRACE_FILE"] = f
            for attempt in (1, 2):
                rc, out, gen, dist = self.tlc(module, cfg, ev, 1, heap, timeout)
                if rc == 0:
                    break
                m = re.search(r'<<"REJECT", (\d+)>>', out)
                evalerr = "TLC threw an unexpected exception" in out or "Error: Evaluating" in out or "Error: " in out
                if not m and not evalerr:
                    raise CheckError(f"TLC failed on {module}: rc {rc}\n{out[-3000:]}")
                # a rejection is believed only if it repeats
            os.unlink(f)
            if rc == 0:
                return (a, b, gen, dist, None, "")
            m = re.search(r'<<"REJECT", (\d+)>>', out)
            if not m:
                # invariant violation or evaluation error: position = number of states seen
                if "Parsing or semantic analysis failed" in out or "OutOfMemory" in out or rc in (150, 151, 152, 153):
                    raise CheckError(f"TLC failed on {module}: rc {rc}\n{out[-3000:]}")
                m2 = re.search(r"(\d+) states generated", out)
                pos = a + max(0, dist - 1)
                mi = re.search(r"Error: (.*)", out)
                return (a, b, gen, dist, min(pos, b - 1), (mi.group(1) if mi else "") + " | " + out[-1500:])
            pos = a + int(m.group(1)) - 1
            return (a, b, gen, dist, min(pos, b - 1), "no specification action explains this event")
        bad = False
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for a, b, gen, dist, pos, why in ex.map(one, chunks):
                self.states += dist
                self.transitions += gen
                if pos is not None:
                    bad = True
                    # history up to the failing record
                    s = pos
                    if whole:
                        while s > 0 and not lines[s].startswith('{"e":"reset"'):
                            s -= 1
                    self.rejections.append({"module": module, "trace": os.path.basename(trace), "line": pos + 1,
                                            "why": why, "history": lines[s:pos + 1]})
        if len(self.samples) < 6 and lines:
            k = min(len(lines), 3)
            self.samples += [l[:400] for l in lines[:k]]
        self.log(f"validated {trace.split('/')[-1]} against {module}: {len(lines)} events, "
                 f"{nreset if whole else len(lines)} histories, {'REJECTED' if bad else 'accepted'}")
        return not bad

    # ------------------------------------------------------------------ finish
    def finish(self, level="model_checking"):
        evdir = os.path.join(VERIF, "evidence")
        os.makedirs(evdir, exist_ok=True)
        known = load_known(self.prop)
        unlisted, listed = [], []
        for r in self.rejections:
            k = match_known(known, r)
            (listed if k else unlisted).append((r, k))
        replay = None
        if unlisted:
            replay = os.path.join(evdir, f"{self.prop}-replay.json")
            with open(replay, "w") as f:
                json.dump([r for r, _ in unlisted], f, indent=1)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples[:8], "models": self.models, "events": self.events}
        cov.update(self.notes)
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        with open(os.path.join(evdir, self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
                       "coverage": cov, "assumptions": self.assumptions,
                       "wall_s": round(time.time() - self.t0, 2), "violations": len(unlisted)}, f, indent=1)
        for r, k in listed:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        for r, _ in unlisted[:3]:
            self.log("rejected:", r["why"][:600])
            for l in r["history"][-6:]:
                self.log("   ", l[:600])
        if unlisted:
            print(f"VIOLATION property={self.prop} replay={replay}", flush=True)
            return 1
        self.log("held on everything explored")
        return 0

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def load_known(prop):
    f = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l and not l.startswith("#"):
                k = json.loads(l)
                if k.get("status") == "known" and k["property"] == prop:
                    res.append(k)
    return res


def match_known(known, rej):
    for k in known:
        if k.get("match") and all(any(m in h for h in rej["history"][-1:]) for m in k["match"]):
            return k
    return None


def main(run):
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed)
    try:
        level = run(ctx) or "model_checking"
        rc = ctx.finish(level)
    except CheckError as e:
        print(f"CHECK-ERROR property={prop}: {e}", flush=True)
        rc = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            ctx.cleanup()
    sys.exit(rc)
