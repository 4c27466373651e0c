"""Common machinery of the checks: build, run drivers, run TLC, report."""
import json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
os.environ["VERIF_BUILD"] = BUILD
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The machinery itself failed (neither held nor violated)."""


class Violation:
    def __init__(self, what, files=()):
        self.what, self.files = what, list(files)


def opval(v):
    """The text of a value of an operation: lists with commas, lists of lists with semicolons, '-' empty list, 'e' empty row."""
    if isinstance(v, bool):
        return "1" if v else "0"
    if isinstance(v, list):
        if not v:
            return "-"
        if isinstance(v[0], list):
            return ";".join("e" if not x else ",".join(str(y) for y in x) for x in v)
        return ",".join(str(x) for x in v)
    return str(v)


def opline(op, echo=False):
    """An operation record of a generated behaviour as the line a driver reads (echo: with the record itself for the trace)."""
    if echo:
        return opline(op) + " json=" + json.dumps(op, separators=(",", ":"))
    return " ".join([op["op"]] + ["%s=%s" % (k, opval(v)) for k, v in op.items() if k != "op"])


def sh(cmd, timeout=None, cwd=None, env=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=cwd, env=env, errors="replace")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.work = os.path.join(BUILD, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        shutil.rmtree(os.path.join(VERIF, "replay", prop), ignore_errors=True)
        self.states = self.transitions = self.traces = self.lines = 0
        self.samples, self.notes, self.violations, self.known = [], {}, [], []
        self.t0 = time.time()

    # ---------------------------------------------------------------- build
    def java(self):
        cls = os.path.join(BUILD, "classes")
        src = os.path.join(VERIF, "java/BigRat.java")
        tgt = os.path.join(cls, "BigRat.class")
        if not os.path.exists(tgt) or os.path.getmtime(tgt) < os.path.getmtime(src):
            os.makedirs(cls, exist_ok=True)
            r = sh(["javac", "-cp", JARS, "-d", cls, src])
            if r.returncode:
                raise CheckError("javac failed:\n" + r.stdout)
        return cls

    def build(self, *targets):
        env = dict(os.environ)
        r = sh([sys.executable, os.path.join(VERIF, "harness/mkbuild.py")], env=env)
        if r.returncode:
            raise CheckError("mkbuild failed:\n" + r.stdout)
        t = time.time()
        r = sh(["ninja", "-C", BUILD, "-k", "0"] + list(targets), timeout=800)
        if r.returncode:
            raise CheckError("build failed:\n" + r.stdout[-6000:])
        self.notes["build_s"] = round(time.time() - t, 1)

    # ---------------------------------------------------------------- driver
    def drive(self, exe, args, timeout=120, env=None, cwd=None):
        """Run a driver; returns (rc, output). rc is None on timeout, negative on a signal."""
        e = dict(os.environ)
        e.update(env or {})
        cmd = [os.path.join(BUILD, "bin", exe)] + [str(a) for a in args]
        try:
            r = sh(cmd, timeout=timeout, env=e, cwd=cwd or self.work)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired as ex:
            out = ex.stdout or ""
            return None, out if isinstance(out, str) else out.decode(errors="replace")

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, args=(), timeout=600, mem="3g", workers="1", count=True):
        """Run TLC on spec/<module>.tla with spec/<cfg>; returns (rc, output)."""
        cls = self.java()
        meta = tempfile.mkdtemp(prefix="tlc_", dir=self.work)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss16m", "-Xmx" + mem, "-cp", cls + ":" + JARS, "-DTLA-Library=" + SPEC,
               "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", os.path.join(SPEC, cfg)] + list(args) + [os.path.join(SPEC, module + ".tla")]
        try:
            r = sh(cmd, timeout=timeout, env=e, cwd=self.work)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s/%s" % (module, cfg))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
        if m is None:
            m2 = re.search(r"(\d+) states checked", r.stdout.replace(",", ""))
            if m2 and count:
                self.transitions += int(m2.group(1))
        elif count:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
        return r.returncode, r.stdout

    def modelcheck(self, module, cfg, env=None, timeout=600, mem="6g", workers="auto", args=()):
        """Exhaustive model checking of the specification itself; a failure is an error of the machinery."""
        rc, out = self.tlc(module, cfg, env, args, timeout, mem, workers)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("model checking %s/%s failed:\n%s" % (module, cfg, out[-5000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct", out)
        self.notes.setdefault("model_checking", []).append("%s: %s generated, %s distinct" % (cfg, m.group(1), m.group(2)))
        return out

    def generate(self, module, cfg, env=None, num=None, depth=None, timeout=300, args=(), workers="1"):
        """Behaviours from the specification: each PrintT'd JSON string after the marker GEN."""
        a = list(args)
        if num is not None:
            a += ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)]
        rc, out = self.tlc(module, cfg, env, a, timeout, workers=workers)
        if rc != 0:
            raise CheckError("generation %s/%s failed:\n%s" % (module, cfg, out[-4000:]))
        res = []
        for line in out.splitlines():
            if line.startswith("<<\"GEN\", "):
                res.append(json.loads(json.loads(line[len("<<\"GEN\", "):].rstrip()[:-2])))
        if not res:
            raise CheckError("generation %s/%s produced nothing:\n%s" % (module, cfg, out[-3000:]))
        return res

    def validate(self, module, cfg, trace, env=None, timeout=600, mem="3g"):
        """Is the recorded trace a behaviour of the specification?  Returns None or a description."""
        n = sum(1 for _ in open(trace))
        if n == 0:
            return "empty trace (the driver recorded nothing)"
        e = dict(env or {})
        e["TRACE"] = trace
        e.setdefault("PROP", self.prop)
        rc, out = self.tlc(module, cfg, e, (), timeout, mem)
        bad = [l for l in out.splitlines() if l.startswith("<<\"BAD\"") or l.startswith("\"BAD")]
        ck = [l for l in out.splitlines() if l.startswith("<<\"CK\"")]
        bad = (sorted(set(ck[-3:])) + bad) if bad else bad
        if rc == 0 and not bad and "No error has been found" in out:
            self.lines += n
            return None
        if bad or "Invariant Accepted is violated" in out or "TraceAccepted" in out:
            return "; ".join(bad[:5])[:1500] or "trace rejected: " + out[-1500:]
        m = re.search(r"(?s)(Error: .*?)(?:\nError: The behavior up to|\nError: The error occurred)", out)
        d = re.search(r"The depth of the complete state graph search is (\d+)", out)
        if d and m and ("Attempted to" in m.group(1) or "RuntimeException" in out or "Exception" in m.group(1) or "ArithmeticException" in out):
            # a recorded value the specification cannot even evaluate (not a number where one is required)
            return "%s; event %s cannot be evaluated: %s" % ("; ".join(ck[-3:]), d.group(1), m.group(1)[:600])
        raise CheckError("trace validation %s failed:\n%s" % (module, out[-5000:]))

    def conform(self, exe, jobs, module, cfg, timeout=120, tlc_timeout=600, env=None, drv_env=None, complete=True, repeats=2):
        """Each job: (name, driver args with {out} for the trace path). Run the driver, validate its trace;
        a rejection (or crash, or hang) is reported only if it repeats."""
        def one(job):
            name, args = job

            def attempt(k):
                tr = os.path.join(self.work, "%s.%d.ndjson" % (name, k))
                rc, out = self.drive(exe, [tr if a == "{out}" else a for a in args], timeout, drv_env)
                if rc is None:
                    return "the run did not end within %ds" % timeout, tr
                if rc < 0 or rc in (134, 136, 139):
                    return "the run crashed (exit %s) %s" % (rc, out[-500:].strip()), tr
                if rc != 0:
                    raise CheckError("driver %s %s failed (%s):\n%s" % (exe, name, rc, out[-3000:]))
                if not os.path.exists(tr):
                    raise CheckError("driver %s %s wrote no trace" % (exe, name))
                v = self.validate(module, cfg, tr, env, tlc_timeout)
                return v, tr
            v, tr = attempt(0)
            if v is None:
                return name, None, tr, args
            for k in range(1, repeats + 1):
                v2, tr2 = attempt(k)
                if v2 is not None:
                    return name, v2, tr2, args
            raise CheckError("a rejection of %s did not repeat: %s" % (name, v))
        with concurrent.futures.ThreadPoolExecutor(max_workers=max(2, NCPU)) as ex:
            for name, v, tr, args in ex.map(one, jobs):
                if v is None:
                    self.traces += 1
                    if len(self.samples) < 3:
                        with open(tr) as f:
                            self.samples.append({"trace": name, "first_lines": [l.strip()[:400] for l in list(f)[1:3]]})
                else:
                    files = [tr] + [a for a in args if isinstance(a, str) and os.path.isfile(a)]
                    self.violation("%s: %s" % (name, v), files, exe, args)

    def standard(self, exe, gen, trace, num, depth, thorough=20, offset=0, cfg=None, drv_env=None, env=None, group=None, genenv=None, echo=False):
        """Histories generated from the specification, run on the real code, their traces validated."""
        self.build(exe)
        self.seed += offset
        hs = self.generate(gen, (cfg or gen) + ".cfg", genenv, num=num if self.quick else thorough * num, depth=depth)
        self.seed -= offset
        k = min(len(hs), group or (8 if self.quick else 64))
        jobs = []
        for j in range(k):
            lines = []
            for h in hs[j::k]:
                lines += [opline(o, echo) for o in h]
            jobs.append(("%s%d" % (exe[0], j), [self.opsfile("%s_%d.ops" % (exe, j), lines), "{out}"]))
        self.notes["histories_" + exe] = len(hs)
        self.conform(exe, jobs, trace, trace + ".cfg", env=env, drv_env=dict({"MALLOC_PERTURB_": "1"}, **(drv_env or {})))

    # ---------------------------------------------------------------- report
    def violation(self, what, files=(), exe=None, args=None):
        d = os.path.join(VERIF, "replay", self.prop)
        os.makedirs(d, exist_ok=True)
        k = len(self.violations)
        p = os.path.join(d, "%d.txt" % k)
        with open(p, "w") as f:
            f.write(what + "\n")
            if exe:
                f.write("driver: %s %s\n" % (exe, " ".join(str(a) for a in args)))
        for src in files:
            if os.path.exists(src):
                shutil.copy(src, os.path.join(d, "%d.%s" % (k, os.path.basename(src))))
        self.violations.append((what, os.path.relpath(p, VERIF)))

    def finding(self, key):
        """The text of a known finding of this property, None when it is not listed."""
        for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == self.prop and m.group(2) == key:
                return m.group(3).strip()
        return None

    def known_case(self, key, exe, name, lines, module, cfg, env=None, drv_env=None):
        """Run the history of a known finding: report it as such when it still fails (and only it is listed)."""
        tr = os.path.join(self.work, name + ".ndjson")
        rc, out = self.drive(exe, [self.opsfile(name + ".ops", lines), tr], env=drv_env)
        v = "the run failed (%s)" % rc if rc != 0 else self.validate(module, cfg, tr, env)
        if v is None:
            return
        text = self.finding(key)
        if text:
            self.known.append("%s: %s" % (key, text))
        else:
            self.violation("%s: %s" % (name, v), [tr], exe, [name])

    def opsfile(self, name, lines):
        p = os.path.join(self.work, name)
        with open(p, "w") as f:
            f.write("\n".join(lines) + "\n")
        return p

    def finish(self, level, assumptions=()):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "trace_events_validated": self.lines, "samples": self.samples}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for what, path in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + what[:1200])
        print("%s %s: %s; %d traces, %d events validated, %d states, %.1fs" % (
            self.prop, self.tier, "VIOLATED" if self.violations else "held", self.traces, self.lines, self.states, time.time() - self.t0))
        return 1 if self.violations else 0
