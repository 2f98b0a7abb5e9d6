"""Common machinery of the checks: runs TLC, builds harnesses from /repo's
working tree through an overlay, collects violations, writes evidence."""
import atexit, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MODULE = "github.com/cloudflare/cfrpki"


class ToolError(Exception):
    """The check cannot give an answer."""


class Violation:
    def __init__(self, props, what, key=None, case=None):
        self.props, self.what, self.key, self.case = list(props), what, key or what, case


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        os.chmod(self.dir, 0o755)
        atexit.register(shutil.rmtree, self.dir, True)
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.assumptions, self.extra = [], [], [], {}
        self.exhaustive = []
        self._n = 0

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def violate(self, props, what, key=None, case=None):
        self.violations.append(Violation(props, what, key, case))

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, constants, spec="Spec", invariants=(), properties=(), extra=(), seed=None,
            timeout=600, marker=None, workers=8, deadlock=False, files=(), check=True, env=None):
        """Model-checks spec/<module>.tla. Returns (stats, emitted lines, ok, output)."""
        self._n += 1
        d = self.path("tlc%d" % self._n)
        os.makedirs(d)
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "spec", f), d)
        for f in files:
            shutil.copy(f, d)
        cfg = "SPECIFICATION %s\n" % spec
        if constants:
            cfg += "CONSTANTS\n" + "".join("  %s = %s\n" % (k, v) for k, v in constants.items())
        if invariants:
            cfg += "INVARIANTS " + " ".join(invariants) + "\n"
        if properties:
            cfg += "PROPERTIES " + " ".join(properties) + "\n"
        cfg += "CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE")
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write(cfg)
        cmd = ["tlc", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", "M.cfg"]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.setdefault("JAVA_TOOL_OPTIONS", "")
        e["JAVA_TOOL_OPTIONS"] = (e["JAVA_TOOL_OPTIONS"] + " -Djava.io.tmpdir=" + d).strip()
        if env:
            e.update(env)
        outp = os.path.join(d, "out.txt")
        t = time.time()
        with open(outp, "w") as f:
            try:
                r = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=e)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                raise ToolError("TLC timed out on %s" % module)
        emitted, tail, st = [], [], {"states": 0, "transitions": 0}
        with open(outp) as f:
            for l in f:
                if marker and marker in l[:12]:
                    l = l.strip()
                    if l.startswith('"'):
                        l = json.loads(l)
                    emitted.append(l[len(marker):])
                else:
                    tail.append(l)
                    m = re.match(r"(\d+) states generated, (\d+) distinct states found", l)
                    if m:
                        st = {"transitions": int(m.group(1)), "states": int(m.group(2))}
                    m = re.match(r"The number of states generated: (\d+)", l)
                    if m:
                        st = {"transitions": int(m.group(1)), "states": int(m.group(1))}
        ok = rc == 0
        self.states += st["states"]
        self.transitions += st["transitions"]
        self.log("TLC %s: %d states, %d transitions, %d behaviours emitted, %.1fs, rc %d" %
                 (module, st["states"], st["transitions"], len(emitted), time.time() - t, rc))
        shutil.rmtree(os.path.join(d, "meta"), True)
        if check and not ok:
            sys.stdout.write("".join(tail[-60:]))
            raise ToolError("TLC reports an error on %s (rc %d): the specification is broken" % (module, rc))
        return st, emitted, ok, "".join(tail)

    # ----------------------------------------------------------------- Go
    def goenv(self):
        e = dict(os.environ)
        e.update(GOFLAGS="-mod=vendor", GOPROXY="off", GOTOOLCHAIN="local", GO111MODULE="on")
        e.setdefault("HOME", "/root")
        e.setdefault("GOCACHE", os.path.join(e["HOME"], ".cache/go-build"))
        return e

    def overlay(self, mapping):
        """mapping: path in /repo -> path below /verif"""
        self._n += 1
        p = self.path("overlay%d.json" % self._n)
        with open(p, "w") as f:
            json.dump({"Replace": {os.path.join(REPO, k): os.path.join(VERIF, v) for k, v in mapping.items()}}, f)
        return p

    RPKI = {"vh/rpki/der.go": "harness/rpki/der.go", "vh/rpki/world.go": "harness/rpki/world.go", "vh/rpki/judge.go": "harness/rpki/judge.go",
            "vh/gen/gen.go": "harness/gen/gen.go"}

    def gobuild(self, name, mapping=None, pkg=None, flags=()):
        out = self.path(name)
        m = dict(self.RPKI)
        m.update(mapping or {})
        cmd = ["go", "build", "-overlay", self.overlay(m), "-o", out] + list(flags) + [pkg or "./cmd/" + name]
        r = subprocess.run(cmd, cwd=REPO, env=self.goenv(), capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            sys.stdout.write(r.stdout + r.stderr)
            raise ToolError("cannot build %s" % name)
        return out

    def racebuild(self, name):
        """The program with Go's race detector ("" if it cannot be built here)."""
        try:
            out = self.gobuild(name + "-race", pkg="./cmd/" + name, flags=["-race"])
            self.assumptions.append("every other run is of %s built with Go's race detector: the atomicity of the specification's steps is checked, not assumed" % name)
            return out
        except ToolError:
            self.assumptions.append("the race detector is not available: the atomicity of the specification's steps is assumed")
            return ""

    def gotest(self, name, pkg, mapping, flags=()):
        """Builds an in-package test binary through an overlay."""
        out = self.path(name)
        m = dict(self.RPKI)
        m.update(mapping)
        cmd = ["go", "test", "-vet=off", "-c", "-overlay", self.overlay(m), "-o", out] + list(flags) + [pkg]
        r = subprocess.run(cmd, cwd=REPO, env=self.goenv(), capture_output=True, text=True, timeout=600)
        if r.returncode != 0 or not os.path.exists(out):
            sys.stdout.write(r.stdout + r.stderr)
            raise ToolError("cannot build %s" % name)
        return out

    def run(self, cmd, timeout=600, env=None, cwd=None, **kw):
        e = self.goenv()
        e["VERIF_SEED"] = str(self.seed)
        e["VERIF_TIER"] = self.tier
        if env:
            e.update(env)
        return subprocess.run(cmd, cwd=cwd or self.dir, env=e, capture_output=True, text=True, timeout=timeout,
                              errors="replace", **kw)

    # ------------------------------------------------------------ results
    def finish(self, level, max_report=5):
        known = load_known()
        mine = [v for v in self.violations if self.prop in v.props]
        unlisted, listed = [], {}
        for v in mine:
            k = (self.prop, v.key)
            if k in known:
                listed.setdefault(k, []).append(v)
            else:
                unlisted.append(v)
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(os.path.join(ev, "replays"), exist_ok=True)
        for k, vs in sorted(listed.items()):
            print("KNOWN-FINDING: property=%s %s (%d times)" % (self.prop, known[k], len(vs)))
        seen = {}
        for v in unlisted:
            seen.setdefault(v.key, []).append(v)
        for i, (k, vs) in enumerate(list(seen.items())[:max_report]):
            rp = os.path.join(ev, "replays", "%s-%d.json" % (self.prop, i))
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "what": vs[0].what, "key": k, "times": len(vs), "seed": self.seed,
                           "tier": self.tier, "case": vs[0].case}, f, indent=1, default=str)
            print("  %s (%d times)" % (vs[0].what, len(vs)))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples[:6]}
        if self.exhaustive:
            cov["exhaustive_parts"] = self.exhaustive
        cov.update(self.extra)
        with open(os.path.join(ev, self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
                       "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
                       "violations": len(unlisted)}, f, indent=1, default=str)
        self.log("%d states, %d traces replayed on the code, %d violations (%d listed as known)" %
                 (self.states, self.traces, len(unlisted), len(mine) - len(unlisted)))
        return 1 if unlisted else 0


def load_known():
    """KNOWN_FINDINGS.txt: lines `finding: property=<id> key=<key> :: <description>`."""
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)$", l.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out
