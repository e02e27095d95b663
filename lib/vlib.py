"""Shared machinery of the checks: building drivers from /repo, running TLC,
validating traces, reporting.

Outcomes: exit 0 (held), exit 1 + VIOLATION line (observed behaviour of the
real code is not a behaviour of the specification, reproduced), anything else
is trouble of the check itself (Trouble)."""
import concurrent.futures as cf
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MODPATH = "github.com/samuel/go-dsp"


class Trouble(Exception):
    pass


class Violation(Exception):
    def __init__(self, prop, what, replay):
        super().__init__(what)
        self.prop, self.what, self.replay = prop, what, replay


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed, self.seed0 = prop, tier, seed, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.level, self.assumptions = "model_checking", []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[],
                        events_validated=0, design_models=[], trace_actions={})
        self.nb = self.round = 0

    def again(self, k):
        """Further rounds of the thorough tier: the same check with other choices."""
        self.round, self.seed = k, self.seed0 + 1000 * k
        self.rng = random.Random("%s/%d" % (self.prop, self.seed))

    def path(self, name):
        return os.path.join(self.dir, name)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------- building
def go_env(goarch=None):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOWORK="off", GOFLAGS="",
             HOME=e.get("HOME", "/root"), GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    e.pop("GOFLAGS_EXTRA")
    if goarch:
        e["GOARCH"] = goarch
    else:
        e.pop("GOARCH", None)
    e.pop("GOOS", None)
    return e


def overlay(ctx, extra=None, gomod=None):
    rep = {}
    if gomod:
        rep[REPO + "/go.mod"] = gomod
    elif not os.path.exists(REPO + "/go.mod"):
        mod = ctx.path("go.mod")
        with open(mod, "w") as f:
            f.write("module %s\n\ngo 1.17\n" % MODPATH)
        rep[REPO + "/go.mod"] = mod
    rep[REPO + "/dsp/internal/cpu/zz_verif_init.go"] = HARN + "/cpuinit/zz_verif_init.go"
    for d in sorted(os.listdir(HARN)):
        if d in ("cpuinit", "rtlstub"):
            continue
        for f in sorted(os.listdir(os.path.join(HARN, d))):
            if f.endswith(".go"):
                rep["%s/zzv/%s/%s" % (REPO, d, f)] = os.path.join(HARN, d, f)
    rep.update(extra or {})
    ctx.nb += 1
    p = ctx.path("overlay%d.json" % ctx.nb)
    with open(p, "w") as f:
        json.dump({"Replace": rep}, f)
    return p


def build(ctx, driver, goarch=None, pkg=None, extra=None, gomod=None, flags=()):
    """Build harness driver (or package pkg of the repository) from /repo."""
    ov = overlay(ctx, extra, gomod)
    out = ctx.path("%s_%s" % (driver, goarch or "native"))
    cmd = ["go", "build", *flags, "-overlay", ov, "-o", out, pkg or "./zzv/" + driver]
    r = subprocess.run(cmd, cwd=REPO, env=go_env(goarch), capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        raise Trouble("build of %s failed:\n%s" % (driver, r.stderr[-3000:]))
    return out


# ---------------------------------------------------------------- drivers
def run_driver(ctx, binary, scenarios, env=None, timeout=300, name=None):
    """Feed scenario lines, return (trace lines, exit status, stderr tail)."""
    e = dict(os.environ)
    e.pop("VERIF_CPU", None)
    e.update(env or {})
    e.setdefault("GOTRACEBACK", "single")
    inp = "".join(json.dumps(s, separators=(",", ":")) + "\n" for s in scenarios)
    try:
        r = subprocess.run([binary], input=inp, capture_output=True, text=True, env=e, timeout=timeout,
                           cwd=ctx.dir)
        return r.stdout.splitlines(), r.returncode, r.stderr[-2000:]
    except subprocess.TimeoutExpired as x:
        so = x.stdout or b""
        return (so.decode() if isinstance(so, bytes) else so).splitlines(), "timeout", ""


# ---------------------------------------------------------------- TLC
def tlc(ctx, module, cfg, env=None, workers=8, timeout=600, heap="4g", extra=(), seed=None):
    ctx.nb += 1
    md = ctx.path("md%d" % ctx.nb)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + ctx.dir, "-XX:ParallelGCThreads=%d" % max(2, workers // 2), "-Xss64m",
           "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-lncheck", "final",
           "-workers", str(workers), "-metadir", md, "-config", cfg, *extra, module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Trouble("TLC timed out on %s (%s)" % (module, cfg))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def model_check(ctx, module, cfg, workers=8, timeout=800, consts=None, heap="8g", extra=(), env=None, refuted=False):
    """Design-level model checking.  The specification does not depend on the
    code, so anything but success is trouble of the check.  refuted: the
    constants plant a fault in the design, which TLC must find."""
    if ctx.round or os.environ.get("VERIF_TRACES_ONLY"):      # the models stay the same
        return
    p = os.path.join(SPEC, cfg)
    if consts:
        s = open(p).read()
        for k, v in consts.items():
            s, n = re.subn(r"\b%s\s*=\s*(\{[^}]*\}|\S+)" % k, "%s = %s" % (k, v), s)
            if n != 1:
                raise Trouble("constant %s not in %s" % (k, cfg))
        ctx.nb += 1
        p = ctx.path("mc%d.cfg" % ctx.nb)
        open(p, "w").write(s)
    rc, out = tlc(ctx, os.path.join(SPEC, module + ".tla"), p, workers=workers, timeout=timeout, heap=heap,
                  extra=extra, env=env)
    if refuted:
        if "is violated" not in out and "was violated" not in out:
            raise Trouble("model checking %s with %s finds no fault: exit %s\n%s" % (module, consts, rc, out[-3000:]))
        ctx.cov["design_models"].append(dict(module=module, config=cfg, consts=consts or {}, refuted=True))
        return out
    if rc != 0 or "No error has been found" not in out:
        raise Trouble("model checking %s/%s: exit %s\n%s" % (module, cfg, rc, out[-3000:]))
    g, d = counts(out)
    ctx.cov["states"] += d
    ctx.cov["transitions"] += g
    ctx.cov["design_models"].append(dict(module=module, config=cfg, consts=consts or {}, states=d, transitions=g))
    return out


REACHED = re.compile(r'<<"REACHED", (\d+), (\d+)>>')


def validate(ctx, module, lines, env=None, cfg=None, timeout=600, heap="3g", tag=""):
    """Validate one trace (list of JSON lines).  Returns None if accepted, else
    the 0-based index of the first line the specification does not allow."""
    if not lines:
        raise Trouble("empty trace for " + module)
    ctx.nb += 1
    tf = ctx.path("trace%d%s.ndjson" % (ctx.nb, tag))
    with open(tf, "w") as f:
        f.write("\n".join(lines) + "\n")
    e = {"TRACE": tf, "ASPECT": ctx.prop}
    e.update(env or {})
    rc, out = tlc(ctx, os.path.join(SPEC, module + ".tla"), os.path.join(SPEC, cfg or module + ".cfg"), env=e,
                  workers=1, timeout=timeout, heap=heap)
    os.unlink(tf)
    m = REACHED.search(out)
    if not m:
        raise Trouble("trace validation with %s: exit %s\n%s" % (module, rc, out[-3000:]))
    got, total = int(m.group(1)), int(m.group(2))
    if total != len(lines):
        raise Trouble("trace length mismatch")
    g, d = counts(out)
    ctx.cov["transitions"] += g
    ctx.cov["states"] += d
    if rc == 0 and got == total and "No error has been found" in out:
        return None
    if got >= total:
        raise Trouble("TLC: %s\n%s" % (rc, out[-3000:]))
    return got


class Case:
    """One scenario and the trace lines the real code produced for it."""
    __slots__ = ("scenario", "lines", "env", "before")

    def __init__(self, scenario, lines, env=None, before=()):
        # before: the scenarios that ran earlier in the same process
        self.scenario, self.lines, self.env, self.before = scenario, lines, env, before


class Died(Exception):
    """The process running the real code died, or did not end."""

    def __init__(self, scs, lines, rc, err, env=None):
        self.scs, self.lines, self.rc, self.err, self.env = scs, lines, rc, err, env


def find_death(run, scs, env=None):
    """The process died while running scs: which scenario kills it?
    run(scenarios, timeout) -> lines, exit status, stderr"""
    for part in [[s] for s in scs] + [scs]:
        lines, rc, err = run(part, 60 if len(part) == 1 else 240)
        if rc == 3:
            raise Trouble("driver: " + err)
        if rc != 0:
            raise Died(part, lines, rc, err, env)
    raise Trouble("the driver's death did not reproduce")


def report_death(ctx, spec, d):
    report(ctx, spec, Case(d.scs if len(d.scs) > 1 else d.scs[0], d.lines, d.env),
           d.lines + ["the process ended with %s: %s" % (d.rc, d.err[-800:])], len(d.lines))


def weight(lines):
    return sum(len(x) for x in lines)


def validate_cases(ctx, module, cases, rerun, env=None, jobs=7, cfg=None, timeout=700, chunk_bytes=6000000,
                   heap="3g", after=None, timed=True, tries=3):
    """Validate many independent cases, packed into a few TLC runs.
    rerun(case) -> fresh lines for the same scenario (to reproduce);
    after(case) -> the same, with the scenarios that ran before it in its process;
    timed: the record depends on timing, so that one that cannot be reproduced proves nothing."""
    cases = [c for c in cases if c.lines]
    if not cases:
        raise Trouble("no trace lines recorded")
    total = sum(weight(c.lines) for c in cases)
    per = max(total // jobs + 1, 20000)
    per = min(per, chunk_bytes)
    chunks, cur, w = [], [], 0
    for c in cases:
        cur.append(c)
        w += weight(c.lines)
        if w >= per:
            chunks.append(cur)
            cur, w = [], 0
    if cur:
        chunks.append(cur)

    def one(ch):
        lines = [x for c in ch for x in c.lines]
        bad = validate(ctx, module, lines, env=env, cfg=cfg, timeout=timeout, heap=heap)
        if bad is None:
            return None
        k = 0
        for c in ch:
            if bad < k + len(c.lines):
                return c, bad - k
            k += len(c.lines)
        raise Trouble("cannot locate rejected line")
    with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
        res = list(ex.map(one, chunks))
    for c in cases:
        for x in c.lines[:50]:
            m = re.search(r'"op":"([^"]+)"', x)
            if m:
                ctx.cov["trace_actions"][m.group(1)] = ctx.cov["trace_actions"].get(m.group(1), 0) + 1
    ctx.cov["traces_validated_against_impl"] += len(cases)
    ctx.cov["events_validated"] += sum(len(c.lines) for c in cases)
    lost = None
    for bad in res:
        if bad is None:
            continue
        c, at = bad
        # reproduce from the scenario alone
        for f in [rerun] * tries + [after] * (after is not None):
            if timed and time.time() - ctx.t0 > ctx.pick(780, 6000):
                break
            lines = f(c)
            if not lines:
                continue
            b = validate(ctx, module, lines, env=env, cfg=cfg, timeout=timeout, heap=heap)
            if b is not None:
                report(ctx, module, c, lines, b, "" if f is rerun else "after the scenarios that ran before it in the same process")
        if not timed:
            report(ctx, module, c, c.lines, at, "recorded once; the same scenario did not do it again")
        lost = lost or c.lines[at][:1500]
    if lost:
        raise Trouble("rejected trace did not reproduce: %s" % lost)
    if len(ctx.cov["samples"]) < 3:
        s = ctx.rng.choice(cases)
        ctx.cov["samples"].append(dict(spec=module, trace_line=s.lines[-1][:1200]))


def report(ctx, module, case, lines, at, note=""):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.replay.json" % ctx.prop)
    with open(p, "w") as f:
        json.dump(dict(property=ctx.prop, spec=module, scenario=case.scenario, env=case.env,
                       rejected_line=at, rejected=lines[at] if at < len(lines) else None,
                       trace=lines[:at + 1][-40:], note=note), f, indent=1)
    what = "%s does not allow line %d: %s" % (module, at + 1, (lines[at] if at < len(lines) else "")[:600])
    raise Violation(ctx.prop, what, p)


# ---------------------------------------------------------------- main
def write_evidence(ctx, violations):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed0, level=ctx.level, coverage=ctx.cov,
              assumptions=ctx.assumptions, wall_s=round(time.time() - ctx.t0, 2), violations=violations)
    p = os.path.join(d, ctx.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def rounds(ctx, check):
    """The thorough tier repeats the check with other random choices as long as
    another round fits into its budget (s)."""
    budget, k = float(os.environ.get("VERIF_BUDGET") or 600), 0
    longest = time.time() - ctx.t0
    while ctx.thorough and time.time() - ctx.t0 + longest < budget:
        t = time.time()
        k += 1
        ctx.again(k)
        check(ctx)
        longest = time.time() - t
    ctx.cov["rounds"] = k + 1
    ctx.assumptions = list(dict.fromkeys(ctx.assumptions))


def main(checks):
    if len(sys.argv) != 2 or sys.argv[1] not in checks:
        print("usage: check <property>")
        sys.exit(2)
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = 1
    ctx = Ctx(prop, tier, seed)
    code = 2
    try:
        checks[prop](ctx)
        rounds(ctx, checks[prop])
        write_evidence(ctx, 0)
        for k in known_findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        print("OK property=%s states=%d events=%d wall=%.1fs" % (
            prop, ctx.cov["states"], ctx.cov["events_validated"], time.time() - ctx.t0))
        code = 0
    except Violation as v:
        write_evidence(ctx, 1)
        print("VIOLATION property=%s replay=%s" % (v.prop, v.replay))
        print(v.what)
        code = 1
    except Trouble as t:
        print("TROUBLE property=%s %s" % (prop, t))
    finally:
        ctx.close()
    sys.stdout.flush()
    sys.exit(code)
