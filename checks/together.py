"""X01: independent objects and calls used from several goroutines at once.

The scenarios are those of the other properties; each is carried out alone and
together with others (race detector on), and several goroutines get the same
inputs at once.  TLC decides with ConcurTrace."""
import hashlib
from vlib import *
import ax25, borip, filters, kernels, numeric, spectral

RACE = ("-race", "-gcflags=all=-d=checkptr=0")
SOURCES = [(ax25, "H01 H03 H04 H05"), (borip, "B01 B02 B04 P01 P02"), (filters, "F01 F02 F03 F04 F05 F06 F07"),
           (spectral, "G01 G02 T01"), (numeric, "I01 W01 A01"), (kernels, "C01 C02 C03 V01 V02")]
HEAVY = re.compile(r'"op": ?"(corruptall|prefixall|corrupt|huge)"')


def collect(ctx):
    """driver -> scenarios of the other properties"""
    got = {}

    def keep(driver, scs):
        ok = []
        for s in scs:
            t = json.dumps(s)
            if len(t) < 60000 and not HEAVY.search(t) and not re.search(r'"level": ?-?[1-9]', t):
                ok.append(s)
        n = ctx.pick(60, 500)
        if len(ok) > n:
            ok = [ok[i] for i in sorted(ctx.rng.sample(range(len(ok)), n))]
        got.setdefault(driver, []).extend(ok)

    class Rec:
        def __init__(self, c, driver="kern", *a):
            self.driver = driver

        def check(self, scs, how="merge"):
            keep(self.driver, scs)
    for mod, ids in SOURCES:
        for k, v in dict(Runner=Rec, model_check=lambda *a, **k: None, design_model=lambda *a, **k: None,
                         models=lambda *a: [], client_models=lambda *a: []).items():
            if hasattr(mod, k):
                setattr(mod, k, v)
        if mod is ax25:
            mod.go = lambda c, scs, m: keep("ax25", scs)
        if mod is borip:
            mod.go = lambda c, d, spec, scs, m, *a: keep(d, scs)
        for p in ids.split():
            c = Ctx(p, "quick", ctx.seed)
            try:
                mod.CHECKS[p](c)
            finally:
                c.close()
    return got


def code(x):
    return hashlib.md5(x.encode()).hexdigest()[:12]


class Bench:
    def __init__(self, ctx, driver, env=None):
        self.ctx, self.driver = ctx, driver
        self.bin = build(ctx, driver, flags=RACE)
        self.env = dict(env or {})

    def run(self, scs, n):
        """lines per scenario; None and the report when the process died or saw a race"""
        lines, rc, err = run_driver(self.ctx, self.bin, scs, env=dict(self.env, VERIF_PAR=str(n)), timeout=self.ctx.pick(150, 900))
        if rc == 3:
            raise Trouble("driver: " + err)
        if rc != 0:
            return None, "exit %s %s" % (rc, err)
        res, cur = [], []
        for x in lines:
            if x == '{"op":"sep"}':
                res.append(cur)
                cur = []
            else:
                cur.append(x)
        if len(res) != len(scs):
            raise Trouble("driver output")
        return res, ""


def pairs(k, alone, together):
    return [json.dumps(dict(op=o, id=k, outs=[code(x) for x in v])) for o, v in (("alone", alone), ("together", together))]


def refuse(ctx, bench, scs, lines, at, note):
    report(ctx, "ConcurTrace", Case(scs, lines, dict(driver=bench.driver, **bench.env)), lines, at, note)


def race(ctx, bench, scs, n, err):
    refuse(ctx, bench, scs, [json.dumps(dict(op="race", driver=bench.driver, goroutines=n))], 0, err)


def bench(ctx, b, scs):
    alone, err = b.run(scs, 1)
    if alone is None:                 # no matter of concurrency
        ctx.assumptions.append("%s: not run, dies alone" % b.driver)
        return
    for n in ctx.pick([8], [8, 3, 16]):
        left = list(range(len(scs)))
        tog, err = b.run(scs, n)
        if tog is None:
            if err.startswith("exit 66") or b.run(scs, n)[0] is None:
                race(ctx, b, scs, n, err)
            raise Trouble("the driver's death did not reproduce")
        again = None
        while left:
            lines = [x for i in left for x in pairs(i + 1, alone[i], tog[i])]
            at = validate(ctx, "ConcurTrace", lines)
            if at is None:
                break
            i = left[at // 2]
            if again is None:
                again = [b.run(scs, 1)[0] or alone for _ in range(2)]
                more = [b.run(scs, n)[0] or tog for _ in range(4)] if b.driver == "borip" else []
            steady = all(a[i] == alone[i] for a in again)
            if steady and (b.driver != "borip" or sum(m[i] != alone[i] for m in more) >= 2):
                refuse(ctx, b, scs[i], lines, at, dict(alone=alone[i][:20], together=tog[i][:20]))
            left.remove(i)
            ctx.cov["unsteady"] = ctx.cov.get("unsteady", 0) + 1
        ctx.cov["traces_validated_against_impl"] += len(left)
        ctx.cov["events_validated"] += 2 * len(left)
        if left and len(ctx.cov["samples"]) < 8:
            ctx.cov["samples"].append(dict(spec="ConcurTrace", driver=b.driver, trace_line=pairs(1, alone[left[0]], tog[left[0]])[1][:300]))
    ctx.cov["trace_actions"][b.driver] = len(scs)


def common(ctx, b, names):
    rng, scs = ctx.rng, []
    g = ax25.Gen(rng)
    for k in range(ctx.pick(10, 120)):
        order = sorted(names)
        rng.shuffle(order)
        n = rng.choice([2, 30, 64, 210, 516])
        flag = "01111110"
        bits = flag + "".join(ax25.stuff(ax25.bits(g.frame())) + flag for _ in range(3))
        scs.append({"op": "common", "names": order, "n": rng.choice([2, 5, 8]), "in": [rng.randrange(-120, 121) for _ in range(n)],
                    "cuts": sorted(2 * rng.randrange(n // 2 + 1) for _ in range(3)), "bits": [int(x) for x in bits],
                    "coef": [rng.randrange(-9, 10) for _ in range(rng.randrange(1, 5))]})
    out = []
    # every scenario in a process of its own: first uses are part of it
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        for s, (lines, rc, err) in zip(scs, ex.map(lambda s: run_driver(ctx, b.bin, [s], env=b.env, timeout=120), scs)):
            if rc == 3:
                raise Trouble("driver: " + err)
            if rc == 66 or (rc != 0 and run_driver(ctx, b.bin, [s], env=b.env, timeout=120)[1] != 0):
                race(ctx, b, s, s["n"], err)
            if rc == 0:
                out += [(s, x) for x in lines]
    at = validate(ctx, "ConcurTrace", [x for _, x in out])
    if at is not None:
        refuse(ctx, b, out[at][0], [x for _, x in out], at, "")
    ctx.cov["traces_validated_against_impl"] += len(scs)
    ctx.cov["events_validated"] += len(out)


def X01(ctx):
    model_check(ctx, "MC_Concurrent", "MC_Concurrent.cfg", consts=ctx.pick({}, dict(MaxCalls=3)))
    if ctx.thorough:
        model_check(ctx, "MC_Concurrent", "MC_Concurrent.cfg", consts=dict(Instances=3, MaxCalls=2))
    for d in ctx.pick(["package"], ["package", "lazy", "borrow"]):
        model_check(ctx, "MC_Concurrent", "MC_ConcurrentResults.cfg", consts=dict(Design='"%s"' % d), refuted=True)
    got = collect(ctx)
    benches = [(Bench(ctx, d), scs) for d, scs in sorted(got.items())]
    benches.append((Bench(ctx, "kern", dict(VERIF_CPU="")), got["kern"]))
    for b, scs in benches:
        bench(ctx, b, scs)
    for env in ({}, dict(VERIF_CPU="")):
        b = Bench(ctx, "par", env)
        names = [json.loads(x) for x in run_driver(ctx, b.bin, [dict(op="names")])[0]]
        common(ctx, b, names)
    ctx.assumptions += ["the race detector sees Go code; assembly is judged by its results",
                        "in-place filters get inputs of their own"]


CHECKS = {"X01": X01}
