"""C01..C04, V01, V02: slice conversions and vector operations of dsp, in every
CPU configuration and on the portable build."""
import json, struct
from vlib import *

# input elements, output elements per item; element kinds
FN = {"Ui8toi16": (1, 1), "Ui8toi16b": (1, 2), "Ui8tof32": (1, 1), "I8tof32": (1, 1), "Ui8toc64": (2, 1), "I8toc64": (2, 1),
      "C64toi8": (1, 2), "F32toi16": (1, 1), "F32toi16ble": (1, 2), "I16ToBLE": (1, 2), "I16bleToF64": (2, 1),
      "I16bleToF32": (2, 1), "I32bleToF32": (4, 1), "F32Tof32ble": (1, 4), "VMulC64xF32": (1, 1), "VMulC64": (1, 1),
      "VAddF32": (1, 1), "VAddC64": (1, 1), "VScaleC64": (1, 1), "VScaleF32": (1, 1), "VAbsC64": (1, 1),
      "VMaxF32": (1, 1), "VMinF32": (1, 1)}
CFN = {"C64toi8", "VMulC64xF32", "VMulC64", "VAddC64", "VScaleC64", "VAbsC64"}     # complex input
FFN = {"F32toi16", "F32toi16ble", "F32Tof32ble", "VAddF32", "VScaleF32", "VMaxF32", "VMinF32"}
MODES = [("portable", "386", None), ("none", None, None), ("sse2", None, "cpu.avx=off,cpu.sse41=off"),
         ("sse4", None, "cpu.avx=off"), ("avx", None, "cpu.sse41=off"), ("all", None, "")]


def f32(v):
    return struct.unpack("<I", struct.pack("<f", v))[0]


def me(m, e):
    return f32(m * 2.0 ** e)


class Runner:
    def __init__(self, ctx, driver="kern", spec="KernelTrace", modes=MODES):
        self.ctx, self.spec, self.modes = ctx, spec, modes
        with cf.ThreadPoolExecutor(max_workers=2) as ex:
            a, b = ex.submit(build, ctx, driver), ex.submit(build, ctx, driver, "386")
            self.bin = {None: a.result(), "386": b.result()}
        ctx.assumptions.append("CPU configurations: " + ", ".join(m[0] for m in modes) +
                               " (portable = GOARCH=386 build); arm and arm64 assembly cannot run here")
        ctx.cov["configurations"] = [m[0] for m in modes]

    def run(self, m, scs, timeout):
        name, arch, opt = m
        env = {} if opt is None else {"VERIF_CPU": opt}
        return run_driver(self.ctx, self.bin[arch], scs, env=env, timeout=timeout)

    def merge(self, how, sc, per):
        """per: configuration -> lines of one scenario; equal lines once"""
        if how == "merge":
            order, modes = [], {}
            for m in self.modes:
                for x in per[m[0]]:
                    if x not in modes:
                        order.append(x)
                    modes.setdefault(x, []).append(m[0])
            return [x[:-1] + ',"modes":%s}' % json.dumps(modes[x]) for x in order]
        runs, ids = [], {}
        for m in self.modes:
            for x in per[m[0]]:
                d = json.loads(x)
                key = json.dumps([d["out"], d["panic"]])
                if key not in ids:
                    ids[key] = len(runs)
                    runs.append(dict(modes=[], out=d["out"], panic=d["panic"]))
                if m[0] not in runs[ids[key]]["modes"]:
                    runs[ids[key]]["modes"].append(m[0])
        return [json.dumps(dict(op="agree", fn=sc["fn"], runs=runs), separators=(",", ":"))]

    def check(self, scs, how="merge"):
        n = 8
        groups = [scs[i::n] for i in range(n) if scs[i::n]]
        out = {}
        self.dead = None
        try:
            with cf.ThreadPoolExecutor(max_workers=8) as ex:
                jobs = [(gi, m) for gi in range(len(groups)) for m in self.modes]
                for (gi, m), lines in zip(jobs, ex.map(lambda j: self.split(j[1], groups[j[0]]), jobs)):
                    out[gi, m[0]] = lines
        except Died as d:
            report_death(self.ctx, self.spec, self.dead or d)
        only = lambda m, c: self.split(m, [c.scenario])[0]
        last = lambda m, c: self.split(m, list(c.before) + [c.scenario])[-1]
        if how == "trace":            # stateful: one case per distinct behaviour
            cases = []
            for gi, g in enumerate(groups):
                for k, s in enumerate(g):
                    seen = set()
                    for m in self.modes:
                        lines = out[gi, m[0]][k]
                        key = "\n".join(lines)
                        if key not in seen:
                            seen.add(key)
                            cases.append(Case(s, lines, m, g[:k]))
            again = lambda f: lambda c: f(c.env, c)
        else:
            cases = [Case(s, self.merge(how, s, {m[0]: out[gi, m[0]][k] for m in self.modes}), None, g[:k])
                     for gi, g in enumerate(groups) for k, s in enumerate(g)]
            again = lambda f: lambda c: self.merge(how, c.scenario, {m[0]: f(m, c) for m in self.modes})
        validate_cases(self.ctx, self.spec, cases, again(only), after=again(last), timed=False)

    def split(self, m, g):
        """output lines per scenario of a group"""
        if self.dead:
            raise self.dead
        sep = dict(op="sep", fn="VMaxF32")
        mixed = []
        for s in g:
            mixed += [s, sep]
        lines, rc, err = self.run(m, mixed, self.ctx.pick(200, 700))
        if rc == 3:
            raise Trouble("driver: " + err)
        if rc != 0:
            try:
                find_death(lambda x, t: self.run(m, x, t), g, m[0])
            except Died as d:
                self.dead = d
                raise
        res, cur = [], []
        for x in lines:
            if x.startswith('{"op":"sep"'):
                res.append(cur)
                cur = []
            else:
                cur.append(x)
        if len(res) != len(g):
            raise Trouble("driver output")
        return res


# ----------------------------------------------------------------- C01
def offsets(rng, n):
    o = [[a, b] for a in range(0, 20) for b in range(0, 18)]
    return [[0, 0], [1, 0], [0, 1], [3, 3]] + rng.sample(o, n)


def C01(ctx):
    r = Runner(ctx)
    scs = []
    top = ctx.pick(70, 260)
    for fn, (ri, ro) in FN.items():
        ins = list(range(0, top * min(ri, 2) + 1)) + ctx.pick([96, 97, 127, 128, 129, 160, 191, 193, 300], [300, 511, 512, 513, 777, 1024, 1025])
        if not ctx.thorough:
            ins = [x for x in ins if x < 36 or x % 3 == ctx.seed % 3 or x % 16 in (0, 1, 15)]
        # output length: a * items + b
        outs = [[1, 0], [1, -1], [1, 1], [0, 0], [1, 17], [0, 1], [0, 33]] + [[1, -ctx.rng.randrange(2, 40)] for _ in range(2)]
        if fn in ("VMaxF32", "VMinF32"):
            outs = [[0, 0]]
        muls = [0, 1, -1, 20, -ctx.rng.randrange(2, 18)]
        for i in range(0, len(ins), 16):
            scs.append(dict(op="touch", fn=fn, ins=ins[i:i + 16], outs=outs if fn not in ("VMulC64", "VMulC64xF32") else outs[:5], muls=muls,
                            offs=offsets(ctx.rng, ctx.pick(8, 40)), rate=[ri, ro]))
    # long slices: the powers of two and their neighbours
    long = [255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8193, 16384, 16387, 32769,
            65535, 65536, 65537, 70001]
    for fn, (ri, ro) in FN.items():
        outs = [[1, 0], [1, -1], [1, 1]] if fn not in ("VMaxF32", "VMinF32") else [[0, 0]]
        for n in sorted(ctx.rng.sample(long, ctx.pick(4, 18))) + [ctx.rng.randrange(300, 9000)]:
            scs.append(dict(op="touch", fn=fn, ins=[n * ri + ctx.rng.randrange(ri)], outs=outs[:3 if n < 9000 else 1], muls=[0, -1, 1] if n < 9000 else [0],
                            offs=offsets(ctx.rng, 0)[-1:] + [[ctx.rng.randrange(20), ctx.rng.randrange(18)]], rate=[ri, ro]))
    scs.append(dict(op="huge", fn="VScaleC64", n=(1 << 25) + 5))
    r.check(scs)


# ----------------------------------------------------------------- C02
def C02(ctx):
    r = Runner(ctx)
    scs = []
    L = ctx.pick(100, 200)
    for fn in ("Ui8toi16", "Ui8toi16b", "Ui8tof32", "I8tof32", "Ui8toc64", "I8toc64", "C64toi8"):
        ri, ro = FN[fn]
        for s in range(256):
            n = L if s % 4 else ctx.rng.randrange(1, 2 * L)
            if s % 32 == 5:
                n = ctx.rng.choice(LONG)
            vals = [(i + s) % 256 for i in range(n * ri)]
            if s % 3 == 1:
                vals = [(7 * i + s) % 256 for i in range(n * ri)]
            if fn == "I8toc64":
                vals = [v - 256 if v >= 128 else v for v in vals]
            if fn == "C64toi8":
                vals = [(i + s) % 256 - 128 for i in range(2 * n)]
                vals = [f32(float(v)) for v in vals]
            scs.append(dict(op="data", fn=fn, **{"in": vals}, no=n * ro, scale=1, enc="int", encin="int", id=0,
                            offs=[[0, 0]] + [[ctx.rng.randrange(20), ctx.rng.randrange(18)] for _ in range(ctx.pick(3, 12))]))
    r.check(scs)


# ----------------------------------------------------------------- C03
def anyfloat(rng, lo=-20, hi=20):
    m = rng.randrange(1, 1 << rng.randrange(1, 25)) * rng.choice([1, -1])
    return struct.unpack("<f", struct.pack("<f", m * 2.0 ** rng.randrange(lo, hi)))[0]


LONG = [255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4095, 4096, 4097]


def lens(rng, n, long=0):
    return rng.sample(LONG, min(long, len(LONG))) + [rng.choice([rng.randrange(1, 20), rng.randrange(20, 140), rng.choice([16, 31, 32, 33, 48, 63, 64, 65, 96, 100])]) for _ in range(n)]


def C03(ctx):
    rng = ctx.rng
    r = Runner(ctx)
    scs = []

    def add(fn, vals, n, scale=1.0, enc="me", encin="int", id=0):
        scs.append(dict(op="data", fn=fn, **{"in": vals}, no=n * FN[fn][1], scale=scale, enc=enc, encin=encin, id=id,
                        offs=[[0, 0]] + [[rng.randrange(20), rng.randrange(18)] for _ in range(3)]))
    every = list(range(-32768, 32768))
    for i in range(0, 65536, 512):
        add("I16ToBLE", every[i:i + 512], 512)
    order = every[:]
    rng.shuffle(order)
    ks = list(range(0, ctx.pick(20, 90), 1))
    for i in range(0, 65536, 2048):
        for k in rng.sample(ks, ctx.pick(1, 6)) + [15]:
            scs.append(dict(op="roundtrip", fn="F32toi16", n=k, **{"in": order[i:i + 2048]}))
    # bytes of floats: every kind of bit pattern
    for n in lens(rng, ctx.pick(20, 150), ctx.pick(2, 18)):
        bits = [rng.choice([rng.getrandbits(32), 0, 1 << 31, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffffffff, 1, 0x00800000]) for _ in range(n)]
        add("F32Tof32ble", bits, n, encin="bits")
    # scaled floats: significands small enough for an exact product
    for n in lens(rng, ctx.pick(60, 500), ctx.pick(2, 18)):
        for fn in ("F32toi16", "F32toi16ble"):
            sm, se = rng.choice([(1, 0), (1, 0), (1, 15), (32767, 0), (1, -3), (3, 0), (-1, 0), (511, -4), (5, -2), (127, 0)])
            vals = []
            while len(vals) < n:
                xm = rng.randrange(1, 1 << rng.randrange(1, 15 if abs(sm) < 600 else 9)) * rng.choice([1, -1])
                xe = rng.randrange(-24, 16)
                v = xm * sm * 2.0 ** (xe + se)
                k = rng.randrange(12)
                if k == 0:
                    xm, xe = rng.choice([(0, 0), (32767, 0), (-1, 15), (65535, -1), (-65535, -1), (262143, -3)])
                    if (sm, se) != (1, 0):
                        continue
                elif not -32768 < v < 32768:
                    continue
                vals.append(me(xm, xe))
            add(fn, vals, n, sm * 2.0 ** se, encin="me")
    # integers to floats
    scales = [1.0, 2.0 ** -15, 1 / 32768, 2.0 ** 10, -1.0, 0.5]
    for n in lens(rng, ctx.pick(24, 250), ctx.pick(3, 18)):
        for fn, nb in (("I16bleToF32", 2), ("I16bleToF64", 2)):
            for rnd in (0, 1):
                m = n if not rnd else min(n, 34)
                vals = [rng.choice([0, 1, 127, 128, 255, rng.randrange(256), rng.randrange(256), rng.randrange(256)]) for _ in range(nb * m)]
                sc = rng.choice(scales)
                if rnd:
                    sc = anyfloat(rng) if fn.endswith("32") else rng.choice([1 / 32768, rng.uniform(-2, 2), rng.uniform(0, 1) * 2.0 ** rng.randrange(-30, 30)])
                add(fn, vals, m, sc)
        vals = [rng.choice([0, 1, 127, 128, 255, rng.randrange(256), rng.randrange(256)]) for _ in range(4 * n)]
        for j in range(0, 4 * n, 4):       # the extremes now and then
            if rng.random() < 0.06:
                vals[j:j + 4] = rng.choice([[0, 0, 0, 128], [1, 0, 0, 128], [255, 255, 255, 127], [255] * 4, [128, 255, 255, 127], [0, 0, 0, 64]])
        add("I32bleToF32", vals, n, rng.choice([1.0, 2.0 ** -31, 2.0 ** -15, -2.0 ** 7]))
    ctx.assumptions += ["F32toi16: products of significands are exact (rounded products are compared in C04)",
                        "I32bleToF32: power-of-two scales"]
    r.check(scs)


# ----------------------------------------------------------------- V01
def V01(ctx):
    rng = ctx.rng
    r = Runner(ctx)
    scs = []

    def ints(k, n):
        return [f32(float(rng.randrange(-k, k + 1))) for _ in range(n)]
    lens_ = list(range(1, ctx.pick(40, 150))) + [47, 48, 49, 63, 64, 65, 95, 96, 97, 100, 127, 128, 129, 130, 161]
    lens_ += rng.sample(LONG, ctx.pick(2, 18))
    for n in lens_:
        for fn in ("VScaleF32", "VScaleC64", "VAddF32", "VAddC64", "VMulC64", "VMulC64xF32", "VAbsC64"):
            c = 2 if fn in CFN else 1
            d = dict(op="data", fn=fn, **{"in": ints(1000, c * n)}, no=n, scale=float(rng.choice([2, 3, -5, 7, 1, -1, 1000, 0])), enc="int",
                     encin="int", id=0, offs=[[0, 0]] + [[rng.randrange(20), rng.randrange(18)] for _ in range(3)])
            if fn == "VMulC64":
                d["in2"] = ints(1000, 2 * n)
            if fn == "VMulC64xF32":
                d["in2"] = ints(1000, n)
            if fn.startswith("VAdd"):
                d["out0"] = ints(1000, c * n)
            if fn == "VAbsC64":
                d["enc"] = "me"
                if n % 2:
                    d["in"] = ints(30000, 2 * n)
                d["in"] = d["in"][:60]
                d["no"] = len(d["in"]) // 2
            scs.append(d)
            if fn != "VAbsC64":
                scs.append(dict(d, inplace=1, offs=[[a, a] for a in (0, 1, 2, 3, rng.randrange(16))]))
                if fn == "VMulC64":
                    scs.append(dict(d, inplace=2))
    # rounded products of any finite factors
    for n in [rng.randrange(1, 30) for _ in range(ctx.pick(20, 150))] + [33, 65, 70]:
        for fn in ("VScaleF32", "VScaleC64", "VMulC64xF32"):
            c = 2 if fn in CFN else 1
            n2 = n if c == 1 else (n + 1) // 2
            d = dict(op="data", fn=fn, **{"in": [f32(anyfloat(rng)) for _ in range(c * n2)]}, no=n2, scale=anyfloat(rng), enc="me",
                     encin="me", id=1, offs=[[0, 0], [rng.randrange(20), rng.randrange(18)]])
            if fn == "VMulC64xF32":
                d["in2"] = [f32(anyfloat(rng)) for _ in range(n2)]
            scs.append(d)
    ctx.assumptions += ["sums and complex products: integers up to 1000, where float32 arithmetic is exact; single products: any factors, correctly rounded",
                        "VAbsC64: integers, squares below 2^31, within two units in the last place"]
    r.check(scs)


# ----------------------------------------------------------------- V02
def V02(ctx):
    rng = ctx.rng
    r = Runner(ctx)
    scs = []
    lens_ = list(range(1, ctx.pick(72, 200))) + [79, 80, 81, 95, 96, 97, 98, 127, 128, 129, 130, 160, 161]
    lens_ += rng.sample(LONG, ctx.pick(2, 18))
    for n in lens_:
        for fn in ("VMaxF32", "VMinF32"):
            sg = 1 if fn == "VMaxF32" else -1
            kind = rng.randrange(4)
            if kind == 0:            # all on the far side of zero: a stray zero would show
                base = [-sg * (rng.randrange(1, 1000) + 1) for _ in range(n)]
                v = -sg * 0.5
            elif kind == 1:
                base = [float("-inf") * sg] * n
                v = -sg * 1e30
            elif kind == 2:
                base = [rng.uniform(-1e6, 1e6) for _ in range(n)]
                v = sg * float("inf") if n % 2 else sg * 1e7
            else:
                base = [-sg * (1 + i) for i in range(n)] if rng.random() < 0.5 else [-sg * 1e-40 * (1 + i) for i in range(n)]
                v = -sg * 1e-42
            ks = list(range(n))
            if n > 220:
                ks = sorted(set(rng.sample(ks, 12) + [0, 1, n - 1, n - 2, n - 3, n - 4, n - 5, n - 9, n // 2]))
            elif n > 72 and not ctx.thorough:
                ks = [k for k in ks if k % 3 == n % 3 or k < 8 or n - k < 36]
            for i in range(0, len(ks), 64):
                scs.append(dict(op="extreme", fn=fn, base=[f32(x) for x in base], v=f32(v), ks=ks[i:i + 64], offs=[[rng.randrange(20), 0]]))
    for n in list(range(0, 20)) + lens(rng, ctx.pick(150, 1500), ctx.pick(5, 18)):
        for fn in ("VMaxF32", "VMinF32"):
            vals = []
            while len(vals) < n:
                b = rng.choice([rng.getrandbits(32), rng.getrandbits(32), 0, 1 << 31, 0x7f800000, 0xff800000, f32(rng.uniform(-9, 9))])
                if (b & 0x7fffffff) <= 0x7f800000:
                    vals.append(b)
            scs.append(dict(op="data", fn=fn, **{"in": vals}, no=0, scale=1, enc="key", encin="key", id=0,
                            offs=[[0, 0]] + [[rng.randrange(20), 0] for _ in range(3)]))
    ctx.assumptions.append("no NaN elements; both zeros are equal")
    r.check(scs)


# ----------------------------------------------------------------- C04
def special(rng, finite=False):
    k = rng.randrange(14)
    if k < 3:
        while True:
            b = rng.getrandbits(32)
            if not finite or (b & 0x7fffffff) < 0x7f800000:
                return b
    if k < 8:
        return f32(rng.uniform(-300, 300))
    if finite:
        return rng.choice([0, 1 << 31, 1, 0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff, f32(1.5), f32(-1.0)])
    return rng.choice([0, 1 << 31, 1, 0x80000001, 0x007fffff, 0x7f7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc12345, f32(1e-30), f32(1e30)])


def C04(ctx):
    rng = ctx.rng
    r = Runner(ctx)
    scs = []
    for fn, (ri, ro) in FN.items():
        for n in list(range(0, 18)) + lens(rng, ctx.pick(60, 700), ctx.pick(3, 18)):
            d = dict(op="data", fn=fn, no=n * ro, scale=1.0, enc="bits", encin="bits", id=0,
                     offs=[[0, 0]] + [[rng.randrange(20), rng.randrange(18)] for _ in range(4)])
            if fn in ("F32toi16", "F32toi16ble"):
                s = rng.choice([1.0, 32767.0, anyfloat(rng, -10, 10), 0.001, 2.0 ** -20])
                vals = []
                while len(vals) < n:
                    b = special(rng, True)
                    v = struct.unpack("<f", struct.pack("<I", b))[0]
                    if rng.random() < 0.7:
                        v = rng.uniform(-32767, 32767) / s
                        b = f32(v) if abs(v) < 3e38 else 0
                    if abs(v * s) <= 32766:
                        vals.append(b)
                d.update(scale=s)
                d["in"] = vals
            elif fn == "C64toi8":
                d["in"] = [f32(rng.uniform(-127.9, 127.9)) for _ in range(2 * n)]
            elif fn in CFN or fn in FFN:
                d["in"] = [special(rng) for _ in range((2 if fn in CFN else 1) * n)]
                if fn in ("VMaxF32", "VMinF32"):
                    d["in"] = [b for b in d["in"] if (b & 0x7fffffff) <= 0x7f800000]
                d["scale"] = rng.choice([1.0, 0.0, -0.0, 1e30, 1e-40, anyfloat(rng), 3.0])
                if fn == "VMulC64":
                    d["in2"] = [special(rng) for _ in range(2 * (n + rng.choice([0, 0, 1])))]
                if fn == "VMulC64xF32":
                    d["in2"] = [special(rng) for _ in range(n)]
                if fn.startswith("VAdd"):
                    d["out0"] = [special(rng) for _ in range(len(d["in"]))]
            elif fn == "I16ToBLE":
                d["in"] = [rng.randrange(-32768, 32768) for _ in range(n)]
            else:
                d["in"] = [rng.randrange(256) for _ in range(n * ri + rng.randrange(ri))]
                d["scale"] = rng.choice([1.0, 1 / 32768, anyfloat(rng), 1e-42, 1e38, -0.0])
                if fn == "I16bleToF64":
                    d["scale"] = rng.choice([1.0, rng.uniform(-1, 1), 1e300, 5e-324])
            scs.append(d)
    ctx.assumptions += ["scaled floats stay in the int16 range; NaN payloads are not compared; no NaN for minimum and maximum",
                        "scale factors are finite"]
    r.check(scs, "agree")


CHECKS = dict(C01=C01, C02=C02, C03=C03, C04=C04, V01=V01, V02=V02)
