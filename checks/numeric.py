"""I01, W01, A01: interpolators, windows, arctangents."""
from vlib import *
from kernels import Runner, MODES
from filters import ints

TWO = [m for m in MODES if m[0] in ("portable", "none")]
FEW = [m for m in MODES if m[0] in ("portable", "none", "all")]
KINDS = ["lin", "lin32", "her", "her32", "four", "four32", "six", "six32"]


def I01(ctx):
    model_check(ctx, "MC_Interp", "MC_Interp.cfg", consts=ctx.pick({}, dict(Values="{0, 1, 5, 7}", Len0=7)))
    rng = ctx.rng
    r = Runner(ctx, "numeric", "NumericTrace", TWO)
    scs = []
    for kind in KINDS:
        for n in list(range(0, 9)) * ctx.pick(1, 4):
            s = ints(rng, n, 16)
            if n and rng.random() < 0.3:
                s = [0] * n
                s[rng.randrange(n)] = 16
            scs.append(dict(op="interp", kind=kind, **{"in": s}, xs=[[i, f] for i in range(-5, n + 6) for f in range(16)]))
        for _ in range(ctx.pick(12, 150)):
            n = rng.choice([rng.randrange(1, 12), rng.randrange(12, 300), rng.randrange(300, 1500)])
            s = ints(rng, n, rng.choice([1, 5, 16]))
            xs = [[rng.randrange(-4, n + 5), rng.randrange(16)] for _ in range(60)] + [[n - 1 + d, f] for d in range(-3, 4) for f in (0, 1, 8, 15)]
            if n < 1000 or not kind.endswith("32"):
                xs += [[rng.choice([10 ** 6, 65535, 2 ** 20]), 0]]
            scs.append(dict(op="interp", kind=kind, **{"in": s}, xs=xs))
        for n in (0, 1, 2, 3, 5, 64):
            far = [[m, e] for e in (7, 15, 16, 20, 23, 24, 30, 31, 32, 33, 40, 52, 53, 60, 61, 62, 63, 64, 65, 100, 126) + (() if kind.endswith("32") else (200, 500, 900, 1020)) for m in (1, -1, 3, -3, 2, -2)]
            far += [[m, -e] for e in (1022, 150, 60, 40) for m in (-1, -3)] if not kind.endswith("32") else [[-1, -140], [-3, -40]]
            scs.append(dict(op="far", kind=kind, **{"in": ints(rng, n, 16)}, far=far))
    ctx.assumptions.append("integer samples up to 16, positions in sixteenths (and far outside); the functions are linear in the samples; optimal kernels compared at about 1e-5 (single precision 5e-5)")
    r.check(scs, "trace")


def W01(ctx):
    model_check(ctx, "MC_Windows", "MC_Windows.cfg", consts=dict(MaxLen=ctx.pick(48, 160)))
    rng = ctx.rng
    r = Runner(ctx, "numeric", "NumericTrace", TWO)
    lens = list(range(0, ctx.pick(66, 300))) + [rng.randrange(66, 400) for _ in range(ctx.pick(3, 30))] + [rng.choice([205, 256, 511, 512, 513]), ctx.pick(1000, 8192), ctx.pick(1024, 8191)]
    scs = [dict(op="window", name=w, n=n) for n in lens for w in ("Triangle", "Hamming", "Hanning", "Blackman", "Nuttall")]
    scs += [dict(op="coeff", name=w) for w in ("Hamming", "Hanning", "Blackman")]
    rng.shuffle(scs)
    ctx.assumptions.append("window values compared at 4e-6, symmetry and monotony at 3e-7")
    r.check(scs, "trace")


def fl(rng, e=None):
    m = rng.choice([rng.randrange(1 << 23, 1 << 24), 1 << 23, (1 << 24) - 1, rng.randrange(1 << 23, 1 << 24) >> 12 << 12]) * rng.choice([1, -1])
    return [m, rng.randrange(-72, 27) if e is None else e]


def A01(ctx):
    model_check(ctx, "MC_Arctan", "MC_Arctan.cfg", consts=dict(Ratios=ctx.pick(1500, 2800), Ints=ctx.pick(40, 200)))
    rng = ctx.rng
    r = Runner(ctx, "numeric", "NumericTrace", FEW)
    scs = []
    one = 1 << 23
    for _ in range(ctx.pick(60, 1200)):
        k = rng.randrange(6)
        args = []
        for _ in range(100):
            e = rng.randrange(-72, 27)
            if k == 0:
                a = fl(rng) + fl(rng)
            elif k == 1:
                a = fl(rng, e) + fl(rng, e + rng.randrange(-3, 4))
            elif k == 2:          # around the diagonals
                m = rng.randrange(one, 2 * one - 70000)
                a = [m * rng.choice([1, -1]), e, (m + rng.choice([0, 1, -1, rng.randrange(-60000, 60000)])) * rng.choice([1, -1]), e]
                if abs(a[2]) < one:
                    a[2] = one
            elif k == 3:          # near the axes
                a = fl(rng, e) + fl(rng, max(-72, min(26, e + rng.choice([-1, 1]) * rng.randrange(4, 30))))
            elif k == 4:
                a = fl(rng, e) + [0, 0] if rng.random() < 0.5 else [0, 0] + fl(rng, e)
            else:
                a = fl(rng, 0) + fl(rng, 0)
            args.append(a)
        if k == 4:
            args[0] = [0, 0, 0, 0]
        scs.append(dict(op="atan", args=args))
    # a whole turn in equal steps of the ratio, every octant
    n = ctx.pick(400, 8000)
    pts = []
    for i in range(n + 1):
        m = one + (one - 1) * i // n
        for y, x in ((m - one, m), (m, m - one), (2 * one - m, m), (one, m), (m, one)):
            for sy, sx in ((1, 1), (1, -1)):
                if abs(y) >= 1 and abs(x) >= 1:
                    a = []
                    for v in (sy * y, sx * x):
                        e = 0
                        while abs(v) < one:
                            v, e = v * 2, e - 1
                        while abs(v) >= 2 * one:
                            v, e = v // 2, e + 1
                        a += [v, e]
                    pts.append(a)
    rng.shuffle(pts)
    for i in range(0, len(pts), 200):
        scs.append(dict(op="atan", args=pts[i:i + 200]))
    m = ctx.pick(24, 90)
    grid = [[y, x] for y in range(-m, m + 1) for x in range(-m, m + 1)]
    for i in range(0, len(grid), 400):
        scs.append(dict(op="iatan", args=grid[i:i + 400]))
    for _ in range(ctx.pick(40, 900)):
        args = []
        for _ in range(150):
            t = rng.choice([10, 300, 5000, 32768])
            u = rng.choice([t, t, 1 + t // 100, 32768])
            args.append([rng.randrange(-t, t + 1), rng.randrange(-u, u + 1)])
        args += [[rng.choice([32768, -32768, 32767, 1, -1, 0]), rng.choice([32768, -32768, 32767, -32767, 1, -1, 0])] for _ in range(10)]
        scs.append(dict(op="iatan", args=args))
    # quotients at the limits of tables indexed by them
    args = []
    for x in [1, 2, 3, 5, 7, 16, 33, 63, 64]:
        for q in (512, 511, 256, 128, 2, 1):
            args += [[sy * (q * x + d), sx * x] for d in (-1, 0, 1) for sx in (1, -1) for sy in (1, -1) if abs(q * x + d) <= 32768]
    for x in [256, 255, 257, 512, 1024, 32767, 32768, rng.randrange(300, 32768)]:
        args += [[sy * (x // 256 * m + d), sx * x] for m in (1, 2, 3) for d in (-1, 0, 1) for sx in (1, -1) for sy in (1, -1)]
    for i in range(0, len(args), 200):
        scs.append(dict(op="iatan", args=args[i:i + 200]))
    ctx.assumptions.append("reference angles by CORDIC in the specification (error below 2^-22 rad); arguments of 24-bit mantissas, magnitudes 2^-49 to 2^50, integers up to 2^15; no negative zeros")
    r.check(scs, "trace")


CHECKS = dict(I01=I01, W01=W01, A01=A01)
