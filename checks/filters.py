"""F01..F07: streaming filters and demodulators of dsp."""
import math
from vlib import *
from kernels import Runner, MODES

FEW = [m for m in MODES if m[0] in ("portable", "none", "all")]


def level(rng):
    """samples are multiplied by this power of two, results divided by it"""
    return rng.choice([0, 0, -7, -8, -15, -20, -23, 7, 15, 20])


def far(rng):
    """for filters whose results do not depend on the magnitude at all"""
    return rng.choice([0, 0, -7, -15, -20, -30, -50, -58, 7, 15, 40])


def design_model(ctx, **kw):
    cs = [dict(Down=1, Fast=3, Slow=3, Coef=3), dict(Down=2, Fast=4, Slow=3, Coef=2), dict(Down=3, Fast=5, Slow=2, Coef=1),
          dict(Down=4, Fast=7, Slow=1, Coef=1)]
    for c in cs[:ctx.pick(3, 4)]:
        c["MaxLen"] = ctx.pick(6, 8)
        model_check(ctx, "MC_Filters", "MC_Filters.cfg", consts=c)


def cut(rng, seq, unit=1, style=None):
    """cut a stream (of unit-sized items) into blocks"""
    n = len(seq) // unit
    style = style if style is not None else rng.randrange(5)
    out, i = [], 0
    while i < n:
        if style == 0:
            k = n
        elif style == 1:
            k = 1
        elif style == 2:
            k = rng.randrange(0, 4)
        elif style == 3:
            k = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 64])
        else:
            k = rng.randrange(0, n + 1)
        k = min(k, n - i)
        out.append(seq[i * unit:(i + k) * unit])
        i += k
    if rng.random() < 0.3:
        out.append([])
    return out


def longcut(rng, seq, unit=1):
    """a long stream in one block, in halves, or in pieces of many sizes"""
    n, out, i = len(seq) // unit, [], 0
    style = rng.randrange(3)
    while i < n:
        k = n if style == 0 else (n + 1) // 2 if style == 1 else rng.choice([1, 7, 64, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048])
        out.append(seq[i * unit:(i + k) * unit])
        i += k
    return out


def huge(rng):
    """a length beyond any block of a program that works in pieces"""
    return rng.choice([4097, 4099, 5000, 8192, 8193, 9001, rng.randrange(4100, 10000)])


def ints(rng, n, m):
    return [rng.randrange(-m, m + 1) for _ in range(n)]


def rests(rng, x, u=1):
    """the same samples, often with pauses"""
    x, n = list(x), len(x) // u
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3]) if n > 1 else 0):
        i = rng.randrange(n)
        j = rng.choice([n, n, min(n, i + rng.randrange(1, 12))])
        x[u * i:u * j] = [0] * (u * (j - i))
    return x


def mixed(rng, per):
    """interleave the block steps of several filters, each in its own order"""
    per = [list(p) for p in per if p]
    out = []
    while per:
        p = rng.choice(per)
        out.append(p.pop(0))
        per = [x for x in per if x]
    return out


def off(rng):
    return rng.choice([0, 0, 1, 2, 3, rng.randrange(16)])


def stream(rng, f, kind, blocks, **kw):
    return [dict(op="block", f=f, **{"in": b}, off=off(rng), **kw) for b in blocks]


def F01(ctx):
    design_model(ctx)
    rng = ctx.rng
    r = Runner(ctx, "filt", "FilterTrace")
    scs = []
    # every cut of a short stream into blocks
    for d in range(1, 6):
        for n in range(0, 8):
            seq = ints(rng, 2 * n, 9)
            for mask in range(1 << max(n - 1, 0)):
                bl, cur = [], seq[:2]
                for i in range(1, n):
                    if mask >> (i - 1) & 1:
                        bl.append(cur)
                        cur = []
                    cur = cur + seq[2 * i:2 * i + 2]
                bl.append(cur)
                if mask % 5 == 0:
                    bl.insert(rng.randrange(len(bl) + 1), [])
                scs.append(dict(op="run", steps=[dict(op="new", level=far(rng), f=0, kind="decim", p=[d])] + stream(rng, 0, "decim", bl)))
    # long streams, long blocks, large factors
    for _ in range(ctx.pick(18, 90)):
        d = rng.choice([1, 3, 8, 63, 127, 128, 255, 256, 257, 1000, 1024, 2000, rng.randrange(1, 3000)])
        seq = ints(rng, 2 * rng.choice([1000, 2047, 4097, rng.randrange(500, 5000)]), rng.choice([3, 1000]))
        scs.append(dict(op="run", steps=[dict(op="new", level=far(rng), f=0, kind="decim", p=[d])] + stream(rng, 0, "decim", longcut(rng, seq, 2))))
    for d in [1, rng.randrange(2, 9), rng.randrange(9, 5000)] * ctx.pick(1, 8):
        seq = ints(rng, 2 * huge(rng), 1000)
        scs.append(dict(op="run", steps=[dict(op="new", level=far(rng), f=0, kind="decim", p=[d])] + stream(rng, 0, "decim", [seq, seq[:2 * d]])))
    for _ in range(ctx.pick(250, 3000)):
        steps, per = [], []
        for f in range(rng.choice([1, 1, 1, 2, 3])):
            d = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 16, 17, 64, rng.randrange(1, 40)])
            steps.append(dict(op="new", level=far(rng), f=f, kind="decim", p=[d]))
            seq = ints(rng, 2 * rng.choice([rng.randrange(0, 20), rng.randrange(20, 150)]), rng.choice([3, 1000, 30000]))
            per.append(stream(rng, f, "decim", cut(rng, seq, 2)))
        scs.append(dict(op="run", steps=steps + mixed(rng, per)))
    ctx.assumptions.append("integral samples, so that sums are exact")
    r.check(scs, "trace")


def F02(ctx):
    design_model(ctx)
    rng = ctx.rng
    r = Runner(ctx, "filt", "FilterTrace")
    scs = []
    ratios = [(f, s) for f in range(1, ctx.pick(10, 16)) for s in range(1, f + 1)]
    ratios += [(f, s) for f, s in [(1000, 48), (250, 48), (480, 441), (441, 160), (32, 7), (64, 63), (128, 1), (17, 16)]]
    for k, (f, s) in enumerate(ratios * ctx.pick(4, 20)):
        steps, per = [], []
        for i in range(1 if k % 3 else 2):
            if i:
                f, s = rng.choice(ratios)
            n = rng.choice([rng.randrange(0, 30), rng.randrange(30, 160)])
            sc = 1 if f & (f - 1) == 0 and s == 1 else 1024 // f if f < 1000 else 1
            # outputs keep their precision: |sum * slow| * scale stays small
            m = max(1, min(200, (1 << 14) // ((-(-f // s)) * s)))
            steps.append(dict(op="new", level=far(rng), f=i, kind="ratio", p=[f, s], scale=max(2, sc)))
            per.append(stream(rng, i, "ratio", cut(rng, ints(rng, n, m))))
        scs.append(dict(op="run", steps=steps + mixed(rng, per)))
    for _ in range(ctx.pick(8, 60)):
        f, s = rng.choice(ratios + [(1000, 999), (500, 1), (4096, 1), (192, 44)])
        m = max(1, min(200, (1 << 14) // ((-(-f // s)) * s)))
        seq = ints(rng, rng.choice([1000, 2047, 4097, rng.randrange(500, 5000)]), m)
        scs.append(dict(op="run", steps=[dict(op="new", level=far(rng), f=0, kind="ratio", p=[f, s], scale=max(2, 1024 // f))] + stream(rng, 0, "ratio", longcut(rng, seq))))
    for _ in range(ctx.pick(3, 24)):
        f, s = rng.choice(ratios)
        m = max(1, min(200, (1 << 14) // ((-(-f // s)) * s)))
        scs.append(dict(op="run", steps=[dict(op="new", level=far(rng), f=0, kind="ratio", p=[f, s], scale=max(2, 1024 // f))] + stream(rng, 0, "ratio", [ints(rng, huge(rng), m), ints(rng, 2 * f, m)])))
    ctx.assumptions.append("integral samples; outputs to half a unit of the recorded scale")
    r.check(scs, "trace")


def F03(ctx):
    model_check(ctx, "MC_Angle", "MC_Angle.cfg", consts=dict(MaxN=ctx.pick(24, 90)), workers=1)
    design_model(ctx)
    rng = ctx.rng
    r = Runner(ctx, "filt", "FilterTrace")
    scs = []
    for k in range(ctx.pick(90, 900)):
        steps, per = [], []
        for f in range(rng.choice([1, 1, 2])):
            steps.append(dict(op="new", level=level(rng), f=f, kind="fm", scale=1 << 20))
            m = rng.choice([1, 3, 10, 100, 1000])
            n = rng.choice([rng.randrange(0, 12), rng.randrange(12, 70)])
            kind = rng.randrange(3)
            seq = ints(rng, 2 * n, m)
            if kind == 0:      # a rotating phasor
                w, p = rng.uniform(-3.1, 3.1), rng.uniform(-3, 3)
                seq = [v for i in range(n) for v in (round(1000 * math.cos(p + w * i)), round(1000 * math.sin(p + w * i)))]
            if kind == 1:      # axes and zeros
                seq = [v for i in range(n) for v in rng.choice([(0, 0), (5, 0), (-5, 0), (0, 7), (0, -7), (3, 3), (-3, 3), (3, -3), (-3, -3)])]
            pre, st = [0, 0], []
            for b in cut(rng, seq, 2):
                st.append(dict(op="block", f=f, **{"in": b}, off=off(rng), p=pre, room=rng.choice([0, 0, 1, 9])))
                pre = b[-2:] if b else pre
            per.append(st)
        scs.append(dict(op="run", steps=steps + mixed(rng, per)))
    for k in range(ctx.pick(5, 30)):          # long blocks
        st, pre = [dict(op="new", level=level(rng), f=0, kind="fm", scale=1 << 20)], [0, 0]
        x = ints(rng, 2 * (huge(rng) if k == 0 else rng.choice([700, 1025, 2050])), rng.choice([3, 1000]))
        for b in [x, x[:20]] if k == 0 else longcut(rng, x, 2):
            st.append(dict(op="block", f=0, **{"in": b}, off=off(rng), p=pre, room=0))
            pre = b[-2:]
        scs.append(dict(op="run", steps=st))
    for k in range(ctx.pick(20, 100)):
        scs.append(dict(op="run", steps=[dict(op="polar", **{"in": ints(rng, 4, rng.choice([1, 2, 30, 1000]))}) for _ in range(40)]))
    ctx.assumptions.append("integral samples up to 1000 (products exact in float32)")
    r.check(scs, "trace")


def F04(ctx):
    design_model(ctx)
    rng = ctx.rng
    r = Runner(ctx, "filt", "FilterTrace")
    scs = []
    for n in list(range(0, ctx.pick(50, 130))) + [64, 100, 256, 257] + rng.sample([128, 511, 512, 513, 1023, 1024, 1025, 2049], ctx.pick(2, 8)):
        for m in (9, 1000000):
            seq = ints(rng, 8 * n, m)
            steps = [dict(op="new", level=far(rng), f=0, kind="rot"), dict(op="new", level=far(rng), f=1, kind="irot")]
            bl = cut(rng, seq, 8, 0 if m == 9 else 3)
            steps += [dict(op="block", f=f, **{"in": b}, off=off(rng)) for b in bl for f in (0, 1)]
            scs.append(dict(op="run", steps=steps))
    # every magnitude: all 31 bits in the integer filter, 24 significant ones in the float filter
    for n in (1, 2, 3, 4, 5, 8, 9, 16):
        seq = [rng.choice([1, -1]) * rng.choice([2**31 - 1, 2**30 + 3, 2**24 + 1, rng.randrange(2**31), rng.randrange(2**26)])
               for _ in range(8 * n)]
        fseq = [rng.choice([1, -1]) * (2**24 - 1 - rng.randrange(2**rng.randrange(25))) * 2**rng.choice([0, 0, 3, 5])
                for _ in range(8 * n)]
        steps = [dict(op="new", level=far(rng), f=0, kind="rot"), dict(op="new", level=far(rng), f=1, kind="irot")]
        for f, q in ((0, fseq), (1, seq)):
            steps += [dict(op="block", f=f, **{"in": b}, off=off(rng)) for b in cut(rng, q, 8, 3)]
        scs.append(dict(op="run", steps=steps))
    ctx.assumptions.append("integral samples (exact in float32); block lengths are multiples of four samples")
    r.check(scs, "trace")


def simulate(b, a, x):
    y = []
    for n in range(len(x)):
        v = sum(b[j] * x[n - j] for j in range(len(b)) if n >= j) - sum(a[j] * y[n - j] for j in range(1, len(a)) if n >= j)
        y.append(v / a[0])
    return y


def f32able(v):
    while v and v % 2 == 0:
        v //= 2
    return abs(v) < 1 << 24


def tracked(rng, kinds, order=None):
    """large integers that single precision cannot hold: exact solution tracked by the specification"""
    while True:
        kind = rng.choice(kinds)
        if kind == "dc":
            p = rng.choice([(1, 1), (0, 1), (-1, 1)])
            b, a = [1, -1], [1, -p[0]]
        else:
            b, a, scale, _ = recursive(rng)
            if scale != 1 or abs(a[0]) != 1 or (order and len(a) > order):
                continue
            if order:
                b, a = b + [0] * (order - len(b)), a + [0] * (order - len(a))
        u = 2 if kind == "ciir" else 1
        n = rng.randrange(2, 24)
        big = rng.choice([1 << 24, 1 << 25, 1 << 22, 1 << 26])
        x = []
        while len(x) < u * n:
            v = rng.choice([0, 1, -1, 3, big, -big, big + 2, rng.randrange(-big, big), rng.randrange(-99, 100)])
            if f32able(v):
                x.append(v)
        lim = max([abs(v) for k in range(u) for v in simulate(b, a, x[k::u])])
        if sum(map(abs, b)) * 2 * big + sum(map(abs, a)) * lim < 1 << 31 and lim < 1 << 29:
            break
    new = dict(op="new", level=far(rng), f=0, kind=kind, scale=1, track=1)
    new.update(dict(p=list(p)) if kind == "dc" else dict(b=b, a=a))
    return dict(op="run", steps=[new] + [
        dict(op="block", f=0, **{"in": bl}, f32=int(kind == "biquad" and rng.random() < 0.6), one=int(kind == "dc" and rng.random() < 0.4),
             inplace=int(rng.random() < 0.4), room=rng.choice([0, 0, 2])) for bl in cut(rng, x, u)])


def F05(ctx):
    design_model(ctx)
    rng = ctx.rng
    r = Runner(ctx, "filt", "FilterTrace", FEW)
    scs = []
    for k in range(ctx.pick(150, 1500)):
        steps, per = [], []
        for f in range(rng.choice([1, 1, 2])):
            kind = rng.choice(["dc", "dc32"])
            exact = rng.random() < 0.5
            p = rng.choice([(1, 1), (0, 1), (-1, 1)] if exact else [(995, 1000), (9, 10), (1, 2), (-1, 2), (3, 4), (99, 100)])
            scale = 1 if exact else 256
            steps.append(dict(op="new", level=far(rng), f=f, kind=kind, p=list(p), scale=scale))
            n = rng.choice([rng.randrange(0, 10), rng.randrange(10, 120)])
            x = rests(rng, ints(rng, n, rng.choice([3, 100])))
            if rng.random() < 0.3:
                x = [v + 77 for v in x]
            per.append([dict(op="block", f=f, **{"in": b}, one=int(rng.random() < 0.4), inplace=int(rng.random() < 0.4), room=rng.choice([0, 0, 3]))
                        for b in cut(rng, x)])
        scs.append(dict(op="run", steps=steps + mixed(rng, per)))
    for k in range(ctx.pick(6, 30)):          # long blocks
        p = rng.choice([(1, 1), (-1, 1), (995, 1000), (3, 4)])
        x = ints(rng, huge(rng) if k < 4 else rng.choice([1000, 2049, rng.randrange(500, 3000)]), 9)
        scs.append(dict(op="run", steps=[dict(op="new", level=far(rng), f=0, kind=("dc", "dc32")[k % 2], p=list(p), scale=1 if abs(p[0]) == p[1] else 256)] + [
            dict(op="block", f=0, **{"in": b}, one=0, inplace=int(rng.random() < 0.4), room=0) for b in ([x, x[:9]] if k < 4 else longcut(rng, x))]))
    scs += [tracked(rng, ["dc"]) for _ in range(ctx.pick(60, 600))]
    ctx.assumptions.append("a in {-1, 0, 1}: exact; other a: each output satisfies the recurrence with the recorded previous one within rounding")
    r.check(scs, "trace")


def poly(f, g):
    r = [0] * (len(f) + len(g) - 1)
    for i, a in enumerate(f):
        for j, b in enumerate(g):
            r[i + j] += a * b
    return r


ROOTS = [[1, 1], [1, -1], [1, 0, 1], [1, 1, 1], [1, -1, 1], [1, 0, 0, -1], [1, 0, 0, 0, 1], [1, 0]]


def recursive(rng):
    """(b, a, scale, magnitude): integer coefficients of a filter that stays small"""
    if rng.random() < 0.5:
        # poles at roots of unity, each once: exact integers
        a = [1]
        for p in rng.sample(ROOTS[:5], rng.randrange(0, 3)):
            a = poly(a, p)
        while rng.random() < 0.2:
            a = a + [0]
        b = ints(rng, len(a), 4)
        lead = rng.choice([1, 1, 2, -1, 4, -8])
        return [v * lead for v in b], [v * lead for v in a], 1, 20
    a = [1]
    den = 1
    for _ in range(rng.randrange(1, 3)):
        d = rng.choice([2, 4, 8])
        if rng.random() < 0.4:
            p = [d, rng.randrange(-d + 1, d)]
        else:
            q = rng.randrange(-d + 1, d)
            p = [d, rng.randrange(-(d + q) + 1, d + q), q]
        a = poly(a, p)
        den *= d
    b = ints(rng, len(a), 6)
    lead = rng.choice([1, 1, 3, -1, -5])
    return [v * lead for v in b], [v * lead for v in a], 256, 20


def F06(ctx):
    design_model(ctx)
    rng = ctx.rng
    r = Runner(ctx, "filt", "FilterTrace", FEW)
    scs = []
    kinds = ["iir", "ciir", "ciir32"]
    for k in range(ctx.pick(220, 2500)):
        steps, per = [], []
        nf = rng.choice([1, 1, 2, 3])
        spoil = rng.random() < 0.4
        f = 0
        while f < nf:
            kind = rng.choice(kinds)
            b, a, scale, m = recursive(rng)
            n = rng.choice([rng.randrange(0, 8), rng.randrange(8, 50)])
            u = 1 if kind == "iir" else 2
            x = rests(rng, ints(rng, u * n, m), u)
            if max([abs(v) for v in simulate(b, a, x[::u]) + (simulate(b, a, x[1::2]) if u == 2 else [])] + [0]) > 4000:
                continue
            room = 0
            if f and kind != "ciir32" and steps[-1].get("kind") in ("iir", "ciir") and rng.random() < 0.7:
                room = 1            # the same slices again
                b, a, scale = steps[-1]["b"], steps[-1]["a"], steps[-1]["scale"]
                if max([abs(v) for v in simulate(b, a, x[::u]) + (simulate(b, a, x[1::2]) if u == 2 else [])] + [0]) > 4000:
                    continue
            steps.append(dict(op="new", level=far(rng), f=f, kind=kind, b=b, a=a, scale=scale, room=room))
            per.append([dict(op="block", f=f, **{"in": bl}, inplace=int(rng.random() < 0.4), room=rng.choice([0, 0, 2])) for bl in cut(rng, x, u)])
            f += 1
        if spoil:
            steps.append(dict(op="spoil", f=0))
        scs.append(dict(op="run", steps=steps + mixed(rng, per)))
    scs += [tracked(rng, ["iir", "ciir"]) for _ in range(ctx.pick(120, 1200))]
    scs += [longrun(rng, rng.choice(kinds)) for _ in range(ctx.pick(6, 40))]
    scs += [longrun(rng, k, 1) for k in kinds * ctx.pick(1, 6)]
    for kind in kinds:         # refused coefficients
        for b, a in [([], []), ([1], []), ([], [1]), ([1, 2], [1]), ([1], [1, 2]), ([1, 2, 3], [2, 1])]:
            scs.append(dict(op="run", steps=[dict(op="new", level=far(rng), f=0, kind=kind, b=b, a=a)]))
    ctx.assumptions.append("outputs of filters with poles at roots of unity exact; others satisfy the equation with the recorded earlier outputs within rounding")
    r.check(scs, "trace")


def longrun(rng, kind, whole=0, single=0):
    """a recursive filter over long blocks (whole: one very long, sparse one and the start of another)"""
    u = 2 if kind.startswith("ciir") else 1
    while True:
        b, a, scale, m = recursive(rng)
        if kind == "biquad":
            if len(a) > 3:
                continue
            b, a = b + [0] * (3 - len(a)), a + [0] * (3 - len(a))
        if whole:
            n = u * huge(rng)
            x = [0] * n
            for i in [rng.randrange(n) for _ in range(30)] + list(range(n - 16, n)):
                x[i] = rng.randrange(-m, m + 1)
        else:
            x = rests(rng, ints(rng, u * rng.choice([600, 1025, rng.randrange(500, 2500)]), rng.choice([1, m])), u)
        if max([abs(v) for k in range(u) for v in simulate(b, a, x[k::u])]) <= 4000:
            break
    return dict(op="run", steps=[dict(op="new", level=far(rng), f=0, kind=kind, b=b, a=a, scale=scale)] + [
        dict(op="block", f=0, **{"in": bl}, f32=single, inplace=int(rng.random() < 0.4), room=0)
        for bl in ([x, [0] * (4 * u)] if whole else longcut(rng, x, u))])


TRIPLES = [(3, 4, 5), (4, 3, 5), (0, 1, 1), (-3, 4, 5), (-4, 3, 5), (5, 12, 13), (12, 5, 13), (-5, 12, 13), (8, 15, 17), (15, 8, 17), (-12, 5, 13), (24, 7, 25), (7, 24, 25)]
FNS = ["LowPass", "HighPass", "BandPassSkirt", "BandPassPeak", "Notch", "AllPass", "Peaking", "LowShelf", "HighShelf"]


def retuned(rng):
    """a biquad whose coefficients change between blocks"""
    while True:
        parts, scale, x, y = [], 1, [], []
        for _ in range(rng.randrange(2, 5)):
            b, a, sc, m = recursive(rng)
            if len(a) > 3:
                break
            b, a = b + [0] * (3 - len(b)), a + [0] * (3 - len(a))
            if rng.random() < 0.2 and parts:        # the same filter, scaled
                k = rng.choice([1, 2, -1, 3])
                b, a = [v * k for v in parts[-1][0]], [v * k for v in parts[-1][1]]
                sc = scale
            scale = max(scale, sc)
            seg = rests(rng, ints(rng, rng.randrange(0, 25), m))
            parts.append((b, a, seg))
            for v in seg:
                x.append(v)
                n = len(x) - 1
                y.append((sum(b[j] * x[n - j] for j in range(3) if n >= j) - sum(a[j] * y[n - j] for j in (1, 2) if n >= j)) / a[0])
        else:
            if max([abs(v) for v in y] + [0]) <= 4000 and (scale > 1 or all(v == int(v) for v in y)):
                break
    steps = []
    for b, a, seg in parts:
        steps.append(dict(op="retune", f=0, b=b, a=a) if steps else dict(op="new", level=far(rng), f=0, kind="biquad", b=b, a=a, scale=scale))
        steps += [dict(op="block", f=0, **{"in": bl}, f32=int(rng.random() < 0.4), inplace=int(rng.random() < 0.4), room=0) for bl in cut(rng, seg)]
    return dict(op="run", steps=steps)


def F07(ctx):
    model_check(ctx, "MC_Biquad", "MC_Biquad.cfg")
    design_model(ctx)
    rng = ctx.rng
    r = Runner(ctx, "filt", "FilterTrace", FEW)
    scs = []
    for k in range(ctx.pick(180, 2000)):
        while True:
            b, a, scale, m = recursive(rng)
            if len(a) <= 3:
                b, a = b + [0] * (3 - len(a)), a + [0] * (3 - len(a))
                n = rng.choice([rng.randrange(0, 8), rng.randrange(8, 60)])
                x = rests(rng, ints(rng, n, m))
                if max([abs(v) for v in simulate(b, a, x)] + [0]) <= 4000:
                    break
        steps = [dict(op="new", level=far(rng), f=0, kind="biquad", b=b, a=a, scale=scale)]
        steps += [dict(op="block", f=0, **{"in": bl}, f32=int(rng.random() < 0.4), inplace=int(rng.random() < 0.4), room=rng.choice([0, 0, 2])) for bl in cut(rng, x)]
        scs.append(dict(op="run", steps=steps))
    scs += [retuned(rng) for _ in range(ctx.pick(120, 1200))]
    scs += [tracked(rng, ["biquad"], 3) for _ in range(ctx.pick(120, 1200))]
    scs += [longrun(rng, "biquad") for _ in range(ctx.pick(6, 40))]
    scs += [longrun(rng, "biquad", 1, f) for f in (0, 1) * ctx.pick(1, 6)]
    def gcd6(v):
        g = 0
        for x in v:
            g = math.gcd(g, abs(x))
        return g
    for fn in FNS:
        for _ in range(ctx.pick(60, 600)):
            c, s, h = rng.choice(TRIPLES[:9])
            q, g, db = [1, 1], [1, 1, 1, 1], 0.0
            if fn in FNS[:7]:
                q = [rng.randrange(1, 9), rng.randrange(1, 5)]
            if fn in FNS[6:]:
                n, d = rng.choice([(1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (3, 2), (10, 1), (1, 10), (5, 4), (2, 3)])
                db = 40 * math.log10(n / d)
                rn, rd = rng.choice([(1, 1), (2, 1), (1, 2), (3, 2), (3, 1), (5, 2), (2, 3)])
                g = [n, d, rn, rd]
                if fn != "Peaking":
                    # slope (A^2+1)/((A-1)^2+r^2)
                    sn, sd = (n * n + d * d) * rd * rd, (n - d) ** 2 * rd * rd + rn * rn * d * d
                    k = math.gcd(sn, sd)
                    q = [sn // k, sd // k]
            fs = rng.choice([1.0, 44100.0, 48000.0, 8000.0])
            scs.append(dict(op="run", steps=[dict(op="design", fn=fn, p=[c, s, h], q=q, gain=g, db=db, fs=fs, freq=fs * math.atan2(s, c) / (2 * math.pi))]))
    ctx.assumptions += ["recurrences as for F06", "designs at frequencies with rational sine and cosine, rational Q, gain and shelf term; coefficients to 2^-14"]
    r.check(scs, "trace")


CHECKS = dict(F01=F01, F02=F02, F03=F03, F04=F04, F05=F05, F06=F06, F07=F07)
