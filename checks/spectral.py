"""G01, G02, T01: Goertzel filters, sliding DFT, DTMF detector."""
import math
from vlib import *
from kernels import Runner, MODES
from filters import cut, longcut, mixed, ints, level, far

FEW = [m for m in MODES if m[0] in ("portable", "none", "all")]


def design_model(ctx):
    for b, v, s in ctx.pick([(1, "{0, 1, 3}", 8), (2, "{0, 1}", 8)], [(1, "{0, 1, 3}", 9), (2, "{0, 1}", 13), (3, "{0, 1}", 12), (1, "{0, 1, 2, 5}", 8)]):
        model_check(ctx, "MC_Spectral", "MC_Spectral.cfg", consts=dict(Blocks=b, Values=v, MaxSteps=s))


def tie(n, f, fs):
    return (2 * n * f + fs) % (2 * fs) == 0


def samples(rng, n, m):
    k = rng.randrange(6)
    if k == 0:
        return [0] * n
    if k == 1:
        return [m] * n
    if k == 2:
        v = [0] * n
        if n:
            v[rng.randrange(n)] = m
        return v
    if k == 3:
        f, p = rng.random() * math.pi, rng.random() * 7
        return [round(m * math.cos(f * i + p)) for i in range(n)]
    return ints(rng, n, m)


def G01(ctx):
    design_model(ctx)
    rng = ctx.rng
    r = Runner(ctx, "spectral", "SpectralTrace", FEW)
    scs = []
    for j in range(ctx.pick(220, 2500)):
        steps, per = [], []
        for f in range(rng.choice([1, 1, 2, 3])):
            kind = rng.choice(["goe", "goe32", "cgoe"])
            u = 2 if kind == "cgoe" else 1
            n = rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 16, rng.randrange(1, 60), rng.randrange(60, ctx.pick(128, 260))])
            m = max(1, min(20, 900 // (n * u)))
            prec = 20
            if rng.random() < 0.2:
                prec, m = 14, max(1, min(120, 15000 // (n * u)))
            fs = rng.choice([8000, 44100, 48000, n, 2 * n, 1000, 100 * n, 11025])
            rf = rng.random() < 0.15           # products of block size and frequency beyond 32 bits
            if rf:
                n = rng.randrange(16, 100)
                m = max(1, min(20, 900 // (n * u)))
                prec, fs = 20, rng.choice([240000, 2400000, 10000000, 250000])
            fr = []
            while len(fr) < rng.choice([0, 1, 1, 2, 3, 4, 8]):
                c = rng.choice([0, fs // 2, fs // 4, fs - 1, fs // n, rng.randrange(fs), rng.randrange(fs), rng.randrange(fs, 2 * fs)] + fr[:1])
                if rng.random() < 0.1 and n <= 64 and fs <= 48000:
                    c = rng.randrange(10 ** 6, 10 ** 7)
                if rf:
                    c = rng.randrange(3 * 10 ** 8)
                if not tie(n, c, fs) and 2 * n * (c % fs) + fs < 1 << 31:
                    fr.append(c)
                elif rng.random() < 0.2:
                    break
            mine = [dict(op="new", level=far(rng), f=f, kind=kind, freqs=fr, fs=fs, n=n, prec=prec)]
            for _ in range(rng.choice([1, 2, 3, 4])):
                if len(mine) > 1 and rng.random() < 0.25:        # an abandoned block
                    mine += [dict(op="feed", f=f, **{"in": b}) for b in cut(rng, samples(rng, u * rng.randrange(0, n + 1), m), u)]
                    if rng.random() < 0.5:
                        mine.append(dict(op="query", f=f, order=rng.randrange(2)))
                    mine.append(dict(op="reset", f=f))
                for b in cut(rng, samples(rng, u * n, m), u):
                    mine.append(dict(op="feed", f=f, **{"in": b}))
                    if rng.random() < 0.1:
                        mine.append(dict(op="query", f=f, order=rng.randrange(2)))
                mine.append(dict(op="query", f=f, order=rng.randrange(2)))
                if rng.random() < 0.3:
                    mine.append(dict(op="query", f=f, order=rng.randrange(2)))
                if rng.random() < 0.3:
                    mine.append(dict(op="feed", f=f, **{"in": samples(rng, u * rng.randrange(1, 5), m)}))
                mine.append(dict(op="reset", f=f))
                if rng.random() < 0.2:
                    mine.append(dict(op="reset", f=f))
            per.append(mine)
        scs.append(dict(op="run", steps=mixed(rng, per)))
    # every cut of one short block
    for kind in ("goe", "goe32", "cgoe"):
        u = 2 if kind == "cgoe" else 1
        for n in range(1, 6):
            for mask in range(1 << (n - 1)):
                seq = ints(rng, u * n, 20)
                steps = [dict(op="new", level=far(rng), f=0, kind=kind, freqs=list(range(n)), fs=n, n=n, prec=20)]
                cur = seq[:u]
                for i in range(1, n):
                    if mask >> (i - 1) & 1:
                        steps.append(dict(op="feed", f=0, **{"in": cur}))
                        cur = []
                    cur = cur + seq[i * u:(i + 1) * u]
                steps += [dict(op="feed", f=0, **{"in": cur}), dict(op="query", f=0, order=0)]
                scs.append(dict(op="run", steps=steps))
    # long blocks of sparse samples, in one call and in pieces
    for n in ctx.pick([rng.randrange(260, 1100), rng.choice([2049, 4096, 4097]), rng.randrange(4100, 9000)],
                      [rng.randrange(260, 4000) for _ in range(4)] + [4095, 4096, 4097, 8191, 8192, 8193, 16385]):
        for kind in ("goe", "goe32", "cgoe"):
            u = 2 if kind == "cgoe" else 1
            fs = rng.choice([8000, 44100, n])
            fr = [c for c in (rng.randrange(fs), rng.choice([0, fs // 2, fs // n, rng.randrange(fs)])) if not tie(n, c, fs) and 2 * n * c + fs < 1 << 31]
            x = [0] * (u * n)
            for q in {0, n - 1, 4096 % n, rng.randrange(n), rng.randrange(n), rng.randrange(n)}:
                for d in range(u):
                    x[u * q + d] = rng.randrange(-9, 10)
            steps = [dict(op="new", level=far(rng), f=0, kind=kind, freqs=fr, fs=fs, n=n, prec=20)]
            for b in ([x] if rng.random() < 0.6 else longcut(rng, x, u)):
                steps.append(dict(op="feed", f=0, **{"in": b}))
            steps.append(dict(op="query", f=0, order=rng.randrange(2)))
            scs.append(dict(op="run", steps=steps))
    ctx.assumptions.append("integer samples; results compared with a fixed-point DFT (bin error below 2e-6 per unit of sample mass); targets exactly between two bins are not used")
    r.check(scs, "trace")


def G02(ctx):
    design_model(ctx)
    rng = ctx.rng
    r = Runner(ctx, "spectral", "SpectralTrace", FEW)
    scs = []
    for j in range(ctx.pick(260, 3000)):
        steps, per = [], []
        for f in range(rng.choice([1, 1, 2, 3])):
            kind = rng.choice(["sdft", "sdft32"])
            n = rng.choice([1, 2, 3, 4, 5, 6, 8, 9, 12, 16, rng.randrange(1, 33)])
            k = rng.choice([0, n - 1, n // 2, rng.randrange(n)])
            wl = rng.choice([0, 1, 3, 3, 5, 7])
            while wl > n:
                wl -= 2
            wl = max(wl, 0)
            win = [rng.choice([8, -4, 4, 1, -2, 3, 0]) for _ in range(wl)]
            if wl == 3 and rng.random() < 0.5:
                win = [-2, 4, -2]
            sw = max(1, sum(map(abs, win)) if win else 8)
            prec = rng.choice([14, 16, 18])
            m = max(1, min(50, ((1 << (28 - prec)) * 8) // (sw * n * 2)))
            if 2 * n * m * sw >= 1 << (31 - prec):
                prec, m = 14, 3
            mine = [dict(op="snew", level=far(rng), f=f, kind=kind, k=k, n=n, win=win, wden=8, prec=prec)]
            tot = rng.choice([rng.randrange(0, n + 2), rng.randrange(n, 4 * n + 4), rng.randrange(20, ctx.pick(120, 400))])
            mine += [dict(op="sblock", f=f, **{"in": b}) for b in cut(rng, samples(rng, 2 * tot, m), 2)]
            per.append(mine)
        scs.append(dict(op="run", steps=mixed(rng, per)))
    for n in ctx.pick([rng.choice([255, 256, 257, 300]), rng.choice([511, 512, 513, 700]), rng.choice([1023, 1024, 1025, 1200]), rng.choice([1500, 2049, 2050])],
                      [255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000]):
        for kind in ("sdft", "sdft32"):
            win = rng.choice([[], [-2, 4, -2], [1, -2, 3, -2, 1]])
            steps = [dict(op="snew", level=far(rng), f=0, kind=kind, k=rng.choice([0, 1, n - 1, n // 2, rng.randrange(n)]), n=n, win=win, wden=8, prec=14)]
            x = [0] * (2 * (2 * n + rng.randrange(2, n)))
            hot = [rng.choice([0, 1, n - 1, n, rng.randrange(2 * n)]) for _ in range(rng.randrange(3, 9))]
            for i in hot:
                x[2 * i], x[2 * i + 1] = rng.randrange(-9, 10), rng.randrange(-9, 10)
            marks = {i + d for i in hot[:4] for d in (1, n, n + 1)} | {rng.randrange(1, len(x) // 2) for _ in range(2)}
            done = 0
            for b in longcut(rng, x, 2):
                m = len(b) // 2
                steps.append(dict(op="sfew", f=0, **{"in": b}, at=sorted(i - done for i in marks if done < i <= done + m)))
                done += m
            scs.append(dict(op="run", steps=steps))
    ctx.assumptions.append("integer samples, window coefficients in eighths; windows up to 2050 (quick) or 5000 with sparse samples, otherwise at most %d samples per history; single precision gets a bound that grows with the number of samples" % ctx.pick(120, 400))
    r.check(scs, "trace")


def tone(rng, fl, fh, fs, n, a, b):
    p, q = rng.random() * 7, rng.random() * 7
    return [round(a * math.cos(2 * math.pi * fl * i / fs + p) + b * math.cos(2 * math.pi * fh * i / fs + q)) for i in range(n)]


LOW, HIGH = [697, 770, 852, 941], [1209, 1336, 1477, 1633]


def T01(ctx):
    design_model(ctx)
    rng = ctx.rng
    r = Runner(ctx, "spectral", "SpectralTrace", FEW)
    scs = [dict(op="run", steps=[dict(op="table")])]
    # all sixteen keys, standard detector and the two equivalent ones
    for kind in ("std", "nil", "hamming", "rect"):
        for fs, n in [(8000, 205)] + ctx.pick([], [(8000, 212), (44100, 1100 // 1)] if False else []):
            keys = [(i, k) for i in range(4) for k in range(4)]
            rng.shuffle(keys)
            for part in range(0, 16, 4):
                steps = [dict(op="dnew", level=far(rng), f=0, kind=kind, low=LOW, high=HIGH, fs=fs, n=n)]
                for i, k in keys[part:part + 4]:
                    a = rng.choice([30, 20, 10])
                    b = rng.choice([a, a * 2, a // 2, 30])
                    ln = n + rng.choice([0, 0, 1, 50])
                    t = tone(rng, LOW[i], HIGH[k], fs, n, a, b)
                    t += tone(rng, LOW[(i + 1) % 4], HIGH[(k + 2) % 4], fs, ln - n, 60, 60)
                    steps.append(dict(op="dfeed", f=0, tone=[i, k], **{"in": t}))
                    if rng.random() < 0.3:
                        steps.append(dict(op="dfeed", f=0, **{"in": [0] * rng.choice([n, n + 3, 5, 0])}))
                    if rng.random() < 0.3:
                        steps.append(dict(op="dfeed", f=0, **{"in": t[:rng.randrange(n)]}))
                scs.append(dict(op="run", steps=steps))
    # own tables, windows and block sizes; several detectors, often of one size
    for j in range(ctx.pick(150, 1500)):
        steps, per = [], []
        same = rng.random() < 0.6
        for f in range(rng.choice([1, 1, 2, 2, 3])):
            if f == 0 or not same:
                n = rng.choice([rng.randrange(8, 30), rng.randrange(30, ctx.pick(70, 200)), rng.randrange(1, 8)])
            fs = rng.choice([8000, n * 10, 44100, n])
            bins = list(range(1, max(2, n // 2)))
            rng.shuffle(bins)
            nl = rng.randrange(1, 5)
            nh = rng.randrange(1, 6)
            if len(bins) < nl + nh:
                bins = [rng.randrange(max(1, n)) for _ in range(nl + nh)]
            lo = [b * fs // n for b in sorted(bins[:nl])]
            hi = [b * fs // n for b in sorted(bins[nl:nl + nh])]
            if any(tie(n, v, fs) for v in lo + hi):
                continue
            kind = rng.choice(["rect", "own", "hamming", "nil"])
            mine = [dict(op="dnew", level=far(rng), f=f, kind=kind, low=lo, high=hi, fs=fs, n=n,
                         win=[rng.randrange(0, 17) for _ in range(n)] if kind == "own" else [])]
            m = min(100, 14000 // n)
            for _ in range(rng.randrange(1, 5)):
                ln = rng.choice([n, n, n, n + rng.randrange(1, 9), rng.randrange(0, n + 1)])
                if rng.random() < 0.6:
                    x = tone(rng, rng.choice(lo), rng.choice(hi), fs, ln, rng.uniform(0, m / 2), rng.uniform(0, m / 2))
                else:
                    x = samples(rng, ln, m)
                mine.append(dict(op="dfeed", f=f, **{"in": x}))
                if ln > n and rng.random() < 0.7:        # only the first block counts
                    mine.append(dict(op="dfeed", f=f, **{"in": x[:n] + ints(rng, ln - n, 90)}))
            per.append(mine)
        if per:
            scs.append(dict(op="run", steps=mixed(rng, per)))
    ctx.assumptions.append("integer samples up to 100; tone powers compared with a fixed-point windowed DFT; ties between tones within the comparison's tolerance may go either way")
    r.check(scs, "trace")


CHECKS = dict(G01=G01, G02=G02, T01=T01)
