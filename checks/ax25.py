"""H01..H06: the AX.25 decoder against spec/HDLC, AX25Frame, AX25Trace."""
import json
from vlib import *

FLAG = "01111110"


def crc_tab():
    t = []
    for b in range(256):
        c = b
        for _ in range(8):
            c = (c >> 1) ^ 0x8408 if c & 1 else c >> 1
        t.append(c)
    return t


TAB = crc_tab()


def with_fcs(body):
    c = 0xffff
    for b in body:
        c = (c >> 8) ^ TAB[(c ^ b) & 255]
    c ^= 0xffff
    return body + [c & 255, c >> 8]


def bits(octs):
    return "".join("1" if o >> i & 1 else "0" for o in octs for i in range(8))


def stuff(b):
    out, n = [], 0
    for x in b:
        out.append(x)
        n = n + 1 if x == "1" else 0
        if n == 5:
            out.append("0")
            n = 0
    return "".join(out)


def misstuff(b, r, first=5):
    """b with some runs of at least seven ones left as they are, the others stuffed"""
    out, i = [], 0
    while i < len(b):
        j = i
        while j < len(b) and b[j] == b[i]:
            j += 1
        run = b[i:j]
        if b[i] == "1" and j - i >= 7 and r.random() < 0.6:
            if r.random() < 0.5:
                out.append(run)
            else:                                   # a zero later than due
                c = r.choice([7, 7, 7, 8, 9, 14, 15])
                out.append(run[:c] + "0" + stuff(run[c:]) if j - i >= c else run[:7] + "0" + stuff(run[7:]))
        elif b[i] == "1":
            out.append(stuff(run))
        else:
            out.append(run)
        i = j
    return "".join(out)


class Gen:
    def __init__(self, r):
        self.r = r

    def octs(self, n, mode=None):
        r = self.r
        mode = mode or r.choice(["any", "any", "ones", "zeros", "flag", "runs"])
        if mode == "any":
            return [r.randrange(256) for _ in range(n)]
        if mode == "ones":
            return [255] * n
        if mode == "zeros":
            return [0] * n
        if mode == "flag":
            return [r.choice([0x7e, 0x3f, 0xfc, 0xf8, 0x1f, 0x7f, 0xfe]) for _ in range(n)]
        return [r.choice([0, 255, 0x3e, 0x7c, 0xf0, 0x0f]) for _ in range(n)]

    def addr(self, last, odd=False):
        r = self.r
        n = r.choice([6, 6, 5, 4, 3, 1, 0])
        cs = [r.choice(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") for _ in range(n)] + [32] * (6 - n)
        if r.random() < 0.1:
            cs = [r.randrange(128) for _ in range(6)]
        o = [c << 1 for c in cs]
        if odd:
            o = [x | r.randrange(2) for x in o]
        if r.random() < 0.25:      # low bits set after the first octets
            o = [o[0], o[1]] + [x | r.randrange(2) for x in o[2:]]
        return o + [(r.randrange(128) << 1) | (1 if last else 0)]

    def plain(self, reps=None, ctl=None, rest=None):
        """body of an ordinary frame"""
        r = self.r
        reps = r.choice([0, 0, 1, 2, 3, 8]) if reps is None else reps
        b = self.addr(False)
        b[1] &= 0xfe
        b += self.addr(reps == 0)
        for i in range(reps):
            b += self.addr(i == reps - 1)
        b.append(r.randrange(256) if ctl is None else ctl)
        if rest is None:
            rest = self.octs(r.choice([0, 1, 2, 3, 10, r.randrange(0, 60)]))
        b += rest
        return b[:510]

    def flex(self, ctl=None, rest=None):
        r = self.r
        b = self.octs(7, r.choice(["any", "any", "any", "zeros"]))
        if r.random() < 0.3:
            for i in range(2, 7):
                b[i] = r.choice([0, b[i], 255, 0xfc, 3, 0xf0, 0x0f, 0xc0, 0x3f])
        b[1] |= 1
        b.append(r.randrange(256) if ctl is None else ctl)
        if rest is None:
            rest = self.octs(r.choice([0, 1, 2, 3, 10, r.randrange(0, 60)]))
        return (b + rest)[:510]

    def frame(self):
        r = self.r
        if r.random() < 0.03:
            f = self.plain()
            return with_fcs((f + self.octs(500))[:r.choice([510, 510, 509, 400])])
        return with_fcs(self.flex() if r.random() < 0.25 else self.plain())

    def onesframe(self):
        """a frame with long runs of ones, often at the very end"""
        r = self.r
        end = r.random() < 0.5
        while True:
            f = with_fcs((self.flex if r.random() < 0.3 else self.plain)(
                rest=self.octs(r.randrange(1, 5), "any") + self.octs(r.randrange(0, 3), r.choice(["ones", "flag"])) + self.octs(2, "any")))
            if not end or f[-1] in (0xfe, 0xff, 0x7f) or f[-2] & 0xfc == 0xfc and f[-1] & 3 == 3:
                return f

    # ---- histories that are not (only) valid frames
    def junk(self):
        r = self.r
        k = r.randrange(16)
        if k == 0:
            return "".join(r.choice("01") for _ in range(r.randrange(1, 200)))
        if k == 1:                                  # mostly ones
            return "".join(r.choice("01111111") for _ in range(r.randrange(1, 100)))
        if k == 2:                                  # truncated frame
            s = stuff(bits(self.frame()))
            return FLAG + s[:r.randrange(len(s))]
        if k == 3:                                  # abort in the middle, rest follows
            s = stuff(bits(self.frame()))
            c = r.randrange(len(s))
            return FLAG + s[:c] + "1" * r.choice([7, 7, 8, 15]) + r.choice(["", "0"]) + s[c:] + r.choice(["", FLAG])
        if k == 4:                                  # corrupted frame
            f = self.frame()
            for _ in range(r.choice([1, 1, 2, 5])):
                f[r.randrange(len(f))] ^= 1 << r.randrange(8)
            return FLAG + stuff(bits(f)) + FLAG
        if k == 5:                                  # short with good check sequence
            n = r.choice(list(range(0, 16)))
            b = self.octs(n)
            if n > 1 and r.random() < 0.7:
                b[1] = (b[1] | 1) if r.random() < 0.5 else b[1] & 0xfe
            return FLAG + stuff(bits(with_fcs(b))) + FLAG
        if k == 6:                                  # not a whole number of octets
            f = self.frame()
            b = bits(f)
            x = r.randrange(1, 8)
            b = b + "".join(r.choice("01") for _ in range(x)) if r.random() < 0.5 else b[:-x]
            return FLAG + stuff(b) + FLAG
        if k == 7:                                  # too long with good check sequence
            n = r.choice([511, 511, 512, 513, 520, 600])
            b = self.plain(rest=self.octs(540))
            b = (b + self.octs(200, "any"))[:n]
            return FLAG + stuff(bits(with_fcs(b))) + FLAG
        if k == 8:                                  # flags, shared zeros
            return r.choice([FLAG * r.randrange(1, 6), FLAG + "1111110" * r.randrange(1, 5), "0111111" * 3])
        if k == 9:                                  # frame without opening flag
            return stuff(bits(self.frame())) + FLAG
        if k == 10:                                 # bit slip
            s = FLAG + stuff(bits(self.frame())) + FLAG
            i = r.randrange(len(s))
            return r.choice([s[:i] + s[i + 1:], s[:i] + r.choice("01") + s[i:], s[:i] + ("1" if s[i] == "0" else "0") + s[i + 1:]])
        if k == 11:                                 # sent as if an abort were data
            return FLAG + misstuff(bits(self.onesframe()), r) + FLAG
        if k == 12:                                 # stuffed by another rule
            b, n, out = bits(self.onesframe()), 0, []
            lim = r.choice([3, 4, 6, 7])
            for x in b:
                out.append(x)
                n = n + 1 if x == "1" else 0
                if n == lim:
                    out.append("0")
                    n = 0
            return FLAG + "".join(out) + FLAG
        if k == 13:                                 # a good frame, and then more
            f = self.frame()
            if r.random() < 0.6:
                f = with_fcs((f + self.octs(512, "any"))[:510])
            return FLAG + stuff(bits(f + self.octs(r.choice([0, 1, 2, 3, 8, 255, 256, 300, 512]))) + "0" * r.choice([0, 0, 1, 7])) + FLAG
        if k == 14:                                 # very long runs of one kind
            n = r.choice([100, 255, 256, 257, 511, 513, 1025, 2600])
            x = r.choice(["1" * n, "0" * n, "01" * (n // 2), FLAG * (n // 8), "1111110" * (n // 7), "10000010" * (n // 8), FLAG + stuff("1" * n), FLAG + "0" * n])
            return r.choice([FLAG, ""]) + x + r.choice([FLAG, "0", "", stuff(bits(self.frame())) + FLAG])
        # an overlong run that becomes a good frame only in its tail
        f = self.frame()
        return FLAG + stuff(bits(self.octs(520, "any") + f)) + FLAG


def sc_histories(g, n, wantframes):
    """H01/H02: junk and frames on several decoders."""
    out = []
    for _ in range(n):
        ops = [dict(op="new", d=1)]
        b = 0
        while b < 6000:
            if g.r.random() < (0.6 if wantframes else 0.25):
                f = g.frame()
                while not f[1] & 1 and len(f) < 17:
                    f = g.frame()
                sh = 1 if ops[-1]["op"] == "send" and g.r.random() < 0.5 else 0
                ops.append(dict(op="send", d=1, oct=f, shared=sh))
                b += 8 * len(f)
            else:
                j = g.junk()
                ops.append(dict(op="feed", d=1, bits=j))
                b += len(j)
        out.append(dict(ops=ops))
    return out


def sc_exhaust_prefix(g, nbits):
    return [dict(ops=[dict(op="prefixall", n=nbits, oct=with_fcs(g.plain(reps=0, rest=g.octs(3))))]),
            dict(ops=[dict(op="prefixall", n=nbits, oct=with_fcs(g.flex(rest=[])))])]


def sc_lengths(g, step):
    """every body length around the limits, ordinary and compressed"""
    out = []
    lens = list(range(0, 40)) + list(range(40, 500, step)) + list(range(500, 516))
    for base in (0, 1):
        ops = [dict(op="new", d=1)]
        for n in lens:
            b = g.octs(n, "any")
            if n > 1:
                b[1] = (b[1] & 0xfe) | base
            ops.append(dict(op="feed", d=1, bits=FLAG + stuff(bits(with_fcs(b))) + FLAG))
            if len(ops) > 40:
                out.append(dict(ops=ops))
                ops = [dict(op="new", d=1)]
        out.append(dict(ops=ops))
    return out


def sc_overlong(g, n):
    """runs beyond the buffer that contain a good frame at one end"""
    out = []
    for _ in range(n):
        ops = [dict(op="new", d=1)]
        for _ in range(8):
            m = g.r.choice([510, 510, 510, 509, 508, 256, 100])
            f = g.plain(rest=g.octs(540))
            f = with_fcs((f + g.octs(600, "any"))[:m])
            tail = g.octs(g.r.choice([1, 1, 2, 3, 9, 256, 510, 512, 514]))
            both = f + tail if g.r.random() < 0.7 else tail + f
            ops.append(dict(op="feed", d=1, bits=FLAG + stuff(bits(both)) + FLAG))
        out.append(dict(ops=ops))
    return out


def sc_late(g, n):
    """one run of ones that gets its stuffed zero too late, at every place in an octet"""
    out = []
    for _ in range(n):
        ops = [dict(op="new", d=1)]
        for at in range(8):
            for c in (6, 7, 8, 9):
                run = c + g.r.randrange(0, 3)
                d = "0" * (at + g.r.choice([0, 8])) + "1" * run + "0"
                d = d + "0" * (-len(d) % 8)
                rest = [int(d[i:i + 8][::-1], 2) for i in range(0, len(d), 8)]
                f = with_fcs(g.plain(reps=0, ctl=0x03, rest=[0x0f] + rest + g.octs(2, "any")))
                b = bits(f)
                k = b.index("1" * run, 16 * 8)
                ops.append(dict(op="feed", d=1, bits=FLAG + stuff(b[:k]) + "1" * c + "0" + stuff(b[k + c:]) + FLAG))
                if g.r.random() < 0.2:
                    ops.append(dict(op="send", d=1, oct=f, shared=0))
        out.append(dict(ops=ops))
    return out


def sc_afterlong(g, n):
    """long frames after runs beyond the buffer"""
    out = []
    for _ in range(n):
        ops = [dict(op="new", d=1)]
        for _ in range(4):
            j = g.octs(g.r.choice([512, 513, 514, 515, 600, 1030]), "any")
            ops.append(dict(op="feed", d=1, bits=FLAG + stuff(bits(j)) + g.r.choice(["", FLAG, "1" * 9])))
            for _ in range(g.r.randrange(1, 3)):
                f = with_fcs((g.plain(reps=0, ctl=0x03, rest=[0xf0]) + g.octs(520, "any"))[:g.r.choice([510, 510, 509, 400, 300, 255, 254, 130])])
                ops.append(dict(op="send", d=1, oct=f, shared=0))
        out.append(dict(ops=ops))
    return out


def sc_ones(g, n):
    """runs of ones where an abort may be mistaken for data"""
    out = []
    for _ in range(n):
        ops = [dict(op="new", d=1)]
        for _ in range(8):
            f = g.onesframe()
            ops.append(dict(op="feed", d=1, bits=FLAG + misstuff(bits(f), g.r) + FLAG))
            if g.r.random() < 0.3:
                ops.append(dict(op="send", d=1, oct=f, shared=0))
        out.append(dict(ops=ops))
    return out


def sc_decode(g, flex, n):
    """H03/H04: all control octets, repeater counts, lengths."""
    out = []
    for c in range(0, 256, 16):
        ops = [dict(op="new", d=1)]
        for ctl in range(c, c + 16):
            for rest in ([], [g.r.randrange(256)], g.octs(g.r.randrange(2, 20))):
                b = g.flex(ctl=ctl, rest=rest) if flex else g.plain(ctl=ctl, rest=rest)
                ops.append(dict(op="send", d=1, oct=with_fcs(b), shared=0))
        out.append(dict(ops=ops))
    ops = [dict(op="new", d=1)]
    if not flex:
        for reps in list(range(0, 20)) + [30, 50, 69, 70, 71]:
            b = g.plain(reps=reps, ctl=g.r.choice([0, 3, 0x13, 0x3f, 1]), rest=g.octs(5))
            ops.append(dict(op="send", d=1, oct=with_fcs(b), shared=0))
            # header without last-address bit: repeaters run to the end of the body
            b = g.plain(reps=0, rest=[])[:14]
            b[13] &= 0xfe
            b += sum([g.addr(False) for _ in range(reps)], []) + g.octs(g.r.randrange(1, 9))
            b = b[:510]
            ops.append(dict(op="send", d=1, oct=with_fcs(b), shared=0))
        for k in range(128):                      # SSID octets of both addresses
            b = g.plain(reps=1)
            b[6] = 2 * k
            b[13] = (g.r.randrange(128) << 1)
            b[20] = (g.r.randrange(256)) | 1
            ops.append(dict(op="send", d=1, oct=with_fcs(b), shared=0))
        for pos in list(range(0, 6)):             # callsign characters 0..127 at each place
            for ch in range(0, 128, 1 if n > 300 else 9):
                b = g.plain(reps=1)
                b[g.r.choice([0, 7, 14]) + pos] = 2 * ch
                ops.append(dict(op="send", d=1, oct=with_fcs(b), shared=0))
    else:
        for o in range(2, 7):
            for v in range(0, 256, 1 if n > 300 else 5):
                b = g.flex(rest=[])
                b[o] = v
                ops.append(dict(op="send", d=1, oct=with_fcs(b), shared=0))
        for v in range(1, 256, 2):
            b = g.flex(rest=[])
            b[1] = v
            ops.append(dict(op="send", d=1, oct=with_fcs(b), shared=0))
    for _ in range(n):
        b = g.flex() if flex else g.plain()
        if g.r.random() < 0.03:
            b = (b + g.octs(510))[:510 - g.r.randrange(3)]
        ops.append(dict(op="send", d=1, oct=with_fcs(b), shared=0))
    while len(ops) > 61:
        out.append(dict(ops=[ops[0]] + ops[1:61]))
        ops = [ops[0]] + ops[61:]
    out.append(dict(ops=ops))
    for s in out:
        s["ops"] = [o for o in s["ops"] if o["op"] != "send" or o["oct"][1] & 1 == (1 if flex else 0)
                    and len(o["oct"]) >= (10 if flex else 17)]
    return out


def sc_stable(g, n):
    """H05: several decoders interleaved in small pieces, frames read again."""
    out = []
    for _ in range(n):
        k = g.r.choice([1, 2, 3])
        ops = [dict(op="new", d=i) for i in range(k)]
        streams = []
        for i in range(k):
            s = ""
            for _ in range(g.r.choice([3, 5, 8])):
                s += FLAG + stuff(bits(g.frame())) + FLAG if g.r.random() < 0.8 else g.junk()
            # always end with traffic that overwrites the buffer
            s += FLAG + stuff(bits(with_fcs(g.plain(ctl=0, rest=g.octs(60, "any"))))) + FLAG
            s += FLAG + stuff(bits(g.octs(80, "any")))
            streams.append(s)
        pos = [0] * k
        while any(pos[i] < len(streams[i]) for i in range(k)):
            i = g.r.choice([j for j in range(k) if pos[j] < len(streams[j])])
            m = g.r.choice([1, 3, 8, 50, 300, 900])
            ops.append(dict(op="feed", d=i, bits=streams[i][pos[i]:pos[i] + m]))
            pos[i] += m
            if g.r.random() < 0.2:
                ops.append(dict(op="again", d=g.r.randrange(k)))
        for i in range(k):
            ops += [dict(op="again", d=i), dict(op="alone", d=i)]
        out.append(dict(ops=ops))
    return out


def sc_corrupt(g, n, thorough):
    out = []
    short = [with_fcs(g.flex(rest=[])), with_fcs(g.plain(reps=0, rest=[]))]
    for f in short:
        for k in (1, 2, 3):
            out.append(dict(ops=[dict(op="corruptall", oct=f, **{"class": "weight"}, k=k)]))
        for k in range(1, 17):
            out.append(dict(ops=[dict(op="corruptall", oct=f, **{"class": "burst"}, k=k)]))
    # every single bit and many pairs of the longest frame
    big = with_fcs((g.plain(reps=1, ctl=3) + g.octs(510, "any"))[:510])
    out.append(dict(ops=[dict(op="corruptall", oct=big, **{"class": "weight"}, k=1)]))
    if thorough:
        mid = with_fcs((g.plain(reps=1, ctl=3) + g.octs(510, "any"))[:120])
        out.append(dict(ops=[dict(op="corruptall", oct=mid, **{"class": "weight"}, k=2)]))
        for k in range(2, 13):
            out.append(dict(ops=[dict(op="corruptall", oct=mid, **{"class": "burst"}, k=k)]))
    for _ in range(n):
        f = g.frame() if g.r.random() < 0.8 else big
        if not f[1] & 1 and len(f) < 17:
            continue
        N = 8 * len(f)
        pats = []
        for _ in range(40):
            m = g.r.randrange(4)
            if m < 3:
                pats.append(sorted(g.r.sample(range(N), m + 1)))
            else:
                s = g.r.randrange(N - 16)
                p = [s + i for i in range(16) if g.r.random() < 0.5]
                pats.append(p or [s])
        if g.r.random() < 0.3:       # the check sequence itself
            pats.append(list(range(N - 16, N)))
            pats.append(list(range(N - 8, N)))
        out.append(dict(ops=[dict(op="corrupt", oct=f, pats=pats)]))
    return out


def execute(ctx, binary, scenarios, jobs=8):
    """One driver process per scenario."""
    run = lambda x, t: run_driver(ctx, binary, x, timeout=t)
    dead = []

    def one(sc):
        if dead:
            raise dead[0]
        lines, rc, err = run([sc], 240)
        if rc == 3:
            raise Trouble("driver: " + err)
        if rc != 0:
            try:
                find_death(run, [sc])
            except Died as d:
                dead.append(d)
                raise
        return Case(sc, lines)
    with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
        return list(ex.map(one, scenarios))


def go(ctx, scenarios, models, trace="AX25Trace"):
    with cf.ThreadPoolExecutor(max_workers=2) as ex:
        mc = ex.submit(lambda: [model_check(ctx, *m[:2], consts=m[2] if len(m) > 2 else None, workers=4) for m in models])
        binary = build(ctx, "ax25")
        try:
            cases = execute(ctx, binary, scenarios)
        except Died as d:
            report_death(ctx, trace, d)
        mc.result()
    rerun = lambda c: run_driver(ctx, binary, [c.scenario])[0]
    validate_cases(ctx, trace, cases, rerun, timed=False)
    ctx.assumptions += ["bits are fed as 0 or 1", "the octets of a run are counted as the receiver does: the closing flag's first seven bits take part in octet assembly"]


def models(ctx):
    return [("MC_HDLC", "MC_HDLC.cfg", dict(HistLen=ctx.pick(17, 21))),
            ("MC_HDLC", "MC_HDLC3.cfg", dict(HistLen=ctx.pick(14, 20)))]


def H01(ctx):
    g = Gen(ctx.rng)
    go(ctx, sc_lengths(g, ctx.pick(60, 7)) + sc_overlong(g, ctx.pick(5, 40)) + sc_late(g, ctx.pick(2, 20)) + sc_ones(g, ctx.pick(8, 60)) + sc_histories(g, ctx.pick(30, 250), False), models(ctx))


def H02(ctx):
    g = Gen(ctx.rng)
    go(ctx, sc_exhaust_prefix(g, ctx.pick(16, 22)) + sc_afterlong(g, ctx.pick(3, 30)) + sc_histories(g, ctx.pick(36, 250), True), models(ctx))


def H03(ctx):
    g = Gen(ctx.rng)
    go(ctx, sc_decode(g, False, ctx.pick(250, 4000)), [("MC_AX25Frame", "MC_AX25Frame.cfg")])


def H04(ctx):
    g = Gen(ctx.rng)
    go(ctx, sc_decode(g, True, ctx.pick(300, 6000)), [("MC_AX25Frame", "MC_AX25Frame.cfg")])


def H05(ctx):
    g = Gen(ctx.rng)
    go(ctx, sc_stable(g, ctx.pick(40, 300)), models(ctx)[:1])


def H06(ctx):
    g = Gen(ctx.rng)
    go(ctx, sc_corrupt(g, ctx.pick(60, 500), ctx.thorough), [("MC_CRC", "MC_CRC.cfg")])


def H07(ctx):
    g = Gen(ctx.rng)
    kinds = ["pid", "ut", "st", "typ"]
    scs = [dict(ops=[dict(op=o, **{"class": k}) for o in ("consts", "names") for k in kinds] + [dict(op="address", oct=g.addr(True)[:g.r.randrange(0, 7)], n=n) for n in range(16)])]
    for c in range(0, 256, 16):     # every control octet, every protocol
        ops = []
        for x in range(c, c + 16):
            ops += [dict(op="frame", oct=with_fcs(g.plain(ctl=x, rest=g.octs(g.r.randrange(0, 4))))), dict(op="frame", oct=with_fcs(g.flex(ctl=x, rest=g.octs(g.r.randrange(2, 4)))))]
            ops += [dict(op="frame", oct=with_fcs(g.plain(ctl=g.r.choice([0x03, 0x13, 2 * g.r.randrange(128)]), rest=[x] + g.octs(2))))]
        scs.append(dict(ops=ops))
    for _ in range(ctx.pick(0, 200)):
        scs.append(dict(ops=[dict(op="frame", oct=with_fcs(g.r.choice([g.plain, g.flex])(rest=g.octs(g.r.randrange(2, 30))))) for _ in range(40)]))
    go(ctx, scs, [("MC_AX25Names", "MC_AX25Names.cfg")], "NamesTrace")


CHECKS = dict(H07=H07, H01=H01, H02=H02, H03=H03, H04=H04, H05=H05, H06=H06)
