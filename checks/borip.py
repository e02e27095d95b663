"""B01..B04, P01, P02: borip client and PacketReader."""
import itertools, json, re
from vlib import *

NUM_SET = ["SetFrequency", "SetRate", "SetGain"]
METHODS = ["SelectDevice", "SetFrequency", "Frequency", "SetAntenna", "Antenna", "SetRate", "Rate", "SetGain", "Gain",
           "SetDestination", "Destination", "SetHeaderEnabled", "HeaderEnabled", "Go", "Stop"]
WORD = dict(SelectDevice="DEVICE", SetFrequency="FREQ", Frequency="FREQ", SetAntenna="ANTENNA", Antenna="ANTENNA",
            SetRate="RATE", Rate="RATE", SetGain="GAIN", Gain="GAIN", SetDestination="DEST", Destination="DEST",
            SetHeaderEnabled="HEADER", HeaderEnabled="HEADER", Go="GO", Stop="STOP")
BAD = ["abc", "1.2.3", "--1", "1,5", "5Hz", "e5", "1e", ".", "-", "+", "0..1", "12a", "x1", "OK", "0x10", "0b11"]


def codes(s):
    return [ord(c) for c in s]


def small(rng):
    """decimal text with at most 15 significant digits"""
    k = rng.randrange(8)
    if k == 0:
        s = "0"
    elif k == 1:
        s = str(rng.randrange(10))
    elif k == 2:
        s = str(rng.randrange(10 ** rng.randrange(1, 15)))
    elif k == 3:
        s = "%d.%06d" % (rng.randrange(10 ** 6), rng.randrange(10 ** 6))
    elif k == 4:
        s = "0.%s" % "".join(rng.choice("0123456789") for _ in range(rng.randrange(1, 13)))
    elif k == 5:
        s = "%d000000" % rng.randrange(2000)
    elif k == 6:
        s = "%d.0" % rng.randrange(10 ** 9)
    else:
        s = "%d.%d%s%s%d" % (rng.randrange(10), rng.randrange(10 ** 6), rng.choice("eE"), rng.choice(["", "-", "+"]), rng.randrange(12))
    return rng.choice(["", "", "", "-", "+"]) + (rng.choice(["0", "00"]) if rng.random() < 0.1 else "") + s


def argtext(rng):
    """arguments: any float64"""
    import struct
    while True:
        k = rng.randrange(5)
        if k == 0:
            v = struct.unpack("d", struct.pack("Q", rng.getrandbits(64)))[0]
        elif k == 1:
            v = rng.choice([0.0, 1.0, 144.39e6, 2400000, 1e21, 1e22, 1e-7, 0.1, 123456789012, 1.5e9, -3.25, 1e100, 5e-324, 1.7976931348623157e308, 16777217, 33554433.5, 2 ** 53 - 1.0])
        elif k == 2:
            v = rng.uniform(-1e4, 1e10)
        elif k == 3:
            v = float(rng.randrange(-10 ** 12, 10 ** 12)) / 10 ** rng.randrange(0, 6)
        else:
            v = rng.uniform(0, 1) * 10 ** rng.randrange(-10, 12)
        if v == v and abs(v) != float("inf"):
            return repr(v)


def word(rng, extra=""):
    return "".join(rng.choice("abcXYZ0189.:-_/()" + extra) for _ in range(rng.randrange(1, 9))) + rng.choice(["", "k"])


def descriptor(rng):
    k = rng.randrange(12)
    f = [rng.choice(["RTL", "Terratec NOXON (rev 3)", "", "dev 1", "a-b", "RTL ", " RTL", "a  b"]), small(rng), small(rng), small(rng), small(rng),
         str(rng.choice([0, 1, 4096, 16256, 2147483647, rng.randrange(10 ** 6), "010", "0100", "00012", "08", "+5", "-16"])),
         ",".join(rng.choice(["(Default)", "RX2", "A B", "default", "", " RX1", "RX3 "]) for _ in range(rng.randrange(1, 5)))]
    if k < 6:
        f.append(rng.choice(["0001", "Terratec NOXON (rev 3)", "s", "-", "a,b", " s1", ""]))
    if k == 1:
        f += ["x", "y,z"][:rng.randrange(1, 3)]
    if k == 6:
        f = f[:rng.randrange(1, 7)]
    if k in (7, 8):
        f[rng.randrange(1, 5)] = rng.choice(BAD + [""])
    if k == 9:
        f[5] = rng.choice(["1.5", "", "abc", "1e3", "12 ", "99x", "--2", "0x10", "1_000", "0b1", "0o17", "0x1F"])
    if not f[0] and rng.random() < 0.5:
        f[0] = "n"
    if f[0].startswith("-"):
        f[0] = "d" + f[0]
    d = "|".join(f)
    if d.strip() != d or d == "":
        d = "n" + d + "n"
    return d


def reply(rng, m):
    """a reply line for the method: (text, eof)"""
    w = WORD[m]
    k = rng.randrange(20)
    pad = rng.choice(["", "", "", "", "\r", " ", "\t"])
    if k == 0:
        return rng.choice(["", w, w[:2], w[0]]) + pad
    if m == "SelectDevice":
        if k == 1:
            return rng.choice(["DEVICE - no such device", "DEVICE -busy", "DEVICE - in use by other", "DEVICE -x y z"]) + pad
        if k < 5:
            return "DEVICE -" + pad
        if k == 5:
            return rng.choice(["DEVICES " + descriptor(rng), "ERROR x", "UNKNOWN", "OK", "FREQ OK", "device -"])
        return "DEVICE " + descriptor(rng) + pad
    if m.startswith("Set") or m in ("Go", "Stop"):
        if k < 3:        # what a server says
            return w + " " + rng.choice(["RUNNING", "STOPPED", "DEVICE no active device", "FAIL no DEST set", "FAIL", "UNKNOWN"]) + pad
        if k < 5:
            return w + " " + " ".join(rng.choice(["FAIL", "RUNNING", "STOPPED", "DEVICE", "HIGH", "LOW", "UNKNOWN", "ok", "OKAY", "O", "NOK", word(rng)]) for _ in range(rng.randrange(1, 5))) + pad
        if k == 5:
            return rng.choice(["UNKNOWN", "ERROR", "OK"]) + pad
        if k == 6:
            return rng.choice(["x OK", "FREQ OK"]) if m not in NUM_SET + ["SetDestination"] else w + " OK" + pad
        if m == "SetFrequency":
            return w + " OK" + "".join(" " + small(rng) for _ in range(rng.randrange(0, 6))) + pad
        if m == "SetRate":
            return w + " OK " + (rng.choice(BAD) if k < 9 else small(rng) + rng.choice(["", " extra", " 5"])) + pad
        if m == "SetDestination":
            return w + " OK " + rng.choice(["127.0.0.1:28888", "h:1", word(rng), word(rng) + " more"]) + pad
        return w + " OK" + rng.choice(["", " " + word(rng)]) + pad
    if m == "HeaderEnabled":
        return w + " " + rng.choice(["ON", "ON", "OFF", "OFF", "on", "O", "ONN", "OFFX", "1", "DEVICE", "UNKNOWN"]) + pad
    if m in ("Antenna", "Destination"):
        return w + " " + rng.choice([word(rng), "(Default)", "10.0.0.1:5000", "DEVICE"]) + pad
    if k < 4:
        return w + " " + rng.choice(BAD + ["DEVICE", "UNKNOWN", "OK 5"]) + pad
    return w + " " + small(rng) + pad


def mkstep(rng, m, rep=None, eof=0):
    arg = ""
    if m in NUM_SET:
        arg = argtext(rng)
    elif m == "SelectDevice":
        arg = rng.choice(["RTL", "-", "!", "0", "RTL 2832 serial x", "a,b|c"])
    elif m == "SetHeaderEnabled":
        arg = rng.choice(["ON", "OFF"])
    elif m == "SetAntenna":
        arg = rng.choice(["RX2", "default", "A B", "x"])
    elif m == "SetDestination":
        arg = rng.choice(["127.0.0.1:28888", "5000", "host:1"])
    return dict(m=m, arg=arg, reply=codes(reply(rng, m) if rep is None else rep), eof=eof)


CLOSE_OK = [codes("STOP OK"), codes("DEVICE -")]


# what a server may say first; the client goes on with any of it
GREETS = ["DEVICE -"] * 8 + ["", "HELLO", "DEVICE", "DEVICE Default|0|100|1|4096|64000000|(RX2)|12345678", " DEVICE - \r"]


def sc_sessions(rng, n, ref, length=24, only=None, modes=("lock", "pipe")):
    out = []
    for i in range(n):
        steps = []
        ms = only or METHODS
        for _ in range(rng.randrange(1, length)):
            steps.append(mkstep(rng, rng.choice(ms)))
        if rng.random() < 0.35:
            k = rng.randrange(len(steps))
            if k or len(steps) > 1:
                for s in steps[k:]:
                    s["eof"] = 1
                steps[k]["reply"] = codes(rng.choice(["", reply(rng, steps[k]["m"])]))
        out.append(dict(greet=rng.choice(GREETS), greeteof=0, mode=rng.choice(modes), frag=rng.choice([0, 1, 2, 2]), seed=rng.randrange(10 ** 9),
                        ref=ref, steps=steps, close=CLOSE_OK, after=1 if i % 7 == 0 else 0))
    return out


def sc_long(rng, n, ref):
    """reply lines longer than any read buffer, between ordinary ones"""
    out = []
    for i in range(n):
        steps = []
        for _ in range(rng.randrange(2, 6)):
            steps.append(mkstep(rng, rng.choice(METHODS)))
            m, rep = rng.choice([("Antenna", "ANTENNA %s"), ("SelectDevice", "DEVICE -%s"), ("SetDestination", "DEST OK %s"), ("SetGain", "GAIN FAIL %s"), ("Go", "GO OK %s")])
            steps.append(mkstep(rng, m, rep % ("".join(rng.choice("abcxyz019") for _ in range(rng.choice([4085, 4086, 4087, 4088, 4090, 4096, 4097, 5000, 9000]))))))
            steps.append(mkstep(rng, rng.choice(METHODS)))
        out.append(dict(greet="DEVICE -", greeteof=0, mode=rng.choice(["lock", "pipe"]), frag=0, seed=i, ref=ref, steps=steps, close=CLOSE_OK, after=0))
    return out


def sc_each(rng, n, ref):
    """every method with every kind of reply, one call per session or a few"""
    out = []
    for m in METHODS:
        steps = [mkstep(rng, m) for _ in range(n)]
        for rep in ["", WORD[m], WORD[m] + " OK", WORD[m] + " OK 1", WORD[m] + " 1", WORD[m] + " ", WORD[m][:-1], "x", "OK",
                    WORD[m] + " FAIL", WORD[m] + " DEVICE", WORD[m] + " -", WORD[m] + " ON", WORD[m] + " OFF"]:
            if (m in ("SetFrequency",) and rep.endswith("x")) or (m == "SelectDevice" and "OK 1" in rep):
                continue
            if m in ("Frequency", "Rate", "Gain", "Antenna", "Destination", "HeaderEnabled") and rep == "x":
                rep = ""
            steps.append(mkstep(rng, m, rep))
        for i in range(0, len(steps), 20):
            out.append(dict(greet="DEVICE -", greeteof=0, mode="lock", frag=rng.choice([0, 2]), seed=rng.randrange(10 ** 9), ref=ref,
                            steps=steps[i:i + 20], close=CLOSE_OK, after=0))
        for part in ("", WORD[m], WORD[m] + " OK 5"):
            out.append(dict(greet="DEVICE -", greeteof=0, mode=rng.choice(["lock", "pipe"]), frag=0, seed=1, ref=ref,
                            steps=[mkstep(rng, m, part, 1), mkstep(rng, m, "", 1)], close=CLOSE_OK, after=1))
    return out


def replies_of_model(rng, m, i):
    return {"SelectDevice": ["DEVICE n|0|1|1|5|4|a", "DEVICE m|0|2|1|5|4|a,b|s", "DEVICE -", "DEVICE - x", "DEVICE n|0"],
            "Go": ["GO OK", rng.choice(["GO R", "GO RUNNING", "GO FAIL no DEST set", "GO DEVICE no active device"])],
            "Stop": ["STOP OK", rng.choice(["STOP S", "STOP STOPPED", "STOP STOPPED", "STOP FAIL"]), "STOP"], "Rate": ["RATE 5"]}[m][i - 1]


def model_histories(ctx, calls):
    """behaviours of MC_BorIPClient, written out by TLC (once: the model stays the same)"""
    out = model_check(ctx, "MC_BorIPClient", "MC_BorIPClient.cfg", consts=dict(MaxCalls=calls, Emit="TRUE"))
    hs = {m.group(1) for m in re.finditer(r'<<"HIST", "((?:[^"\\]|\\.)*)">>', out or "")}
    return sorted((json.loads(json.loads('"%s"' % h)) for h in hs), key=lambda h: (len(h), str(h)))


def sc_histories(rng, hists):
    out = []
    for h in hists:
        steps = []
        for m, i in h:
            steps.append(dict(m=m, arg="x" if m == "SelectDevice" else "", reply=codes(replies_of_model(rng, m, i)) if i else [], eof=0 if i else 1))
        close = CLOSE_OK if rng.random() < 0.5 else [codes("STOP STOPPED"), codes("DEVICE - gone")]
        out.append(dict(greet="DEVICE -", greeteof=0, mode="lock", frag=rng.choice([0, 0, 2]), seed=1, ref=0, steps=steps, close=close, after=0))
    return out


def execute(ctx, binary, scs, per=40, jobs=8, starts=("dial", "new")):
    """several scenarios per driver process; a case per scenario"""
    groups = [scs[i:i + per] for i in range(0, len(scs), per)]
    mark = re.compile(r'"op":"(%s)"' % "|".join(starts))

    run = lambda x, t: run_driver(ctx, binary, x, timeout=t)
    dead = []

    def one(g):
        if dead:
            raise dead[0]
        lines, rc, err = run(g, ctx.pick(120, 300))
        if rc == 3:
            raise Trouble("driver: " + err)
        if rc != 0:
            try:
                find_death(run, g)
            except Died as d:
                dead.append(d)
                raise
        cases = []
        for x in lines:
            if mark.search(x):
                cases.append([])
            cases[-1].append(x)
        if len(cases) != len(g):
            raise Trouble("driver: %d traces for %d scenarios" % (len(cases), len(g)))
        return [Case(s, c, None, g[:k]) for k, (s, c) in enumerate(zip(g, cases))]
    with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
        return [c for cs in ex.map(one, groups) for c in cs]


def go(ctx, driver, spec, scs, models, wait=None):
    with cf.ThreadPoolExecutor(max_workers=2) as ex:
        mc = ex.submit(lambda: [model_check(ctx, *m[:2], consts=m[2], workers=4) for m in models])
        binary = build(ctx, driver)
        try:
            cases = execute(ctx, binary, scs)
        except Died as d:
            report_death(ctx, spec, d)
        mc.result()
    validate_cases(ctx, spec, cases, lambda c: run_driver(ctx, binary, [c.scenario])[0],
                   after=lambda c: run_driver(ctx, binary, list(c.before) + [c.scenario])[0], timed=driver != "packet")


def client_models(ctx):
    return [("MC_BorIPClient", "MC_BorIPClient.cfg", dict(MaxCalls=ctx.pick(3, 4)))]


def B01(ctx):
    r = ctx.rng
    ctx.assumptions.append("arguments and replies are single lines; every server line ends with a line feed or the end of the connection")
    go(ctx, "borip", "BorIPTrace", sc_each(r, ctx.pick(12, 60), 1) + sc_sessions(r, ctx.pick(120, 1500), 1) + sc_long(r, ctx.pick(6, 30), 1), client_models(ctx))


def sc_dials():
    """Connections that do not come about: the greeting ends early, or nobody listens."""
    return [dict(greet=g, greeteof=e, mode="lock", frag=0, seed=1, ref=0, steps=[], close=[], after=0)
            for g, e in (("", 1), ("DEV", 1), ("DEVICE -", 1), ("", 2))]


def B02(ctx):
    r = ctx.rng
    ctx.assumptions.append("replies have single spaces between words, numbers are decimal, replies to queries begin with the command word unless shorter, optional frequency fields are well formed")
    scs = sc_each(r, ctx.pick(40, 300), 0) + sc_sessions(r, ctx.pick(150, 2500), 0) + sc_long(r, ctx.pick(3, 20), 0)
    scs += sc_dials()
    go(ctx, "borip", "BorIPTrace", scs, client_models(ctx))


def B03(ctx):
    r = ctx.rng
    hs = model_histories(ctx, ctx.pick(3, 4))
    ctx.cov["model_behaviours_replayed"] = ctx.cov.get("model_behaviours_replayed", 0) + len(hs)
    scs = sc_histories(r, hs)
    scs += sc_sessions(r, ctx.pick(150, 2500), 0, length=30, only=["SelectDevice", "Go", "Stop", "Go", "Stop", "Rate", "SetGain"], modes=("lock",))
    scs += sc_sessions(r, ctx.pick(50, 800), 0, modes=("lock",)) + sc_dials()
    go(ctx, "borip", "BorIPTrace", scs, [])


def B04(ctx):
    r = ctx.rng
    ctx.assumptions.append("numbers of a descriptor have at most 15 significant digits; the integer field fits 32 bits")
    scs = sc_sessions(r, ctx.pick(120, 2000), 0, length=30, only=["SelectDevice"] * 9 + ["Rate"])
    for n in range(0, 11):             # every number of fields
        f = ["name", "-1.5", "30", "0.5", "28.8e6", "16256", "A,B", "ser", "x", "y"][:n]
        scs.append(dict(greet="DEVICE -", greeteof=0, mode="lock", frag=0, seed=1, ref=0, close=CLOSE_OK, after=0,
                        steps=[mkstep(r, "SelectDevice", "DEVICE first|0|1|1|5|4|a"), mkstep(r, "SelectDevice", "DEVICE " + "|".join(f))]))
    for k in range(1, 6):              # each numeric field malformed
        for bad in BAD + ["", "1.5"]:
            if (bad == "1.5") != (k == 5) and bad == "1.5":
                continue
            f = ["name", "-1.5", "30", "0.5", "28.8e6", "16256", "A,B", "ser"]
            f[k] = bad
            scs.append(dict(greet="DEVICE -", greeteof=0, mode="lock", frag=0, seed=1, ref=0, close=CLOSE_OK, after=0,
                            steps=[mkstep(r, "SelectDevice", "DEVICE first|0|1|1|5|4|a"), mkstep(r, "SelectDevice", "DEVICE " + "|".join(f))]))
    go(ctx, "borip", "BorIPTrace", scs, client_models(ctx))


# ------------------------------------------------------------ PacketReader
def datagram(rng, n):
    k = rng.randrange(4)
    if k == 0:
        return [rng.choice([0, 1, 127, 128, 255]) for _ in range(n)]
    if k == 1:
        return [(i * 7 + 3) % 256 for i in range(n)]
    return [rng.randrange(256) for _ in range(n)]


def sc_packets(rng, n):
    out = []
    for _ in range(n):
        q, reads = [], []
        big = rng.random() < 0.15
        for _ in range(rng.randrange(1, 12)):
            k = rng.randrange(10)
            if k == 0:
                q.append(dict(data=[], err=rng.choice(["timeout", "refused"])))
            elif k == 1:
                q.append(dict(data=datagram(rng, rng.randrange(0, 5)), err=""))
            elif k == 2 and big:
                q.append(dict(data=datagram(rng, rng.choice([1472, 4096, 4100, 9000, 16388])), err=""))
            elif k < 6:
                q.append(dict(data=datagram(rng, 4 * rng.randrange(1, 12)), err=""))
            else:
                q.append(dict(data=datagram(rng, rng.randrange(0, 50)), err=""))
        for _ in range(rng.randrange(0, 20)):
            reads.append(rng.choice([0, 1, 1, 2, 3, 5, 8, 16, 64, 5000]))
        out.append(dict(headers=rng.randrange(2), queue=q, reads=reads, drain=rng.choice([100, 333, 5000] if big else [1, 2, 3, 7, 100, 5000]), scratch=rng.randrange(2), nil=rng.randrange(2)))
    return out


def sc_packets_all(rng, maxlen, sizes):
    """every pair of datagram lengths, with a third after them"""
    out = []
    for h in (0, 1):
        for a in range(maxlen + 1):
            for b in range(maxlen + 1):
                for s in sizes:
                    out.append(dict(headers=h, queue=[dict(data=datagram(rng, a), err=""), dict(data=datagram(rng, b), err=""),
                                                      dict(data=datagram(rng, 13), err="")],
                                    reads=list(s), drain=rng.choice([1, 2, 9]), scratch=rng.randrange(2), nil=0))
    return out


def sc_packets_large(rng, lens):
    """datagrams up to the most that UDP carries"""
    return [dict(headers=h, queue=[dict(data=datagram(rng, n), err=""), dict(data=datagram(rng, 11), err="")],
                 reads=[], drain=rng.choice([5000, 16376, 16377, 20000]), scratch=rng.randrange(2), nil=0) for n in lens for h in (0, 1)]


def packets(ctx):
    r = ctx.rng
    ms = [("MC_PacketReader", "MC_PacketReader.cfg", dict(Headers=h, MaxDatagrams=ctx.pick(4, 5), MaxLen=ctx.pick(13, 17), MaxRead=ctx.pick(3, 4))) for h in ("TRUE", "FALSE")]
    large = [16387, 16388, 32769, 65507] + ctx.pick([], [8192, 8196, 16384, 32764, 32768, 32772, 49152, 65024, 65028, 65504])
    sizes = [(9, 9), (1, 1, 1), (0, 2)] if not ctx.thorough else list(itertools.product([0, 1, 2, 9], repeat=2))
    ctx.assumptions.append("datagrams up to the 65507 bytes that UDP carries")
    go(ctx, "packet", "PacketTrace", sc_packets(r, ctx.pick(400, 6000)) + sc_packets_large(r, large) + sc_packets_all(r, ctx.pick(13, 18), sizes), ms)


CHECKS = dict(B01=B01, B02=B02, B03=B03, B04=B04, P01=packets, P02=packets)
