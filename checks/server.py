"""S01..S04: the bundled BorIP server, run with a stand-in for the receiver driver."""
import base64, decimal, fcntl, json, os, random, re, select, signal, socket, subprocess, threading, time
from vlib import *

PORT = 28888
NUM = re.compile(r"^[+-]?\d+(\.\d+)?$")


def canon(t):
    if not NUM.match(t):
        return t
    d = decimal.Decimal(t)
    s = format(d, "f")
    if "." in s:
        s = s.rstrip("0").rstrip(".")
    return "0" if s in ("-0", "") else s.lstrip("+")


def build_server(ctx):
    mod = ctx.path("server.mod")
    src = "module %s\n\ngo 1.17\n" % MODPATH
    if os.path.exists(REPO + "/go.mod"):
        src = open(REPO + "/go.mod").read()
    src += "\nrequire github.com/samuel/go-rtlsdr v0.0.0\n\nreplace github.com/samuel/go-rtlsdr => %s/rtlstub\n" % HARN
    with open(mod, "w") as f:
        f.write(src)
    flags = ("-race", "-gcflags=all=-d=checkptr=0") if ctx.prop == "X02" else ()
    return build(ctx, "boripserver", pkg="./boripserver", gomod=mod, flags=("-mod=mod",) + flags)


class Port:
    """One server at a time on the fixed port."""
    def __enter__(self):
        self.f = open("/tmp/verif-borip-port.lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


class Hang(Exception):
    pass


class Enough(Hang):
    """Far more datagrams than samples delivered: the record shows it already."""


class Client:
    def __init__(self, n, sock):
        self.n, self.sock, self.buf, self.busy, self.greeted, self.gone, self.w = n, sock, b"", False, False, False, ""


class World:
    """The server process, its driver stand-in, clients and destinations."""
    patience = 10.0

    def __init__(self, ctx, binary, names, rng, perr=0.0, gains=None, quant=(1, 1, 1), delay=False):
        self.ctx, self.rng, self.names, self.perr, self.quant, self.delay = ctx, rng, names, perr, quant, delay
        self.gains = gains if gains is not None else [[0, 9, 14, 27]] * len(names)
        self.log, self.clients, self.pending, self.handles = [], [], [], []
        self.hw = []          # per handle dict
        self.udp, self.dead, self.dests = {}, set(), 0
        self.expect, self.more = 0, []
        ctx.nb += 1
        self.path = ctx.path("rtl%d.sock" % ctx.nb)
        ls = socket.socket(socket.AF_UNIX)
        ls.bind(self.path)
        ls.listen(1)
        ls.settimeout(20)
        self.err = open(ctx.path("server%d.err" % ctx.nb), "wb")
        self.proc = subprocess.Popen([binary], stdout=subprocess.DEVNULL, stderr=self.err, stdin=subprocess.DEVNULL,
                                     cwd=ctx.dir, env=dict(os.environ, VERIF_RTL=self.path, GOTRACEBACK="single"))
        try:
            self.stub, _ = ls.accept()
        except OSError:
            self.kill()
            raise Trouble("server did not reach the driver stand-in: " + self.stderr())
        finally:
            ls.close()
        self.sbuf = b""
        self.ready = False
        self.calls, self.plan = 0, ()      # answers given, which of them fail
        self.short = 0
        self.dead_server = self.excess = self.ending = False
        self.emit(op="begin", names=names)
        t0 = time.time()
        while True:
            self.poll(0.002)
            try:
                s = socket.create_connection(("127.0.0.1", PORT), timeout=5)
                s.close()
                break
            except OSError:
                if self.proc.poll() is not None or time.time() - t0 > 20:
                    e = self.stderr()
                    self.kill()
                    raise Trouble("server does not listen: " + e)
        self.ready = True

    def stderr(self):
        try:
            b = open(self.err.name, "rb").read()
            i = b.find(b"panic")
            return b[max(0, i):][:1500].decode("utf8", "replace") if i >= 0 else b[-600:].decode("utf8", "replace")
        except OSError:
            return ""

    def emit(self, **e):
        self.log.append(e)

    def hung(self, x):
        if isinstance(x, Enough):
            self.ctx.enough += 1
        else:
            self.emit(op="hang", what=str(x))

    # ---- events
    def write(self, m):
        try:
            self.stub.sendall((json.dumps(m, separators=(",", ":")) + "\n").encode())
        except OSError:
            self.crashed()

    def crashed(self):
        if not self.dead_server:
            self.dead_server = True
            try:
                self.proc.wait(2)
            except subprocess.TimeoutExpired:
                pass
            self.emit(op="crash", status=str(self.proc.poll()), text=self.stderr()[:400])

    def poll(self, timeout):
        """Read what there is; True if anything happened."""
        if self.dead_server:
            return False
        socks = [c.sock for c in self.clients if not c.gone and c.sock] + self.more + [self.stub]
        r, _, _ = select.select(socks, [], [], timeout)
        if not r:
            return False
        stub = self.stub in r
        some = False
        if stub:
            r = select.select(socks, [], [], 0)[0]
        for c in self.clients:
            if not c.gone and c.sock and c.sock in r:
                some |= self.read_client(c)
        for m in self.more:
            if m in r:
                some |= self.read_more()
        if stub:
            try:
                b = self.stub.recv(1 << 16)
            except OSError:
                b = b""
            if not b:
                self.crashed()
                return True
            self.sbuf += b
            *lines, self.sbuf = self.sbuf.split(b"\n")
            for l in lines:
                some = True
                self.stub_msg(json.loads(l))
        return some

    def read_client(self, c):
        try:
            b = c.sock.recv(1 << 16)
        except OSError:
            b = b""
        if not b:
            # the server hung up: only ever seen when it went down
            c.gone = True
            self.poll_crash()
            if not self.dead_server:
                self.emit(op="reply", c=c.n, t=["", "connection closed"], d=[])
            return True
        c.buf += b
        *lines, c.buf = c.buf.split(b"\n")
        for l in lines:
            s = l.decode("latin1")
            t = [canon(x) for x in s.split(" ")]
            d = [canon(x) for x in s[7:].split("|")] if s.startswith("DEVICE ") else []
            self.emit(op="reply", c=c.n, t=t, d=d)
            if c.greeted:
                c.busy = False
            c.greeted = True
            self.on_reply(c, s)
        return bool(lines)

    def on_reply(self, c, s):
        pass

    def poll_crash(self):
        t0 = time.time()
        while time.time() - t0 < 0.5 and not self.dead_server:
            if self.proc.poll() is not None:
                self.crashed()
            time.sleep(0.01)

    def stub_msg(self, m):
        if m.get("cb"):
            h = self.hw[m["h"] - 1]
            h["incb"] = False
            if m["stop"]:
                h["async"] = False
                n = m["n"] - 1 if not h["nil"] else 0
            else:
                n = m["n"]
            self.expect += 2 * n * h["len"]
            self.emit(op="cbret", h=m["h"], stop=m["stop"], n=m["n"])
            return
        f = m["call"]
        if f == "GetDeviceCount":
            self.write(dict(id=m["id"], val=len(self.names)))
        elif f == "GetDeviceName":
            self.write(dict(id=m["id"], str=self.names[m["arg"]]))
        else:
            self.emit(op="call", f=f, h=m["h"], i=m["arg"] if f == "Open" else 0, arg=str(m["arg"]))
            self.pending.append(m)

    # ---- driver
    def answerable(self):
        return [m for m in self.pending if m["call"] not in ("Close", "ReadAsync")
                or not (1 <= m["h"] <= len(self.hw) and self.hw[m["h"] - 1]["async" if m["call"] == "Close" else "incb"])]

    def answer(self, m, err=None):
        self.pending.remove(m)
        f, arg, a = m["call"], m["arg"], dict(id=m["id"])
        if err is None:
            err = f not in ("Close", "ReadAsync", "SetAGCMode", "SetTunerGainMode")
            self.calls += err
            if self.plan:
                err = err and self.calls in self.plan
            else:
                err = err and self.rng.random() < self.perr
        ev = dict(op="ret", f=f, h=m["h"], i=0, err=1 if err else 0, val="0", list=[])
        if f == "Open":
            ev["i"] = arg
            if not err:
                self.hw.append(dict(i=arg, freq=0, rate=0, gain=0, open=True, incb=False, nil=False, len=0, **{"async": False}))
                ev["h"] = a["val"] = len(self.hw)
        elif 1 <= m["h"] <= len(self.hw):
            h = self.hw[m["h"] - 1]
            if f == "Close":
                h["open"] = False
            elif f == "ReadAsync":
                h["async"] = True
            elif f in ("SetCenterFreq", "SetSampleRate", "SetTunerGain") and not err:
                k, q = dict(SetCenterFreq=("freq", 0), SetSampleRate=("rate", 1), SetTunerGain=("gain", 2))[f]
                h[k] = arg // self.quant[q] * self.quant[q]
                ev["val"] = str(h[k])
            elif f in ("GetCenterFreq", "GetSampleRate", "GetTunerGain"):
                a["val"] = h[dict(GetCenterFreq="freq", GetSampleRate="rate", GetTunerGain="gain")[f]]
                ev["val"] = str(a["val"])
            elif f == "GetTunerGains":
                g = self.gains[h["i"]]
                a["list"] = g
                ev["list"] = [[str(v), str(v - g[k - 1])] for k, v in enumerate(g)]
            elif f == "GetXtalFreq":
                a["val"] = 28800000 + h["i"]
                ev["val"] = str(a["val"])
        if err:
            a["err"] = "stand-in failure"
            a.pop("val", None)
            ev["val"], ev["list"] = "0", []
        self.emit(**ev)
        self.write(a)

    def deliver(self, h, data=b"", nil=False, rep=1):
        w = self.hw[h - 1]
        w["incb"], w["nil"], w["len"] = True, nil, len(data)
        self.emit(op="deliver", h=h, nil=1 if nil else 0, buf=list(data), rep=rep)
        self.write(dict(deliver=1, h=h, data=base64.b64encode(data).decode(), nil=1 if nil else 0, rep=rep))

    def streams(self):
        return [i + 1 for i, h in enumerate(self.hw) if h["async"] and h["open"] and not h["incb"]]

    def in_callback(self):
        return any(h["incb"] for h in self.hw)

    # ---- clients
    def connect(self, ip=None, quick=False):
        n = len(self.clients) + 1
        ip = ip or "127.0.0.%d" % (1 + n)
        s = socket.socket()
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.bind((ip, 0))
        s.settimeout(10)
        s.connect(("127.0.0.1", PORT))
        c = Client(n, s)
        self.listen(ip, PORT)
        self.clients.append(c)
        self.emit(op="conn", c=n, dest="%s:%d" % (ip, PORT))
        return c

    def listen(self, ip, port):
        if (ip, port) in self.udp:
            return
        u = socket.socket(socket.AF_INET6 if ":" in ip else socket.AF_INET, socket.SOCK_DGRAM)
        u.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 20)
        u.bind((ip, port))
        u.setblocking(False)
        self.udp[(ip, u.getsockname()[1])] = u
        return u.getsockname()[1]

    def cmd(self, c, w, k="", a="", lo="", hi="", text=None):
        """text: the line as sent"""
        self.emit(op="cmd", c=c.n, w=w, k=k, a=a, lo=lo, hi=hi)
        c.busy, c.w = True, w + k
        try:
            c.sock.sendall(text)
        except OSError:
            pass

    def disconnect(self, c, reset=False):
        c.gone = True
        self.emit(op="disc", c=c.n)
        if reset:
            c.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
        c.sock.close()

    def drain(self):
        got, got_bytes, want, t0 = [], 0, self.expect, time.time()
        if self.excess:
            return
        while not self.excess:
            for (ip, port), u in self.udp.items():
                while got_bytes < want + 200000:
                    try:
                        b = u.recv(1 << 17)
                    except (BlockingIOError, ConnectionError):
                        break
                    got_bytes += len(b)
                    if len(b) < 4:
                        got.append(dict(to=hostport(ip, port), flags=-1, note=0, seq=0, b=list(b)))
                    else:
                        got.append(dict(to=hostport(ip, port), flags=b[0], note=b[1], seq=b[2] + 256 * b[3], b=list(b[4:])))
            self.excess = sum(len(g["b"]) for g in got) > want + 100000 + 4 * len(got)
            if sum(len(g["b"]) for g in got) >= want or time.time() - t0 > (0.02 if self.dead else 1.0):
                break
            time.sleep(0.001)
        self.expect = 0
        if got or want:
            self.emit(op="drain", got=got, dead=sorted(self.dead))
        self.check_flow(sum(len(g["b"]) for g in got), want)

    def check_flow(self, got, want):
        """Ends a run that has shown enough lost or unexpected datagrams."""
        self.short += got < want and not self.dead
        if (self.excess or self.short > 1) and not self.ending:
            raise Enough("datagrams")

    # ---- scheduling
    def waiting(self):
        return [c for c in self.clients if not c.gone and (c.busy or not c.greeted)]

    def settle_down(self, window=0.002):
        """Until every waiting client has been answered or waits for the driver,
        or nothing happens any more."""
        t0 = time.time()
        while not self.dead_server:
            if self.in_callback():
                if not self.poll(0.05) and time.time() - t0 > self.patience:
                    raise Hang("sample callback does not return")
                continue
            n = len(self.waiting())
            gone = any(c.gone for c in self.clients)
            if n <= len(self.pending) and not gone:
                if not self.poll(0):
                    break
            elif not self.poll(window):
                break
        if not self.in_callback():
            self.drain()

    def finish_commands(self, deliver=None):
        """Answers and delivers until nobody waits."""
        last, given = time.time(), 0
        while self.waiting() and not self.dead_server:
            if self.answerable():
                self.answer(self.answerable()[0])
                last = time.time()
            elif self.pending and self.streams():
                m = self.pending[0]
                hs = [m["h"] for m in self.pending if m["h"] in self.streams()]
                if hs:
                    self.deliver(hs[0], deliver() if deliver else b"")
                    given += 1
                    if given > 100:
                        raise Hang("device is being closed but its stream goes on")
            if self.in_callback():
                self.settle_down()
            if self.poll(0.05):
                last = time.time()
            elif time.time() - last > self.patience:
                raise Hang("no reply")
        if not self.in_callback():
            self.drain()

    def end(self):
        self.ending = True
        for c in self.clients:
            if not c.gone:
                self.disconnect(c, reset=self.rng.random() < 0.3)
        last, given = time.time(), 0
        while not self.dead_server and given < 100:
            if self.answerable():
                self.answer(self.answerable()[0])
                last = time.time()
                continue
            hs = [m["h"] for m in self.pending if m["h"] in self.streams()]
            if hs:
                self.deliver(hs[0], b"")
                given += 1
            if self.poll(0.03):
                last = time.time()
                if not self.in_callback():
                    self.drain()
            elif (not any(h["open"] for h in self.hw) and not self.pending) or time.time() - last > self.patience:
                break
        if not self.dead_server and self.proc.poll() is not None:
            self.crashed()
        if not self.dead_server:
            self.emit(op="quiet", stuck=1 if any(h["open"] for h in self.hw) or self.pending else 0)

    def kill(self):
        try:
            self.proc.kill()
            self.proc.wait()
        except OSError:
            pass
        for s in [getattr(self, "stub", None)] + [c.sock for c in self.clients if c.sock] + list(self.udp.values()):
            if s:
                s.close()
        self.err.close()
        if self.ctx.prop == "X02":
            b = open(self.err.name, "rb").read().decode("utf8", "replace")
            m = re.search(r"WARNING: DATA RACE|fatal error: concurrent map", b)
            if m:
                self.emit(op="race", text=b[m.start():][:1200])


# ------------------------------------------------------------ commands
BADNUM = ["abc", "1.2.3", "--1", "5Hz", "1e", "x9", "1,5", "."]


def hostport(ip, port):
    return ("[%s]:%d" if ":" in ip else "%s:%d") % (ip, port)


def has_v6():
    try:
        with socket.socket(socket.AF_INET6, socket.SOCK_DGRAM) as a, socket.socket(socket.AF_INET6, socket.SOCK_DGRAM) as b:
            a.bind(("::1", 0))
            b.connect(a.getsockname())
            b.send(b"x")
            return True
    except OSError:
        return False


V6 = has_v6()


def spell(rng, s):
    k = rng.randrange(8)
    w, _, r = s.partition(" ")
    if k == 0:
        w = w.lower()
    elif k == 1:
        w = "".join(rng.choice([x.lower(), x.upper()]) for x in w)
    s = w + (" " + r if r else "")
    pre = rng.choice([b"", b"", b"", b"\n", b"\r\n", b"  \n"])
    return pre + s.encode() + rng.choice([b"\n", b"\n", b"\n", b"\r\n", b" \n"])


def number(rng, w):
    if w == "GAIN":
        v = rng.choice([0, 1, -1, 9, 15, 402, -10, rng.randrange(-100, 600)])
    elif w == "RATE":
        v = rng.choice([225001, 1000000, 2400000, 3200000, 0, rng.randrange(1, 4000000)])
    else:
        v = rng.choice([144100000, 0, 1, 24000000, 1766000000, 2200000000, 4294967295, 16777217, 433920001, rng.randrange(1, 4294967295)])
    if rng.random() < 0.15:
        fr = rng.choice(["5", "25", "125", "001", "999", "000001", "75"])
        d = decimal.Decimal("%d.%s" % (v, fr))
        lo = int(d.to_integral_value(decimal.ROUND_FLOOR))
        return "%d.%s" % (v, fr), str(lo), str(lo + 1)
    t = str(v) + rng.choice(["", "", "", ".0", ".000000"])
    return t, str(v), str(v)


def random_command(wd, c, rng, mix):
    ws = [w for w, p in mix for _ in range(p)]
    w = rng.choice(ws)
    if w in ("FREQ", "RATE", "GAIN"):
        k = rng.randrange(10)
        if k < 4:
            wd.cmd(c, w, "q", text=spell(rng, w))
        elif k < 9:
            t, lo, hi = number(rng, w)
            wd.cmd(c, w, "num", canon(t), lo, hi, text=spell(rng, w + " " + t))
        else:
            wd.cmd(c, w, "bad", text=spell(rng, w + " " + rng.choice(BADNUM)))
    elif w == "ANTENNA":
        k = rng.choice(["q", "set"])
        wd.cmd(c, w, k, text=spell(rng, w + ("" if k == "q" else " " + rng.choice(["default", "RX2"]))))
    elif w == "DEST":
        k = rng.randrange(6)
        if k < 2:
            wd.cmd(c, w, "q", text=spell(rng, w))
        elif k == 2:
            wd.cmd(c, w, "bad", text=spell(rng, w + " " + rng.choice(["127.0.0.1", "1.2.3.4:99999", "[::1:5", "127.0.0.1:x", "127.0.0.1:5:6"])))
        else:
            ip = "::1" if V6 and rng.random() < 0.2 else "127.0.0.%d" % (1 + c.n)
            wd.dests += 1
            if rng.random() < 0.1 and ip != "::1":
                a = "%s:%d" % (ip, 9)
                wd.dead.add(a)
            else:
                port = wd.listen(ip, 0)
                a = hostport(ip, port)
            wd.cmd(c, w, "ok", a, text=spell(rng, w + " " + a))
    elif w == "DEVICE":
        wd.cmd(c, w, "-", text=spell(rng, rng.choice(["DEVICE -", "DEVICE -", "DEVICE"])))
    elif w == "RELEASE":
        wd.cmd(c, "DEVICE", "!", text=spell(rng, "DEVICE !"))
    elif w == "HINT":
        wd.cmd(c, "DEVICE", "hint", text=spell(rng, "DEVICE " + rng.choice(["RTL", "0", "dev", "--", "!!"])))
    elif w == "UNKNOWN":
        x = rng.choice(["HEADER", "HELP", "X", "FREQUENCY", "DEVICES", "GOO", "?", "QUIT", "HEADER ON", "-"])
        wd.cmd(c, x.split(" ")[0], "", text=spell(rng, x))
    else:
        wd.cmd(c, w, "", text=spell(rng, w))


ALL = [("DEVICE", 4), ("RELEASE", 2), ("HINT", 1), ("FREQ", 3), ("RATE", 3), ("GAIN", 3), ("ANTENNA", 1), ("DEST", 2), ("GO", 5), ("STOP", 5), ("UNKNOWN", 1)]
OWN = [("DEVICE", 8), ("RELEASE", 4), ("HINT", 1), ("FREQ", 2), ("RATE", 1), ("GO", 3), ("STOP", 2)]
STREAM = [("GO", 6), ("STOP", 5), ("DEVICE", 2), ("RELEASE", 1), ("DEST", 3), ("FREQ", 1)]
MIX = dict(all=ALL, own=OWN, stream=STREAM)


def buffer(rng, big):
    k = rng.randrange(10)
    if big and k < 4:
        n = rng.choice([8190, 8192, 8194, 16382, 16384, 16386, 24576, 32768])
    elif k == 9:
        n = 0
    else:
        n = 2 * rng.randrange(1, 20)
    return bytes(rng.getrandbits(8) for _ in range(n))


def scenario(ctx, binary, sc):
    """One run; returns trace lines."""
    rng = random.Random(sc["seed"])
    names = sc["names"]
    gains = [rng.choice([[], [5], [0, 9, 14, 27, 37], [-10, 15, 40], [0, 1]]) for _ in names]
    quant = (rng.choice([1, 10, 1000]), rng.choice([1, 7, 100]), rng.choice([1, 1, 5]))
    wd = World(ctx, binary, names, rng, perr=sc["perr"], gains=gains, quant=quant)
    mix, conc, big = MIX[sc["mix"]], sc["conc"], sc.get("big", 0)
    try:
        try:
            bigs = big
            for step in range(sc["steps"]):
                if wd.dead_server:
                    break
                live = [c for c in wd.clients if not c.gone]
                idle = [c for c in live if c.greeted and not c.busy]
                acts = []
                if len(live) < sc["clients"] and len(wd.clients) < 60:
                    acts += ["connect"] * (6 if not live else 2)
                acts += ["cmd"] * (8 if idle else 0)
                if live and rng.random() < sc.get("drops", 0.3):
                    acts += ["drop"]
                acts += ["answer"] * (sc.get("answers", 6) if wd.answerable() else 0)
                acts += ["deliver"] * (5 if wd.streams() else 0)
                if len(wd.streams()) > 1:
                    acts += ["deliver2"] * 2
                if rng.random() < 0.03:
                    acts = ["settle"]
                if not acts:
                    wd.settle_down(0.02)
                    continue
                a = rng.choice(acts)
                if a == "connect":
                    c = wd.connect()
                    if rng.random() < 0.05:
                        wd.disconnect(c, rng.random() < 0.5)
                elif a == "cmd":
                    random_command(wd, rng.choice(idle), rng, mix)
                    if not conc or rng.random() < 0.2:
                        if conc:
                            pass
                        else:
                            wd.finish_commands()
                elif a == "drop":
                    c = rng.choice(live)
                    if not c.busy and rng.random() < 0.3:
                        try:
                            c.sock.sendall(rng.choice([b"DEVICE -", b"GO", b"DEVICE !", b"FREQ 1"]))
                        except OSError:
                            pass
                    wd.disconnect(c, rng.random() < 0.4)
                elif a == "answer":
                    wd.answer(rng.choice(wd.answerable()))
                elif a in ("deliver", "deliver2"):
                    hs = wd.streams()
                    rng.shuffle(hs)
                    for h in hs[:1 if a == "deliver" else 3]:
                        nil = rng.random() < 0.04
                        b = b"" if nil else buffer(rng, bigs > 0 and a == "deliver")
                        if len(b) > 4000:
                            bigs -= 1
                        rep = 1 if nil or rng.random() < 0.8 or len(b) > 100 else rng.randrange(2, 6)
                        if a == "deliver2":
                            b, rep, nil = b[:1] * 2 + bytes(rng.getrandbits(8) for _ in range(2 * rng.randrange(100, 300))), rng.randrange(8, 25), False
                        wd.deliver(h, b, nil, rep)
                elif a == "settle":
                    if not any(c.gone for c in wd.clients) or not any(h["open"] for h in wd.hw) and not wd.pending:
                        wd.settle_down()
                        t0 = time.time()
                        while time.time() - t0 < 0.06:
                            if wd.poll(0.06):
                                break
                        else:
                            if not any(h["open"] for h in wd.hw) and not wd.pending:
                                wd.emit(op="settled")
                wd.settle_down()
            wd.finish_commands()
        except Hang as x:
            wd.hung(x)
        wd.end()
    finally:
        wd.kill()
    return lines(wd)


def lines(wd):
    return [json.dumps(e, separators=(",", ":")) for e in wd.log]


def until(wd, cond):
    """Serve the driver until cond holds."""
    t0 = time.time()
    while not cond() and not wd.dead_server:
        if wd.answerable():
            wd.answer(wd.answerable()[0])
        elif not wd.poll(0.02) and time.time() - t0 > wd.patience:
            raise Hang("no reply")


def sc_wrap(ctx, binary, sc):
    """A stream of more than 65536 datagrams."""
    rng = random.Random(sc["seed"])
    wd = World(ctx, binary, ["dev"], rng)
    try:
        try:
            c = wd.connect()
            until(wd, lambda: c.greeted)
            for w, k in (("DEVICE", "-"), ("GO", "")):
                wd.cmd(c, w, k, text=(w + "\n").encode())
                wd.finish_commands()
            left = sc["n"]
            while left > 0 and wd.streams():
                n = min(100, left)
                wd.deliver(1, bytes(rng.getrandbits(8) for _ in range(2)), rep=n)
                left -= n
                wd.settle_down()
            for w in ("STOP", "GO"):
                wd.cmd(c, w, text=(w + "\n").encode())
                wd.finish_commands()
                if wd.streams():
                    wd.deliver(1, b"\1\2\3\4")
                wd.settle_down()
        except Hang as x:
            wd.hung(x)
        wd.end()
    finally:
        wd.kill()
    return lines(wd)


MATRIX = [(w, k) for w in ("FREQ", "RATE", "GAIN") for k in ("q", "num", "num", "bad")] + \
    [("ANTENNA", "q"), ("ANTENNA", "set"), ("DEST", "q"), ("DEST", "ok"), ("DEST", "bad"), ("DEVICE", "-"), ("DEVICE", "!"),
     ("DEVICE", "hint"), ("GO", ""), ("STOP", ""), ("HEADER", ""), ("X", "")]


def sc_matrix(ctx, binary, sc):
    """Every command in every session state with every driver call in turn failing, looked at afterwards."""
    rng = random.Random(sc["seed"])
    gains = [rng.choice([[], [5], [0, 9, 14, 27, 37], [-10, 15, 40]]) for _ in sc["names"]]
    wd = World(ctx, binary, sc["names"], rng, gains=gains, quant=(rng.choice([1, 10]), rng.choice([1, 100]), rng.choice([1, 5])))

    def do(w, k="", plan=(), c=None):
        c = c or wd.clients[0]
        wd.calls, wd.plan = 0, plan
        if w == "DEST" and k == "bad":
            wd.cmd(c, w, k, text=spell(rng, "DEST 127.0.0.1:99999"))
        elif w == "DEST" and k == "ok":
            a = "127.0.0.%d:%d" % (1 + c.n, wd.listen("127.0.0.%d" % (1 + c.n), 0))
            wd.cmd(c, w, k, a, text=spell(rng, "DEST " + a))
        elif k == "num":
            x, lo, hi = number(rng, w)
            wd.cmd(c, w, k, canon(x), lo, hi, text=spell(rng, w + " " + x))
        elif k == "bad":
            wd.cmd(c, w, k, text=spell(rng, w + " " + rng.choice(BADNUM)))
        elif w == "ANTENNA":
            wd.cmd(c, w, k, text=spell(rng, w + (" default" if k == "set" else "")))
        elif k == "q":
            wd.cmd(c, w, k, text=spell(rng, w))
        elif k == "hint":
            wd.cmd(c, w, k, text=spell(rng, w + " RTL"))
        else:
            wd.cmd(c, w, k, text=spell(rng, w + (" " + k if k else "")))
        wd.finish_commands(lambda: b"\1\2")
        wd.plan = ()
        return wd.calls
    try:
        try:
            c = wd.connect()
            until(wd, lambda: c.greeted)
            for state, w, k in sc["cells"]:
                fails = [()] + [(i,) for i in range(1, 9)] + [(1, 2), (2, 3), (1, 2, 3)]
                n = 99
                while fails and not wd.dead_server:
                    plan = fails.pop(0)
                    if plan and plan[-1] > n:
                        continue
                    if state == "other":       # another client has the only device
                        do("DEVICE", "!")
                        if len(wd.clients) < 2:
                            o = wd.connect()
                            until(wd, lambda: o.greeted)
                        do("DEVICE", "-", c=o)
                        for q in rng.choice([(), ("GO",), ("GO", "STOP")]):
                            do(q, c=o)
                    elif state == "free":
                        do("DEVICE", "!")
                    else:
                        do("DEVICE", "-")
                        do("GO" if state in ("stream", "stopping") else "STOP")
                    if state == "stopping":
                        do("STOP")
                    m = do(w, k, plan)
                    n = n if plan else m
                    for h in wd.streams():
                        wd.deliver(h, bytes(rng.getrandbits(8) for _ in range(2 * rng.randrange(1, 9))))
                        wd.settle_down()
                    for q in ("FREQ", "RATE", "GAIN", "ANTENNA", "DEST"):
                        if q == w or rng.random() < 0.3:
                            do(q, "q")
                    if state == "other":
                        for q, k2 in rng.choice([[("STOP", "")], [("FREQ", "num"), ("GO", "")], [("GO", ""), ("RATE", "num")]]) + [("DEVICE", "!")]:
                            do(q, k2, c=o)
                        do("DEVICE", "-")
                        do("FREQ", "num", c=o)
                    for q in rng.choice([(), ("GO", "STOP"), ("STOP",), ("STOP", "GO")]):
                        do(q)
                        for h in wd.streams():
                            wd.deliver(h, b"\7\0")
                            wd.settle_down()
        except Hang as x:
            wd.hung(x)
        wd.end()
    finally:
        wd.kill()
    return lines(wd)


def matrix(rng, n, states=("free", "held", "stream", "stopping")):
    """The cells of the matrix in n runs."""
    cells = [[s, w, k] for s in states for w, k in MATRIX]
    rng.shuffle(cells)
    return [dict(kind="matrix", seed=rng.getrandbits(40), names=names(rng, 1 if "other" in states else rng.choice([1, 2])), cells=cells[i::n]) for i in range(n)]


def sc_race(ctx, binary, sc):
    """Buffers arrive without pause while the stream is started and stopped."""
    rng = random.Random(sc["seed"])
    wd = World(ctx, binary, sc["names"], rng)
    busy = sc.get("busy")          # samples and destinations too; what arrives is not looked at
    if busy:
        wd.drain = lambda: None

    def flood(h):
        if busy and rng.random() < 0.6:
            wd.deliver(h, bytes(rng.getrandbits(8) for _ in range(2 * rng.randrange(1, 9))), rep=rng.choice([20, 300, 2000]))
        else:
            wd.deliver(h, b"", nil=rng.random() < 0.1, rep=1 << 30)
    try:
        try:
            clients = [wd.connect() for _ in sc["names"]]
            until(wd, lambda: all(c.greeted for c in clients))
            for _ in range(sc["rounds"]):
                for c in clients:
                    if c.busy or c.gone:
                        continue
                    w = rng.choice(["GO", "GO", "GO", "STOP", "STOP", "DEVICE", "RELEASE", "FREQ"] + (["DEST", "DEST", "RATE", "DEVICE", "GAIN"] if busy else []))
                    random_command(wd, c, rng, [(w, 1)])
                    for h in wd.streams():
                        flood(h)
                    if rng.random() < 0.2:
                        until(wd, lambda: not c.busy)
                        for h in wd.streams():
                            wd.deliver(h, b"", rep=1 << 30)
                    if rng.random() < 0.06:
                        wd.disconnect(c, rng.random() < 0.5)
                        n = wd.connect()
                        clients[clients.index(c)] = n
                        until(wd, lambda: n.greeted)
                        break
                t0 = t1 = time.time()
                while any(c.busy for c in clients) and not wd.dead_server:
                    if wd.answerable():
                        wd.answer(rng.choice(wd.answerable()))
                        continue
                    hs = [m["h"] for m in wd.pending if m["h"] in wd.streams()]
                    for h in hs:
                        wd.deliver(h, b"", rep=1 << 30)
                    if time.time() - t1 > 3 * wd.patience:
                        raise Hang("no reply")
                    if wd.poll(0.02):
                        t0 = time.time()
                    elif time.time() - t0 > wd.patience:
                        raise Hang("no reply")
                if wd.dead_server:
                    break
        except Hang as x:
            wd.hung(x)
        wd.end()
    finally:
        wd.kill()
    return lines(wd)


def scripts(ctx, n):
    """Orders of events that TLC's simulator draws from the server's design."""
    out, got = [], {}
    for devs, most in ((1, 2), (2, 2), (2, 3), (1, 3)):
        cfg = ctx.path("scripts%d%d.cfg" % (devs, most))
        t = open(SPEC + "/MC_ServerScripts.cfg").read()
        open(cfg, "w").write(re.sub(r"AtOnce = \d+", "AtOnce = %d" % most, re.sub(r"Devs = \d+", "Devs = %d" % devs, t)))
        rc, o = tlc(ctx, SPEC + "/MC_ServerScripts.tla", cfg, workers=1, extra=("-simulate", "num=%d" % (n // 4 + 1), "-depth", "600", "-seed", str(2 * ctx.seed + (ctx.prop == "S02"))))
        if rc != 0:
            raise Trouble("simulation of MC_ServerScripts: exit %s\n%s" % (rc, o[-2000:]))
        m = re.search(r"(\d+) states checked", o)
        ctx.cov["transitions"] += int(m.group(1)) if m else 0
        for x in re.finditer(r'<<"SCRIPT", "((?:[^"\\]|\\.)*)">>', o):
            sc = json.loads(json.loads('"%s"' % x.group(1)))
            got[json.dumps(sc[:-1])] = (devs, sc)
    for devs, sc in list(got.values()):
        out.append(dict(kind="script", seed=len(out), names=["dev %d" % i for i in range(devs)], script=sc))
    ctx.cov["scripts"] = len(out)
    return out


def sc_script(ctx, binary, sc):
    """Clients and driver act in the order of the script as far as the server
    lets them."""
    rng = random.Random(sc["seed"])
    wd = World(ctx, binary, sc["names"], rng)
    modelled = ("Open", "Close", "SetCenterFreq", "SetSampleRate", "SetAGCMode", "ResetBuffer", "ReadAsync")

    def ready(cond, window=0.01):
        """Serve what the script leaves out until cond holds or nothing happens."""
        while not wd.dead_server:
            extra = [m for m in wd.pending if m["call"] not in modelled]
            if extra:
                wd.answer(extra[0])
            elif cond():
                return True
            elif not wd.poll(window) and not wd.in_callback():
                return False
        return False
    try:
        try:
            for e in sc["script"]:
                c = wd.clients[e["c"] - 1] if e.get("c") and e["c"] <= len(wd.clients) else None
                if wd.dead_server:
                    break
                if e["op"] == "conn":
                    wd.connect()
                elif c is not None and not c.gone and e["op"] == "disc":
                    ready(lambda: c.greeted)
                    wd.disconnect(c, rng.random() < 0.3)
                elif c is not None and not c.gone and e["op"] == "cmd":
                    if ready(lambda: c.greeted and not c.busy):
                        wd.cmd(c, e["w"], e["k"], text=(e["w"] + (" " + e["k"] if e["k"] else "") + "\n").encode())
                elif e["op"] == "ret":
                    def match():
                        return [m for m in wd.answerable() if m["call"] == e["f"]]
                    if ready(lambda: match()):
                        same = [m for m in match() if m["h"] == e["h"] or (e["f"] == "Open" and m["arg"] == e["i"])]
                        wd.answer((same or match())[0], err=bool(e["err"]))
                    elif wd.answerable():
                        wd.answer(rng.choice(wd.answerable()))
                elif e["op"] == "deliver":
                    if ready(lambda: e["h"] in wd.streams()) or wd.streams():
                        h = e["h"] if e["h"] in wd.streams() else wd.streams()[0]
                        wd.deliver(h, bytes([rng.randrange(256), 0]), nil=bool(e["nil"]))
                        ready(lambda: not wd.in_callback())
                        wd.drain()
            wd.finish_commands()
        except Hang as x:
            wd.hung(x)
        wd.end()
    finally:
        wd.kill()
    return lines(wd)


class Api:
    """A client of the library, in the driver process."""
    def __init__(self, n):
        self.n, self.sock, self.busy, self.greeted, self.gone, self.m = n, None, False, False, False, ""
        self.dest, self.closing = None, False


class LinkWorld(World):
    """The server with clients of package borip."""
    def __init__(self, ctx, binary, driver, names, rng, **kw):
        super().__init__(ctx, binary, names, rng, **kw)
        self.drv = subprocess.Popen([driver], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, cwd=ctx.dir)
        self.more = [self.drv.stdout]
        self.dbuf, self.answers = b"", []

    def kill(self):
        if hasattr(self, "drv"):
            self.drv.kill()
            self.drv.wait()
            self.drv.stdin.close()
            self.drv.stdout.close()
        super().kill()

    def tell(self, **m):
        try:
            self.drv.stdin.write((json.dumps(m) + "\n").encode())
            self.drv.stdin.flush()
        except OSError:
            raise Trouble("client driver died: " + self.stderr())

    def read_more(self):
        b = os.read(self.drv.stdout.fileno(), 1 << 20)
        if not b:
            raise Trouble("client driver died: " + self.stderr())
        self.dbuf += b
        *ls, self.dbuf = self.dbuf.split(b"\n")
        for l in ls:
            m = json.loads(l)
            if m["m"] in ("read", "listen"):
                self.answers.append(m)
                continue
            c = self.clients[m["c"] - 1]
            c.busy = False
            if m["m"] == "Dial":
                c.greeted = True
                if m["err"]:
                    c.gone = True
                self.emit(op="dialed", c=c.n, err=m["err"])
            else:
                if m["m"] == "Close":
                    c.gone = True
                if m["m"] == "SetDestination" and m["err"] == 0:
                    c.dest = c.asked
                self.emit(op="res", c=c.n, m=m["m"], err=m["err"], text=m["text"], vals=[canon(v) for v in m["vals"] or []],
                          has=m["has"], dev=[canon(v) for v in m["dev"]], held=[canon(v) for v in m["held"]])
        return bool(ls)

    def ask(self, **m):
        self.tell(**m)
        t0 = time.time()
        while not self.answers:
            if self.dead_server:
                return None
            if not self.poll(0.05) and time.time() - t0 > 15:
                raise Trouble("client driver does not answer")
        return self.answers.pop(0)

    def dial(self):
        c = Api(len(self.clients) + 1)
        self.clients.append(c)
        self.emit(op="conn", c=c.n, dest="127.0.0.1:%d" % PORT)
        c.dest = "127.0.0.1:%d" % PORT
        self.tell(c=c.n, m="Dial", arg="127.0.0.1:%d" % PORT)
        return c

    def call(self, c, m, w, k="", a="", lo="", hi="", arg="", num=0.0):
        self.emit(op="disc" if m == "Close" else "cmd", c=c.n, w=w, k=k, a=a, lo=lo, hi=hi, m=m)
        c.busy = True
        self.tell(c=c.n, m=m, arg=arg, num=num)

    def listen_at(self, addr):
        return self.ask(m="listen", arg=addr)["vals"][0]

    def drain(self):
        want = self.expect
        self.expect = 0
        if want:
            r = self.ask(m="read", arg="", want=0)
            if r is None:
                return
            got = r["got"]
            t0 = time.time()
            while sum(len(g["b"]) for g in got) < want and time.time() - t0 < 1 and not self.dead_server:
                r = self.ask(m="read", arg="", want=0)
                got += r["got"] if r else []
            self.emit(op="drain", got=got, dead=[])
            self.check_flow(sum(len(g["b"]) for g in got), want)

    def disconnect(self, c, reset=False):
        if not c.busy and not c.closing:
            c.closing = True
            self.call(c, "Close", "")

    def end(self):
        for c in self.clients:
            if not c.gone:
                self.disconnect(c)
        try:
            self.finish_commands()
        except Hang as x:
            self.hung(x)
        super().end()


def link_call(wd, c, rng, w):
    if w in ("FREQ", "RATE", "GAIN"):
        set_, get = dict(FREQ=("SetFrequency", "Frequency"), RATE=("SetRate", "Rate"), GAIN=("SetGain", "Gain"))[w]
        if rng.random() < 0.5:
            wd.call(c, get, w, "q")
        else:
            t, lo, hi = number(rng, w)
            wd.call(c, set_, w, "num", canon(t), lo, hi, num=float(t))
    elif w == "ANTENNA":
        if rng.random() < 0.5:
            wd.call(c, "Antenna", w, "q")
        else:
            wd.call(c, "SetAntenna", w, "set", arg="default")
    elif w == "DEST":
        k = rng.randrange(5)
        if k < 2:
            wd.call(c, "Destination", w, "q")
        elif k == 2:
            wd.call(c, "SetDestination", w, "bad", arg=rng.choice(["127.0.0.1", "1.2.3.4:99999", "127.0.0.1:x"]))
        else:
            c.asked = wd.listen_at("127.0.0.%d:0" % (1 + c.n))
            wd.call(c, "SetDestination", w, "ok", c.asked, arg=c.asked)
    elif w == "DEVICE":
        wd.call(c, "SelectDevice", w, "-", arg="-")
    elif w == "RELEASE":
        wd.call(c, "SelectDevice", "DEVICE", "!", arg="!")
    elif w == "HINT":
        wd.call(c, "SelectDevice", "DEVICE", "hint", arg=rng.choice(["RTL", "dev 1"]))
    elif w == "HEADER":
        if rng.random() < 0.5:
            wd.call(c, "HeaderEnabled", w)
        else:
            wd.call(c, "SetHeaderEnabled", w, arg=rng.choice(["ON", "OFF"]))
    elif w == "GO":
        wd.call(c, "Go", w)
    elif w == "STOP":
        wd.call(c, "Stop", w)


def sc_link(ctx, binary, sc):
    rng = random.Random(sc["seed"])
    names = sc["names"]
    gains = [rng.choice([[], [5], [0, 9, 14, 27, 37], [-10, 15, 40], [0, 1]]) for _ in names]
    quant = (rng.choice([1, 10, 1000]), rng.choice([1, 7, 100]), rng.choice([1, 1, 5]))
    wd = LinkWorld(ctx, binary, ctx.link, names, rng, perr=sc["perr"], gains=gains, quant=quant)
    ws = [w for w, p in ALL + [("HEADER", 1)] if w != "UNKNOWN" for _ in range(p)]
    bigs, flood = sc["big"], sc["flood"]
    try:
        try:
            wd.listen_at("127.0.0.1:%d" % PORT)
            for _ in range(sc["steps"]):
                if wd.dead_server:
                    break
                live = [c for c in wd.clients if not c.gone]
                if len(live) < sc["clients"] and (not live or rng.random() < 0.2):
                    wd.dial()
                    wd.finish_commands()
                elif rng.random() < 0.03:
                    wd.disconnect(rng.choice(live))
                    wd.finish_commands()
                elif wd.streams() and flood and rng.random() < 0.2:
                    flood = 0
                    h = rng.choice(wd.streams())
                    for _ in range(300):
                        if h in wd.streams():
                            wd.deliver(h, bytes(rng.randrange(256) for _ in range(rng.choice([2, 4, 8]))))
                            wd.settle_down()
                elif wd.streams() and rng.random() < 0.4:
                    h = rng.choice(wd.streams())
                    nil = rng.random() < 0.05
                    b = b"" if nil else buffer(rng, bigs > 0)[:32768]
                    b = b[:len(b) // 2 * 2]
                    bigs -= len(b) > 4000
                    wd.deliver(h, b, nil)
                    wd.settle_down()
                else:
                    c = rng.choice(live)
                    w = rng.choice(ws)
                    if w == "GO" and c.dest.startswith("127.0.0.1:") and len(live) > 1:
                        w = "DEST"      # one reader per stream
                    link_call(wd, c, rng, w)
                    wd.finish_commands()
        except Hang as x:
            wd.hung(x)
        wd.end()
    finally:
        wd.kill()
    return lines(wd)


def sc_linkmatrix(ctx, binary, sc):
    """Every client method in every session state with every driver call in turn failing, queried afterwards."""
    rng = random.Random(sc["seed"])
    gains = [rng.choice([[], [5], [0, 9, 14, 27, 37], [-10, 15, 40]]) for _ in sc["names"]]
    wd = LinkWorld(ctx, binary, ctx.link, sc["names"], rng, gains=gains, quant=(rng.choice([1, 10]), rng.choice([1, 100]), rng.choice([1, 5])))

    def do(w, k="", plan=()):
        wd.calls, wd.plan = 0, plan
        if w in ("FREQ", "RATE", "GAIN"):
            set_, get = dict(FREQ=("SetFrequency", "Frequency"), RATE=("SetRate", "Rate"), GAIN=("SetGain", "Gain"))[w]
            if k == "q":
                wd.call(c, get, w, "q")
            else:
                t, lo, hi = number(rng, w)
                wd.call(c, set_, w, "num", canon(t), lo, hi, num=float(t))
        elif w == "ANTENNA":
            wd.call(c, *(("Antenna", w, "q") if k == "q" else ("SetAntenna", w, "set")), arg="default")
        elif w == "DEST":
            if k == "q":
                wd.call(c, "Destination", w, "q")
            elif k == "bad":
                wd.call(c, "SetDestination", w, "bad", arg=rng.choice(["127.0.0.1", "1.2.3.4:99999", "127.0.0.1:x"]))
            else:
                c.asked = wd.listen_at("127.0.0.%d:0" % (1 + c.n))
                wd.call(c, "SetDestination", w, "ok", c.asked, arg=c.asked)
        elif w == "DEVICE":
            wd.call(c, "SelectDevice", w, k, arg="dev 1" if k == "hint" else k)
        elif w == "HEADER":
            wd.call(c, *(("HeaderEnabled", w) if k == "q" else ("SetHeaderEnabled", w)), arg=k)
        else:
            wd.call(c, w.capitalize(), w)
        wd.finish_commands(lambda: b"\1\2")
        wd.plan = ()
        return wd.calls

    def fill():
        for h in wd.streams():
            wd.deliver(h, bytes(rng.getrandbits(8) for _ in range(2 * rng.randrange(1, 9))))
            wd.settle_down()
    try:
        try:
            wd.listen_at("127.0.0.1:%d" % PORT)
            c = wd.dial()
            wd.finish_commands()
            for state, w, k in sc["cells"]:
                fails = [()] + [(i,) for i in range(1, 9)] + [(1, 2), (2, 3), (1, 2, 3)]
                n = 99
                while fails and not wd.dead_server and not c.gone:
                    plan = fails.pop(0)
                    if plan and plan[-1] > n:
                        continue
                    if state == "free":
                        do("DEVICE", "!")
                    else:
                        do("DEVICE", "-")
                        do("GO" if state in ("stream", "stopping") else "STOP")
                    if state == "stopping":
                        do("STOP")
                    m = do(w, k, plan)
                    n = n if plan else m
                    fill()
                    for q in ("FREQ", "RATE", "GAIN", "ANTENNA", "DEST", "HEADER"):
                        if q == w or rng.random() < 0.3:
                            do(q, "q")
                    for q in rng.choice([(), ("GO", "STOP"), ("STOP",), ("STOP", "GO")]):
                        do(q)
                        fill()
        except Hang as x:
            wd.hung(x)
        wd.end()
    finally:
        wd.kill()
    return lines(wd)


LINKS = [("FREQ", "q"), ("FREQ", "num"), ("RATE", "q"), ("RATE", "num"), ("GAIN", "q"), ("GAIN", "num"), ("ANTENNA", "q"), ("ANTENNA", "set"),
         ("DEST", "q"), ("DEST", "bad"), ("DEST", "ok"), ("DEVICE", "-"), ("DEVICE", "!"), ("DEVICE", "hint"), ("HEADER", "q"), ("HEADER", "ON"),
         ("HEADER", "OFF"), ("GO", ""), ("STOP", "")]


def linkmatrix(rng, n):
    cells = [(s, w, k) for s in ("free", "held", "stream", "stopping") for w, k in LINKS]
    rng.shuffle(cells)
    return [dict(kind="linkmatrix", seed=rng.getrandbits(40), names=names(rng, 1), cells=cells[i::n]) for i in range(n)]


KINDS = dict(linkmatrix=sc_linkmatrix, wrap=sc_wrap, matrix=sc_matrix, race=sc_race, script=sc_script, link=sc_link)


def run_one(ctx, b, s):
    return KINDS.get(s.get("kind"), scenario)(ctx, b, s)


def runs(ctx, scs):
    with Port():
        b = build_server(ctx)
        cases, stuck, ctx.enough = [], 0, 0
        for s in scs:
            cases.append(Case(s, run_one(ctx, b, s)))
            # a server that hangs or falls down has shown enough
            stuck += any('"op":"hang"' in x or '"op":"crash"' in x for x in cases[-1].lines[-8:])
            stuck += cases[-1].lines[-1].startswith('{"op":"quiet","stuck":1')
            if stuck + ctx.enough >= 2:
                break
    ctx.cov["runs"] = len(cases)

    def again(c):
        with Port():
            return run_one(ctx, b, c.scenario)
    validate_cases(ctx, "RaceTrace" if ctx.prop == "X02" else "ServerTrace", cases, again, env=dict(ASPECT=os.environ.get("VERIF_ASPECT", ctx.prop)), tries=6)


def names(rng, n):
    return [rng.choice(["Terratec NOXON (rev 3)", "RTL2838", "ezcap USB 2.0", "dev"]) + " #%d" % i if rng.random() > 0.1 or n == 1 else "" for i in range(n)]


def mk(rng, mix, conc, clients, steps, **kw):
    n = kw.pop("devices", rng.choice([1, 1, 2, 3, 0] if mix != "stream" else [1, 2, 3]))
    d = dict(seed=rng.getrandbits(40), mix=mix, conc=conc, clients=clients, steps=steps, names=names(rng, n), perr=rng.choice([0, 0, 0.1, 0.3]))
    d.update(kw)
    return d


def S01(ctx):
    model_check(ctx, "MC_BorIPServer", "MC_BorIPServer.cfg")
    model_check(ctx, "MC_ServerImpl", "MC_ServerImpl.cfg")
    if ctx.thorough:
        model_check(ctx, "MC_BorIPServer", "MC_BorIPServer.cfg", consts=dict(MaxDevices=2, MaxConns=2, MaxHandles=2, MaxDelivers=1), timeout=3000)
        model_check(ctx, "MC_ServerImpl", "MC_ServerImpl.cfg", consts=dict(Devs=2, MaxHandles=3), timeout=6000)
        for f in ("noStop", "recheck"):
            model_check(ctx, "MC_ServerImpl", "MC_ServerImpl.cfg", consts=dict(Fault='"%s"' % f), refuted=True)
    rng = ctx.rng
    scs = [mk(rng, "own", 1, rng.choice([2, 3, 4]), rng.choice([40, 80, 150]), answers=rng.choice([1, 3, 8]), drops=rng.choice([0.1, 0.4])) for _ in range(ctx.pick(30, 500))]
    scs += [mk(rng, "own", 0, 3, 100) for _ in range(ctx.pick(6, 60))]
    scs += scripts(ctx, ctx.pick(48, 1000))
    for _ in range(ctx.pick(1, 10)):
        scs += matrix(rng, 4, ("other",))
    runs(ctx, scs)


def S02(ctx):
    model_check(ctx, "MC_ServerImpl", "MC_ServerImplLive.cfg")
    if ctx.thorough:
        model_check(ctx, "MC_BorIPServer", "MC_BorIPServer.cfg", consts=dict(MaxDelivers=2, Cmds='{"DEVICE", "GO", "STOP", "FREQ"}'), timeout=6000)
        model_check(ctx, "MC_ServerImpl", "MC_ServerImplLive.cfg", consts=dict(MaxCmds=3, OpenFails="FALSE"), timeout=6000)
        for f in ("twice", "restart", "noClose"):
            model_check(ctx, "MC_ServerImpl", "MC_ServerImplLive.cfg", consts=dict(Fault='"%s"' % f), refuted=True)
    rng = ctx.rng
    scs = [mk(rng, "all", 0, rng.choice([1, 2]), 150) for _ in range(ctx.pick(14, 200))]
    scs += [mk(rng, "all", 1, rng.choice([1, 2, 3]), 120) for _ in range(ctx.pick(14, 300))]
    scs += [mk(rng, "stream", 1, 2, 120) for _ in range(ctx.pick(8, 150))]
    scs += [dict(kind="race", seed=rng.getrandbits(40), names=names(rng, rng.choice([1, 2, 3])), rounds=ctx.pick(60, 400)) for _ in range(ctx.pick(6, 60))]
    scs += scripts(ctx, ctx.pick(24, 400))
    for _ in range(ctx.pick(1, 8)):
        scs += matrix(rng, 8)
    runs(ctx, scs)


def S03(ctx):
    model_check(ctx, "MC_BorIPServer", "MC_BorIPServer.cfg", consts=dict(MaxConns=1, MaxDelivers=ctx.pick(2, 3), Cmds='{"DEVICE", "GO", "STOP"}'))
    rng = ctx.rng
    scs = [mk(rng, "stream", rng.randrange(2), rng.choice([1, 2]), 100, perr=0, big=rng.choice([0, 2])) for _ in range(ctx.pick(16, 150))]
    scs += [dict(kind="wrap", seed=rng.getrandbits(40), n=n) for n in ctx.pick([65536 + 250], [65536 + 250, 2 * 65536 + 33, 65600])]
    runs(ctx, scs)


def S04(ctx):
    rng = ctx.rng
    ctx.link = build(ctx, "link")
    model_check(ctx, "MC_BorIPServer", "MC_BorIPServer.cfg", consts=dict(MaxConns=1, MaxHandles=1, Cmds='{"DEVICE", "GO", "STOP", "FREQ", "DEST"}'))
    scs = [dict(kind="link", seed=rng.getrandbits(40), names=names(rng, rng.choice([1, 2, 3, 0])), perr=rng.choice([0, 0, 0.15]),
                clients=rng.choice([1, 1, 2, 3]), steps=120, big=rng.choice([0, 1, 2]), flood=k % 7 == 0) for k in range(ctx.pick(20, 250))]
    for _ in range(ctx.pick(1, 10)):
        scs += linkmatrix(rng, 6)
    runs(ctx, scs)


def X02(ctx):
    model_check(ctx, "MC_ServerImpl", "MC_ServerImpl.cfg")
    rng = ctx.rng
    racing = lambda: dict(kind="race", busy=1, seed=rng.getrandbits(40), names=names(rng, rng.choice([1, 2, 3])), rounds=ctx.pick(60, 400))
    scs = []
    for _ in range(ctx.pick(3, 40)):
        scs += [racing() for _ in range(4)]
        scs += [mk(rng, "own", 1, rng.choice([2, 3, 4]), 80, answers=rng.choice([1, 3, 8]), drops=rng.choice([0.1, 0.4])) for _ in range(4)]
        scs += [mk(rng, "stream", 1, 2, 100) for _ in range(3)]
        scs += [mk(rng, "stream", rng.randrange(2), 2, 60, perr=0, big=2)]
    scs += scripts(ctx, ctx.pick(24, 400)) + matrix(rng, ctx.pick(4, 24))
    runs(ctx, scs)
    ctx.assumptions.append("the server is built with the race detector, which reports any access to the same memory without order between the goroutines")


CHECKS = dict(S01=S01, S02=S02, S03=S03, S04=S04, X02=X02)
