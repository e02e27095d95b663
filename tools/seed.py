#!/usr/bin/env python3
"""Making and checking planted bugs.

  seed.py make FILE.py ID...   (FILE.py defines SEEDS = [dict(id=, property=, needs=, breaks=,
                               edits=[(file, old, new)], demo="Go main program")])
  seed.py test ID...           in a scratch copy: applies, builds, stable tests pass, demo 0 clean / nonzero patched
  seed.py catch ID... [-p P..] runs the property's check (or P..) against the patched copy
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
TMP = "/tmp/w/seedwork"
DEMO = r'''#!/bin/bash
# Run in the repository's directory: exit 0 when the property holds.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS= HOME=${HOME:-/root}
printf 'module github.com/samuel/go-dsp\n\ngo 1.17\n' > "$T/go.mod"
M="\"$R/go.mod\": \"$T/go.mod\","; [ -e "$R/go.mod" ] && M=
echo "{\"Replace\": {$M \"$R/dsp/zzdemo/main.go\": \"$D/demo.go\"}}" > "$T/o.json"
go build -overlay "$T/o.json" -o "$T/demo" ./dsp/zzdemo || exit 3
timeout 200 "$T/demo"
'''
def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=env)
def copy():
    os.makedirs(TMP, exist_ok=True)
    d = tempfile.mkdtemp(dir=TMP) + "/repo"
    shutil.copytree("/repo", d, symlinks=True)
    return d
def make(f, ids):
    for s in runpy.run_path(f)["SEEDS"]:
        if ids and s["id"] not in ids: continue
        d = copy()
        for file, old, new in s["edits"]:
            t = open(d + "/" + file).read()
            assert t.count(old) >= 1, (s["id"], file, old)
            open(d + "/" + file, "w").write(t.replace(old, new, 1))
        diff = sh("git diff", d).stdout
        o = V + "/seeded/" + s["id"]; os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(o + "/meta.json", "w"), indent=1)
        open(o + "/demo.sh", "w").write(s.get("sh", DEMO)); os.chmod(o + "/demo.sh", 0o755)
        if "demo" in s:
            open(o + "/demo.go", "w").write(s["demo"]); sh("gofmt -w demo.go", o)
        for k, v in s.get("files", {}).items():
            open(o + "/" + k, "w").write(v)
        shutil.rmtree(os.path.dirname(d))
def test(i):
    s = V + "/seeded/" + i; d = copy(); out = []
    try:
        e = dict(os.environ, GOFLAGS="", GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOWORK="off")
        demo = tempfile.mkdtemp(dir=TMP)
        for f in os.listdir(s):
            if f.endswith((".diff", ".patch")) or f == "meta.json": continue
            shutil.copy(s + "/" + f, demo)
        r = sh("bash %s/demo.sh" % demo, d)
        if r.returncode: out.append("CLEAN DEMO FAILS %d %s" % (r.returncode, (r.stdout + r.stderr)[-400:]))
        r = sh("git apply %s/patch.diff" % s, d)
        if r.returncode: out.append("NO APPLY " + r.stderr)
        gm = d + "/../go.mod"; open(gm, "w").write("module github.com/samuel/go-dsp\n\ngo 1.17\n")
        ov = d + "/../o.json"; json.dump({"Replace": {d + "/go.mod": gm}}, open(ov, "w"))
        r = sh("go build -overlay %s ./borip/... ./dsp/... && go test -json -vet=off -count=1 -overlay %s ./borip/... ./dsp/..." % (ov, ov), d, e)
        ok = set()
        for l in r.stdout.splitlines():
            try: j = json.loads(l)
            except ValueError: continue
            if j.get("Action") == "pass" and j.get("Test"): ok.add(j["Package"] + "/" + j["Test"])
        want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = [w for w in want if w not in ok]
        if miss: out.append("TESTS MISSING %s %s" % (miss, r.stderr[-300:]))
        r = sh("bash %s/demo.sh" % demo, d)
        if r.returncode == 0: out.append("PATCHED DEMO PASSES")
        elif r.returncode == 3: out.append("PATCHED DEMO DOES NOT BUILD")
        out.append((r.stdout + r.stderr)[-150:].replace("\n", " "))
        shutil.rmtree(demo)
    finally:
        shutil.rmtree(os.path.dirname(d))
    return i + ": " + " | ".join(out)
def catch(i, props):
    d = copy()
    try:
        sh("git apply %s/seeded/%s/patch.diff" % (V, i), d)
        res = []
        for p in props or [json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]]:
            r = sh("./check " + p, V, dict(os.environ, VERIF_REPO=d))
            res.append("%s:%d %s" % (p, r.returncode, "" if r.returncode == 0 else r.stdout[-160:].replace("\n", " ")))
    finally:
        shutil.rmtree(os.path.dirname(d))
    return i + ": " + " | ".join(res)
a = sys.argv[1:]
if a[0] == "make":
    make(a[1], a[2:])
else:
    props = []
    if "-p" in a:
        props = a[a.index("-p") + 1:]; a = a[:a.index("-p")]
    ids = a[1:] or sorted(os.listdir(V + "/seeded"))
    with ThreadPoolExecutor(2 if a[0] == "catch" else 4) as ex:
        for r in ex.map(test if a[0] == "test" else lambda i: catch(i, props), ids): print(r, flush=True)
