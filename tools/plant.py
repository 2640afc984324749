#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies of /repo and keeps those that qualify.

    plant.py confirm SPECFILE SCRATCH [ID...]   (SCRATCH: a copy of /repo with its target/, under /tmp)
    plant.py catch [ID...]                      (applies each to /repo, runs the property's check, undoes it)

SPECFILE defines BUGS: a list of dicts with id, property, edits [(file, old, new)], needs, breaks, and
demo: {file name: text}; demo.sh is generated by `kind` (lib, wasm, draw) unless given."""
import glob, json, os, re, runpy, shutil, subprocess, sys, tempfile, time

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", PROPTEST_RNG_SEED="1")
SEEDED = "/verif/seeded"

HEAD = """#!/bin/bash
# exit 0 when the code behaves, nonzero when it does not; run in the root of the built repository
set -eu
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
t=target/debug
"""
LIB = HEAD + """rustc --edition 2021 -A warnings -o "$w/demo" "$here/demo.rs" -L dependency=$t/deps \\
    EXTERNS
timeout 120 "$w/demo"
"""
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), env=ENV, capture_output=True, text=True, **k)

def results(logs):
    sys.argv = ["x"]
    g = runpy.run_path("/opt/vp/results.py", run_name="r")
    passed, failed = set(), set()
    for l in logs:
        for name, ok in g["cargo"](l):
            (passed if ok else failed).add(name)
    return passed - failed, failed

def demo_sh(b):
    if "demo.sh" in b["demo"]:
        return HEAD + b["demo"]["demo.sh"]
    ext = {"lib": ["dandy"], "wasm": ["dandy", "dandy_wasm"], "draw": ["dandy", "dandy_draw"]}[b.get("kind", "lib")]
    return LIB.replace("EXTERNS", " ".join(f"--extern {e}=$t/lib{e}.rlib" for e in ext))

def run_demo(d, cwd):
    try:
        return subprocess.run(["bash", d + "/demo.sh"], cwd=cwd, capture_output=True, text=True, timeout=300, env=ENV)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess("", 124, "", "timeout")

def confirm(spec, scratch, ids):
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for b in runpy.run_path(spec)["BUGS"]:
        if ids and b["id"] not in ids: continue
        sh("git checkout -q -- . && git clean -fdq", scratch)
        bad = None
        for f, old, new in b["edits"]:
            p = os.path.join(scratch, f); s = open(p).read()
            if s.count(old) != 1: bad = f"{f}: {s.count(old)} matches of {old[:60]!r}"; break
            open(p, "w").write(s.replace(old, new))
        if bad: print(b["id"], "EDIT", bad, flush=True); continue
        patch = sh("git diff", scratch).stdout
        r = sh("cargo build --workspace --offline", scratch)
        if r.returncode: print(b["id"], "BUILD\n" + r.stderr[-1500:], flush=True); continue
        d = f"/tmp/pl/demo-{b['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for n, t in b["demo"].items():
            if n != "demo.sh": open(f"{d}/{n}", "w").write(t)
        open(f"{d}/demo.sh", "w").write(demo_sh(b)); os.chmod(f"{d}/demo.sh", 0o755)
        good = run_demo(d, "/repo")
        if good.returncode: print(b["id"], "DEMO fails on the unchanged tree", good.returncode, good.stderr[-1500:], flush=True); continue
        hurt = run_demo(d, scratch)
        if hurt.returncode == 0: print(b["id"], "DEMO passes with the bug", hurt.stdout[-300:], flush=True); continue
        if hurt.returncode == 1 and "error[" in hurt.stderr: print(b["id"], "DEMO does not compile", flush=True); continue
        l1, l2 = f"/tmp/pl/unit-{b['id']}.log", f"/tmp/pl/doc-{b['id']}.log"
        sh(f"timeout -k 10 600 cargo test --workspace --lib --bins --tests --no-fail-fast --offline -- --test-threads 8 > {l1} 2>&1", scratch)
        sh(f"timeout -k 10 200 cargo test --workspace --doc --no-fail-fast --offline -- --test-threads 8 > {l2} 2>&1", scratch)
        ok, _ = results([l1, l2])
        miss = [t for t in base if t not in ok]
        sh("git checkout -q -- . && git clean -fdq", scratch)
        if miss: print(b["id"], "TESTS catch it:", miss, flush=True); continue
        o = f"{SEEDED}/{b['id']}"; shutil.rmtree(o, ignore_errors=True); shutil.copytree(d, o)
        open(f"{o}/patch.diff", "w").write(patch)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(f"{o}/meta.json", "w"), indent=1, ensure_ascii=False)
        print(b["id"], "KEPT; demo:", (hurt.stderr or hurt.stdout).strip().splitlines()[-1:] , flush=True)
    sh("git checkout -q -- .", scratch)

def catch(ids):
    for d in sorted(glob.glob(SEEDED + "/*/")):
        i = os.path.basename(d.rstrip("/"))
        if ids and i not in ids: continue
        prop = json.load(open(d + "meta.json"))["property"]
        assert not sh("git status --porcelain -uno", "/repo").stdout.strip()
        r = sh(["git", "apply", d + "patch.diff"], "/repo")
        if r.returncode: print(i, "PATCH does not apply"); continue
        t = time.time()
        try:
            e = dict(ENV, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"); e.pop("PROPTEST_RNG_SEED")
            r = subprocess.run(["./check", prop], cwd="/verif", env=e, capture_output=True, text=True, timeout=900)
        finally:
            sh("git checkout -q -- .", "/repo")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(f"{i:28} {prop} {'caught' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode} {time.time()-t:.0f}s", v[:1], r.stderr[-300:] if r.returncode not in (0, 1) else "", flush=True)

if sys.argv[1] == "confirm": confirm(sys.argv[2], sys.argv[3], sys.argv[4:])
else: catch(sys.argv[2:])
