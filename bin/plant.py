#!/usr/bin/env python3
"""Development tool (no check uses it): try planted bugs in a private mount namespace in which a patched scratch copy stands at /repo.
plant.py verify ID...   builds, stable tests pass, demo fails with the patch and passes without
plant.py check ID [PROPERTY...]   run the quick checks against the patched copy"""
import os, sys, json, subprocess, shutil, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/plant"


def scratch(id, patch=True):
    d = f"{BASE}/{id}-{'p' if patch else 'c'}"
    subprocess.run(["rm", "-rf", d]); os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    os.makedirs(d + "/reports"); os.makedirs("/opt/vp/reports", exist_ok=True)
    if patch:
        p = subprocess.run(["git", "-C", d + "/repo", "apply", f"{ROOT}/seeded/{id}/patch.diff"], capture_output=True, text=True)
        if p.returncode: raise SystemExit(f"{id}: patch does not apply: {p.stderr}")
    return d


def within(d, cmd, timeout=900, env=None):
    try:
        p = subprocess.run(["unshare", "-m", "bash", "-c", f"mount --bind {d}/repo /repo && mount --bind {d}/reports /opt/vp/reports && cd /repo && {cmd}"], capture_output=True, text=True, errors="replace", timeout=timeout, env=dict(os.environ, **(env or {})))
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired: return 124, "timeout"


def demo(d, id):
    t = f"{d}/demo"; subprocess.run(["rm", "-rf", t]); shutil.copytree(f"{ROOT}/seeded/{id}", t, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    return within(d, f". /opt/vp/env.sh; bash {t}/demo.sh", 320)


def verify(id):
    d = scratch(id); c = scratch(id, False)
    out = {"id": id}
    rc, o = within(d, "bash /opt/vp/build.sh"); out["build"] = rc == 0
    rc, o = demo(d, id); out["demo fails"] = rc != 0; out["how"] = o[-160:]
    rc, o = demo(c, id); out["demo passes clean"] = rc == 0
    if rc: out["clean"] = o[-300:]
    rc, o = within(d, f"bash /opt/vp/test.sh {d}/out.json", 1200)
    try:
        got = json.load(open(f"{d}/out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        b = set(base.get("stable") or base.get("passed") or base); g = set(got["passed"])
        out["tests"] = sorted(b - g)[:5] or "all pass"
    except Exception as e: out["tests"] = repr(e) + o[-200:]
    for x in (d, c): subprocess.run(["rm", "-rf", x])
    out["ok"] = out["build"] and out["demo fails"] and out["demo passes clean"] and out["tests"] == "all pass"
    return out


def check(id, props):
    d = scratch(id)
    props = props or [json.load(open(f"{ROOT}/seeded/{id}/meta.json"))["property"]]
    for p in props:
        rc, o = within(d, f"cd {ROOT} && bin/check {p} --tier quick", 1200)
        v = [l for l in o.splitlines() if l.startswith("VIOLATION") or l.startswith("  ")][:4]
        print(id, p, "CAUGHT" if rc == 1 else f"rc={rc} MISSED" if rc == 0 else f"rc={rc} BROKEN " + o[-500:], " | ".join(x.strip()[:260] for x in v), flush=True)
    subprocess.run(["rm", "-rf", d])


if sys.argv[1] == "verify":
    with cf.ThreadPoolExecutor(int(os.environ.get("PAR", "3"))) as ex:
        for r in ex.map(verify, sys.argv[2:]): print("OK " if r["ok"] else "BAD", json.dumps(r), flush=True)
else: check(sys.argv[2], sys.argv[3:])
