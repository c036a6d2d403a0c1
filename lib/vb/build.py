"""Generate code with the real CLI and build the driver programs."""
import os, subprocess, sys, shutil, json, tempfile, hashlib, concurrent.futures as cf
from . import schema as S
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VB_REPO", "/repo")
DRV = os.path.join(HERE, "drivers")


def env():
    e = dict(os.environ)
    e["PATH"] = "/opt/venv/bin:" + e.get("PATH", "")
    e.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LANG="C.UTF-8", GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="",
             CARGO_NET_OFFLINE="true", DOTNET_CLI_TELEMETRY_OPTOUT="1", DOTNET_NOLOGO="1", DOTNET_SKIP_FIRST_TIME_EXPERIENCE="1", MSBUILDDISABLENODEREUSE="1", UseSharedCompilation="false")
    e.setdefault("HOME", "/root")
    return e

PY = "/opt/venv/bin/python"
if not os.path.exists(PY): PY = sys.executable


def cli(args, cwd=None, timeout=120):
    return subprocess.run([PY, "-m", "beschi"] + args, capture_output=True, text=True, env=env(), cwd=cwd or "/", timeout=timeout)

GEN_SNIPPET = r'''
import sys, json, runpy
import io, contextlib
jobs = json.load(open(sys.argv[1]))
for job in jobs:
    sys.argv = ["beschi"] + job["args"]
    out, err = io.StringIO(), io.StringIO(); code = 0
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try: runpy.run_module("beschi", run_name="__main__", alter_sys=False)
        except SystemExit as e: code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException as e: code = 1; err.write(repr(e))
    job.update(code=code, out=out.getvalue(), err=err.getvalue())
    print(json.dumps(job), flush=True)
'''

def run(cmd, cwd=None, timeout=300, input=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, errors="replace", env=env(), timeout=timeout, input=input)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, "timeout " + " ".join(map(str, cmd))


def generate(jobs, work):
    """jobs: [{args: [...]}]; one python process through beschi.cli.main per job, batched over processes."""
    n = max(1, min(8, (len(jobs) + 5) // 6))
    def go(k):
        part = jobs[k::n]
        f = os.path.join(work, f"genjobs{k}.json"); json.dump(part, open(f, "w"))
        p = subprocess.run([PY, "-c", GEN_SNIPPET, f], capture_output=True, text=True, env=env(), cwd=work, timeout=300)
        res = [json.loads(l) for l in p.stdout.splitlines()]
        for j, r in zip(part, res): j.update(r)
        for j in part[len(res):]: j.update(code=1, out="", err="generator process died: " + p.stderr[-500:])
    with cf.ThreadPoolExecutor(n) as ex: list(ex.map(go, range(n)))
    return jobs
