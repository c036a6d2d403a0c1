"""Sessions of the command line (Cli, CliGen, CliConf): run them, record what each invocation did."""
import os, json, re, subprocess, hashlib, random, shutil, concurrent.futures as cf
from . import build as B, conform as C, schema as S

BAD = ['[[messages]]\n_name = "A"\nx = "nothing"\n', '[[structs]]\n_name = "A"\nx = "A"\n', '[[messages]]\nx = "byte"\n', 'not toml = = 1\n',
       '[meta]\nlist_size_type = "float"\n[[messages]]\n_name = "A"\n', '[[enums]]\n_name = "E"\n_values = []\n', '[[messages]]\n_name = "A"\n[[messages]]\n_name = "A"\n', '[[messages]]\n_name = "A"\nx = "[[byte]]"\n']

# several invocations in one process, through the module as the command does
ONE = r'''
import sys, json, os, io, contextlib, runpy
sys.path.insert(0, os.environ["PYTHONPATH"])
for line in sys.stdin:
    job = json.loads(line)
    out, err = io.StringIO(), io.StringIO(); code = 0
    sys.argv = ["beschi"] + job["args"]
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try: runpy.run_module("beschi", run_name="__main__", alter_sys=False)
        except SystemExit as e: code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException as e: code = 1; err.write(repr(e))
    print(json.dumps({"code": code, "out": out.getvalue(), "err": err.getvalue()}), flush=True)
'''

def ident(b):
    return "empty" if not b else "t" + hashlib.sha1(b).hexdigest()[:12]


def argv(c, protos, dirn):
    """Arguments of an abstract invocation, in one of several spellings."""
    f, fa = c["form"], c["fault"]
    path = {"missing": f"{dirn}/nowhere.toml", "directory": dirn}.get(fa) or protos[c["proto"]]
    lang = {"badlang": "klingon", "upperlang": c["lang"].upper()}.get(fa, c["lang"])
    o = []
    def opt(long, short, v):
        if f % 3 == 0 or short is None: o.append([long, v])
        elif f % 3 == 1: o.append([short, v])
        else: o.append([f"{long}={v}"])
    if fa != "noproto": opt("--protocol", "-p", path)
    if fa != "nolang": opt("--lang", "-l", lang)
    if c["out"] != "-": opt("--output", "-o", c["out"] if f % 2 else f"{dirn}/{c['out']}")
    ns = {"nsblank": "two words" if f % 2 else "tab\there", "nsbytes": b"ns\xff".decode("utf-8", "surrogateescape")}.get(fa, c["ns"])
    if ns or f == 5: opt("--namespace", "-n", ns)
    if c["indent"] or f == 4: opt("--indent", None, c["indent"])
    if c["embed"]: o.append(["--embed-protocol"])
    if c["gonr"]: o.append(["--go-no-rename"])
    if c["rustnr"]: o.append(["--rust-no-rename"])
    if c["tsns"]: o.append(["--typescript-use-namespace"])
    if fa == "badoption": o.append(["--no-such-option"])
    if fa == "positional": o.append(["stray"])
    if f >= 3: o.reverse()
    if fa == "dangling": o.append([["--indent", "--namespace", "--output"][f % 3]])
    return [x for y in o for x in y]


def adapt(ses):
    """Undecodable bytes only reach real processes, and only a file."""
    for st in ses["steps"]:
        c = st["inv"]
        if c["fault"] == "nsbytes" and (c["out"] == "-" or ses["mode"] != "process"): c["fault"] = "nsblank"
    return ses


def run_session(ses, n, protos, work, seed):
    d = os.path.join(work, f"ses{n}"); os.makedirs(d)
    rnd = random.Random(seed * 100003 + n)
    env = B.env(); env["PYTHONHASHSEED"] = str(rnd.randrange(1, 4000000000)); env["LC_ALL"] = rnd.choice(["C.UTF-8", "C", "POSIX"]); env["TZ"] = rnd.choice(["UTC", "Asia/Tokyo"])
    proc = None
    if ses["mode"] != "process": proc = subprocess.Popen([B.PY, "-c", ONE], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=d, bufsize=1)
    for k, st in enumerate(ses["steps"]):
        c = st["inv"]
        if st["pre"] != "-":
            with open(os.path.join(d, st["pre"]), "wb") as f: f.write(b"something else entirely\n" * rnd.choice([1, 40000]))
        env["PYTHONHASHSEED"] = str(rnd.randrange(1, 4000000000))
        end = "exit"
        try:
            if proc is None:
                p = subprocess.run([B.PY, "-m", "beschi"] + argv(c, protos, d), capture_output=True, env=env, cwd=d, timeout=60)
                code, out, err = p.returncode, p.stdout, p.stderr
            else:
                a = {"args": argv(c, protos, d)}
                proc.stdin.write(json.dumps(a) + "\n"); proc.stdin.flush()
                line = proc.stdout.readline()
                x = json.loads(line) if line else {"code": -9, "out": "", "err": ""}
                code, out, err = x["code"], x["out"].encode("utf-8", "surrogateescape"), x["err"].encode("utf-8", "replace")
        except subprocess.TimeoutExpired: end, code, out, err = "hang", -1, b"", b""
        fs = {}
        for o in ("o1", "o2"):
            try: b = open(os.path.join(d, o), "rb").read()
            except FileNotFoundError: fs[o] = "absent"; continue
            fs[o] = "other" if b.startswith(b"something else entirely\n") and not b.strip(b"something els entirly\n") else ident(b)
        nl = out.endswith(b"\n")
        st["obs"] = {"end": end, "code": code, "err": bool(err.strip()), "out": len(out), "text": ident(out[:-1] if nl else out), "nl": nl, "fs": fs,
                     "more": len([x for x in os.listdir(d) if x not in ("o1", "o2")]), "msg": err.decode("utf-8", "replace")[-160:]}
        if end == "hang": ses["steps"] = ses["steps"][:k + 1]; break
    if proc:
        proc.stdin.close(); proc.wait(timeout=30)
    shutil.rmtree(d)
    return ses


def run(sessions, protos, work, seed):
    with cf.ThreadPoolExecutor(8) as ex: return list(ex.map(lambda x: run_session(adapt(x[1]), x[0], protos, work, seed), enumerate(sessions)))


def judge(sessions, work, timeout=800):
    tf, of = os.path.join(work, "cli-trace.ndjson"), os.path.join(work, "cli-verdict.json")
    with open(tf, "w") as f:
        for s in sessions: f.write(json.dumps(s) + "\n")
    if os.path.exists(of): os.remove(of)
    p = C.tlc("CliConf", work, {"VB_TRACE": tf, "VB_OUT": of}, timeout=timeout, heap="4g")
    try: v = json.load(open(of))
    except (OSError, ValueError): raise C.Machinery(f"CliConf: rc {p.returncode} " + p.stdout[-3000:])
    if v["consumed"] != len(sessions) or p.returncode: raise C.Machinery("CliConf: " + p.stdout[-2000:])
    return v["bad"], v["requests"]
