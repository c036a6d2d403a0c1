"""Protocol documents and invocations of the command line: DocGen/Graphs cases in, DocConf verdicts out."""
import os, json, re, subprocess, concurrent.futures as cf, tempfile, shutil
from . import build as B, conform as C, schema as S

LANGS = ["c", "csharp", "go", "rust", "swift", "typescript", "assemblyscript", "zig"]


def val(v):
    k = v["k"]
    if k == "str": return S.q(v["s"])
    if k == "int": return str(v["n"])
    if k in ("big", "float", "bool"): return v["s"]
    if k == "arr": return "[" + ", ".join(val(x) for x in v["a"]) + "]"
    if k == "tab": return "{ " + ", ".join(f"{S.q(a)} = {val(x)}" for a, x in v["t"]) + " }"
    raise KeyError(k)


def text(doc, style=0):
    """TOML of a document; style 1 writes arrays of tables as [[sections]]."""
    head, tail = [], []
    keys = [k for k, _ in doc["top"]]
    for key, v in doc["top"]:
        tabs = v["k"] == "arr" and v["a"] and all(x["k"] == "tab" for x in v["a"])
        if style and tabs and keys.count(key) == 1:
            for t in v["a"]:
                tail.append(f"[[{S.q(key) if not re.fullmatch('[a-z]+', key) else key}]]")
                for a, x in t["t"]: tail.append(f"{a if re.fullmatch('[A-Za-z0-9_]+', a) else S.q(a)} = {val(x)}")
                tail.append("")
        elif style and v["k"] == "tab" and keys.count(key) == 1:
            tail.append(f"[{key}]")
            for a, x in v["t"]: tail.append(f"{S.q(a)} = {val(x)}")
            tail.append("")
        else: head.append(f"{S.q(key)} = {val(v)}")
    return "\n".join(head + tail) + "\n"


def write(doc, path, style):
    """Put the document where the command line will look for it."""
    t, how = text(doc, style), doc["text"]
    if how == "missing": return
    if how == "directory": os.makedirs(path); return
    b = t.encode("utf-8")
    if how == "broken": b = b + b"\nthis is = = not toml\n"
    if how == "unclosed": b = b + b'\n[[structs\n_name = "x'
    if how == "nul": b = b + b'x = "\x00"\n'
    if how == "latin1": b = b + b"# caf\xe9\n"
    if how == "bom": b = b"\xef\xbb\xbf" + b
    with open(path, "wb") as f: f.write(b)


# one process per batch: main() is called as the installed command does, with its own stdout and stderr
BATCH = r'''
import sys, json, os, io, contextlib, signal, faulthandler
sys.path.insert(0, os.environ["PYTHONPATH"])
from beschi.cli import main
from beschi.protocol import Protocol
class Late(BaseException): pass
def late(*a): raise Late()
signal.signal(signal.SIGALRM, late)
for line in sys.stdin:
    job = json.loads(line)
    sys.argv = ["beschi"] + job["args"]
    out, err = io.StringIO(), io.StringIO(); code = 0; end = "exit"
    signal.alarm(job.get("limit", 30))
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                if job.get("load"):
                    Protocol(job["load"])
                    with open(job["file"], "w") as f: f.write("loaded")
                else: main()
            except SystemExit as e: code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except Late: end = "hang"
            except BaseException as e: code = 1; err.write("Traceback " + repr(e))
    except Late: end = "hang"
    signal.alarm(0)
    f = job["file"]
    ex = os.path.lexists(f)
    print(json.dumps({"i": job["i"], "end": end, "code": code, "err": len(err.getvalue()) > 0, "msg": err.getvalue()[-300:], "out": len(out.getvalue()), "file": ex, "len": os.path.getsize(f) if ex else 0}), flush=True)
    if ex and not job.get("keep"): os.remove(f)
'''


def invoke(jobs, work, procs=8):
    """jobs: [{i, args, file, limit}] -> {i: outcome}; batches survive a dying process."""
    with open(os.path.join(work, "batch.py"), "w") as f: f.write(BATCH)
    res = {}
    def go(part):
        todo = part
        while todo:
            p = subprocess.run([B.PY, os.path.join(work, "batch.py")], input="\n".join(json.dumps(j) for j in todo) + "\n", capture_output=True, text=True, env=B.env(), cwd=work, timeout=3600)
            n = 0
            for l in p.stdout.splitlines():
                try: r = json.loads(l)
                except ValueError: break
                if n >= len(todo) or r["i"] != todo[n]["i"]: break
                res[r["i"]] = r; n += 1
            if n < len(todo): res[todo[n]["i"]] = {"i": todo[n]["i"], "end": "signal", "code": p.returncode, "err": bool(p.stderr), "msg": p.stderr[-300:], "out": 0, "file": False, "len": 0}; n += 1
            todo = todo[n:]
    with cf.ThreadPoolExecutor(procs) as ex: list(ex.map(go, [jobs[i::procs] for i in range(procs) if jobs[i::procs]]))
    return res


def run(docs, work, langs_of, limit=30, styles=2):
    """Run every document; returns trace records (outcomes grouped over languages)."""
    jobs, w = [], os.path.join(work, "docs"); os.makedirs(w, exist_ok=True)
    for n, d in enumerate(docs):
        path = os.path.join(w, f"d{n}.toml"); write(d["doc"], path, n % styles)
        for l in langs_of(n):
            out = os.path.join(w, f"o{n}.{l}")
            jobs.append({"i": f"{n}.{l}", "load": path if d.get("load") else None, "args": ["--lang", l, "--protocol", path, "--output", out], "file": out, "limit": limit})
    res = invoke(jobs, work)
    recs = []
    for n, d in enumerate(docs):
        g = {}
        for l in langs_of(n):
            r = res[f"{n}.{l}"]
            key = (r["end"], r["code"], r["err"], r["out"], r["file"], r["len"] > 0)
            if key not in g: g[key] = dict({a: r[a] for a in ("end", "code", "err", "out", "file", "len", "msg")}, who=[])
            g[key]["who"].append(l)
        recs.append(dict(d, obs=list(g.values())))
    shutil.rmtree(w)
    return recs


def gen(module, n, work, seed, protos=None, depth=4, env=None, timeout=600):
    e = {"VB_N": str(n), "VB_SEED": str(seed)}
    if protos: e["VB_PROTOS"] = C.write_protos(protos, work, f"{module}-{seed}.json")
    e.update(env or {})
    p = C.tlc(module, work, e, args=["-simulate", "num=1", "-depth", str(depth * n + 2), "-seed", str(seed)], timeout=timeout)
    out = [json.loads(json.loads(l)[2:]) for l in p.stdout.splitlines() if l.startswith('"@@')]
    m = re.search(r"The number of states generated: (\d+)", p.stdout)
    if len(out) != n or not m or p.returncode: raise C.Machinery(f"{module}: rc {p.returncode}, {len(out)} of {n}\n" + "\n".join(l for l in p.stdout.splitlines() if not l.startswith('"@@'))[-3000:] + p.stderr[-500:])
    return out, int(m.group(1))


def judge(recs, work, shards=8, timeout=800, module="DocConf"):
    """[(record, outcome, clauses, rule)], and the number of documents per broken rule."""
    n = max(1, min(shards, (len(recs) + 99) // 100))
    parts = [recs[i::n] for i in range(n)]
    def go(i):
        tf, of = os.path.join(work, f"{module}-trace{i}.ndjson"), os.path.join(work, f"{module}-verdict{i}.json")
        with open(tf, "w") as f:
            for r in parts[i]: f.write(json.dumps(r) + "\n")
        if os.path.exists(of): os.remove(of)
        p = C.tlc(module, work, {"VB_TRACE": tf, "VB_OUT": of}, timeout=timeout)
        try: v = json.load(open(of))
        except (OSError, ValueError): raise C.Machinery(f"{module}: rc {p.returncode} " + p.stdout[-3000:])
        if v["consumed"] != len(parts[i]) or v["lines"] != len(parts[i]) or p.returncode: raise C.Machinery(f"{module} consumed {v['consumed']} of {len(parts[i])}: " + p.stdout[-2000:])
        return [(parts[i][b["line"] - 1], parts[i][b["line"] - 1]["obs"][b["obs"] - 1], b["clauses"], b.get("rule", "")) for b in v["bad"]], v.get("rules", [])
    bad, rules = [], []
    with cf.ThreadPoolExecutor(n) as ex:
        for b, r in ex.map(go, range(n)): bad += b; rules += r
    return bad, rules


def doc_of(s):
    """The document of a schema, as the specification sees it."""
    st = lambda x: {"k": "str", "s": x}
    tab = lambda kv: {"k": "tab", "t": [[a, b] for a, b in kv]}
    arr = lambda xs: {"k": "arr", "a": xs}
    meta = [(k, st(s[f])) for k, f in (("namespace", "ns"), ("list_size_type", "lst"), ("string_size_type", "str")) if s.get(f)]
    top = [["meta", tab(meta)]] if meta else []
    for kind in ("structs", "enums", "messages"):
        if not s.get(kind): continue
        top.append([kind, arr([tab([("_name", st(d["name"]))] + (
            [("_values", arr([st(n) if d.get("form") == "names" else tab([("_name", st(n)), ("_value", {"k": "int", "n": v})]) for n, v in d["entries"]]))] if kind == "enums"
            else [(n, st("[" + t + "]" if l else t)) for n, t, l in d["members"]])) for d in s[kind]])])
    return {"text": "ok", "top": top}
