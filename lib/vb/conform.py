"""Relay between TLC and the generated code: cases out of Gen.tla, commands into the drivers, outcomes into Conf.tla.
No outcome is judged here; replies are only translated into the value notation of the specification."""
import os, json, re, subprocess, concurrent.futures as cf
from . import schema as S, harness as H

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception): pass


def raw(s):
    return {"lst": s.get("lst") or "uint32", "str": s.get("str") or "uint32",
            "enums": [{"name": e["name"], "entries": e["entries"]} for e in s.get("enums", [])],
            "structs": [{"name": e["name"], "members": e["members"]} for e in s.get("structs", [])],
            "messages": [{"name": e["name"], "members": e["members"]} for e in s.get("messages", [])]}


def tlc(module, work, env=None, cfg=None, args=(), timeout=600, heap="2g", workers="1"):
    e = dict(os.environ); e.update(env or {})
    md = os.path.join(work, f"tlc-{module}-{os.getpid()}-{abs(hash((str(env), str(args), cfg))) % 10**9}")
    os.makedirs(md + "t", exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={md}t", f"-Xmx{heap}", "-Xss64m", "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-workers", workers, "-metadir", md, "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
    p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    subprocess.run(["rm", "-rf", md, md + "t"])
    return p


def write_protos(schemas, work, name="protos.json"):
    f = os.path.join(work, name)
    with open(f, "w") as fh: json.dump([raw(s) for s in schemas], fh)
    return f


def gen(kind, n, schemas, work, seed=1, level=1, timeout=600):
    """Returns (cases, states). Cases are the JSON objects Gen.tla emits (1-based protocol index s)."""
    kind, _, only = kind.partition(".")   # "big.w": of the cases of kind big, the writes
    f = write_protos(schemas, work, f"gen-{kind}-{seed}.json")
    p = tlc("Gen", work, {"VB_PROTOS": f, "VB_KIND": kind, "VB_N": str(n), "VB_LEVEL": str(level)}, args=["-simulate", "num=1", "-depth", str(2 * n + 2), "-seed", str(seed)], timeout=timeout)
    cases = [json.loads(json.loads(l)[2:]) for l in p.stdout.splitlines() if l.startswith('"@@')]
    m = re.search(r"The number of states generated: (\d+)", p.stdout)
    if not m or int(m.group(1)) < 2 * n or p.returncode != 0:
        rest = "\n".join(l for l in p.stdout.splitlines() if not l.startswith('"@@'))
        raise Machinery(f"Gen {kind}: rc {p.returncode}\n{rest[rest.find("Error"):][:1200]}\n...\n{rest[-1500:]}\n{p.stderr[-1000:]}")
    if only: cases = [c for c in cases if c["k"] in only.split("+")]
    return cases, int(m.group(1))


def author(n, work, seed=1, big=False, timeout=300):
    """Random accepted protocols from Author.tla, as schemas."""
    p = tlc("Author", work, {"VB_N": str(n), "VB_BIG": "1" if big else "0"}, args=["-simulate", "num=1", "-depth", str(40 * n + 40), "-seed", str(seed)], timeout=timeout)
    raws = [json.loads(json.loads(l)[2:]) for l in p.stdout.splitlines() if l.startswith('"@@')]
    m = re.search(r"The number of states generated: (\d+)", p.stdout)
    if len(raws) != n or not m or p.returncode != 0: raise Machinery(f"Author: rc {p.returncode}, {len(raws)} protocols\n" + p.stdout[-2000:])
    out = []
    for i, r in enumerate(raws):
        for e in r["enums"]: e["form"] = "names" if [v for _, v in e["entries"]] == list(range(len(e["entries"]))) and i % 2 else "table"
        r.update(id=f"rnd{seed}n{i}", ns=f"Rnd{i}Ns" if r["ns"] else f"rnd{i}")
        out.append(r)
    return out, int(m.group(1))


# ---- values: specification notation <-> driver tokens
def num_tok(t, v):
    if t in ("uint32", "float"): return str(v[0] + (v[1] << 16))
    if t in ("uint64", "double"): return str(sum(x << (16 * i) for i, x in enumerate(v)))
    if t == "int64":
        n = sum(x << (16 * i) for i, x in enumerate(v[1:]))
        return str(-n if v[0] else n)
    return str(v)

BITS = {"byte": (0, 255), "bool": (0, 1), "uint16": (0, 65535), "int16": (-32768, 32767), "int32": (-2**31, 2**31 - 1), "uint32": (0, 2**32 - 1), "float": (0, 2**32 - 1),
        "uint64": (0, 2**64 - 1), "double": (0, 2**64 - 1), "int64": (-2**63, 2**63 - 1), "enum": (-2**31, 2**31 - 1)}


def num_val(t, tok):
    if not re.fullmatch(r"-?\d+", tok): raise ValueError("number: " + tok)
    n = int(tok); lo, hi = BITS[t]
    if n < lo or n > hi: raise ValueError("range: " + tok)
    if t in ("uint32", "float"): return [n & 0xFFFF, n >> 16]
    if t in ("uint64", "double"): return [(n >> (16 * i)) & 0xFFFF for i in range(4)]
    if t == "int64": return [1 if n < 0 else 0] + [(abs(n) >> (16 * i)) & 0xFFFF for i in range(4)]
    return n


def codepoints(b):
    try: return [ord(c) for c in b.decode("utf-8")]
    except UnicodeDecodeError: return [-1] + list(b)


class Codec:
    def __init__(self, s): self.v = S.View(s)

    def out_type(self, t, v, o):
        k = self.v.kind(t)
        if k == "struct":
            for (_, mt, ml), x in zip(self.v.structs[t]["members"], v, strict=True): self.out_member(mt, ml, x, o)
        elif k == "string": o.append("s" + "".join(map(chr, v)).encode("utf-8").hex())
        else: o.append(num_tok(k, v))

    def out_member(self, t, l, v, o):
        if l:
            o.append(str(len(v)))
            for x in v: self.out_type(t, x, o)
        else: self.out_type(t, v, o)

    def tokens(self, m, v):
        o = []
        for (_, t, l), x in zip(self.v.messages[m - 1]["members"], v, strict=True): self.out_member(t, l, x, o)
        return o

    def in_type(self, t, it):
        k = self.v.kind(t)
        if k == "struct": return [self.in_member(mt, ml, it) for _, mt, ml in self.v.structs[t]["members"]]
        x = next(it)
        if k == "string":
            if x[0] != "s": raise ValueError("string: " + x)
            return codepoints(bytes.fromhex(x[1:]))
        return num_val(k, x)

    def in_member(self, t, l, it):
        if not l: return self.in_type(t, it)
        n = int(next(it))
        return [self.in_type(t, it) for _ in range(n)]

    def value(self, m, it): return [self.in_member(t, l, it) for _, t, l in self.v.messages[m - 1]["members"]]


# ---- commands
def hx(b): return "x" + bytes(b).hex()


def command(c, codec, lang, fail=0, zero=0):
    """Driver command (without id) for a case, or None when the language has no such operation."""
    k = c["k"]
    if k == "alloc":
        s, op, _, _, rest = command(dict(c, k=c["op"]), codec, lang).split(" ", 4)
        return f"{s} F {c['n']} {zero} {op} {rest}"
    pre = lambda op: f"{c['s'] - 1} {op} {fail} {zero} "
    if k == "w":
        cap = c["off"] + c["sz"] + c["sl"]
        return pre("G" if c.get("gen") else "W") + " ".join([str(c["m"]), str(c["tag"]), str(c["vo"] + cap + c["tr"]), str(c["vo"]), str(cap), str(c["off"])] + codec.tokens(c["m"], c["v"]))
    if k in ("r", "rb", "xr"): return pre("R") + f"{c['m']} {c['style']} {c['vo']} {c['off']} {c['tr']} {hx(c['b'])}"
    if k in ("p", "pb", "xp"): return pre("P") + f"{c['max']} {c['vo']} {c['off']} {c['tr']} {hx(c['b'])}"
    if k in ("u", "xu"): return pre("U") + f"{c['vo']} {c['off']} {c['tr']} {hx(c['b'])}"
    if k == "k":
        cap = c["off"] + c["sz"] + c["sl"]
        o = [str(c["vo"] + cap + c["tr"]), str(c["vo"]), str(cap), str(c["off"]), str(len(c["items"]))]
        for i in c["items"]: o += [str(i["m"])] + codec.tokens(i["m"], i["v"])
        return pre("K") + " ".join(o)
    if k == "q":
        cap = c["off"] + c["sz"] + c["sl"]
        o = [str(c["vo"]), str(c["off"]), str(c["tr"]), str(cap), str(len(c["items"]))]
        for i in c["items"]: o += [str(i["m"]), "1" if i["tag"] else "0"] + codec.tokens(i["m"], i["v"])
        return pre("Q") + " ".join(o)
    if k == "d": return pre("D") + f"{c['m']} {c['style']}"
    if k == "t": return pre("T")
    if k == "h":
        o = [str(len(c["steps"]))]
        held = {}
        for x in c["steps"]:
            op = x["o"]
            if op == "K": o += [op, str(x["f"]), str(len(x["i"]))] + [str(j) for j in x["i"]]; continue
            o += [op, str(x["f"]), str(x["i"])]
            if op in "csb": held[x["i"]] = x["m"]; o.append(str(x["m"]))
            if op == "b": o += codec.tokens(x["m"], x["v"])
            if op == "r": o += [str(x["off"]), hx(x["b"])]
            if op == "w": o.append(str(x["tag"]))
            if op == "d": o.append(str(x["gen"]))
            if op == "P": o.append(str(x["max"]))
            if op in "PU": o.append(hx(x["b"]))
        return pre("H") + " ".join(o)
    raise KeyError(k)


# error kinds that mean the reader lost control rather than reported something
WILD = {"NullReferenceException", "IndexOutOfRangeException", "InvalidCastException", "ArgumentNullException", "KeyNotFoundException", "TypeError", "ReferenceError", "SyntaxError", "null"}


def outcome(c, codec, reply, lang=""):
    """Driver reply -> outcome record of Conf.tla. lax: AssemblyScript, which has a judgement of its own."""
    r = translate(c, codec, reply)
    r["lax"] = lang == "as"
    if lang == "swift" and " Emulation" in reply: r["st"] = "notrun"
    if lang == "as":
        if " Emulation" in reply: r["st"] = "notrun"    # code that the emulation cannot run
        else: r["wild"] = r["st"] == "err" and r["e"] not in ("Null", "False", "Error")
    return r


def translate(c, codec, reply):
    k = c["k"]
    if k == "alloc":
        a, sep, b = reply.partition(" | ")
        r = translate(dict(c, k=c["op"]), codec, a)
        if sep: r["again"] = translate(dict(c, k=c["op"]), codec, b)
        else: r["again"] = {"st": "none"}
        return r
    r = {"st": "malformed", "e": reply[:120], "l": -1, "x": -1, "a": -1, "wild": False}
    toks = reply.split(" ")
    if toks[0] in ("crash", "hang", "notrun", "noschema", "drivererr"):
        r["st"] = "crash" if toks[0] == "drivererr" else toks[0]
        return r
    if toks[0] == "panic" or (toks[0] == "err" and len(toks) > 1 and toks[1] == "panic"):
        r["st"] = "panic"; return r
    if len(toks) >= 4 and toks[-4] == "M":
        r["a"], r["l"], r["x"] = (int(x) for x in toks[-3:])
        toks = toks[:-4]
    k = c["k"]
    msgs = codec.v.messages
    it = iter(toks)
    nxt = lambda: next(it)
    def item():
        m = int(nxt())
        if not 1 <= m <= len(msgs): return {"m": m, "v": []}
        return {"m": m, "v": codec.value(m, it)}
    def ipos():
        x = nxt(); return -1 if x == "-" else int(x)
    try:
        if k == "h":
            r["steps"] = []
            for x in c["steps"]:
                if nxt() != ";": raise ValueError("step")
                st = nxt(); y = {"ok": st == "ok", "e": "" if st == "ok" else nxt()}
                if x["o"] in "csb" and y["ok"]: z = item(); y["m"], y["v"] = z["m"], z["v"]
                elif x["o"] == "r" and y["ok"]: y["pos"] = int(nxt()); z = item(); y["m"], y["v"] = z["m"], z["v"]
                elif x["o"] in "wLK" and y["ok"]: y["b"] = list(bytes.fromhex(nxt()[1:]))
                elif x["o"] == "g" and y["ok"]: y["n"] = int(nxt())
                elif x["o"] in "PU": y["items"] = [item() for _ in range(int(nxt()))]
                if nxt() != "#": raise ValueError("step end")
                y["fired"], y["x"] = nxt() == "1", int(nxt()); y["c"] = [int(nxt()) for _ in range(5)]
                r["steps"].append(y)
            if next(it, None) is not None: raise ValueError("trailing")
            r["st"], r["e"] = "ok", ""
            return r
        st = nxt()
        if st == "err":
            r["e"] = nxt(); r["e"] = {"OutOfMemory": "alloc"}.get(r["e"], r["e"]); r["wild"] = r["e"] in WILD
            if k == "w": r["sz"], r["sz2"], r["intact"] = int(nxt()), int(nxt()), nxt() == "1"
            elif k == "k": r["sz"], r["intact"] = int(nxt()), nxt() == "1"
            elif k in ("p", "u", "pb", "xp", "xu"):
                r["items"] = []
                x = next(it, None)
                if x == "list": r["items"] = [0] * int(nxt())
            r["st"] = "err"
            return r
        if st != "ok": return r
        if k == "w": r["sz"], r["sz2"], r["end"], r["intact"], r["b"] = int(nxt()), int(nxt()), int(nxt()), nxt() == "1", list(bytes.fromhex(nxt()[1:]))
        elif k == "k": r["sz"], r["end"], r["intact"], r["b"] = int(nxt()), ipos(), nxt() == "1", list(bytes.fromhex(nxt()[1:]))
        elif k in ("r", "rb", "xr"):
            r["pos"] = ipos(); x = item(); r["mt"], r["v"] = x["m"], x["v"]
            if x["m"] != c["m"] : it = iter(())
        elif k in ("p", "u", "pb", "xp", "xu"):
            r["pos"] = ipos(); n = int(nxt()); r["items"] = [item() for _ in range(n)]
        elif k == "d":
            r["sz"], r["sz2"], r["mt"], r["b"] = int(nxt()), int(nxt()), int(nxt()), list(bytes.fromhex(nxt()[1:])); r["v"] = codec.value(c["m"], it)
        elif k == "t":
            r["t"] = []
            for x in it: r["t"].append([x, int(nxt()), int(nxt())])
        elif k == "q":
            r["w"], r["r"], r["b"], r["intact"] = [], [], [], True
            for x in it:
                if x == "w": r["w"].append(int(nxt()))
                elif x == "b": r["intact"], r["b"] = nxt() == "1", list(bytes.fromhex(nxt()[1:]))
                elif x == "r": p = int(nxt()); r["r"].append({"pos": p, "items": [item()]})
                elif x == "t": p = int(nxt()); n = int(nxt()); r["r"].append({"pos": p, "items": [item() for _ in range(n)]})
                elif x in ("werr", "rerr"): break
                else: raise ValueError(x)
        if next(it, None) is not None: raise ValueError("trailing")
        r["st"] = "ok"; r["e"] = ""
    except (ValueError, StopIteration, IndexError, KeyError) as e:
        return {"st": "malformed", "e": (str(e) + ": " + reply)[:160], "l": -1, "x": -1, "a": -1, "wild": False}
    return r


def run(langs, cases, codecs, langfor=None, fail=None):
    """Run cases in every language; returns per case {lang: outcome}. langfor(case, lang) -> bool."""
    cmds = {l: [] for l in langs}
    for i, c in enumerate(cases):
        if c["k"] == "cut":
            for l in langs:
                if langfor and not langfor(c, l): continue
                for cut in c["cuts"]:
                    x = dict(c, k="r", b=c["b"][:cut])
                    cmds[l].append(f"{i}.{cut} " + command(x, codecs[c["s"] - 1], l))
            continue
        for l in langs:
            if langfor and not langfor(c, l): continue
            cmds[l].append(f"{i} " + command(c, codecs[c["s"] - 1], l, *(fail(c, l) if fail else ())))
    rep = H.run_all(langs, cmds)
    # crashes and hangs are confirmed alone
    for l in langs:
        again = {id for id, r in rep[l].items() if r.split(" ", 1)[0] in ("crash", "hang")}
        if again: rep[l].update(H.run_all({l: langs[l]}, {l: [x for x in cmds[l] if x.split(" ", 1)[0] in again]}, shards=1)[l])
    out = [dict() for _ in cases]
    for l in langs:
        for id, r in rep[l].items():
            ci, _, cut = id.partition(".")
            c = cases[int(ci)]
            if cut: out[int(ci)].setdefault(l, {})[int(cut)] = outcome(dict(c, k="r"), codecs[c["s"] - 1], r, l)
            else: out[int(ci)][l] = outcome(c, codecs[c["s"] - 1], r, l)
        if len(rep[l]) != len(cmds[l]): raise Machinery(f"{l}: {len(cmds[l])} commands, {len(rep[l])} replies")
    return out


SKIP = ("notrun", "noschema")


def records(cases, outs):
    """Trace lines: the case with its distinct outcomes."""
    recs = []
    for c, o in zip(cases, outs):
        g = {}
        for l, r in o.items():
            if c["k"] == "cut":
                for cut, x in r.items():
                    if x["st"] in SKIP: continue
                    y = {k: v for k, v in x.items() if k != "a"}
                    key = json.dumps(y, sort_keys=True) + l
                    g.setdefault(key, dict(y, who=[l], at=[]))["at"].append(cut)
                continue
            if r["st"] in SKIP: continue
            y = {k: v for k, v in r.items() if k != "a"}
            g.setdefault(json.dumps(y, sort_keys=True), dict(y, who=[]))["who"].append(l)
        # groups of truncations with the same outcome in several languages
        if c["k"] == "cut":
            h = {}
            for x in g.values():
                y = {k: v for k, v in x.items() if k != "who"}
                h.setdefault(json.dumps(y, sort_keys=True), dict(y, who=[]))["who"] += x["who"]
            g = h
        rec = {k: v for k, v in c.items() if k not in ("cuts",)}
        rec["obs"] = list(g.values())
        if rec["obs"]: recs.append(rec)
    return recs


def judge(recs, schemas, work, shards=6, timeout=800):
    """Check the trace with Conf.tla. Returns the list of failures [(record, outcome, clauses)]."""
    if not recs: return []
    protos = write_protos(schemas, work, "conf.json")
    n = max(1, min(shards, (len(recs) + 199) // 200))
    parts = [recs[i::n] for i in range(n)]
    def go(i):
        tf, of = os.path.join(work, f"trace{i}.ndjson"), os.path.join(work, f"verdict{i}.json")
        with open(tf, "w") as f:
            for r in parts[i]: f.write(json.dumps(r) + "\n")
        if os.path.exists(of): os.remove(of)
        p = tlc("Conf", work, {"VB_PROTOS": protos, "VB_TRACE": tf, "VB_OUT": of}, timeout=timeout)
        try: v = json.load(open(of))
        except (OSError, ValueError): raise Machinery(f"Conf: rc {p.returncode} " + p.stdout[-3000:] + p.stderr[-500:])
        if v["consumed"] != len(parts[i]) or v["lines"] != len(parts[i]) or p.returncode != 0: raise Machinery(f"Conf consumed {v['consumed']} of {len(parts[i])}: " + p.stdout[-2000:])
        return [(parts[i][b["line"] - 1], parts[i][b["line"] - 1]["obs"][b["obs"] - 1], b["clauses"]) for b in v["bad"]]
    with cf.ThreadPoolExecutor(n) as ex: return [x for part in ex.map(go, range(n)) for x in part]
