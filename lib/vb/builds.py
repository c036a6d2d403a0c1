"""Does the generated code build? Every protocol in every language, with that language's compiler and nothing but the generated code."""
import os, re, json, shutil, collections, concurrent.futures as cf
from . import build as B, schema as S, harness as H

LANGS = ["c", "cpp", "go", "ts", "rust", "zig", "csharp", "swift", "assemblyscript"]
CLI = dict(H.CLILANG, swift="swift", assemblyscript="assemblyscript")
EXT = dict(H.EXT, swift=".swift", assemblyscript=".ts")
RES_OK = {"st": "ok", "e": ""}


def generate(schemas, work, langs=LANGS):
    """{lang: {index: (path or None, error)}}"""
    jobs = []
    for i, s in enumerate(schemas):
        tp = os.path.join(work, f"p{i}.toml")
        with open(tp, "w", encoding="utf-8") as f: f.write(s.get("toml") or S.toml(s))
        for l in langs:
            if l == "cpp": continue
            d = os.path.join(work, l, f"s{i}"); os.makedirs(d, exist_ok=True)
            out = os.path.join(d, "gen" + EXT[l])
            jobs.append({"i": i, "l": l, "args": ["--lang", CLI[l], "--protocol", tp, "--output", out] + list((s.get("opts") or {}).get(CLI[l], []))})
    B.generate(jobs, work)
    res = {l: {} for l in langs}
    for j in jobs:
        ok = j["code"] == 0 and os.path.exists(j["args"][5])
        res[j["l"]][j["i"]] = (j["args"][5], "") if ok else (None, "generator: " + (j["err"] or j["out"])[-400:])
    if "cpp" in langs: res["cpp"] = dict(res["c"])
    return res


def each(f, items, n=8):
    with cf.ThreadPoolExecutor(n) as ex: return dict(zip([i for i, _ in items], ex.map(lambda x: f(*x), items)))


def c_like(cc):
    def go(files, schemas, work):
        """Compiled as the implementation, included elsewhere without it, linked; a whole program of both."""
        def one(i, path):
            d = os.path.dirname(path)
            m = re.search(r"^#ifdef (\w*IMPLEMENTATION)\b", open(path, encoding="utf-8").read(), re.M)
            guard = m.group(1) if m else ((schemas[i]["ns"] or "BESCHI").upper() + "_IMPLEMENTATION")
            x = "cpp" if "++" in cc[0] else "c"
            with open(f"{d}/a_{x}.c", "w") as f: f.write(f'#define {guard}\n#include "gen.h"\n')
            with open(f"{d}/b_{x}.c", "w") as f: f.write('#include "gen.h"\n#include "gen.h"\nint main(void) { return 0; }\n')
            return B.run(cc + [f"{d}/a_{x}.c", f"{d}/b_{x}.c", "-o", f"{d}/prog_{x}"], timeout=200)
        r = each(one, files.items())
        return {i: o[-700:] for i, (rc, o) in r.items() if rc}
    return go


def go(files, schemas, work):
    with open(f"{work}/go/go.mod", "w") as f: f.write("module vbgo\n\ngo 1.21\n")
    bad, left = {}, dict(files)
    while left:
        rc, o = B.run(["go", "build"] + [f"./s{i}" for i in left], cwd=f"{work}/go", timeout=600)
        if not rc: break
        hit = {int(x) for x in re.findall(r"^# vbgo/s(\d+)|^s(\d+)/", o, re.M) for x in x if x} & set(left)
        if not hit: bad[-1] = o[-700:]; break
        for i in hit: bad[i] = "\n".join(l for l in o.splitlines() if l.startswith(f"s{i}/"))[:700]; del left[i]
    return bad


def ts(files, schemas, work):
    """Type-checked with the compiler options the project itself uses."""
    cfg = os.path.join(B.REPO, "test/_harnesses/typescript/tsconfig.json")
    opts = json.loads(re.sub(r",(\s*[}\]])", r"\1", open(cfg).read()))["compilerOptions"] if os.path.exists(cfg) else {"target": "es2020", "noImplicitAny": True}
    opts.pop("types", None); opts["types"] = []
    opts.update(noEmit=True, module="es2020", lib=["es2020", "dom"], skipLibCheck=True)
    opts.pop("moduleResolution", None); opts["moduleResolution"] = "node"
    idx = list(files)
    def part(k, ids):
        t = f"{work}/ts/tsconfig{k}.json"
        json.dump({"compilerOptions": opts, "files": [files[i] for i in ids]}, open(t, "w"))
        return B.run(["tsc", "-p", t], timeout=600)
    bad = {}
    parts = [(k, idx[k::4]) for k in range(4) if idx[k::4]]
    for (k, ids), (rc, o) in zip(parts, each(part, parts).values()):
        if not rc: continue
        hit = collections.defaultdict(list)
        for l in o.splitlines():
            m = re.search(r"\bs(\d+)/gen\.ts\(\d+,\d+\): error", l)
            if m: hit[int(m.group(1))].append(l)
        if not hit: bad[-1] = o[-700:]
        for i, ls in hit.items(): bad[i] = "\n".join(ls)[:700]
    return bad


def rust(files, schemas, work):
    def one(i, path): return B.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", f"s{i}", "--emit", "metadata,link", "-A", "warnings", "-o", os.path.join(os.path.dirname(path), f"libs{i}.rlib"), path], timeout=200)
    return {i: o[:700] for i, (rc, o) in each(one, files.items()).items() if rc}


def csharp(files, schemas, work):
    csc, ref, _ = H.dotnet()
    refs = [f"-r:{ref}/{f}" for f in os.listdir(ref) if f.endswith(".dll")]
    with open(f"{work}/csharp/args.rsp", "w") as f: f.write("\n".join(["-nostdlib+", "-nologo", "-langversion:12", "-warn:4", "-warnaserror-", "-utf8output", "-target:library"] + refs))
    # protocols with namespaces of their own share an assembly, the others get one each
    spaces = collections.Counter(schemas[i]["ns"] for i in files)
    groups = [[i for i in files if schemas[i]["ns"] and spaces[schemas[i]["ns"]] == 1]]
    rest = [[i] for i in files if i not in groups[0]]
    groups = [g for g in (groups[0][k::4] for k in range(4)) if g] + rest
    def comp(k, ids):
        bad = {}
        while ids:
            rc, o = B.run(["dotnet", "exec", csc, "-noconfig", f"@{work}/csharp/args.rsp", f"-out:{work}/csharp/g{k}.dll"] + [files[i] for i in ids], timeout=600)
            if not rc: break
            hit = collections.defaultdict(list)
            for l in o.splitlines():
                m = re.search(r"/s(\d+)/gen\.cs\(\d+,\d+\): error", l)
                if m: hit[int(m.group(1))].append(re.sub(r".*/gen.cs", "gen.cs", l))
            if not hit: bad[-1] = o[-700:]; break
            for i, ls in hit.items(): bad[i] = "\n".join(ls)[:700]
            ids = [i for i in ids if i not in hit]
        return bad
    out = {}
    for b in each(comp, list(enumerate(groups))).values(): out.update(b)
    return out


def zig(files, schemas, work):
    """Zig analyses only what is used: every declaration is referred to, recursively; generic code is instantiated by the codec drivers."""
    idx = list(files)
    def comp(k, ids):
        bad = {}
        while ids:
            with open(f"{work}/zig/all{k}.zig", "w") as f:
                f.write('const std = @import("std");\nfn all(comptime T: type) void {\n    @setEvalBranchQuota(1000000);\n    inline for (comptime std.meta.declarations(T)) |d| {\n        if (@TypeOf(@field(T, d.name)) == type) switch (@typeInfo(@field(T, d.name))) { .Struct, .Enum, .Union => all(@field(T, d.name)), else => {} };\n        _ = &@field(T, d.name);\n    }\n}\n'
                        + "comptime {\n" + "".join(f'    all(@import("s{i}/gen.zig"));\n' for i in ids) + "}\n")
            rc, o = B.run(["zig", "build-obj", f"{work}/zig/all{k}.zig", f"-femit-bin={work}/zig/all{k}.o", "--cache-dir", f"{work}/zig/cache{k}", "--global-cache-dir", f"{work}/zig/gcache"], cwd=f"{work}/zig", timeout=600)
            if not rc: break
            hit = {int(x) for x in re.findall(r"(?:^|/|\n)s(\d+)/gen\.zig:\d+:\d+: error", o)} & set(ids)
            if not hit: bad[-1] = o[-700:]; break
            for i in hit: bad[i] = o[:700]
            ids = [i for i in ids if i not in hit]
        return bad
    groups = [idx[k::8] for k in range(8) if idx[k::8]]
    out = {}
    for b in each(comp, list(enumerate(groups))).values(): out.update(b)
    return out


def by_node(script, *more):
    """What is wrong with the code for every compiler of the language, as far as a translation to JavaScript shows."""
    def go(files, schemas, work):
        idx = list(files)
        def part(k, ids):
            base = f"{work}/{script.split('_')[0]}{k}"
            json.dump([files[i] if not more else [files[i], f"{base}.js"] for i in ids], open(base + ".in.json", "w"))
            rc, o = B.run(["node", "--max-old-space-size=1500", f"{B.DRV}/{script}", base + ".in.json", base + ".out.json"] + [m() for m in more], timeout=600)
            if rc: return {-1: o[-700:]}
            return {i: e[:700] for i, e in zip(ids, json.load(open(base + ".out.json"))) if e and (not more or e.startswith("does not parse"))}
        parts = [(k, idx[k::4]) for k in range(4) if idx[k::4]]
        out = {}
        for b in each(part, parts).values(): out.update(b)
        return out
    return go


COMPILE = {"swift": by_node("swift_check.mjs"), "assemblyscript": by_node("as_shim.mjs", lambda: H.node_modules() + "/x.js"), "c": c_like(["gcc-13", "-std=c99", "-pedantic-errors", "-O0", "-w"]), "cpp": c_like(["g++-13", "-std=c++20", "-pedantic-errors", "-O0", "-w", "-x", "c++"]), "go": go, "ts": ts, "rust": rust, "csharp": csharp, "zig": zig}


def build(schemas, work, langs=LANGS, times=None):
    """{lang: {schema index: {"st", "e"}}}; Swift and AssemblyScript are only looked at by the translations of C20 and C21."""
    import time
    res = generate(schemas, work, langs)
    out = {}
    for l in langs:
        t = time.time()
        files = {i: p for i, (p, _) in res[l].items() if p}
        bad = COMPILE[l](files, schemas, work) if l in COMPILE and files else {}
        if -1 in bad: raise RuntimeError(f"{l}: {bad[-1]}")
        out[l] = {i: dict(RES_OK) if p and i not in bad else {"st": "err", "e": e or bad[i]} for i, (p, e) in res[l].items()}
        if times is not None: times[l] = round(time.time() - t, 1)
    return out
