"""Build the driver program of each language from the code the real CLI generates, and run commands through it."""
import os, re, json, shutil, subprocess, threading, time, concurrent.futures as cf
from . import build as B, schema as S
from .drivers import c as DC, go as DG, rust as DR, zig as DZ

EXT = {"c": ".h", "cpp": ".h", "go": ".go", "ts": ".ts", "rust": ".rs", "zig": ".zig", "csharp": ".cs", "as": ".ts", "swift": ".swift"}
CLILANG = {"c": "c", "cpp": "c", "go": "go", "ts": "typescript", "rust": "rust", "zig": "zig", "csharp": "csharp", "as": "assemblyscript", "swift": "swift"}
ASAN = "-fsanitize=address,undefined"


def opts_args(s, lang):
    """Extra generator options a schema asks for: s["opts"][cli language] = [args]."""
    return list((s.get("opts") or {}).get(CLILANG[lang], []))


class Lang:
    """One built driver. errors: {schema index: text} for schemas whose generated code does not build."""
    def __init__(self, name, work, schemas):
        self.name, self.work, self.schemas = name, os.path.join(work, name), schemas
        os.makedirs(self.work, exist_ok=True)
        self.errors = {}
        self.cmd = None      # the driver program, or None when self.table maps schema index -> program
        self.table = {}

    def gen(self, path):
        """Generate every schema with the CLI; path(i) = output file."""
        jobs = []
        for i, s in enumerate(self.schemas):
            tp = os.path.join(self.work, f"p{i}.toml")
            with open(tp, "w", encoding="utf-8") as f: f.write(s.get("toml") or S.toml(s))
            out = path(i)
            os.makedirs(os.path.dirname(out), exist_ok=True)
            jobs.append({"i": i, "args": ["--lang", CLILANG[self.name], "--protocol", tp, "--output", out] + opts_args(s, self.name)})
        B.generate(jobs, self.work)
        for j in jobs:
            if j["code"] != 0 or not os.path.exists(j["args"][5]): self.errors[j["i"]] = "generator: " + (j["err"] or j["out"])[-600:]
        return [j["i"] for j in jobs if j["i"] not in self.errors]


def pmap(f, xs, n=8):
    with cf.ThreadPoolExecutor(n) as ex: return list(ex.map(f, xs))


def build_c(L, cxx=False, par=8):
    w = L.work
    ok = L.gen(lambda i: f"{w}/h{i}/gen.h")
    cc = ["g++-13", "-std=c++20"] if cxx else ["gcc-13", "-std=c99"]
    base = cc + ["-pedantic-errors", "-O0", "-g1", ASAN, "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-w", "-I" + B.DRV]
    lang = ["-x", "c++"] if cxx else []
    def one(i):
        with open(f"{w}/u{i}.c", "w") as f: f.write(DC.unit(L.schemas[i], f"h{i}/gen.h", i))
        rc, o = B.run(base + lang + ["-I" + w, "-c", f"{w}/u{i}.c", "-o", f"{w}/u{i}.o"])
        if rc: L.errors[i] = o[-1500:]
        return rc == 0
    res = pmap(one, ok, par)
    ok = [i for i, r in zip(ok, res) if r]
    with open(f"{w}/table.c", "w") as f: f.write(DC.table(ok, len(L.schemas)))
    rc, o = B.run(["gcc-13", "-std=gnu99", "-O0", "-g1", ASAN, "-fno-sanitize-recover=all", "-I" + B.DRV, f"{B.DRV}/c_main.c", "-c", "-o", f"{w}/main.o"])
    if rc: raise RuntimeError("driver does not build: " + o)
    rc, o = B.run(["gcc-13", "-I" + B.DRV, f"{w}/table.c", "-c", "-o", f"{w}/table.o"])
    if rc: raise RuntimeError("driver does not build: " + o)
    rc, o = B.run([cc[0], ASAN, f"{w}/main.o", f"{w}/table.o"] + [f"{w}/u{i}.o" for i in ok] + ["-o", f"{w}/driver"])
    if rc:
        # each unit compiled on its own: several schemas in one program must link too
        raise LinkError(o[-2000:])
    L.cmd = [f"{w}/driver"]
    L.env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=2048", "UBSAN_OPTIONS": "print_stacktrace=0"}
    return L


class LinkError(Exception): pass


def build_go(L):
    w = L.work
    ok = L.gen(lambda i: f"{w}/s{i}/gen.go")
    with open(f"{w}/go.mod", "w") as f: f.write("module vbgo\n\ngo 1.21\n")
    defs = [dict(s, rename="--go-no-rename" not in opts_args(s, "go")) for s in L.schemas]
    json.dump(defs, open(f"{w}/defs.json", "w"))
    def build(idx):
        for f in os.listdir(w):
            if f.startswith("glue") or f == "table.go": os.remove(f"{w}/{f}")
        shutil.copy(f"{B.DRV}/go_main.go", f"{w}/main.go")
        with open(f"{w}/table.go", "w") as f: f.write(f"package main\nvar schemas [{len(L.schemas)}]*Schema\n")
        for i in idx:
            with open(f"{w}/glue{i}.go", "w") as f: f.write(DG.glue(L.schemas[i], i, f"s{i}"))
        return B.run(["go", "build", "-o", f"{w}/driver", "."], cwd=w)
    pk = [f"./s{i}" for i in ok]
    rc, o = B.run(["go", "build"] + pk, cwd=w) if pk else (0, "")
    if rc:
        for i in ok:
            m = re.search(rf"^# vbgo/s{i}\n((?:(?!# ).*\n?)*)", o, re.M)
            if m: L.errors[i] = m.group(1)[:1500]
            elif re.search(rf"^s{i}/", o, re.M): L.errors[i] = "\n".join(x for x in o.splitlines() if x.startswith(f"s{i}/"))[:1500]
        if not any(i in L.errors for i in ok): raise RuntimeError("go build: " + o[-1500:])
    ok = [i for i in ok if i not in L.errors]
    rc, o = build(ok)
    if rc:
        for i in ok:
            ls = [x for x in o.splitlines() if f"glue{i}.go" in x]
            if ls: L.errors[i] = "\n".join(ls)[:1500]
        ok2 = [i for i in ok if i not in L.errors]
        if len(ok2) == len(ok): raise RuntimeError("go build: " + o[-1500:])
        rc, o = build(ok2)
        if rc:  # the compiler stops after ten errors: build one at a time
            good = []
            for i in ok2:
                rc, o = build([i])
                if rc: L.errors[i] = o[:1500]
                else: good.append(i)
            rc, o = build(good)
            if rc: raise RuntimeError("go build: " + o[-1500:])
    L.cmd = [f"{w}/driver", f"{w}/defs.json"]
    L.env = {"GOMAXPROCS": "2"}
    return L


def build_ts(L):
    w = L.work
    ok = L.gen(lambda i: f"{w}/m{i}/gen.ts")
    cfg = []
    for i, s in enumerate(L.schemas):
        a = opts_args(s, "ts")
        if "--typescript-use-namespace" in a and s["ns"] and i in ok:
            # the namespace is for a global script; what a script declares is made visible to the module system
            with open(f"{w}/m{i}/gen.ts", "a", encoding="utf-8") as f: f.write(f"\nexport {{ {s['ns']} }};\n")
        cfg.append({"schema": s, "file": f"{w}/m{i}/gen.ts" if i in ok else None, "nsname": s["ns"] if "--typescript-use-namespace" in a else None})
    json.dump(cfg, open(f"{w}/cfg.json", "w"))
    with open(f"{w}/package.json", "w") as f: f.write('{"type":"module"}')
    with open(f"{w}/empty", "w"): pass
    shutil.copy(f"{B.DRV}/driver.mjs", f"{w}/driver.mjs")
    L.cmd = ["tsx", f"{w}/driver.mjs", f"{w}/cfg.json", f"{w}/errs.json"]
    L.env = {}
    p = subprocess.run(L.cmd, stdin=subprocess.DEVNULL, capture_output=True, text=True, env=B.env(), timeout=300, cwd=w)
    if p.returncode: raise RuntimeError("ts driver: " + p.stderr[-1500:])
    for i, e in enumerate(json.load(open(f"{w}/errs.json"))):
        if e: L.errors[i] = e[:1500]
    return L

def node_modules():
    d = os.path.dirname(os.path.realpath(shutil.which("tsc", path=B.env()["PATH"]) or "/opt/veriftools/node/node_modules/typescript/bin/tsc"))
    while d != "/" and os.path.basename(d) != "node_modules": d = os.path.dirname(d)
    return d


def build_as(L):
    """AssemblyScript, translated to JavaScript (there is no AssemblyScript compiler here)."""
    w = L.work
    ok = L.gen(lambda i: f"{w}/m{i}.ts")
    for f in ("as_shim.mjs", "as_runtime.mjs", "driver.mjs"): shutil.copy(f"{B.DRV}/{f}", f"{w}/{f}")
    with open(f"{w}/package.json", "w") as f: f.write('{"type":"module"}')
    json.dump([[f"{w}/m{i}.ts", f"{w}/m{i}.mjs"] for i in ok], open(f"{w}/pairs.json", "w"))
    rc, o = B.run(["node", f"{w}/as_shim.mjs", f"{w}/pairs.json", f"{w}/shim.json", node_modules() + "/x.js"], cwd=w)
    if rc: raise RuntimeError("as shim: " + o[-1500:])
    done = set()
    for i, e in zip(ok, json.load(open(f"{w}/shim.json"))):
        if e and e.startswith("does not parse"): L.errors[i] = e[:1500]
        elif e: L.notrun = getattr(L, "notrun", []) + [f"{L.schemas[i]['id']}: {e[:300]}"]
        else: done.add(i)
    json.dump([{"schema": s, "file": f"{w}/m{i}.mjs" if i in done else None} for i, s in enumerate(L.schemas)], open(f"{w}/cfg.json", "w"))
    L.cmd = ["node", "--max-old-space-size=1500", f"{w}/driver.mjs", f"{w}/cfg.json", f"{w}/errs.json", "as"]
    L.env = {}
    p = subprocess.run(L.cmd, stdin=subprocess.DEVNULL, capture_output=True, text=True, env=B.env(), timeout=300, cwd=w)
    if p.returncode: raise RuntimeError("as driver: " + p.stderr[-1500:])
    for i, e in enumerate(json.load(open(f"{w}/errs.json"))):
        if e: L.notrun = getattr(L, "notrun", []) + [f"{L.schemas[i]['id']}: {e[:300]}"]   # not known to the emulation
    return L


def build_swift(L):
    """Swift, translated to JavaScript (there is no Swift compiler here)."""
    w = L.work
    ok = L.gen(lambda i: f"{w}/m{i}.swift")
    for f in ("swift.mjs", "swift_driver.mjs"): shutil.copy(f"{B.DRV}/{f}", f"{w}/{f}")
    json.dump([{"schema": s, "file": f"{w}/m{i}.swift" if i in ok else None} for i, s in enumerate(L.schemas)], open(f"{w}/cfg.json", "w"))
    L.cmd = ["node", "--max-old-space-size=1500", f"{w}/swift_driver.mjs", f"{w}/cfg.json", f"{w}/errs.json"]
    L.env = {}
    p = subprocess.run(L.cmd, stdin=subprocess.DEVNULL, capture_output=True, text=True, env=B.env(), timeout=300, cwd=w)
    if p.returncode: raise RuntimeError("swift driver: " + p.stderr[-1500:])
    for i, e in enumerate(json.load(open(f"{w}/errs.json"))):
        if e and e[0] == "build": L.errors[i] = e[1][:1500]
        elif e: L.notrun = getattr(L, "notrun", []) + [f"{L.schemas[i]['id']}: {e[1][:300]}"]   # not known to the emulation
    return L


def dotnet():
    root = next((d for d in ("/usr/lib/dotnet", "/usr/share/dotnet") if os.path.isdir(d)), None)
    sdk = sorted(os.listdir(root + "/sdk"))[-1]
    ref = root + "/packs/Microsoft.NETCore.App.Ref"
    ref = f"{ref}/{sorted(os.listdir(ref))[-1]}/ref"
    tfm = sorted(os.listdir(ref))[-1]
    ver = sorted(os.listdir(root + "/shared/Microsoft.NETCore.App"))[-1]
    return f"{root}/sdk/{sdk}/Roslyn/bincore/csc.dll", f"{ref}/{tfm}", ver


def build_csharp(L):
    w = L.work
    csc, ref, ver = dotnet()
    ok = L.gen(lambda i: f"{w}/s{i}.cs")
    refs = [f"-r:{ref}/{f}" for f in os.listdir(ref) if f.endswith(".dll")]
    base = ["dotnet", "exec", csc, "-noconfig", "-nostdlib+", "-nologo", "-langversion:12", "-warn:4", "-warnaserror-", "-utf8output", "-deterministic"] + refs
    shutil.copy(f"{B.DRV}/driver.cs", f"{w}/Driver.cs")
    with open(f"{w}/args.rsp", "w") as f: f.write("\n".join(base[3:]))
    def comp(idx, out):
        return B.run(base[:3] + [f"@{w}/args.rsp", "-target:exe", f"-out:{w}/{out}.dll", f"{w}/Driver.cs"] + [f"{w}/s{i}.cs" for i in idx], cwd=w)
    rc, o = comp(ok, "driver")
    while rc:
        bad = {int(x) for x in re.findall(r"(?<![\w])s(\d+)\.cs\(\d+,\d+\): error", o)}
        if not bad: raise RuntimeError("csc: " + o[-1500:])
        for i in bad: L.errors[i] = "\n".join(x for x in o.splitlines() if f"s{i}.cs(" in x and ": error" in x)[:1500]
        ok = [i for i in ok if i not in L.errors]
        rc, o = comp(ok, "driver")
    json.dump([dict(s, _ok=i in ok) for i, s in enumerate(L.schemas)], open(f"{w}/defs.json", "w"))
    with open(f"{w}/driver.runtimeconfig.json", "w") as f:
        json.dump({"runtimeOptions": {"tfm": "net8.0", "framework": {"name": "Microsoft.NETCore.App", "version": ver}, "configProperties": {"System.Globalization.Invariant": True}}}, f)
    L.cmd = ["dotnet", "exec", f"{w}/driver.dll", f"{w}/defs.json"]
    L.env = {"DOTNET_TieredPGO": "0", "DOTNET_gcServer": "0"}
    return L

def build_rust(L):
    w = L.work
    ok = L.gen(lambda i: f"{w}/g{i}.rs")
    main = open(f"{B.DRV}/rust_main.rs").read()
    # one crate per schema as an rlib, so that they build in parallel and fail one by one
    ctx = main[main.index("pub mod ctx"):main.index("use ctx::Ctx;")]
    with open(f"{w}/vbctx.rs", "w") as f: f.write("#![allow(warnings)]\n" + ctx)
    flags = ["--edition", "2021", "-C", "debuginfo=0", "-C", "debug-assertions=on", "-C", "overflow-checks=on", "-C", "opt-level=0", "-A", "warnings"]
    rc, o = B.run(["rustc", "--crate-type", "rlib", "--crate-name", "vbctx", f"{w}/vbctx.rs", "--out-dir", w] + flags, cwd=w)
    if rc: raise RuntimeError("rust driver: " + o)
    def one(i):
        with open(f"{w}/d{i}.rs", "w") as f:
            f.write(f"#![allow(warnings)]\nuse vbctx::ctx;\n" + DR.glue(L.schemas[i], i, f"{w}/g{i}.rs", "--rust-no-rename" not in opts_args(L.schemas[i], "rust")) + f"pub use d{i}::op;\n")
        rc, o = B.run(["rustc", "--crate-type", "rlib", "--crate-name", f"s{i}", f"{w}/d{i}.rs", "--extern", f"vbctx={w}/libvbctx.rlib", "--out-dir", w] + flags, cwd=w)
        if rc: L.errors[i] = o[:1500]
        return rc == 0
    ok = [i for i, r in zip(ok, pmap(one, ok)) if r]
    with open(f"{w}/main.rs", "w") as f:
        f.write(main.replace(ctx, "use vbctx::ctx;\n").replace("//GLUE", f"static TABLE: [Option<Op>; {len(L.schemas)}] = [" + ", ".join(f"Some(s{i}::op)" if i in ok else "None" for i in range(len(L.schemas))) + "];"))
    ext = [f"vbctx={w}/libvbctx.rlib"] + [f"s{i}={w}/libs{i}.rlib" for i in ok]
    rc, o = B.run(["rustc", f"{w}/main.rs", "-o", f"{w}/driver", "-L", w] + [x for e in ext for x in ("--extern", e)] + flags, cwd=w)
    if rc: raise RuntimeError("rust driver: " + o[:1500])
    L.cmd = [f"{w}/driver"]
    L.env = {}
    return L

def build_zig(L):
    w = L.work
    ok = L.gen(lambda i: f"{w}/s{i}.zig")
    for i in ok:
        with open(f"{w}/g{i}.zig", "w") as f: f.write(DZ.glue(L.schemas[i], i))
    for f in ("ctx", "main"): shutil.copy(f"{B.DRV}/zig_{f}.zig", f"{w}/{f}.zig")
    def attempt(idx, out):
        with open(f"{w}/{out}_table.zig", "w") as f:
            f.write("\n".join(f'const g{i} = @import("g{i}.zig");' for i in idx) + "\npub fn call(i: usize, op: u8) bool { switch (i) {\n" + "\n".join(f"{i} => g{i}.op(op)," for i in idx) + "\nelse => return false } return true; }\n")
        with open(f"{w}/{out}_main.zig", "w") as f: f.write(open(f"{w}/main.zig").read().replace('"table.zig"', f'"{out}_table.zig"'))
        return B.run(["zig", "build-exe", f"{w}/{out}_main.zig", "-lc", "-ODebug", "-fno-strip", f"-femit-bin={w}/{out}", "--cache-dir", f"{w}/cache_{out}", "--global-cache-dir", f"{w}/gcache"] + ZIGFLAGS, cwd=w, timeout=600)
    k = 4
    parts = [ok[j::k] for j in range(k)]
    def part(j):
        idx = parts[j]
        out = f"driver{j}"
        rc, o = attempt(idx, out)
        while rc:
            bad = {int(x) for x in re.findall(r"(?:^|/|\n)[sg](\d+)\.zig:\d+:\d+: error", o)}
            bad &= set(idx)
            if not bad: raise RuntimeError("zig: " + o[-1500:])
            for i in bad: L.errors[i] = o[:1500]
            idx = [i for i in idx if i not in bad]
            rc, o = attempt(idx, out)
        for i in range(len(L.schemas)):
            if i in parts[j]: L.table[i] = f"{w}/{out}"
    pmap(part, range(k))
    L.cmd = None
    L.env = {}
    return L

ZIGFLAGS = []
BUILDERS = {"zig": build_zig, "rust": build_rust, "csharp": build_csharp, "c": build_c, "cpp": lambda L: build_c(L, True), "go": build_go, "ts": build_ts, "as": build_as, "swift": build_swift}


def build(langs, schemas, work):
    """Returns {lang: Lang}; a whole-language failure is reported as error for schema index -1."""
    out = {}
    def one(l):
        L = Lang(l, work, schemas)
        t = time.time()
        try: BUILDERS[l](L)
        except LinkError as e: L.errors[-1] = "link: " + str(e)
        except (RuntimeError, subprocess.TimeoutExpired) as e: L.errors[-1] = str(e)[-2000:]   # nothing could be attributed to one protocol
        if -1 in L.errors: L.cmd, L.table = None, {}
        L.build_s = time.time() - t
        return L
    for l, L in zip(langs, pmap(one, langs)): out[l] = L
    return out


def run_lines(L, lines, cmd, stall=25, max_crash=12):
    """Run command lines (each 'id ...'); returns {id: reply}. Crashes and hangs are replies too: 'crash ...', 'hang'."""
    res = {}
    todo = list(lines)
    crashes = 0
    env = B.env(); env.update(getattr(L, "env", {}))
    while todo:
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=L.work)
        err = []
        def feed():
            try:
                p.stdin.write(("\n".join(todo) + "\n").encode()); p.stdin.close()
            except (BrokenPipeError, OSError): pass
        def drain():
            for x in iter(lambda: p.stderr.read(65536), b""):
                if sum(map(len, err)) < 1 << 20: err.append(x)
        last = [time.time()]; hung = [False]; done = [False]
        def watch():
            while not done[0]:
                time.sleep(0.2)
                if time.time() - last[0] > stall: hung[0] = True; p.kill(); return
        ts = [threading.Thread(target=t, daemon=True) for t in (feed, drain, watch)]
        for t in ts: t.start()
        n = 0
        for raw in iter(lambda: p.stdout.readline(1 << 24), b""):
            last[0] = time.time()
            if len(raw) == 1 << 24: p.kill(); break     # an endless reply
            if not raw.endswith(b"\n"): break
            id, _, r = raw.decode("utf-8", "replace").rstrip("\n").partition(" ")
            if n < len(todo) and todo[n].split(" ", 1)[0] == id: res[id] = r; n += 1
            else: break
        rc = p.wait(); done[0] = True
        ts[1].join(2)
        todo2 = todo[n:]
        if not todo2: break
        if rc == 66 and n:  # the driver reported a panic of the code under test and stopped
            todo = todo2
            continue
        msg = b"".join(err).decode("utf-8", "replace")
        m = re.search(r"(AddressSanitizer:? [\w-]+|runtime error: [^\n]*|panic[^\n]*|thread .* panicked[^\n]*\n[^\n]*|Unhandled exception[^\n]*|[A-Z]\w*Error: [^\n]*)", msg)
        id = todo2[0].split(" ", 1)[0]
        res[id] = "hang" if hung[0] else "crash " + re.sub(r"\s+", "_", (m.group(1) if m else f"rc={rc} " + msg[-200:]))[:160]
        crashes += 4 if hung[0] else 1
        todo = todo2[1:]
        if crashes >= max_crash:
            for x in todo: res[x.split(" ", 1)[0]] = "notrun"
            break
    return res


def run_all(langs, cmds, shards=None):
    """cmds: {lang: [line]} -> {lang: {id: reply}}, sharded over the cores."""
    jobs, none = [], {}
    tot = sum(len(v) for v in cmds.values()) or 1
    for l, ls in cmds.items():
        L = langs[l]
        parts = {}
        for x in ls:
            prog = "" if L.cmd is not None else L.table.get(int(x.split(" ", 2)[1]))
            if prog is None: none.setdefault(l, {})[x.split(" ", 1)[0]] = "noschema"   # no code for this protocol (reported as such)
            else: parts.setdefault(prog, []).append(x)
        for cmd, xs in parts.items():
            k = shards or max(1, min(4, round((20 if l == "ts" else 8) * len(xs) / tot)))
            for j in range(k):
                if xs[j::k]: jobs.append((l, xs[j::k], [cmd] if cmd else L.cmd))
    out = {l: none.get(l, {}) for l in cmds}
    for (l, _, _), r in zip(jobs, pmap(lambda j: run_lines(langs[j[0]], j[1], j[2]), jobs)): out[l].update(r)
    return out
