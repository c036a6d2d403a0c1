"""The checks. Each one obtains cases from the specification (TLC), runs them through freshly generated and built code of every
language concerned, and has the specification judge the outcomes; the clauses that belong to the property decide."""
import os, sys, json, time, re, shutil, tempfile, hashlib, traceback, collections, concurrent.futures as cf
from . import schema as S, schemas as X, harness as H, conform as C, clichecks as CC

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ALL = ["c", "cpp", "go", "ts", "rust", "zig", "csharp", "swift", "as"]
FIXED = {"c", "cpp", "ts", "zig", "as"}      # writers into a buffer of fixed size


class Run:
    def __init__(self, id, tier, seed, replay=None):
        self.id, self.tier, self.seed, self.replay = id, tier, seed, replay
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"vb-{id}-")
        self.states = self.transitions = self.validated = 0
        self.samples, self.notes, self.viol = [], collections.Counter(), []
        self.models = {}
        self.exhaustive = None
        self.thorough = tier == "thorough"
        self.budget = float(os.environ.get("VB_BUDGET", "1500"))
        self.assumptions = []

    def left(self): return self.budget - (time.time() - self.t0)

    def late(self):
        """Code that hangs makes checks slow: the verdict is clear after the first violations."""
        return bool(self.viol) and time.time() - self.t0 > 240

    def mc(self, module, cfg=None, timeout=840, heap="6g"):
        """Model-check the specification itself."""
        p = C.tlc(module, self.work, cfg=cfg, timeout=timeout, heap=heap, workers="4" if not self.thorough else "8")
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue", p.stdout)
        if not m or p.returncode or m.group(3) != "0": raise C.Machinery(f"{module}: rc {p.returncode}\n" + p.stdout[-3000:])
        return cfg or module, int(m.group(2)), int(m.group(1))

    def add_mc(self, r):
        self.models[r[0]] = {"distinct_states": r[1], "states_generated": r[2]}
        self.states += r[1]; self.transitions += r[2]

    def violation(self, what, record):
        """record: JSON-able description from which the failure can be replayed."""
        d = os.path.join(ROOT, ".work", "replay"); os.makedirs(d, exist_ok=True)
        body = json.dumps(dict(record, property=self.id, what=what, seed=self.seed, tier=self.tier), sort_keys=True)
        f = os.path.join(d, f"{self.id}-{hashlib.sha1(body.encode()).hexdigest()[:10]}.json")
        with open(f, "w") as fh: fh.write(body)
        self.viol.append((what, f))

    def report(self):
        known = [l for l in open(os.path.join(ROOT, "known-findings.txt")).read().splitlines() if l.startswith(f"known: property={self.id} ")] if os.path.exists(os.path.join(ROOT, "known-findings.txt")) else []
        fresh = []
        for what, f in self.viol:
            k = [l for l in known if re.search(re.search(r"match=/(.*?)/ ", l).group(1), what)]
            if k: self.notes["known finding"] += 1
            else: fresh.append((what, f))
        for l in known: print(f"KNOWN-FINDING: property={self.id} " + l.split("/ ", 1)[1])
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated, "samples": self.samples[:4] or ["none"], "models": self.models, "counts": dict(self.notes)}
        if self.exhaustive is not None: cov["exhaustive"] = self.exhaustive
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - self.t0, 1), "violations": len(fresh)}
        if self.assumptions: ev["assumptions"] = self.assumptions
        if not self.replay:
            os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
            with open(os.path.join(ROOT, "evidence", self.id + ".json"), "w") as f: json.dump(ev, f, indent=1)
        print(f"{self.id} {self.tier} seed {self.seed}: {self.validated} observations judged, {self.states} model states, {dict(self.notes)}, {time.time() - self.t0:.1f} s")
        for what, f in fresh[:8]: print(f"VIOLATION property={self.id} replay={f}\n  {what}")
        if len(fresh) > 8: print(f"  ... and {len(fresh) - 8} more")
        return 1 if fresh else 0


TRUST = ["TLC evaluates the specification correctly", "the compilers and runtimes of the seven languages are correct", "the drivers translate between API values and specification values faithfully", "Swift and AssemblyScript are executed only by the checks of C21 and C20, translated to JavaScript (no toolchain in the sandbox)"]
# ---------------------------------------------------------------- codec checks
def fits(c, l):
    """Whether the language has the operation: writing into too small a buffer of fixed size."""
    return c.get("sl", 0) >= 0 or (l in FIXED and (l != "as" or c["k"] == "w"))


MEM = {"leak", "badfree"}
MEANING = {
    "crash": "crashed, hung or aborted", "build": "the generated code does not exist or does not build", "bytes": "wrote other bytes than the documented encoding", "outside": "modified bytes outside the region it was given",
    "end": "left the position elsewhere than at the end of what was written", "tagbyte": "wrote a wrong type byte", "size": "reports a size that differs from what it writes", "size2": "reports (generic query) a size that differs from what it writes",
    "psize": "reports a packed size that differs from what it packs", "writefailed": "failed to write into sufficient space", "overfull": "claims success writing into too little space", "rejected": "rejected valid input", "accepted": "accepted invalid input",
    "acceptedenum": "accepted an undeclared enum value", "type": "reports a wrong message type", "types": "returned messages of other types", "value": "holds a different value", "values": "returned messages with other values", "count": "returned another number of messages",
    "consumed": "left the reader elsewhere than after what it read", "position": "position differs from the sizes of the messages", "uncontrolled": "failed by an uncontrolled error", "leak": "leaked memory", "badfree": "freed memory that was not allocated",
    "partial": "handed out messages although it failed", "constant": "message-type constant is not the declaration position", "reported": "reported message type is not the declaration position", "notreported": "did not report the failed allocation", "retry": "fails when repeated with memory available"}
CODEC = {
    "C02": dict(kinds={"rt": 420, "big.w": 14}, own={"crash", "writefailed", "bytes", "end", "tagbyte"}, mc=["MCCodec"]),
    "C03": dict(kinds={"rt": 420, "k": 240, "big.w": 14, "bigm.k": 3}, own={"crash", "writefailed", "size", "size2", "psize"}, mc=["MCCodec"]),
    "C04": dict(kinds={"cut": 420, "big.cut": 5}, own={"accepted", "acceptedenum", "crash", "uncontrolled"}, mc=["MCCodec"]),
    "C05": dict(kinds={"enum": 500}, own={"acceptedenum", "accepted", "rejected", "value", "values", "crash", "uncontrolled", "count", "types"}, mc=["MCCodec"], enums=True),
    "C06": dict(kinds={"p": 330, "bigm.p": 4}, own={"crash", "accepted", "uncontrolled", "rejected", "count", "types", "values", "consumed"}, mc=["MCCodec"]),
    "C07": dict(kinds={"k": 240, "u": 260, "bigm.k+u": 4}, own={"crash", "writefailed", "bytes", "end", "accepted", "uncontrolled", "partial", "rejected", "count", "types", "values"}, mc=["MCCodec"]),
    "C08": dict(kinds={"tags": 62}, own={"crash", "count", "constant", "reported", "tagbyte", "type", "types", "rejected", "writefailed", "accepted"}, mc=[], extra="tags"),
    "C09": dict(kinds={"d": 420}, own={"crash", "rejected", "value", "bytes", "type", "size", "leak", "badfree"}, mc=[]),
    "C14": dict(langs=["c", "cpp"], kinds={"rt": 200, "pos": 200, "cut": 240, "enum": 260, "p": 240, "k": 120, "u": 240, "d": 220, "q": 120, "h": 500}, own={"crash", "leak", "badfree", "partial", "bytes"}, mc=["MCLifecycle"]),
    "C16": dict(langs=["c", "cpp", "ts", "zig"], kinds={"room": 330, "roomk": 220}, own={"overfull", "outside", "crash", "writefailed"}, mc=["MCSession"]),
    "C17": dict(kinds={"pos": 330, "q": 330}, own={"crash", "rejected", "type", "value", "consumed", "position", "bytes", "outside", "writefailed", "accepted"}, mc=["MCSession"]),
    "C20": dict(langs=["as"], kinds={"rt": 300, "pos": 200, "cut": 240, "enum": 300, "p": 240, "k": 160, "u": 240, "q": 160, "d": 240, "any": 200, "room": 160, "tags": 62, "big": 8, "bigm.p+k": 2}, own=set(MEANING) - MEM, mc=["MCCodec"], extra="tags"),
    "C21": dict(langs=["swift"], kinds={"rt": 300, "pos": 200, "cut": 240, "enum": 300, "p": 240, "k": 160, "u": 240, "q": 160, "d": 240, "any": 200, "tags": 62, "big": 8, "bigm.p+k": 2}, own=set(MEANING) - MEM, mc=["MCCodec"], extra="tags"),
    "C19": dict(kinds={"any": 330}, own={"crash", "accepted", "acceptedenum", "uncontrolled", "rejected", "type", "types", "value", "values", "count", "consumed", "partial", "leak", "badfree"}, mc=["MCCodec"]),
}
ONCE = {"tags", "big", "big.w", "big.cut", "bigm.k", "bigm.p", "bigm.k+u", "bigm.p+k"}   # slow, or complete as they are
NAMES = {"c": "C", "cpp": "C++", "go": "Go", "ts": "TypeScript", "rust": "Rust", "zig": "Zig", "csharp": "C#", "as": "AssemblyScript", "swift": "Swift"}


def describe(rec, obs, clauses, schemas):
    s = schemas[rec["s"] - 1]
    who = ", ".join(NAMES.get(x, x) for x in obs.get("who", []))
    m = s["messages"][rec["m"] - 1]["name"] if "m" in rec else "-"
    return f"{who}: " + "; ".join(MEANING.get(c, c) for c in sorted(set(clauses))) + f" [{'+'.join(sorted(set(clauses)))}] protocol {s['id']} message {m} operation {rec['k']}" + (f" got {obs['st']} {obs.get('e', '')}" if obs.get("st") != "ok" else "")


def own_cases(r, fails, own, schemas):
    """Report the failures that concern this property, one per distinct (languages, clauses, operation)."""
    seen = collections.Counter()
    for rec, obs, cl in fails:
        mine = set(cl) & own
        for c in set(cl) - own: r.notes["other clause: " + c] += 1
        if not mine: continue
        key = (tuple(sorted(obs["who"])), tuple(sorted(mine)), rec["k"])
        seen[key] += 1
        if seen[key] > 2: continue
        case = {k: v for k, v in rec.items() if k != "obs"}
        r.violation(describe(rec, obs, sorted(mine), schemas), {"case": case, "outcome": obs, "clauses": sorted(mine), "schema": schemas[rec["s"] - 1]})


def build_failures(r, langs):
    for l, L in langs.items():
        for i, e in list(L.errors.items())[:3]:
            sid = L.schemas[i]["id"] if i >= 0 else "all"
            r.violation(f"{NAMES[l]}: the generated code does not exist or does not build [build] protocol {sid}: {e[:300]}", {"case": {"k": "build", "lang": l}, "error": e, "schema": L.schemas[i] if i >= 0 else None, "schemas": L.schemas if i < 0 else None})


def count_samples(r, cases, outs, n=1):
    for c, o in zip(cases, outs):
        if n <= 0: break
        if o and len(json.dumps(c)) < 500: r.samples.append({"case": c, "outcomes": {l: x for l, x in list(o.items())[:2]} if c["k"] != "cut" else "..."}); n -= 1


def validated(outs):
    return sum(sum(1 for x in o.values() if not (isinstance(x, dict) and x.get("st") in C.SKIP)) if not any(isinstance(x, dict) and "st" not in x for x in o.values()) else sum(len(x) for x in o.values()) for o in outs)


def schemas_for(r, cfg, rnd):
    base = X.curated()
    if cfg.get("extra") == "tags": base = base + [X.many(255, "most"), X.many(1, "least")]
    n = 14 if not r.thorough else 24
    a, st = C.author(n if rnd == 0 else 30, r.work, seed=r.seed * 1000 + rnd, big=rnd % 2 == 1)
    r.states += st; r.transitions += st
    return (base if rnd == 0 else []) + a


def ZN(c, l):
    """In C, an allocator may answer an empty request with NULL: every other case runs with such an allocator."""
    return 0, c.get("zn", (len(c.get("b", ())) + c["s"]) % 2) if l in ("c", "cpp") else 0


def codec(r):
    cfg = CODEC[r.id]
    langs = cfg.get("langs", ALL)
    rnd = 0
    zn = ZN if r.id in ("C14", "C09", "C04") else None
    pool = cf.ThreadPoolExecutor(10)
    r.assumptions = list(TRUST)
    mcs = [pool.submit(r.mc, m, m + "Deep" if r.thorough else None) for m in cfg["mc"]]
    while True:
        schemas = schemas_for(r, cfg, rnd)
        if cfg.get("enums"): schemas = [s for s in schemas if s["enums"]]
        codecs = [C.Codec(s) for s in schemas]
        w = os.path.join(r.work, f"r{rnd}"); os.makedirs(w)
        scale = 5 if not r.thorough else 8
        gens = {k: pool.submit(C.gen, k, n * (scale if k not in ONCE else 1 + r.thorough), schemas, w, r.seed * 100 + rnd, 2 if r.thorough else 1) for k, n in cfg["kinds"].items()}
        built = H.build(langs, schemas, w)
        build_failures(r, built)
        for L in built.values():
            for e in getattr(L, "notrun", []): r.notes["protocols not run: " + e[:100]] += 1
        for k in cfg["kinds"]:
            cases, st = gens[k].result()
            r.states += st; r.transitions += st
            outs = C.run(built, cases, codecs, langfor=fits, fail=zn)
            r.validated += validated(outs); r.notes[f"cases {k}"] += len(cases)
            count_samples(r, cases, outs)
            own_cases(r, C.judge(C.records(cases, outs), schemas, w), cfg["own"], schemas)
            if r.late(): break
        shutil.rmtree(w)
        rnd += 1
        if not r.thorough or r.viol or r.left() < 180: break
    for m in mcs: r.add_mc(m.result())
    r.notes["rounds"] = rnd; r.notes["languages"] = len(langs)


def both(r, schemas, w, n, seed, own=None, level=1):
    """Values of the specification written in every language, and what was written read back in every language."""
    codecs = [C.Codec(s) for s in schemas]
    os.makedirs(w)
    pool = cf.ThreadPoolExecutor(2)
    g = pool.submit(C.gen, "rt", n, schemas, w, seed, level)
    g2 = pool.submit(C.gen, "big.w", 14 * level, schemas, w, seed, level) if not own else None
    built = H.build(ALL, schemas, w)
    build_failures(r, built)
    cases, st = g.result(); r.states += st; r.transitions += st
    if g2: more, st = g2.result(); cases += more; r.notes["long strings and lists"] += len(more); r.states += st; r.transitions += st
    wr = C.run(built, cases, codecs)
    r.validated += validated(wr)
    own_cases(r, C.judge(C.records(cases, wr), schemas, w), own or {"crash", "writefailed"}, schemas)
    back, by = [], []
    if r.late(): return built, codecs
    for c, o in zip(cases, wr):
        outs = {}
        for l, x in o.items():
            if x["st"] == "ok": outs.setdefault(bytes(x["b"]), []).append(l)
        for b, ls in outs.items():
            d = {"k": "pb" if c["tag"] else "rb", "s": c["s"], "m": c["m"], "v": c["v"], "b": list(b), "vo": c["vo"], "off": c["off"], "tr": c["tr"], "style": 0, "max": 1 if len(back) % 2 else -1}
            back.append(d); by.append(ls)
    outs = C.run(built, back, codecs)
    r.validated += validated(outs); r.notes["written"] += len(cases); r.notes["encodings read back"] += len(back)
    r.notes["writer/reader pairs"] += sum(len(a) * len(o) for a, o in zip(by, outs))
    count_samples(r, back, outs, 2)
    own_cases(r, C.judge(C.records(back, outs), schemas, w), {"crash", "rejected", "type", "value", "values", "consumed", "count", "accepted"} if own else {"crash", "rejected", "type", "value", "consumed", "count"}, schemas)
    return built, codecs


def roundtrip(r):
    """C01: what one language writes, every language reads back; the specification supplies the values and compares them."""
    r.assumptions = list(TRUST)
    pool = cf.ThreadPoolExecutor(10)
    mc = pool.submit(r.mc, "MCCodec", "MCCodecDeep" if r.thorough else None)
    rnd = 0
    while True:
        schemas = schemas_for(r, {}, rnd)
        w = os.path.join(r.work, f"r{rnd}")
        both(r, schemas, w, 420 * (8 if r.thorough else 4), r.seed * 100 + rnd, level=2 if r.thorough else 1)
        shutil.rmtree(w)
        rnd += 1
        if not r.thorough or r.viol or r.left() < 180: break
    r.add_mc(mc.result())
    r.notes["rounds"] = rnd


def options(r):
    """C18: the code of every configuration, reached under the namespace in effect, behaves as the specification of the messages says, which knows no options."""
    r.assumptions = list(TRUST)
    confs = CC.enumerate_states("Options", r.work, {"VB_FROM": "0", "VB_N": "100000"})
    r.states += len(confs); r.transitions += len(confs)
    order = sorted(confs, key=lambda o: hashlib.sha1(f"{r.seed} {o['c']}".encode()).hexdigest())
    rnd = 0
    while order:
        base = CC.small()
        if rnd % 2:
            a, st = C.author(8, r.work, seed=r.seed * 1000 + 700 + rnd); r.states += st; r.transitions += st
            base += [s for s in a if s["messages"]]
        batch, left, used = [], [], set()
        for o in order:
            s = CC.configured(base[(o["c"] + 5 * len(batch) + r.seed) % len(base)], o, o["c"])
            # in one program, a namespace can be used only once, and not have the name of a type that is in no namespace
            mine = {s["ns"]} | ({d["name"] for k in ("structs", "messages", "enums") for d in s[k]} if not s["ns"] else set())
            if mine & used or len(batch) >= 30: left.append(o); continue
            used |= mine; batch.append(s)
        order = left
        w = os.path.join(r.work, f"r{rnd}")
        built, codecs = both(r, batch, w, 260 * (3 if r.thorough else 1), r.seed * 100 + rnd, own={"crash", "writefailed", "bytes", "end", "tagbyte", "size", "size2"})
        # packing, unpacking and the message types are reached under the namespace as well
        for k, n in (("k", 60), ("u", 60), ("t", 0)):
            if r.late(): break
            if k == "t": cases = [{"k": "t", "s": i + 1} for i in range(len(batch))]
            else: cases, st = C.gen(k, n, batch, w, r.seed * 100 + rnd); r.states += st; r.transitions += st
            outs = C.run(built, cases, codecs, langfor=fits)
            r.validated += validated(outs); r.notes[f"cases {k}"] += len(cases)
            own_cases(r, C.judge(C.records(cases, outs), batch, w), {"crash", "writefailed", "bytes", "end", "psize", "rejected", "count", "types", "values", "accepted", "constant", "reported", "type"}, batch)
        r.notes["configurations"] += len(batch)
        shutil.rmtree(w); rnd += 1
        if r.viol or (not r.thorough and rnd == 2) or (r.thorough and r.left() < 240): break
    r.notes["rounds"] = rnd


def allocfail(r):
    """C15: every allocation of every call fails once; then the call is repeated with memory available."""
    langs = ["c", "cpp", "zig"]
    kinds = {"pos": 120, "p": 110, "u": 110, "d": 60, "hf": 500}
    pool = cf.ThreadPoolExecutor(10)
    rnd = 0
    while True:
        schemas = schemas_for(r, {}, rnd)
        codecs = [C.Codec(s) for s in schemas]
        w = os.path.join(r.work, f"r{rnd}"); os.makedirs(w)
        scale = 5 if not r.thorough else 8
        gens = {k: pool.submit(C.gen, k, n * (scale if k not in ONCE else 1 + r.thorough), schemas, w, r.seed * 100 + rnd, 2 if r.thorough else 1) for k, n in kinds.items()}
        built = H.build(langs, schemas, w)
        build_failures(r, built)
        for k in kinds:
            cases, st = gens[k].result(); r.states += st; r.transitions += st
            cases = [c for c in cases if not (k == "pos" and c["style"] > 1)]
            plain = C.run(built, cases, codecs, langfor=lambda c, l: c["k"] != "h" or l in ("c", "cpp"))
            if k == "hf":
                r.validated += validated(plain); r.notes["histories with failing allocations"] += len(cases)
                own_cases(r, C.judge(C.records(cases, plain), schemas, w), {"crash", "notreported", "leak", "badfree", "rejected", "value"}, schemas)
                continue
            # the number of allocations of each call, by language
            todo, per = [], (24 if not r.thorough else 120)
            for c, o in zip(cases, plain):
                if k in ("p", "u") and any(x["st"] == "err" for x in o.values()) and sum(c["b"]) % 4: continue
                for l, x in o.items():
                    n = x.get("a", 0)
                    if n <= 0 or x["st"] not in ("ok", "err"): continue
                    idx = range(1, n + 1) if n <= per else sorted({1 + j * (n - 1) // (per - 1) for j in range(per)})
                    for j in idx: todo.append((dict({a: b for a, b in c.items() if a != "k"}, k="alloc", op=c["k"], n=j), l))
            # one record per (case, allocation), run in the languages that have that allocation
            merged = {}
            for c, l in todo: merged.setdefault(json.dumps(c, sort_keys=True), []).append(l)
            fcases = [json.loads(c) for c in merged]; who = {id(c): ls for c, ls in zip(fcases, merged.values())}
            outs = C.run(built, fcases, codecs, langfor=lambda c, l: l in who[id(c)])
            r.validated += validated(outs); r.notes[f"failing allocations {k}"] += len(todo); r.notes[f"cases {k}"] += len(cases)
            count_samples(r, fcases, outs)
            own_cases(r, C.judge(C.records(fcases, outs), schemas, w), {"crash", "notreported", "leak", "badfree", "retry"}, schemas)
            if r.late(): break
        shutil.rmtree(w); rnd += 1
        if not r.thorough or r.viol or r.left() < 180: break
    r.notes["rounds"] = rnd


CHECKS = {k: codec for k in CODEC}
CHECKS["C01"] = roundtrip
CHECKS["C15"] = allocfail
CHECKS["C10"] = CC.accept
CHECKS["C11"] = CC.graphs
CHECKS["C13"] = CC.cli
CHECKS["C12"] = CC.builds
CHECKS["C18"] = options


def replay(r, path):
    """Run one recorded case again on the current tree."""
    d = json.load(open(path)); c = d["case"]
    if c["k"] == "doc": return CC.replay_doc(r, d)
    if c["k"] == "cli": return CC.replay_cli(r, d)
    if c["k"] == "compile": return CC.replay_build(r, d)
    if c["k"] == "build":
        L = H.build([c["lang"]], d["schemas"] or [d["schema"]], r.work)[c["lang"]]
        print(json.dumps(L.errors, indent=1)); return 1 if L.errors else 0
    schemas = [d["schema"]]
    langs = [x for x in d["outcome"]["who"]]
    c = dict(c, s=1, zn=ZN(c, "c")[1])
    if c["k"] == "cut": c["cuts"] = d["outcome"]["at"]
    built = H.build(langs, schemas, r.work)
    build_failures(r, built)
    outs = C.run(built, [c], [C.Codec(d["schema"])], fail=ZN if r.id in ("C14", "C09", "C04") else None)
    print("outcome:", json.dumps(outs[0])[:3000])
    for rec, obs, cl in C.judge(C.records([c], outs), schemas, r.work):
        print(describe(rec, obs, cl, schemas))
        if set(cl) & set(d["clauses"]): r.violation(describe(rec, obs, cl, schemas), {"case": c, "outcome": obs, "clauses": cl, "schema": d["schema"]})
    return r.report()


def main(argv):
    id = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    rp = None
    if "--tier" in argv: tier = argv[argv.index("--tier") + 1]
    if "--replay" in argv: rp = argv[argv.index("--replay") + 1]
    r = Run(id, tier, int(os.environ.get("VERIF_SEED", "1")), rp)
    try:
        if rp: return replay(r, rp)
        CHECKS[id](r)
        return r.report()
    except Exception:
        traceback.print_exc()
        return r.report() if r.viol else 2    # what was found before counts
    finally: shutil.rmtree(r.work, ignore_errors=True)
