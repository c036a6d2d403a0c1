"""Checks of the command line: which protocols are accepted, circular references, sessions of invocations."""
import os, json, collections, concurrent.futures as cf, shutil
from . import docs as D, conform as C, schemas as X, sessions as SE, builds as BU, schema as S

TRUST = ["TLC evaluates the specification correctly", "the renderer that writes a specification document as TOML"]
MEANING = {"rejected": "rejected a protocol that satisfies the rules", "accepted": "accepted a protocol that breaks a rule", "hang": "did not come to an end", "silent": "failed without a message",
           "residue": "failed but wrote output", "nocode": "claims success without producing code"}


def report(r, bad, own):
    seen = collections.Counter()
    for rec, o, cl, rule in bad:
        mine = sorted(set(cl) & own)
        if not mine: continue
        key = (tuple(mine), rule if "accepted" in mine else "", rec["alt"].split("[")[0][:40])
        seen[key] += 1
        if seen[key] > 1 or len(seen) > 12: r.notes["further failures"] += 1; continue
        what = f"{', '.join(o['who'])}: {'; '.join(MEANING[c] for c in mine)} [{'+'.join(mine)}] rule {rule}, alteration {rec['alt'][:160]}" + (f" -- {o['msg'].strip()[-160:]}" if o.get("msg") else "")
        r.violation(what, {"case": {"k": "doc", "doc": rec["doc"], "alt": rec["alt"], "load": rec.get("load", False)}, "outcome": o, "clauses": mine})


def batch(r, docs, st, langs_of, own, label, limit=30):
    r.states += st; r.transitions += st
    recs = D.run(docs, r.work, langs_of, limit)
    r.validated += sum(len(o["who"]) for x in recs for o in x["obs"]); r.notes["documents " + label] += len(docs)
    bad, rules = D.judge(recs, r.work)
    for k, v in collections.Counter(rules).items(): r.notes[("accepted documents" if k == "none" else "rejected for " + k)] += v
    report(r, bad, own)
    for x in recs[3:6]:
        if len(json.dumps(x)) < 1500 and len(r.samples) < 4: r.samples.append({"document": x["doc"], "alteration": x["alt"], "outcomes": x["obs"]})


def accept(r):
    """C10: documents around the border of acceptance, judged by the predicate Accept of WellFormed."""
    r.assumptions = TRUST
    rnd = 0
    while True:
        protos, st = C.author(14, r.work, seed=r.seed * 1000 + 500 + rnd, big=rnd % 2 == 1)
        if rnd == 0: protos += [s for s in X.curated() if len(s["messages"]) < 30]
        docs, st2 = [], 0
        with cf.ThreadPoolExecutor(4) as ex:
            for d, x in ex.map(lambda k: D.gen("DocGen", 1300, r.work, r.seed * 1000 + 4 * rnd + k, protos), range(4)): docs += d; st2 += x
        # every language sees a quarter of the documents; every document is seen by two languages
        L = D.LANGS
        batch(r, docs, st + st2, lambda i: [L[i % 8], L[(i // 8 + i + 3) % 8]] if i % 8 != (i // 8 + i + 3) % 8 else [L[i % 8]], {"rejected", "accepted", "hang", "silent", "residue", "nocode"}, "altered")
        rnd += 1
        if not r.thorough or r.viol or r.left() < 150: break
    r.notes["rounds"] = rnd


def graphs(r):
    """C11: every labelled graph on three structs with every edge absent, direct or through a list; families of larger ones."""
    r.assumptions = TRUST
    own = {"rejected", "accepted", "hang", "silent", "residue", "nocode"}
    L = D.LANGS
    pool = cf.ThreadPoolExecutor(8)
    def gen(kind, size, lists, frm, n, seed): return D.gen("Graphs", n, r.work, seed, depth=1, env={"VB_KIND": kind, "VB_SIZE": str(size), "VB_LISTS": str(lists), "VB_FROM": str(frm)})
    def parts(total, size, lists, k=8):
        step = (total + k - 1) // k
        return [pool.submit(gen, "all", size, lists, a, min(step, total - a), 1000 * size + i) for i, a in enumerate(range(0, total, step))]
    jobs = [("all graphs on 1 struct", parts(3, 1, 1, 1)), ("all graphs on 2 structs", parts(81, 2, 1, 1)), ("all graphs on 3 structs", parts(19683, 3, 1))]
    if r.thorough: jobs.append(("all graphs on 4 structs without lists", parts(65536, 4, 0)))
    for label, fs in jobs:
        docs, st = [], 0
        for f in fs: d, s = f.result(); docs += d; st += s
        batch(r, docs, st, lambda i: [L[i % 8]], own, label)
    r.exhaustive = True
    rnd = 0
    while True:
        docs, st = gen("family", 0, 1, 0, 480 if not r.thorough else 2400, r.seed * 100 + rnd)
        batch(r, docs, st, lambda i: [L[i % 8], L[(i + 3) % 8]], own, "families", limit=20)
        rnd += 1
        if not r.thorough or r.viol or r.left() < 150: break
        d, st = gen("all", 4, 1, (r.seed * 7919 + rnd * 104729 * 11) % 43000000, 4000, rnd)
        batch(r, d, st, lambda i: [L[i % 8]], own, "graphs on 4 structs")


def replay_doc(r, d):
    c = d["case"]
    recs = D.run([c], r.work, lambda i: d["outcome"]["who"])
    bad, _ = D.judge(recs, r.work)
    print(D.text(c["doc"], 1)); print(json.dumps(recs[0]["obs"]))
    report(r, bad, set(d["clauses"]))
    return r.report()


SMEANING = {"hang": "did not come to an end", "accepted": "claims success for an invocation that asks for nothing sensible", "silent": "failed without a message on stderr", "stdout": "wrote to stdout although it should not", "touched": "left the output files other than they should be",
            "stray": "left other files behind", "failed": "failed although nothing is wrong", "nocode": "claims success without producing code", "lineend": "stdout does not end with the one extra line end", "differs": "produced another text for the same request"}


def cli(r):
    """C13: sessions of invocations replayed as steps of Cli; texts compared by identity across spellings, processes, hash seeds and orders."""
    r.assumptions = TRUST[:1] + ["texts are compared by SHA-1"]
    pool = cf.ThreadPoolExecutor(4)
    mc = pool.submit(r.mc, "MCCli", "MCCliDeep" if r.thorough else None)
    rnd = 0
    while True:
        w = os.path.join(r.work, f"r{rnd}"); os.makedirs(w)
        protos, st = C.author(5, w, seed=r.seed * 1000 + 800 + rnd)
        protos += [X.nons(), X.enums(), X.nest(), X.order(), X.cases(), X.sized("uint16", "byte", "sizedx")]
        paths = {}
        for i, s in enumerate(protos):
            t = SE.S.toml(s)
            if i % 3 == 1: t = "# un commentaire français: */ -- 漢字\n" + t
            if i % 3 == 2: t = t.replace("\n", "\r\n")
            paths[f"p{i + 1}"] = os.path.join(w, f"p{i + 1}.toml")
            with open(paths[f"p{i + 1}"], "w", encoding="utf-8", newline="") as f: f.write(t)
        for i, t in enumerate(SE.BAD):
            paths[f"b{i + 1}"] = os.path.join(w, f"b{i + 1}.toml")
            with open(paths[f"b{i + 1}"], "w") as f: f.write(t)
        n, ln = (280, 10) if not r.thorough else (260, 12)
        ses, st2 = D.gen("CliGen", n, w, r.seed * 100 + rnd, depth=ln + 2, env={"VB_LEN": str(ln), "VB_GOOD": str(len(protos)), "VB_BAD": str(len(SE.BAD))})
        r.states += st + st2; r.transitions += st + st2
        ses = SE.run(ses, paths, w, r.seed * 10 + rnd)
        bad, req = SE.judge(ses, w)
        r.validated += sum(len(x["steps"]) for x in ses); r.notes["sessions"] += len(ses); r.notes["distinct requests"] += req
        seen = collections.Counter()
        for b in bad:
            x = ses[b["line"] - 1]; s = x["steps"][b["step"] - 1]
            key = (tuple(sorted(b["clauses"])), s["inv"]["lang"] if "differs" in b["clauses"] else "")
            seen[key] += 1
            if seen[key] > 1: continue
            what = f"{s['inv']['lang']} ({x['mode']}): " + "; ".join(SMEANING[c] for c in b["clauses"]) + f" [{'+'.join(b['clauses'])}] request {json.dumps(s['inv'])} -- {s['obs']['msg'].strip()[-120:]}"
            r.violation(what, {"case": {"k": "cli", "mode": x["mode"], "steps": [{"pre": y["pre"], "inv": y["inv"]} for y in x["steps"][:b["step"]]]}, "all": [{"k": "cli", "mode": y["mode"], "steps": [{"pre": z["pre"], "inv": z["inv"]} for z in y["steps"]]} for y in ses[:b["line"]]] if "differs" in b["clauses"] else None,
                               "clauses": b["clauses"], "outcome": s["obs"], "files": {k: open(v, newline="", encoding="utf-8").read() for k, v in paths.items()}})
        if rnd == 0: r.samples.append(ses[0])
        shutil.rmtree(w); rnd += 1
        if not r.thorough or r.viol or r.left() < 150: break
    r.add_mc(mc.result()); r.notes["rounds"] = rnd


def replay_cli(r, d):
    paths = {}
    for k, t in d["files"].items():
        paths[k] = os.path.join(r.work, k + ".toml")
        with open(paths[k], "w", newline="", encoding="utf-8") as f: f.write(t)
    ses = SE.run(d.get("all") or [d["case"]], paths, r.work, 1)
    bad, _ = SE.judge(ses, r.work)
    print(json.dumps(ses[-1]["steps"][-1]))
    for b in bad:
        if set(b["clauses"]) & set(d["clauses"]): r.violation("; ".join(SMEANING[c] for c in b["clauses"]), dict(d)); break
    return r.report()


# ---------------------------------------------------------------- generated code builds
def enumerate_states(module, work, env):
    """All cases of a specification that steps through them one by one."""
    p = C.tlc(module, work, env)
    out = [json.loads(json.loads(l)[2:]) for l in p.stdout.splitlines() if l.startswith('"@@')]
    if p.returncode or "Error:" in p.stdout or not out: raise C.Machinery(f"{module}: rc {p.returncode}\n" + "\n".join(l for l in p.stdout.splitlines() if not l.startswith('"@@'))[-3000:])
    return out


# comments that stand before an embedded protocol
TEXTS = ["", "# */ end of comment? /* and begin\n# ''' \"\"\" ` ${x} <!-- --> #if 0 #endif\n", "# trailing backslash \\\n# trigraph ??/\n# caf\u00e9 \u6f22\u5b57 \U0001f600 \u2028 \u2029 \u0085 \ufeff end\n",
         "#\ttabs\there\t\n#no space\n\n\n   # indented // comment /// doc //! inner\n", "# <summary> & @param {x} \\u000a \\n %s {0} \\\\\n"]


def configured(s, o, i):
    """A schema under a configuration of Options: toml and opts are what the command line gets, ns is the namespace in effect."""
    names = {"own": f"Own{i}", "none": None, "other": f"Other{i}x", "message": (s["messages"] or [{"name": f"Msg{i}"}])[0]["name"], "struct": (s["structs"] or [{"name": f"Str{i}"}])[0]["name"]}
    args = (["--namespace", names[o["over"]]] if o["over"] != "none" else []) + (["--indent", o["indent"]] if o["indent"] else []) + (["--embed-protocol"] if o["embed"] else []) \
        + (["--go-no-rename", "--rust-no-rename", "--typescript-use-namespace"] if o["own"] else [])
    t = dict(s, id=f"{s['id']}/conf{o['c']}", ns=names[o["file"]])
    t["toml"] = TEXTS[(o["c"] + i) % len(TEXTS)] + S.toml(t)
    return dict(t, ns=names[o["eff"]], opts={l: args for l in D.LANGS})


def build_batch(r, schemas, langs=BU.LANGS, own={"build"}):
    w = os.path.join(r.work, "build"); os.makedirs(w)
    out = BU.build(schemas, w, langs)
    recs = []
    for i, s in enumerate(schemas):
        obs = [{"who": [l], "made": not out[l][i]["e"].startswith("generator: "), "built": "untried" if l not in BU.COMPILE else "yes" if out[l][i]["st"] == "ok" else "no", "msg": out[l][i]["e"]} for l in langs]
        recs.append({"id": s["id"], "doc": D.doc_of(s), "obs": obs, "i": i})
    bad, _ = D.judge(recs, w, module="BuildConf")
    r.validated += len(recs) * len(langs); r.notes["protocols"] += len(schemas)
    seen = collections.Counter()
    for rec, o, cl, _ in bad:
        if not set(cl) & own: continue
        seen[o["who"][0]] += 1
        if seen[o["who"][0]] > 3: r.notes["further failures"] += 1; continue
        r.violation(f"{o['who'][0]}: the generated code does not exist or does not build [build] protocol {rec['id']}: {o['msg'][:300]}", {"case": {"k": "compile", "lang": o["who"][0]}, "schema": schemas[rec["i"]], "error": o["msg"]})
    shutil.rmtree(w)


def small():
    return [X.stream(), X.nest(), X.nons(), X.enums(), X.order(), X.cases(), X.sized("uint16", "byte", "sizedx"), X.base(), X.lists(), X.sized("int64", "uint64", "sizedy"), X.lenlike()]


def builds(r):
    """C12: protocols of every shape, in every language, with the compiler of that language."""
    r.assumptions = ["the compilers reject what their language forbids", "for Swift and AssemblyScript there is no compiler here: their output is parsed, and declared names, labels and exhaustiveness looked at (Swift), by the translations that C20 and C21 run"]
    shapes = enumerate_states("Shapes", r.work, {"VB_FROM": "0", "VB_N": "5000", "VB_CHUNK": "100" if not r.thorough else "41"})
    confs = enumerate_states("Options", r.work, {"VB_FROM": "0", "VB_N": "100000"})
    r.states += len(shapes) + len(confs); r.transitions += len(shapes) + len(confs); r.exhaustive = True
    base = small()
    build_batch(r, shapes)
    rnd = 0
    while True:
        a, st = C.author(24 if not r.thorough else 80, r.work, seed=r.seed * 1000 + 300 + rnd, big=rnd % 2 == 1)
        r.states += st; r.transitions += st
        part = [configured(base[(o["c"] + r.seed + rnd) % len(base)], o, i) for i, o in enumerate(confs) if r.thorough or (o["c"] + r.seed) % 4 == 0]
        build_batch(r, (X.curated() + [X.derived(), X.locals_(), X.many(255, "most")] if rnd == 0 else []) + a + part)
        rnd += 1
        if not r.thorough or r.viol or r.left() < 240: break
    r.samples += [{"id": s["id"], "structs": s["structs"][:3], "messages": s["messages"][:1]} for s in shapes[2:5]]
    r.notes["rounds"] = rnd; r.notes["shapes"] = len(shapes)


def replay_build(r, d):
    build_batch(r, [d["schema"]], [d["case"]["lang"]])
    return r.report()
