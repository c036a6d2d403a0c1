#!/usr/bin/env python3
"""Development tool (no check uses it): mutation testing of the generators and of their boilerplate.
mutate.py base LANG            draw the cases of the quick checks and record the outcomes of the unchanged code
mutate.py run LANG FILE N SEED try N mutants of FILE (a path under beschi/) in language LANG; prints one line per mutant
A mutant whose outcomes all equal the recorded ones survives; outcomes that differ are judged by Conf.tla."""
import os, sys, json, random, re, subprocess, pickle, tempfile, shutil, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/lib")
BASE = "/tmp/mut"
IDS = {"scalars", "lists", "enumy", "edgy", "nesty", "forward", "strm", "bare", "casey", "lenny", "samey", "prefixy", "sized1", "sized2", "sized5", "sized6", "sized7", "sized10"}


def cases_of():
    from vb import schemas as X, conform as C, checks as K
    f = BASE + "/cases.pickle"
    if os.path.exists(f): return pickle.load(open(f, "rb"))
    w = tempfile.mkdtemp(dir=BASE)
    a, _ = C.author(8, w, seed=1000)
    schemas = [s for s in X.curated() if s["id"] in IDS] + a[:4]
    kinds = {}
    for p, c in K.CODEC.items():
        for k, n in c["kinds"].items(): kinds[k] = max(kinds.get(k, 0), n)
    kinds["hf"] = 300
    with cf.ThreadPoolExecutor(8) as ex: gens = {k: ex.submit(C.gen, k, max(3, n * 2 // 3), schemas, w, 100) for k, n in kinds.items()}
    cases = []
    for k, g in gens.items():
        for c in g.result()[0]:
            c["kind"] = k; cases.append(c)
            if k == "rt" and c["k"] == "w" : pass
    shutil.rmtree(w)
    pickle.dump((schemas, cases), open(f, "wb"))
    return schemas, cases


def outcomes(lang, schemas, cases, w, built=None):
    from vb import harness as H, conform as C, checks as K
    import functools
    H.run_lines = functools.partial(H.run_lines.func if hasattr(H.run_lines, "func") else H.run_lines, stall=8, max_crash=5)
    built = built or H.build([lang], schemas, w)
    if built[lang].errors: return None, built[lang].errors
    mem = lang in ("c", "cpp")
    outs = C.run(built, cases, [C.Codec(s) for s in schemas], langfor=lambda c, l: (c["k"] != "h" or mem) and K.fits(c, l))
    return outs, {}


def strip(o):
    if isinstance(o, dict): return {k: strip(v) for k, v in o.items() if k != "a"}
    if isinstance(o, list): return [strip(x) for x in o]
    return o


def one(lang, repo):
    """In a process of its own with VB_REPO=repo."""
    from vb import conform as C, checks as K
    schemas, cases = cases_of()
    w = tempfile.mkdtemp(dir=BASE)
    try:
        from vb import harness as H
        built = H.build([lang], schemas, w)
        ref = pickle.load(open(f"{BASE}/{lang}.pickle", "rb"))
        order = list(range(len(cases))); random.Random(5).shuffle(order)
        at, seen = {}, {}
        for i in order:
            k = cases[i]["kind"]; seen[k] = seen.get(k, 0) + 1
            at.setdefault(0 if seen[k] <= 70 else 1 if seen[k] <= 400 else 2, []).append(i)
        last = None
        for stage in range(3):
            idx = at.get(stage, [])
            outs, err = outcomes(lang, schemas, [cases[i] for i in idx], w, built)
            if outs is None: return "killed-build " + str(list(err.items())[0])[:120].replace("\n", " ")
            diff = [i for i, o in zip(idx, outs) if strip(o) != strip(ref[i])]
            if not diff: continue
            got = dict(zip(idx, outs)); d = diff[:200]
            fails = C.judge(C.records([cases[i] for i in d], [got[i] for i in d]), schemas, w, shards=1)
            props = set()
            for rec, obs, cl in fails:
                for p, c in K.CODEC.items():
                    if rec["kind"] in c["kinds"] and set(cl) & c["own"] and lang in c.get("langs", K.ALL): props.add(p)
                if rec["kind"] == "hf": props.add("C15")
            if props: return f"killed {' '.join(sorted(props))} (stage {stage}: {len(diff)} differ)"
            last = f"UNJUDGED {len(diff)} differ, {len(fails)} fail {sorted({c for f in fails for c in f[2]})} e.g. {str((cases[d[0]]['kind'], got[d[0]]))[:300]}"
        return last or "SURVIVED"
    except Exception as e: return "killed-machinery " + repr(e)[:200]
    finally: shutil.rmtree(w, ignore_errors=True)


OPS = [(r"(?<![<>=!-])<(?![<=A-Za-z/])", "<="), (r"<=", "<"), (r"(?<![<>=!-])>(?![>=])(?= ?[\w(])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r" \+ ", " - "), (r" - ", " + "), (r"\+=", "-="), (r"\+=", "="), (r"-=", "+="), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"),
       (r" and ", " or "), (r" or ", " and "), (r"(?<![\w.{])(\d+)(?![\w.}])", lambda m: str(int(m.group(1)) + 1)), (r"(?<![\w.{])([1-9]\d*)(?![\w.}])", lambda m: str(int(m.group(1)) - 1)),
       (r"\bif \(", "if (!("), (r"\bnot ", ""), (r"\bmin\(", "max("), (r"depth \+ 1", "depth"), (r"u?int16", "uint32"), (r"u32", "u16"), (r"u16", "i16")]


def mutants(text, py):
    """All (line number, new line or None)."""
    out = []
    ls = text.split("\n")
    for i, l in enumerate(ls):
        s = l.strip()
        if not s or s.startswith(("//", "#", "/*", "*", "import", "from", "class", "def ")) or "This file was" in s: continue
        for pat, rep in OPS:
            for m in re.finditer(pat, l):
                if rep == "if (!(":
                    n = l[:m.start()] + "if (!(" + l[m.end():]
                    j = n.rfind(") {")
                    if j < 0: continue
                    n = n[:j] + ")" + n[j:]
                else: n = l[:m.start()] + (rep(m) if callable(rep) else rep) + l[m.end():]
                if n != l: out.append((i, n))
        if py:
            if re.match(r"(self\.write_line|lines\.append|\[?self\.|accum |lines )", s) and s.count("(") == s.count(")"): out.append((i, re.match(r"\s*", l).group(0) + "pass"))
            m = re.match(r"(\s*)(el)?if (.*):$", l)
            if m: out.append((i, f"{m.group(1)}{m.group(2) or ''}if not ({m.group(3)}):"))
        elif re.match(r"(self\.\w+\(|self\.\w+ \+=|throw |size |dataWriter)", s) and not s.endswith((";", "{")): out.append((i, ""))
        elif s.endswith(";") and not s.startswith(("}", "const ", "let ", "var ", "pub const")): out.append((i, ""))
    seen = set(); u = []
    for x in out:
        if x not in seen: seen.add(x); u.append(x)
    return u


def main():
    if sys.argv[1] == "base":
        schemas, cases = cases_of()
        w = tempfile.mkdtemp(dir=BASE)
        outs, err = outcomes(sys.argv[2], schemas, cases, w)
        shutil.rmtree(w)
        if outs is None: raise SystemExit(err)
        pickle.dump(outs, open(f"{BASE}/{sys.argv[2]}.pickle", "wb"))
        print(sys.argv[2], len(cases), "cases")
    elif sys.argv[1] == "one": print(one(sys.argv[2], os.environ["VB_REPO"]))
    else:
        lang, file, n, seed = sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
        text = open("/repo/beschi/" + file).read()
        ms = mutants(text, file.endswith(".py"))
        random.Random(seed).shuffle(ms)
        print(f"{file}: {len(ms)} mutants", flush=True)
        def go(a):
            k, (i, new) = a
            d = f"{BASE}/{lang}-{file.replace('/', '_')}-{k}"
            subprocess.run(["rm", "-rf", d]); os.makedirs(d)
            shutil.copytree("/repo/beschi", d + "/beschi", ignore=shutil.ignore_patterns("__pycache__"))
            ls = text.split("\n"); old = ls[i]; ls[i] = new
            open(f"{d}/beschi/{file}", "w").write("\n".join(ls))
            try:
                p = subprocess.run([sys.executable, os.path.abspath(__file__), "one", lang], env=dict(os.environ, VB_REPO=d), capture_output=True, text=True, timeout=700)
                r = p.stdout.strip().split("\n")[-1] or "killed-nothing " + p.stderr[-200:]
            except subprocess.TimeoutExpired: r = "killed-timeout"
            subprocess.run(["rm", "-rf", d])
            return f"{r}\t{file}:{i + 1}\n      - {old.strip()}\n      + {new.strip()}"
        with cf.ThreadPoolExecutor(int(os.environ.get("PAR", "3"))) as ex:
            for r in ex.map(go, enumerate(ms[:n])): print(r, flush=True)


main()
