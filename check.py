#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current tree.  See DESIGN.md.

1. extract the functions the property depends on, with their contracts, from /repo/src
2. Verus discharges every obligation (vacuity canaries in a second run)
3. a counterexample search runs the real crate alongside
exit 0: held; exit 1 + VIOLATION line: broken."""
import concurrent.futures, fcntl, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
T0 = time.time()
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CONF = json.load(open(f"{V}/contracts/cones.json"))
CONE = CONF["cones"][PROP]
MODS = CONE["modules"]
B = f"{V}/build/{PROP}"
os.makedirs(B, exist_ok=True)
os.makedirs(f"{V}/evidence", exist_ok=True)
HARD = 780 if TIER == "quick" else 3000     # seconds for everything
RLIMIT = 100 if TIER == "quick" else 250
SEARCH = 15 if TIER == "quick" else 300
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("CARGO_TARGET_DIR", None)


def left():
    return HARD - (time.time() - T0)


def say(*a):
    print(*a, flush=True)


def cargo(d):
    with open(f"{V}/build/{d}.lock", "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        t = f"{V}/{d}/target"
        if d == "replay":
            # never trust time stamps for the code under test
            subprocess.run(["cargo", "clean", "--offline", "-p", "diffy", "--target-dir", t], cwd=f"{V}/{d}", env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--offline", "--target-dir", t], cwd=f"{V}/{d}", env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            tmp = f"{B}/{d}.new"
            shutil.copy2(f"{t}/debug/{d}", tmp)
            os.replace(tmp, f"{B}/{d}")
    return r.returncode == 0, r.stdout


def search(secs, threads, tag, trace=None):
    out = f"{B}/case_{tag}.txt"
    if os.path.exists(out):
        os.unlink(out)
    env = dict(ENV, REPLAY_TRACE=trace) if trace else ENV
    return subprocess.Popen([f"{B}/replay", "search", PROP, str(SEED), str(secs), out, str(threads)], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True), out


def search_result(p, out, secs, traced=False):
    try:
        o, _ = p.communicate(timeout=secs + 90)
    except subprocess.TimeoutExpired:
        p.kill()
        o, _ = p.communicate()
        # a search that does not come back is looping inside the crate: its own watchdog reports
        # that; without a case there is nothing to report
    r = {"samples": []}
    for l in o.splitlines():
        k, _, v = l.partition(": ")
        if k == "sample":
            r["samples"].append(v)
        elif k == "FOUND":
            r["found"] = v
        else:
            r[k] = v
    if p.returncode == 1 and os.path.exists(out):
        r["case"] = out
    elif p.returncode not in (0, 1) and not traced:
        # the crate ended the process (stack overflow, abort): find out on which input
        td = f"{B}/trace"
        shutil.rmtree(td, ignore_errors=True)
        os.makedirs(td)
        p2, out2 = search(secs, 8, "trace", td)
        r = search_result(p2, out2, secs, True)
        if "case" not in r and p2.returncode not in (0, 1):
            for f in sorted(os.listdir(td)):
                q = subprocess.run([f"{B}/replay", "replay", f"{td}/{f}"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if q.returncode != 0:
                    r["case"], r["found"] = f"{td}/{f}", "the process ends abnormally"
    return r


def extract(tag, opaque, canary=False):
    e = dict(ENV)
    if canary:
        e["CANARY"] = "1"
    r = subprocess.run([f"{B}/extract", f"{REPO}/src", f"{V}/contracts", f"{B}/{tag}.rs", f"{B}/{tag}.json", ",".join(MODS), ",".join(sorted(opaque))], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return None, r.stdout
    return json.load(open(f"{B}/{tag}.json")), ""


def verus(tag, threads, rlimit, budget, extra=()):
    cmd = ["verus", f"{tag}.rs", "--output-json", "--time", "--error-format=json", "--rlimit", str(rlimit), "--triggers-mode", "silent", "--no-report-long-running", "--num-threads", str(threads), "--multiple-errors", "3", "-V", "spinoff-all", *extra]
    try:
        r = subprocess.run(cmd, cwd=B, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=max(20, budget))
    except subprocess.TimeoutExpired:
        return None
    diags, j = [], {}
    for l in r.stderr.splitlines():
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    try:
        j = json.loads(r.stdout[r.stdout.index("{"):])
    except ValueError:
        pass
    for d in diags:
        d.setdefault("message", "")
    errs = [d for d in diags if d.get("level") == "error" and not d["message"].startswith("aborting due")]
    return {"errors": errs, "json": j, "cmd": " ".join(cmd)}


def retry(fs, budget):
    """functions of `fs` that another random seed of the solver proves.  A proof found under any seed is
    a proof; this only takes the solver's luck out of the verdict."""
    t = time.time() + budget
    done = set()
    for seed in (7, 23, 101):
        todo = [f for f in fs if f["key"] not in done]
        if not todo or t - time.time() < 20:
            break

        def one(f):
            name = f["key"].split("::")[-1].split("@")[-1]
            x = ["--verify-only-module", f["module"], "--verify-function", f"*{name}*", "--smt-option", f"smt.random_seed={seed}", "--smt-option", f"sat.random_seed={seed}"]
            r = verus("o", 2, 2 * RLIMIT, t - time.time(), x)
            v = (r or {}).get("json", {}).get("verification-results", {})
            return f["key"], v.get("verified", 0) > 0 and v.get("errors", 1) == 0 and not v.get("encountered-error", True) and not r["errors"]

        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            done |= {k for k, ok in ex.map(one, todo) if ok}
    return done


def fn_at(infos, line):
    for i in infos:
        if not i.get("missing") and i["start"] <= line <= i["end"]:
            return i
    return None


def lemma_at(line):
    """the lemma of the contracts around a line, for `retry`"""
    ls = open(f"{B}/o.rs").read().splitlines()[:line]
    name = next((m.group(1) for m in (re.search(r"\bfn (\w+)", l) for l in reversed(ls)) if m), None)
    mod = next((m.group(1) for m in (re.match(r"pub mod (\w+) \{", l) for l in reversed(ls)) if m), None)
    return {"key": name, "module": mod, "lemma": True} if name and mod else None


def locate(infos, d):
    """(function the failing obligation belongs to, failing clause line)"""
    prim = [s for s in d["spans"] if s["is_primary"]]
    at = [s for s in d["spans"] if (s.get("label") or "").startswith("at ")]
    for s in at + prim + d["spans"]:
        f = fn_at(infos, s["line_start"])
        if f:
            return f, (prim or d["spans"])[0]
    return None, (prim or d["spans"] or [None])[0]


def main():
    ok, log = cargo("replay")
    if not ok:
        # the crate itself does not build: nothing can be said about its behaviour
        say("the crate under test does not build:")
        say(log[-3000:])
        sys.exit(2)
    ok, log = cargo("extract")
    if not ok:
        say(log[-3000:])
        sys.exit(2)
    bg, bgout = search(SEARCH, 2, "quick")
    undecided = {}          # key -> reason
    failures = []
    slow = {}
    opaque = set()
    res = None
    infos = []
    rounds = 0
    while True:
        rounds += 1
        if left() < 200 or rounds > 12:
            undecided.setdefault("*", "out of time")
            res = None
            break
        infos, err = extract("o", opaque)
        if infos is None:
            undecided["*"] = "extraction: " + err.strip()[-500:]
            break
        res = verus("o", 6, RLIMIT, left() - 180)
        if res is None:
            undecided["*"] = "verifier ran out of time"
            break
        vr = res["json"].get("verification-results", {})
        # errors of rustc itself (they carry a code such as E0425) mean the text is outside the dialect
        compiled = vr.get("verified", 0) + vr.get("errors", 0) > 0 and not vr.get("encountered-vir-error") and not any(d.get("code") for d in res["errors"])
        again = False
        failures = []
        slow = {}
        for d in res["errors"]:
            f, span = locate(infos, d)
            if not compiled:
                if f and f["key"] not in opaque:
                    opaque.add(f["key"])
                    undecided[f["key"]] = "outside the verified dialect: " + d["message"][:200]
                    again = True
                continue
            msg = d["message"]
            if "rlimit" in msg or "Resource limit" in msg or "timed out" in msg:
                k = f["key"] if f else "*"
                undecided[k] = "resource limit: " + msg[:200]
                x = f or (span and lemma_at(span["line_start"]))
                if x:
                    slow[x["key"]] = x
                if x and not f:
                    del undecided[k]
                    undecided["lemma " + x["key"]] = "resource limit: " + msg[:200]
                continue
            if f is None:
                x = span and lemma_at(span["line_start"])
                if x:
                    slow[x["key"]] = x
                undecided["lemma " + x["key"] if x else "*"] = "lemma: " + d["rendered"][:400]
                continue
            if f.get("lost") or f.get("loops_without_spec"):
                undecided[f["key"]] = "annotations no longer attach: " + ", ".join(f["lost"] + ["loop " + x for x in f["loops_without_spec"]])
                continue
            failures.append((f, span, d))
        if not compiled and not again:
            undecided["*"] = "does not compile under the verifier: " + "; ".join(d["message"][:200] for d in res["errors"][:3])
            res = None
            break
        if not again:
            break
    sr = search_result(bg, bgout, SEARCH)
    redone = set()
    if res is not None and "case" not in sr and (slow or failures):
        fs = dict(slow)
        for f, span, d in failures:
            fs.setdefault(f["key"], f)
        if len(fs) <= 8 and left() > 300:
            redone = retry(list(fs.values()), min(240, left() - 260))
        for k in redone:
            undecided.pop(k, None)
            undecided.pop("lemma " + k, None)
        failures = [x for x in failures if x[0]["key"] not in redone]
    missing = [i["key"] for i in infos or [] if i.get("missing")]
    for i in infos or []:
        if any(x.startswith("generic ") for x in i.get("lost", [])):
            undecided[i["key"]] = "no longer " + ", ".join(i["lost"])
    for k in missing:
        undecided.setdefault(k, "function under contract no longer exists")
    # a failure in a function one of whose callees is undecided still counts: the callee's contract is assumed
    failures = [x for x in failures if x[0]["key"] not in undecided]
    tags = re.compile(r"\[(C\d\d(?:,C\d\d)*)\]")
    lines = open(f"{B}/o.rs").read().splitlines() if os.path.exists(f"{B}/o.rs") else []
    mine = []
    for f, span, d in failures:
        t = tags.search(lines[span["line_start"] - 1]) if span else None
        for s in d["spans"]:
            t = t or tags.search(lines[s["line_start"] - 1])
        if t and PROP not in t.group(1).split(","):
            continue
        mine.append((f, span, d))
    # vacuity: with `assert(false)` at the start of every function under contract, each one must fail
    canary = None
    if res is not None and not failures and not undecided and left() > 150:
        ci, err = extract("canary", opaque, canary=True)
        cr = verus("canary", 6, RLIMIT, left() - 100)
        if cr is not None:
            hit = set()
            for d in cr["errors"]:
                f, _ = locate(ci, d)
                if f and "assertion failed" in d["message"]:
                    hit.add((f["module"], f["key"]))
            want = [(i["module"], i["key"]) for i in ci if i.get("canary")]
            vac = [k for k in want if k not in hit]
            canary = {"functions": len(want), "reachable": len(want) - len(vac), "vacuous": [k[1] for k in vac]}
            if vac:
                undecided["*"] = "vacuous contract: " + ", ".join(k[1] for k in vac)
    tot = sr
    if "case" not in sr and (mine or undecided):
        s2 = min(150 if TIER == "quick" else 900, max(20, left() - 60))
        p, out = search(int(s2), 8, "deep")
        tot = search_result(p, out, s2)
        for k in ("evaluations", "nontrivial"):
            if k in sr and k in tot:
                tot[k] = str(int(tot[k]) + int(sr[k]))
    violated = "case" in tot or bool(mine)
    rep = None
    if violated:
        os.makedirs(f"{V}/build/replays", exist_ok=True)
        rep = f"{V}/build/replays/{PROP}-{int(time.time())}-{os.getpid()}.txt"
        with open(rep, "w") as o:
            if "case" in tot:
                o.write(open(tot["case"]).read())
                o.write(f"replay: {V}/replay/target/debug/replay replay {rep}\n")
            else:
                o.write(f"property: {PROP}\nno failing input found; the verifier rejects these obligations:\n")
            for f, span, d in mine:
                o.write(f"\nobligation: {f['key']} ({f['src']}): {d['message']}\n{d['rendered']}\n")
            if not mine and undecided:
                o.write("\nnot decided by the verifier: " + json.dumps(undecided, indent=1) + "\n")
    evidence(res, infos or [], undecided, failures, mine, canary, tot, violated, redone)
    for k, v in sorted(undecided.items()):
        say(f"undecided (bounded search stands in): {k}: {v[:300]}")
    if violated:
        for f, span, d in mine[:5]:
            say(f"failed obligation: {f['key']} ({f['src']}): {d['message']}")
        if "case" in tot:
            say("failing input:", tot.get("found", "")[:600])
            say(f"VIOLATION property={PROP} replay={rep}")
        else:
            say(f"VIOLATION property={PROP} replay={rep} no-failing-input-found")
        sys.exit(1)
    known(PROP)
    n = (res or {}).get("json", {}).get("verification-results", {})
    say(f"{PROP} held: {n.get('verified', 0)} obligations discharged, {len(undecided)} functions undecided, {tot.get('evaluations', '0')} executions searched, {time.time() - T0:.0f}s")


def known(prop):
    for l in open(f"{V}/known-findings.txt"):
        if l.startswith(f"known: property={prop} "):
            say("KNOWN-FINDING: " + l[len("known: "):].strip())


def conform():
    """bounded check of the contracts assumed about std (conform/), on the toolchain that is here"""
    try:
        cargo("conform")
        r = subprocess.run([f"{B}/conform"], stdout=subprocess.PIPE, text=True, timeout=120)
        return [l + " cases agree" if not l.startswith("MISMATCH") else l for l in r.stdout.splitlines()]
    except Exception as e:
        return [f"not run: {e}"]


def evidence(res, infos, undecided, failures, mine, canary, sr, violated, redone):
    vr = (res or {}).get("json", {}).get("verification-results", {})
    under = [i for i in infos if not i.get("missing") and i["has_body"] and not i["opaque"]]
    assumed = [i for i in infos if not i.get("missing") and i["opaque"]]
    src = open(f"{B}/o.rs").read() if os.path.exists(f"{B}/o.rs") else ""
    ext = []
    ls = src.splitlines()
    for n, l in enumerate(ls):
        if l.strip().startswith("//"):
            continue
        if "external_body" in l or re.search(r"\b(assume|admit)\s*\(", l) or "axiom fn" in l or "uninterp spec fn" in l:
            t = l.strip()
            if "external_body" in l:
                for m in ls[n + 1:n + 6]:
                    x = re.search(r"(?:fn|struct|enum) +(\w+)", m)
                    if x:
                        t = "assumed contract: " + m.strip()[:140]
                        break
            ext.append(t[:160])
    smt = (res or {}).get("json", {}).get("times-ms", {}).get("smt", {})
    slow = []
    for m in smt.get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            slow.append((f["time-micros"], f["function"]))
    slow.sort(reverse=True)
    ev = {
        "property": PROP, "tier": TIER, "seed": SEED,
        "level": CONE["level"],
        "coverage": {
            "obligations": vr.get("verified", 0) + vr.get("errors", 0),
            "discharged": min(vr.get("verified", 0) + len(redone), vr.get("verified", 0) + vr.get("errors", 0)),
            "back_end": "Verus 0.2026.09.13 (Z3)",
            "checker_cmd": (res or {}).get("cmd", "verus (not reached)"),
            "solver_ms": smt.get("smt-run", 0),
            "slowest": [f"{f} {t // 1000} ms" for t, f in slow[:5]],
            "functions_under_contract": [f"{i['module']}::{i['key']} ({i['src']})" for i in under],
            "inlined_helpers": sorted({f"{h} in {i['key']}" for i in under for h in i.get("inlined", [])}),
            "property_bearing_contracts": CONE.get("theorems", []),
            "trusted_base": CONF["trusted"] + sorted(set(ext)) + [f"assumed contract of {i['module']}::{i['key']} ({i['src']})" for i in assumed],
            "assumed_std_contracts_bounded_check": conform(),
            "vacuity": canary or {},
            "discharged_under_another_seed": sorted(redone),
            "undecided": [f"{k}: {v[:300]}" for k, v in undecided.items()],
            "failed_obligations": [f"{f['key']} ({f['src']}): {d['message']}" for f, s, d in mine],
            "evaluations": int(sr.get("evaluations", 0) or 0),
            "distinct_nontrivial": int(sr.get("nontrivial", 0) or 0),
            "rule": sr.get("rule", ""),
            "samples": sr.get("samples", [])[:5],
            "explanation": CONE.get("note", "") + (" Functions listed under 'undecided' were not proved in this run; the bounded search is their stand-in." if undecided else ""),
        },
        "assumptions": CONF["assumptions"],
        "wall_s": round(time.time() - T0, 1),
        "violations": 1 if violated else 0,
    }
    json.dump(ev, open(f"{V}/evidence/{PROP}.json", "w"), indent=1)


main()
