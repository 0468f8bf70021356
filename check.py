#!/usr/bin/env python3
"""Decides one property: extraction of /repo/src, deductive verification with Verus, and a
bounded concrete exploration of the real crate. See DESIGN.md.

  check.py PROP            the check (VERIF_TIER, VERIF_SEED)
  check.py --replay FILE   run a stored failing case again
  check.py --verify        verify everything once and print the state of every property
"""
import traceback, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(HERE, ".build"))
RUNTIMES = ["runtime-tokio", "runtime-async-std"]
MAX_ROUNDS = 16
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
ENV.pop("RUSTFLAGS", None)
PROPS = ["C%02d" % k for k in range(1, 20)] + ["C21"]
PRIVATE_MODULES = ("stream", "codec", "util")
MODULES = ["authentication", "codec", "commands", "error", "extension", "response", "smtp_client", "stream", "types", "util"]


def sh(cmd, timeout, env=None, cwd=None):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env or ENV, cwd=cwd)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"), time.time() - t0
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace"), (e.stderr or b"").decode(errors="replace"), time.time() - t0


# ------------------------------------------------------------------ building

def build_extractor():
    t = os.path.join(BUILD, "xt")
    rc, o, e, s = sh(["cargo", "build", "--offline", "--quiet", "--target-dir", t], 600, cwd=os.path.join(HERE, "extract"))
    return (os.path.join(t, "debug", "extract") if rc == 0 else None), e, s


def build_replay(rt):
    t = os.path.join(BUILD, "rt-" + rt)
    # one of the two as a release build does its arithmetic: without overflow checks and debug assertions
    env = dict(ENV)
    if rt != RUNTIMES[0]: env.update(CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false", CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false")
    rc, o, e, s = sh(["cargo", "build", "--offline", "--quiet", "--no-default-features", "--features", rt.replace("runtime", "rt"), "--target-dir", t], 600, cwd=os.path.join(HERE, "replay"), env=env)
    return (os.path.join(t, "debug", "replay") if rc == 0 else None), e, s


# ------------------------------------------------------------------ literals of the source

LIT = re.compile(r"""//[^\n]*|/\*.*?\*/|b?r(#*)"(.*?)"\1|b?"((?:\\.|[^"\\])*)"|b?'(\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^'\\\n])'|(?<![\w.])(0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|size))?\b""", re.S)
ESC = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", '"': '"', "'": "'"}


def unescape(s):
    s = re.sub(r"\\\n\s*", "", s)
    return re.sub(r"\\(x([0-9a-fA-F]{2})|u\{([0-9a-fA-F_]+)\}|.)", lambda m: chr(int(m.group(2) or m.group(3).replace("_", ""), 16) % 0x110000) if m.group(2) or m.group(3) else ESC.get(m.group(1), m.group(1)), s)


def literals(src):
    """the integers and texts that occur in the code (not in its tests)"""
    ints, words = set(), set()
    for f in sorted(os.listdir(src)):
        if not f.endswith(".rs"): continue
        t = open(os.path.join(src, f), errors="replace").read()
        k = re.search(r"#\[cfg\(test\)\]\s*mod ", t)
        if k: t = t[:k.start()]
        for m in LIT.finditer(t):
            if m.group(2) is not None: words.add(m.group(2))
            elif m.group(3) is not None: words.add(unescape(m.group(3)))
            elif m.group(4) is not None: words.add(unescape(m.group(4)))
            elif m.group(5): ints.add(int(m.group(5).replace("_", ""), 0 if m.group(5).startswith("0x") else 10))
    return ints, {w for w in words if w and len(w) <= 60}


def fresh_literals():
    base = json.load(open(os.path.join(HERE, "spec", "literals.json")))
    try:
        ints, words = literals(os.path.join(REPO, "src"))
    except OSError:
        return {"ints": [], "words": []}
    return {"ints": sorted(ints - set(base["ints"]))[:40], "words": sorted((w.encode("utf-8", "replace").decode() for w in words - set(base["words"])), key=lambda w: (" " in w, len(w)))[:16]}


# ------------------------------------------------------------------ verification

def fn_ranges(text):
    """line (1-based) -> id of the extracted function, and other marked regions"""
    m, cur, kind = {}, None, None
    other = {}
    for n, l in enumerate(text, 1):
        s = l.strip()
        if s.startswith("//#fn "):
            cur = s[6:].strip()
        elif s.startswith("//#endfn"):
            cur = None
        elif cur:
            m[n] = cur
        if s.startswith("//#use "):
            other[n + 1] = ("use", s[7:].strip())
        elif s.startswith("//#impl "):
            kind = ("impl", s[8:].strip())
            other[n] = kind
    return m, other


TAG = re.compile(r"\[((?:C\d\d|panic|unsupported)(?:\s*,\s*(?:C\d\d|panic|unsupported))*)\]")
HARD = re.compile(r"rlimit|Resource limit|could not prove termination|timed out|internal error|not supported|panicked", re.I)


def classify(diag, dirname, texts):
    spans = diag.get("spans", [])
    for c in diag.get("children", []):
        spans = spans + c.get("spans", [])
    fns, tags, lines, others, line = [], set(), [], [], None
    for sp in sorted(spans, key=lambda s: not s.get("is_primary")):
        f = os.path.basename(sp["file_name"])
        t = texts.get(f)
        if t is None:
            continue
        if f == "out.rs":
            for n in (sp["line_start"], sp["line_end"]):
                if n in t["fn"] and t["fn"][n] not in fns:
                    fns.append(t["fn"][n])
                if n in t["other"]:
                    others.append(t["other"][n])
        lab = sp.get("label") or ""
        src = t["text"][sp["line_start"] - 1:sp["line_end"]]
        if len(src) <= 12 and ("fail" in lab or not sp.get("is_primary") or "assert" in diag["message"]):
            # a clause of several lines carries its tag on its last line
            for l in (src if "fail" in lab else src[-1:]):
                for g in TAG.findall(l):
                    tags |= {x.strip() for x in g.split(",")}
        if f == "out.rs" and sp.get("is_primary") and line is None and src: line = src[0].strip()
        lines.append("%s:%d: %s%s" % (f, sp["line_start"], (src[0].strip() if src else "")[:160], "   <- " + lab if lab else ""))
    msg = diag["message"]
    kind = "other"
    if "postcondition" in msg: kind = "postcondition"
    elif "precondition" in msg: kind = "precondition"
    elif "invariant" in msg: kind = "invariant"
    elif "assertion" in msg or "assert" in msg: kind = "assertion"
    elif "overflow" in msg or "underflow" in msg or "division by zero" in msg or "bounds" in msg:
        kind = "arithmetic"
        tags.add("panic")
    if "decreases not satisfied" in msg:
        kind = "termination"
        tags.add("C21")
    if HARD.search(msg): kind = "limit"
    if kind == "precondition" and any("index" in l or "vstd" in l for l in lines): tags.add("panic")
    # the function that has the obligation
    return {"kind": kind, "message": msg, "fn": fns[0] if fns else None, "line": line, "fns": fns, "tags": sorted(tags), "where": lines[:6], "others": others,
            "rendered": (diag.get("rendered") or "")[:3000], "code": (diag.get("code") or {}).get("code") if diag.get("code") else None}


def verify(extractor, rt, tier, extra_args=(), seed=None):
    """Extract and verify the whole crate for one runtime."""
    try:
        return verify_(extractor, rt, tier, extra_args, seed)
    except Exception:
        return {"runtime": rt, "ok": False, "rounds": 0, "failures": [], "external": [], "log": ["the verification broke off: " + traceback.format_exc()[-600:]]}


def verify_(extractor, rt, tier, extra_args, seed):
    d = os.path.join(BUILD, "out-" + rt + ("-" + hashlib.md5(repr((extra_args, seed)).encode()).hexdigest()[:6] if extra_args or seed else ""))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    out, rep = os.path.join(d, "out.rs"), os.path.join(d, "report.json")
    external, dropuse, drops, log = [], [], [], []
    res = {"runtime": rt, "ok": False, "rounds": 0, "failures": [], "external": external, "log": log}
    t0 = time.time()
    for rnd in range(MAX_ROUNDS):
        res["rounds"] = rnd + 1
        cmd = [extractor, "--src", os.path.join(REPO, "src"), "--features", rt, "--contracts", os.path.join(HERE, "spec", "contracts"), "--spec", os.path.join(HERE, "spec"), "--out", out, "--report", rep]
        for x in external: cmd += ["--external", x]
        for x in dropuse: cmd += ["--dropuse", x]
        for x in drops: cmd += ["--drop", x]
        cmd += list(extra_args)
        rc, o, e, s = sh(cmd, 60)
        if rc != 0:
            log.append("extraction failed: " + e[-800:])
            return res
        res["report"] = json.load(open(rep))
        texts = {}
        for f, p in (("out.rs", out), ("spec.rs", os.path.join(HERE, "spec", "spec.rs")), ("shim.rs", os.path.join(HERE, "spec", "shim.rs"))):
            t = open(p).read().split("\n")
            texts[f] = {"text": t, "fn": {}, "other": {}}
            if f == "out.rs":
                texts[f]["fn"], texts[f]["other"] = fn_ranges(t)
        vc = ["verus", "out.rs", "--edition=2021", "--output-json", "--time-expanded", "--multiple-errors", "6", "--rlimit", "30" if seed is None else "60"] + ([] if seed is None else ["--smt-option", "smt.random_seed=%d" % seed]) + ["--", "--error-format=json"]
        res["cmd"] = " ".join(vc)
        rc, o, e, s = sh(vc, 420, cwd=d)
        res["verus_s"] = s
        if rc == 124:
            log.append("the verifier did not end in time")
            return res
        diags = []
        for l in e.split("\n"):
            if l.startswith("{"):
                try:
                    x = json.loads(l)
                except ValueError:
                    continue
                if x.get("level") == "error" and not x["message"].startswith("aborting due to"):
                    diags.append(x)
        try:
            j = json.loads(o[o.index("{"):])
        except ValueError:
            j = {}
        vr = j.get("verification-results", {})
        fails = [classify(x, d, texts) for x in diags]
        res["json"] = {"results": vr, "times": j.get("times-ms", {})}
        hard = not vr or vr.get("encountered-vir-error") or (vr.get("verified", 0) == 0 and not vr.get("success"))
        if not hard:
            res["ok"] = True
            res["failures"] = [f for f in fails]
            res["verified"] = vr.get("verified", 0)
            res["errors"] = vr.get("errors", 0)
            break
        # take out what the verifier does not accept
        new = []
        for f in fails:
            # a line of the contract, perhaps
            line = "%s@@%s" % (f["fn"], f["line"])
            if f["fn"] and f["line"] and f["fn"] not in external and line not in drops and len(drops) < 30:
                drops.append(line); new.append("use ")
                continue
            if f["fn"] and f["fn"] not in external and f["fn"] not in new: new.append(f["fn"])
            for k, v in f["others"]:
                if k == "use" and v not in dropuse: dropuse.append(v); new.append("use " + v)
        for f in fails: log.append("round %d: %s | %s | %s" % (rnd, f["message"][:200], f["fn"], "; ".join(f["where"][:2])))
        if not new:
            log.append("the verifier rejects the extracted file: " + (fails[0]["rendered"] if fails else e[-1500:]))
            return res
        external += [x for x in new if not x.startswith("use ")]
    res["s"] = time.time() - t0
    return res


def short(fid):
    return fid.split("::")[-1]


def cones(report, contracts):
    """property -> set of function ids its obligations depend on"""
    fns = {f["id"]: f for f in report["functions"]}
    byname = {}
    for i in fns: byname.setdefault(short(i), []).append(i)
    out = {}
    for p in PROPS:
        roots = [i for i in fns if p in contracts.get(i, {}).get("tags", [])]
        if p in ("C14", "C21"): roots = list(fns)
        seen, todo = set(), list(roots)
        while todo:
            i = todo.pop()
            if i in seen: continue
            seen.add(i)
            for c in fns[i]["calls"]:
                q, n = c.rsplit("::", 1) if "::" in c else (None, c)
                for j in byname.get(n, []):
                    parts = j.split("::")
                    if q == "" and len(parts) != 2: continue
                    if q and (len(parts) < 3 or (parts[1] != q and parts[-2] != q)): continue
                    todo.append(j)
        out[p] = (sorted(roots), sorted(seen))
    return out


def contract_tags():
    """id -> tags and number of clauses, from the sidecar files"""
    out, cur = {}, None
    d = os.path.join(HERE, "spec", "contracts")
    for f in sorted(os.listdir(d)):
        for l in open(os.path.join(d, f)):
            s = l.strip()
            if s.startswith("@fn "):
                cur = s.split()[1]
                out.setdefault(cur, {"tags": set(), "clauses": 0, "file": f, "mode": s.split()[2:]})
            elif s.startswith("@end") or s.startswith("@impl") or s.startswith("@mod"):
                cur = None
            elif cur:
                for g in TAG.findall(l):
                    out[cur]["tags"] |= {x.strip() for x in g.split(",")}
    # texts of commands: the tag of the impl block belongs to its fmt function
    for f in sorted(os.listdir(d)):
        key = None
        for l in open(os.path.join(d, f)):
            s = l.strip()
            if s.startswith("@impl Display for "):
                key = s[len("@impl Display for "):].split()[0]
            elif s.startswith("@"):
                key = None
            if key:
                for g in TAG.findall(l):
                    mod = f[:-3]
                    out.setdefault("%s::%s::Display::fmt" % (mod, key), {"tags": set(), "clauses": 0, "file": f, "mode": []})["tags"] |= {x.strip() for x in g.split(",")}
    return out


def lemma_tags():
    out = {}
    p = os.path.join(HERE, "spec", "spec.rs")
    cur = None
    for l in open(p):
        m = re.search(r"proof fn (\w+)", l)
        if m: cur = m.group(1)
        for g in TAG.findall(l):
            for x in g.split(","): out.setdefault(x.strip(), set()).add(cur)
    return out


# functions of the crate as found that need no contract: nothing relies on what they return
BARE = {"extension::ClientId::hostname", "stream::escape_crlf"}


def uncontracted(f, fns):
    """The functions of the crate that f calls, of which nothing is specified: what fails in f may be due to that alone."""
    out = []
    for c in f.get("calls", []):
        for i, g in fns.items():
            if g["mode"] == "none" and i not in BARE and i not in f.get("inlined", []) and (i == c or i.endswith("::" + c)):
                if i.split("::")[-2][:1].isupper() and i.split("::")[-3:-2] and i.split("::")[-3][:1].isupper():
                    continue  # of a trait: specified by the trait
                out.append(i)
    return out


def judge(p, vers, contracts):
    """What the verifier says about property p: proved, violated or undecided, with reasons."""
    proved, violated, undecided = True, [], []
    info = {"functions": [], "roots": [], "cone": [], "failed": []}
    for v in vers:
        if not v["ok"]:
            proved = False
            undecided.append("%s: %s" % (v["runtime"], "; ".join(v["log"][-2:])[:600] or "not verified"))
            continue
        rep = v["report"]
        roots, cone = cones(rep, contracts)[p]
        fns = {f["id"]: f for f in rep["functions"]}
        want = [i for i in contracts if p in contracts[i]["tags"]]
        missing = [i for i in want if i not in fns]
        info["roots"], info["cone"] = roots, cone
        if not roots and p not in lemma_tags():
            proved = False
            undecided.append("no obligation of this property")
        # a private function may go: its body then counts where it was called
        missing = [i for i in missing if not (i.split("::")[0] in PRIVATE_MODULES and roots)]
        if missing:
            proved = False
            undecided.append("no function %s any more" % ", ".join(missing))
        for i in cone:
            f = fns[i]
            if f["mode"] == "skip": continue
            bad = f["problems"] + f["anchors_lost"] + f["hints_lost"]
            if f["external"]:
                proved = False
                undecided.append("%s could not be brought before the verifier" % i)
            elif p == "C21" and f.get("endless"):
                proved = False
                undecided.append("no measure shows that %s ends: %s" % (i, ", ".join(f["endless"])))
            elif f["problems"] or f["anchors_lost"]:
                # a lost anchor alone is no failure: the proof may still go through
                pass
        for x in v["failures"]:
            fn = x["fn"]
            if fn is None:
                if any("spec.rs" in w or "shim.rs" in w for w in x["where"]) or x["kind"] == "other":
                    proved = False
                    undecided.append("%s: %s" % (x["message"], "; ".join(x["where"][:2])))
                continue
            if x["kind"] == "termination" and p != "C21": continue  # what a call does when it returns is another matter
            inside = fn in cone
            tagged = p in x["tags"] or (p == "C14" and "panic" in x["tags"])
            if not inside and not tagged: continue
            proved = False
            f = fns.get(fn, {})
            bare = uncontracted(f, fns)
            intact = not (bare or f.get("problems") or f.get("anchors_lost") or f.get("hints_lost") or f.get("external"))
            text = "%s: %s in %s (%s)" % (v["runtime"], x["message"], fn, "; ".join(x["where"][:3]))
            info["failed"].append(text)
            if tagged and intact and x["kind"] != "limit" and not missing:
                violated.append((text, x))
            else:
                undecided.append(text + ("" if intact else " [the function has changed its shape: " + "; ".join(map(str, ["it relies on %s, which has no contract" % b for b in bare] + f.get("problems", []) + f.get("anchors_lost", []) + f.get("hints_lost", [])))[:300] + "]"))
    state = "violated" if violated else "proved" if proved else "undecided"
    return state, violated, undecided, info


# ------------------------------------------------------------------ known findings

def known_findings(p):
    out = []
    f = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == p: out.append(m.group(2))
    return out


TRUSTED_NOTE = "spec/shim.rs: assumed contracts on std, nom, base64, tokio/async-std, anyhow, hostname, log"


def trusted_list(report):
    out = [TRUSTED_NOTE]
    n = len(re.findall(r"external_body", open(os.path.join(HERE, "spec", "shim.rs")).read()))
    out.append("%d assumed items in spec/shim.rs" % n)
    for f in report["functions"]:
        if f["mode"] == "trusted": out.append("contract of %s assumed, body not verified" % f["id"])
        if f["external"]: out.append("%s not brought before the verifier in this run" % f["id"])
    out += ["the extraction (extract/): the accepted subset is translated construct by construct; what it drops is listed in DESIGN.md", "Verus 0.2026.09.13 and Z3"]
    out += report.get("notes", [])
    return out


def main():
    if sys.argv[1:2] == ["--literals"]:
        ints, words = literals(os.path.join(REPO, "src"))
        json.dump({"ints": sorted(ints), "words": sorted(words)}, open(os.path.join(HERE, "spec", "literals.json"), "w"), indent=0)
        return
    if sys.argv[1:2] == ["--replay"]:
        for rt in RUNTIMES:
            b, e, _ = build_replay(rt)
            if b is None: print(e); sys.exit(2)
            rc, o, e, _ = sh([b, "run", sys.argv[2]], 120)
            print(rt, o.strip())
            if rc: sys.exit(1)
        sys.exit(0)
    os.makedirs(BUILD, exist_ok=True)
    contracts = contract_tags()
    if sys.argv[1:2] == ["--verify"]:
        x, e, _ = build_extractor()
        if x is None: print(e); sys.exit(2)
        with concurrent.futures.ThreadPoolExecutor() as ex:
            vers = list(ex.map(lambda rt: verify(x, rt, "quick"), RUNTIMES if len(sys.argv) < 3 else sys.argv[2:]))
        for v in vers:
            print(v["runtime"], "ok" if v["ok"] else "NOT VERIFIED", "rounds", v["rounds"], "verified", v.get("verified"), "errors", v.get("errors"), "%.1fs" % v.get("verus_s", 0), "external", v["external"])
            for l in v["log"]: print("   ", l[:600])
            for f in v["failures"]: print("   FAIL", f["message"], f["fn"], f["tags"], " | ".join(f["where"][:3]))
        for p in PROPS:
            s, vi, un, info = judge(p, vers, contracts)
            print(p, s, "roots", len(info["roots"]), "cone", len(info["cone"]))
            for t, _ in vi[:3]: print("     violated:", t[:300])
            for t in un[:3]: print("     undecided:", t[:300])
        return
    p = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"): tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev_dir, "replays"), exist_ok=True)

    dict_file = os.path.join(BUILD, "dict-%s.json" % p)
    fresh = fresh_literals()
    json.dump(fresh, open(dict_file, "w"))

    def search(rt, ms=None, sd=None):
        b, e, s = build_replay(rt)
        if b is None: return {"runtime": rt, "error": e[-1500:]}
        f = os.path.join(BUILD, "search-%s-%s.json" % (p, rt))
        if os.path.exists(f): os.remove(f)
        rc, o, e, s2 = sh([b, "search", p, "--seed", str(sd if sd is not None else seed + (1000003 if rt != RUNTIMES[0] else 0)), "--tier", tier, "--out", f, "--dict", dict_file] + (["--budget-ms", str(ms)] if ms else []), 700)
        if rc != 0 or not os.path.exists(f): return {"runtime": rt, "error": "exploration ended with %d: %s" % (rc, e[-500:])}
        r = json.load(open(f)); r["build_s"] = s; r["bin"] = b
        return r

    def verification():
        x, e, s = build_extractor()
        if x is None: return [{"runtime": rt, "ok": False, "log": ["the extractor does not build: " + e[-500:]], "failures": [], "rounds": 0} for rt in RUNTIMES]
        with concurrent.futures.ThreadPoolExecutor() as ex:
            return list(ex.map(lambda rt: verify(x, rt, tier), RUNTIMES))

    with concurrent.futures.ThreadPoolExecutor() as ex:
        fs = [ex.submit(search, rt) for rt in RUNTIMES]
        fv = ex.submit(verification)
        searches = [f.result() for f in fs]
        vers = fv.result()
    state, violated, undecided, info = judge(p, vers, contracts)
    # the assumed contracts on std, nom and base64, tried on the real functions
    audit = {}
    for s in sorted(searches, key=lambda s: "tokio" not in s.get("runtime", "")):
        if audit or not s.get("bin"): continue
        f = os.path.join(BUILD, "audit-%s.json" % p)
        if os.path.exists(f): os.remove(f)
        sh([s["bin"], "audit", "--seed", str(seed), "--out", f], 120)
        audit = json.load(open(f)) if os.path.exists(f) else {"failed": ["the audit gave no answer"]}
        if audit["failed"] and state == "proved":
            state = "undecided"; undecided += ["an assumed contract does not hold: " + x for x in audit["failed"]]
    extra = {}
    if tier == "thorough":
        # no proof rests on a contradiction: false must not be provable at the exits of any function;
        # and the proofs do not depend on the seed of the solver
        x, _, _ = build_extractor()
        if x:
            with concurrent.futures.ThreadPoolExecutor() as ex:
                fp = ex.submit(verify, x, RUNTIMES[0], tier, ("--probe", "1"))
                fsd = [ex.submit(verify, x, RUNTIMES[k % 2], tier, (), sd) for k, sd in enumerate((101, 202, 303))]
                pr, sds = fp.result(), [f.result() for f in fsd]
            if pr["ok"]:
                hit = {f["fn"] for f in pr["failures"] if any("[probe]" in w for w in f["where"])}
                ask = [f["id"] for f in pr["report"]["functions"] if f["mode"] == "proved" and not f["external"] and f["id"] in info["cone"]]
                vac = [i for i in ask if i not in hit]
                extra["vacuity"] = {"asked": len(ask), "false_provable_in": vac}
                if vac and state == "proved":
                    state = "undecided"; undecided.append("false is provable in " + ", ".join(vac))
            extra["other_seeds"] = [{"runtime": v["runtime"], "seed": sd, "verified": v.get("verified"), "state_of_property": judge(p, [v], contracts)[0]} for v, sd in zip(sds, (101, 202, 303))]
    found = [dict(x, runtime=s.get("runtime", "")) for s in searches for x in s.get("violations", [])]
    retried = []
    if violated and not found:
        # a proof that fails only for some seeds of the solver decides nothing
        x, _, _ = build_extractor()
        with concurrent.futures.ThreadPoolExecutor() as ex:
            again = list(ex.map(lambda a: verify(x, a[0], tier, (), a[1]), [(RUNTIMES[0], 11), (RUNTIMES[1], 23)]))
        key = lambda f: (f["fn"], f["kind"], tuple(f["tags"]))
        for v in again:
            if not v["ok"]: continue
            retried.append({"runtime": v["runtime"], "failures": len(v["failures"])})
            have = {key(f) for f in v["failures"]}
            lost = [(t, f) for t, f in violated if t.startswith(v["runtime"]) and key(f) not in have]
            undecided += ["%s [not with another seed of the solver]" % t for t, f in lost]
            violated = [(t, f) for t, f in violated if (t, f) not in lost]
        if not violated: state = "undecided"
    if violated and not found:
        # the proof fails: look harder for a failing input
        with concurrent.futures.ThreadPoolExecutor() as ex:
            more = list(ex.map(lambda k: search(RUNTIMES[k % 2], 40000 if tier == "quick" else 200000, seed + 77 * (k + 1)), range(2)))
        found = [dict(x, runtime=s.get("runtime", "")) for s in more for x in s.get("violations", [])]
    code = 0
    replay = os.path.join(ev_dir, "replays", p + ".json")
    if os.path.exists(replay): os.remove(replay)
    knownp = []
    if p == "C08":
        listed = known_findings(p)
        for s in searches:
            if s.get("known"):
                if listed: knownp = listed
                else: found.append({"property": p, "what": "a pipelined transaction that is rejected early leaves replies unread", "case": s["known"], "runtime": s.get("runtime", "")})
    obligations = [t for t, _ in violated]
    if found:
        x = found[0]
        json.dump({"property": p, "what": x["what"], "runtime": x["runtime"], "case": x["case"], "others": found[1:5], "failed_obligations": obligations, "undecided": undecided[:10]}, open(replay, "w"), indent=1, ensure_ascii=False)
        print("%s: %s" % (p, x["what"][:1500]))
        for t in obligations[:5]: print("%s: failed obligation: %s" % (p, t[:600]))
        print("VIOLATION property=%s replay=%s" % (p, replay))
        code = 1
    elif violated:
        json.dump({"property": p, "failed_obligations": [{"obligation": t, "verifier_output": x["rendered"]} for t, x in violated[:10]], "note": "no failing input was found for the failed obligations"}, open(replay, "w"), indent=1)
        for t in obligations[:5]: print("%s: failed obligation: %s" % (p, t[:600]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (p, replay))
        code = 1
    elif state == "undecided" and all(s.get("error") for s in searches):
        print("%s: neither the verifier nor the exploration could be used" % p)
        for s in searches: print("   ", s["error"][-400:])
        for t in undecided[:5]: print("   ", t)
        code = 2
    for k in knownp: print("KNOWN-FINDING: property=%s %s" % (p, k))

    okv = [v for v in vers if v["ok"]]
    rep = okv[0]["report"] if okv else {"functions": [], "notes": []}
    fns = {f["id"]: f for f in rep["functions"]}
    under = [i for i in info["cone"] if fns.get(i, {}).get("mode") == "proved" and fns[i].get("contract_clauses", 0) > 0]
    lem = sorted(lemma_tags().get(p, []))
    clauses = sum(fns[i].get("contract_clauses", 0) for i in under)
    nfail = len({(x["fn"], x["message"], tuple(x["where"])) for v in okv for x in v["failures"] if x["fn"] in info["cone"]})
    smt = {}
    for v in okv:
        t = v["json"]["times"]
        smt[v["runtime"]] = {"verus_wall_s": round(v["verus_s"], 2), "smt_run_ms": t.get("smt", {}).get("smt-run"), "verified_functions_and_lemmas": v.get("verified"), "errors": v.get("errors")}
    ob = 0
    dis = 0
    for v in okv:
        f2 = {f["id"]: f for f in v["report"]["functions"]}
        n = sum(f2[i].get("contract_clauses", 0) for i in info["cone"] if i in f2) + len(lem)
        bad = len({x["where"][0] if x["where"] else x["message"] for x in v["failures"] if x["fn"] in info["cone"]})
        ob += n
        dis += max(0, n - bad) if state != "undecided" or not v["external"] else 0
    ev = {
        "property": p, "tier": tier, "seed": seed, "level": "proof", "wall_s": round(time.time() - t0, 2), "violations": 1 if code == 1 else 0,
        "coverage": {
            "state": {"proved": "every obligation of the functions below discharged", "violated": "an obligation of the property fails", "undecided": "not decided by the verifier on this tree; only the bounded exploration below was done"}[state],
            "obligations": ob, "discharged": dis,
            "obligations_rule": "contract clauses (requires, ensures, invariants) of the extracted functions the property depends on plus its lemmas, per runtime; every clause stands for the queries Verus generates for it",
            "checker_cmd": okv[0]["cmd"] if okv else "verus",
            "trusted_base": trusted_list(rep),
            "functions_under_contract": under, "functions_reached": info["cone"], "lemmas": lem, "contract_clauses": clauses,
            "solver": {"back_end": "Verus 0.2026.09.13 / Z3", "per_runtime": smt},
            "assumed_contracts_tried": dict(audit, label="a test of the assumed contracts on the real std, nom, base64 and tokio, not a proof"),
            "thorough": extra, "retried_with_other_seeds": retried,
            "inlined_helpers": rep.get("inlined_only", []), "aliases_replaced": sorted({a for f in rep["functions"] for a in f.get("aliases", [])}),
            "failed": info["failed"][:20], "undecided": undecided[:20],
            "bounded_stand_in": {"label": "bounded, not counted as proved", "explored": [{k: s.get(k) for k in ("runtime", "evaluations", "directed", "directed_complete", "distinct_nontrivial", "ms", "error")} for s in searches],
                                 "rule": "directed sessions and function calls of the property (all of them unless directed_complete is false), then random ones; a case is distinct and non-trivial if it differs from the others and makes the client send or read something"},
            "evaluations": sum(s.get("evaluations", 0) for s in searches),
            "distinct_nontrivial": sum(s.get("distinct_nontrivial", 0) for s in searches),
            "samples": [x for s in searches for x in s.get("samples", [])][:3],
        },
        "assumptions": ["machine integers are treated as machine integers; overflow is an obligation", "a panic inside a dependency is excluded by its assumed contract", "futures are polled to completion; for C19: an operation on the stream that is dropped between two polls leaves the stream as one that fails there does", "for C21: every single operation on the stream and every function of std and the other crates returns"],
    }
    json.dump(ev, open(os.path.join(ev_dir, p + ".json"), "w"), indent=1, ensure_ascii=False)
    print("%s: %s; %d functions under contract, %d clauses; %d cases explored; %.0f s" % (p, state, len(under), clauses, ev["coverage"]["evaluations"], time.time() - t0))
    if state == "undecided":
        for t in undecided[:6]: print("   undecided: " + t[:400])
    sys.exit(code)


main()
