#!/usr/bin/env python3
"""check.py ID — decides property ID on the current tree of /repo.

Deciding step: the functions named in units/<U>.vx are extracted from /repo's sources (tools/vxtract), joined with
their contracts, and every obligation is given to Verus.  Beside it, the replay tier (harness/) executes the same
contracts as oracles against the real, compiled code: it looks for a concrete failing input when an obligation fails,
covers functions the verifier cannot reach (bounded, labelled so) and is what is left when an edit has moved the code
out of reach of the annotations.
"""
import json, os, re, subprocess, sys, threading, time, shutil

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HODOR_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
EVID = os.path.join(ROOT, "evidence")
SEED = os.environ.get("VERIF_SEED", "1")
SEED = SEED if SEED.isdigit() else "1"
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
ENV.pop("CARGO_TARGET_DIR", None); ENV.pop("RUSTFLAGS", None)

SEMANTIC = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
            "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied",
            "possible bit shift", "could not show", "may not terminate", "unreachable", "index out of bounds",
            "cannot show", "not satisfied")
NOTSEM = ("Resource limit", "rlimit", "timed out", "SMT solver")

def sh(cmd, timeout, cwd=None, env=None):
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e, time.time() - t
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except Exception: pass
        o, e = p.communicate()
        return None, o, e, time.time() - t

def build_vxtract():
    exe = os.path.join(BUILD, "vxtract", "debug", "vxtract")
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "vxtract"))
    rc, o, e, _ = sh(["cargo", "build", "--offline", "-q"], 400, os.path.join(ROOT, "tools", "vxtract"), env)
    return exe if rc == 0 and os.path.exists(exe) else None

def build_harness(binname):
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "harness"), RUSTFLAGS="--cfg hodor_verif -Awarnings")
    rc, o, e, _ = sh(["cargo", "build", "--offline", "-q", "--release", "--bin", binname], 600, os.path.join(ROOT, "harness"), env)
    exe = os.path.join(BUILD, "harness", "release", binname)
    return (exe if rc == 0 else None), e[-3000:]

# ---------------------------------------------------------------- verifier
def fn_map(path):
    m, cur = [], None
    for i, l in enumerate(open(path), 1):
        if l.startswith("// VXFN "): cur = (i, l[8:].strip())
        elif l.startswith("// VXEND") and cur: m.append((cur[0], i, cur[1])); cur = None
    return m

def scan_trust(path):
    txt = open(path).read().split("\n")
    out = []
    for i, l in enumerate(txt):
        if "external_body" in l:
            for j in range(i, min(i + 8, len(txt))):
                g = re.search(r"\bfn\s+(\w+)", txt[j])
                if g: out.append("assumed contract (body not verified): " + g.group(1)); break
        if "assume_specification" in l:
            out.append("assumed std contract: " + re.sub(r"\s+", " ", l.split("assume_specification", 1)[1]).strip()[:110])
        if re.search(r"\bassume\s*\(", l) or re.search(r"\badmit\s*\(", l): out.append("ASSUME/ADMIT in annotations line: " + l.strip()[:110])
        g = re.search(r"^\s*proof fn (ax_\w+)", l)
        if g: out.append("field axiom " + g.group(1))
    return sorted(set(out))

def run_verus(rs, rlimit, extra=()):
    cmd = ["verus", os.path.basename(rs), "--triggers-mode", "silent", "--output-json", "--time-expanded", "--error-format=json", "--rlimit", str(rlimit)] + list(extra)
    rc, o, e, w = sh(cmd, 800, os.path.dirname(rs))
    res = {"rc": rc, "wall": w, "cmd": " ".join(cmd), "verified": 0, "nerr": 0, "errors": [], "raw": e, "funcs": {}, "smt_ms": 0}
    try:
        j = json.loads(o[o.index("{"):])
        vr = j.get("verification-results", {})
        res["verified"], res["nerr"] = vr.get("verified", 0), vr.get("errors", 0)
        res["vir"] = bool(vr.get("encountered-vir-error")) or not vr
        res["smt_ms"] = j.get("times-ms", {}).get("smt", {}).get("total", 0)
        for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                res["funcs"][f.get("function", "?")] = f.get("time", 0)
    except Exception:
        res["vir"] = True
    for l in e.split("\n"):
        if not l.startswith("{"): continue
        try: d = json.loads(l)
        except Exception: continue
        if d.get("level") != "error": continue
        msg = d.get("message", "")
        if msg.startswith("aborting due to"): continue
        lines = [s["line_start"] for s in d.get("spans", [])]
        prim = [s["line_start"] for s in d.get("spans", []) if s.get("is_primary")]
        res["errors"].append({"msg": msg, "lines": lines, "primary": prim, "rendered": (d.get("rendered") or "")[:1500]})
    return res

def verify_unit(exe, unit, rlimit):
    unit, _, mod = unit.partition("@")
    work = os.path.join(BUILD, "vx"); os.makedirs(work, exist_ok=True)
    src = os.path.join(ROOT, "units", unit + ".vx")
    rs = os.path.join(work, unit + ".rs"); cov = os.path.join(work, unit + "_cover.rs")
    r = {"unit": unit, "status": None, "reason": "", "failed": [], "extracted": [], "verified": 0, "errors": 0, "smt_ms": 0, "wall": 0, "trusted": [], "vacuous": [], "undetermined": [], "covered": 0, "cmd": ""}
    rc, o, e, _ = sh([exe, REPO, src, rs], 120)
    r["extracted"] = [l[10:] for l in o.split("\n") if l.startswith("EXTRACTED ")]
    if rc != 0:
        r["status"] = "out-of-reach"; r["reason"] = (o + e).strip()[-600:]; return r
    covres = {}
    def cover():
        c, o2, e2, _ = sh([exe, REPO, src, cov, "--cover"], 120)
        # a unit with a module of its own on top of functions other units verify: probe that module here, the rest there
        if c == 0: covres.update(run_verus(cov, rlimit, ["--multiple-errors", "60", "--num-threads", "3"] + (["--verify-only-module", mod] if mod else [])))
    th = threading.Thread(target=cover); th.start()
    v = run_verus(rs, rlimit)
    r.update(verified=v["verified"], errors=v["nerr"], smt_ms=v["smt_ms"], wall=v["wall"], cmd=v["cmd"], trusted=scan_trust(rs), funcs=v["funcs"])
    fm = fn_map(rs)
    def owner(lines):
        for ln in lines:
            for a, b, n in fm:
                if a <= ln <= b: return n
        return "lemma"
    hard, sem = [], []
    for er in v["errors"]:
        er["fn"] = owner(er["primary"] + er["lines"])
        if any(k in er["msg"] for k in NOTSEM): hard.append(er)
        elif any(k in er["msg"] for k in SEMANTIC): sem.append(er)
        else: hard.append(er)
    if v["rc"] == 0 and not v["errors"] and v["verified"] > 0: r["status"] = "proved"
    elif sem and not v.get("vir"):
        r["status"] = "failed"; r["failed"] = [{"function": s["fn"], "obligation": s["msg"], "verifier_output": s["rendered"]} for s in sem]
    else:
        r["status"] = "out-of-reach"; r["reason"] = "; ".join(h["msg"] for h in hard)[:800] or ("verifier timed out" if v["rc"] is None else v["raw"][-500:])
    th.join()
    # vacuity: every cover assertion must be refuted
    if r["status"] == "proved" and covres:
        L = list(open(cov)); first = next((i for i, l in enumerate(L, 1) if mod and l.startswith("pub mod %s " % mod)), 0)
        want = {i for i, l in enumerate(L, 1) if "// COVER" in l and i > first}
        got = set()
        for er in covres.get("errors", []): got.update(er["lines"])
        r["covered"] = len(want & got)
        cm = fn_map(cov); allow = set(json.load(open(os.path.join(ROOT, "cover_allow.json")))) if os.path.exists(os.path.join(ROOT, "cover_allow.json")) else set()
        limited = {n for er in covres.get("errors", []) if any(k in er["msg"] for k in NOTSEM) for a, b, n in cm for l2 in er["lines"] if a <= l2 <= b}
        for ln in sorted(want - got):
            n = next((n for a, b, n in cm if a <= ln <= b), "?")
            if n.split(" ")[0] in allow: continue
            # the solver ran out of resources in this function's probes: neither refuted nor vacuous, as long as others of its probes were refuted
            if n in limited and any(n == n2 for l2 in got for a, b, n2 in cm if a <= l2 <= b): r["undetermined"].append("%s @%d" % (n, ln))
            else: r["vacuous"].append("%s @%d" % (n, ln))
    return r

# ---------------------------------------------------------------- replay tier
def run_harness(exe, secs, pid, seed=SEED):
    cur = os.path.join(BUILD, "cur-%s-%d" % (pid, os.getpid()))
    rc, o, e, w = sh([exe, "--seed", seed, "--secs", str(secs), "--cur", cur], secs * 4 + 90)
    case = open(cur).read() if os.path.exists(cur) else ""
    try: os.remove(cur)
    except OSError: pass
    for l in reversed(o.split("\n")):
        if l.startswith("{"):
            try: j = json.loads(l); break
            except Exception: pass
    else: j = None
    if j is None:
        # hang or abort: confirm on the single case
        j = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "fail": None, "crash": True}
        if case:
            ok = 0
            for _ in range(2):
                rc2, o2, e2, w2 = sh([exe, "--case", case], 60)
                if rc2 == 0: ok += 1
            if ok == 0:
                j["fail"] = {"case": case, "what": ("does not terminate within 60 s" if rc2 is None else "process died: " + (o2 + e2)[-300:])}
    if j.get("fail"):
        f = j["fail"]
        rc2, o2, e2, _ = sh([exe, "--case", f["case"]], 120)
        f["confirmed"] = rc2 != 0
        f["replay_cmd"] = "%s --case '%s'" % (os.path.relpath(exe, ROOT), f["case"])
    return j

def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2: 
        global TIER
        TIER = sys.argv[2]
    cfg = json.load(open(os.path.join(ROOT, "checks.json")))[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True); os.makedirs(EVID, exist_ok=True)
    secs = cfg.get("secs", 12) if TIER == "quick" else cfg.get("secs_thorough", 240)
    rlimit = 60 if TIER == "quick" else 200
    H = {}
    def hthread():
        if not cfg.get("bin"): return
        exe, err = build_harness(cfg["bin"])
        if exe is None: H["builderr"] = err; return
        H["exe"] = exe
        H["res"] = run_harness(exe, secs, pid)
    ht = threading.Thread(target=hthread); ht.start()
    exe = build_vxtract()
    none = lambda u: {"unit": u, "status": "out-of-reach", "reason": "extractor did not build", "failed": [], "extracted": [], "verified": 0, "errors": 0, "smt_ms": 0, "wall": 0, "trusted": [], "vacuous": [], "undetermined": [], "covered": 0, "cmd": ""}
    R = {}
    def uthread(u): R[u] = verify_unit(exe, u, rlimit) if exe else none(u)
    ths = [threading.Thread(target=uthread, args=(u,)) for u in cfg["units"]]
    for t in ths: t.start()
    for t in ths: t.join()
    U = [R.get(u) or none(u) for u in cfg["units"]]
    ht.join()
    h = H.get("res")
    # an obligation failed: look longer for an input that shows it
    if H.get("exe") and h and not h.get("fail") and any(u["failed"] for u in U) and time.time() - t0 < 480:
        h2 = run_harness(H["exe"], 75 if TIER == "quick" else 240, pid, str(int(SEED) + 7919))
        if h2.get("fail"): h = h2
        else:
            for k in ("evaluations", "distinct_nontrivial"): h[k] += h2.get(k, 0)
    findings = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
    mine = [f for f in findings if f["property"] == pid and f.get("status") == "finding"]
    viol = None
    failed = [dict(x, unit=u["unit"]) for u in U for x in u["failed"]]
    if h and h.get("fail"):
        viol = {"kind": "failing input", "case": h["fail"]["case"], "what": h["fail"]["what"], "replay_cmd": h["fail"].get("replay_cmd"), "confirmed": h["fail"].get("confirmed"), "failed_obligations": failed}
    elif failed:
        viol = {"kind": "failed obligation", "failed_obligations": failed}
    unknown_known = []
    for k in (h or {}).get("known", []):
        if any(f["id"] == k["id"] for f in mine):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        elif not viol:
            viol = {"kind": "failing input", "case": k["case"], "what": k["what"], "failed_obligations": failed}
    proved = all(u["status"] == "proved" and not u["vacuous"] for u in U)
    obligations = sum(u["verified"] + u["errors"] for u in U); discharged = sum(u["verified"] for u in U)
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "; ".join(u["cmd"] for u in U if u["cmd"]) or "verus",
        "trusted_base": sorted({t for u in U for t in u["trusted"]}) + cfg.get("trusted", []),
        "functions_under_contract": [x for u in U for x in u["extracted"]],
        "backend": "Verus (SMT back end: the z3 bundled with it)", "solver_ms": sum(u["smt_ms"] for u in U),
        "vacuity_covers_refuted": sum(u["covered"] for u in U), "vacuous": [x for u in U for x in u["vacuous"]], "vacuity_undetermined": [x for u in U for x in u.get("undetermined", [])],
        "units": [{k: u[k] for k in ("unit", "status", "reason", "verified", "errors", "smt_ms", "wall")} for u in U],
        "slowest_functions_ms": dict(sorted(((k, v) for u in U for k, v in u.get("funcs", {}).items()), key=lambda x: -x[1])[:5]),
    }
    if h:
        cov.update({"bounded_replay": {"label": "bounded: executed cases, never counted as proved", "note": cfg.get("bounded_note", ""), **{k: h.get(k) for k in ("evaluations", "distinct_nontrivial", "fixed_cases", "fixed_done")}}})
        if h["evaluations"]: cov.update({"evaluations": h["evaluations"], "distinct_nontrivial": h["distinct_nontrivial"], "samples": h["samples"][:8], "rule": cfg.get("rule", "fixed boundary cases, then cases drawn from VERIF_SEED; a case is non-trivial when its bin's oracle says the operation had something to do (see harness/src/bin)")})
    elif "builderr" in H: cov["bounded_replay"] = {"label": "harness did not build against this tree", "error": H["builderr"][-500:]}
    level = "proof" if proved else "exploration"
    if not proved and not (h and h["evaluations"]):
        level = "other"; cov["explanation"] = "neither the verifier nor the replay tier could decide this tree; see units[].reason"
    ev = {"property": pid, "tier": TIER, "seed": int(SEED), "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + ["scoped tasks are run as their sequential composition: they borrow disjoint slices (checked by rustc on the real code)", "contracts of std functions and of the ff_ce field as listed in trusted_base"],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    for u in U:
        print("unit %s: %s, %d verified, %d errors, smt %d ms, %.1f s%s" % (u["unit"], u["status"], u["verified"], u["errors"], u["smt_ms"], u["wall"], (" — " + u["reason"][:300]) if u["reason"] else ""))
        for v in u["vacuous"]: print("  vacuous: " + v)
    if h: print("replay tier (bounded): %s evaluations, %s distinct non-trivial%s" % (h["evaluations"], h["distinct_nontrivial"], ", crashed" if h.get("crash") else ""))
    elif "builderr" in H: print("replay tier did not build: " + H["builderr"][-300:])
    if viol:
        path = os.path.join(EVID, pid + ".replay.json")
        json.dump(dict(viol, property=pid), open(path, "w"), indent=1)
        for f in failed[:6]: print("failed obligation in %s: %s" % (f["function"], f["obligation"]))
        if viol["kind"] == "failing input":
            print("failing input: %s: %s" % (viol["case"], viol["what"]))
            print("VIOLATION property=%s replay=%s" % (pid, path)); sys.exit(1)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path)); sys.exit(1)
    if not proved: print("not proved on this tree: decided by the bounded replay tier only")
    sys.exit(0)

main()
