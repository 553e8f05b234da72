#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]   decide one property on /repo's current tree
   check.py --setup                              build the tools
   check.py --lock                               record the shapes of the functions under contract

Verdicts:
  * the search on the real crates finds a failing input        -> VIOLATION, exit 1
  * an obligation Verus discharged on the reference tree fails  -> VIOLATION ... no-failing-input-found, exit 1
  * the proof cannot be redone (a contract lost its anchor, a construct outside Verus, the solver gave
    up, or the function was restructured so that its loop contracts no longer fit)
                                                                -> bounded search only, exit 0, said so in the evidence
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = "/repo"
sys.path.insert(0, HERE)
TARGET = os.path.join(REPO, "target-common")
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""), RUSTUP_TOOLCHAIN="stable",
           RUSTC_WRAPPER="", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
           CARGO_TERM_COLOR="never", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET)
CONF = json.load(open(os.path.join(HERE, "props.json")))
LOCK = os.path.join(ROOT, "specs", "lock.json")
EV = os.path.join(ROOT, "evidence")


def sh(cmd, timeout=800, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=cwd, env=env or ENV)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"


def build(name):
    """Builds /verif/rs/<name>; returns (binary, error text)."""
    d = os.path.join(ROOT, "rs", name)
    rc, out, err = sh(["cargo", "build", "--offline", "--locked", "-q"], cwd=d, timeout=700)
    b = os.path.join(TARGET, "debug", name)
    if rc != 0:
        return None, err[-4000:]
    return b, None


def killer(cmd, rc):
    """The case with which the search dies of the same signal, alone and again; None if there is none."""
    d = tempfile.mkdtemp()
    try:
        sh(cmd + ["--steps", os.path.join(d, "s")], timeout=120)
        for f in sorted(os.listdir(d)):
            n = open(os.path.join(d, f)).read().strip()
            if n and sh(cmd + ["--only", n], timeout=60)[0] == rc:
                return int(n)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return None


# ------------------------------------------------------------------------------------------- Verus
def run_verus(text, rlimit, errors, timeout):
    d = tempfile.mkdtemp(prefix="verus-")
    try:
        f = os.path.join(d, "unit.rs")
        open(f, "w").write(text)
        t = time.time()
        rc, out, err = sh(["verus", "--triggers-mode", "silent", "--output-json", "--time", "--rlimit", str(rlimit),
                           "--multiple-errors", str(errors), f, "--", "--error-format=json"], timeout=timeout, cwd=d)
        wall = time.time() - t
    finally:
        shutil.rmtree(d, ignore_errors=True)
    diags = []
    for l in err.splitlines():
        if not l.startswith("{"):
            continue
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("level") == "error" and j.get("spans"):
            diags.append({"message": j["message"], "code": (j.get("code") or {}).get("code"),
                          "spans": [(s["line_start"], s["line_end"], bool(s["is_primary"]), s.get("label") or "") for s in j["spans"]],
                          "text": j.get("rendered", "")})
        elif j.get("level") == "error" and "aborting" not in j.get("message", ""):
            diags.append({"message": j["message"], "code": None, "spans": [], "text": j.get("rendered", "")})
    res = {}
    try:
        res = json.loads(out)
    except ValueError:
        pass
    return {"json": res, "diags": diags, "wall": wall, "stderr": err, "timeout": rc == -9}


OBLIGATION = re.compile(r"postcondition not satisfied|post-condition of closure|precondition not satisfied|pre-condition|precondition of closure|"
                        r"invariant not satisfied|assertion failed|possible (arithmetic|division|bit)|decreases not satisfied|"
                        r"could not (prove|show)|unable to prove|recommendation not met|possible .*overflow|possible .*underflow|index out of bounds|unreachable")
GAVEUP = re.compile(r"[Rr]esource limit|rlimit|timed? ?out|solver")


def fns_of(stats):
    fb = []
    for m in (stats.get("times-ms", {}).get("smt", {}).get("smt-run-module-times") or []):
        fb += m.get("function-breakdown") or []
    return fb


def verify(spec, tier):
    """One template: assemble, verify, vacuity twin. Functions whose contract no longer fits are set aside."""
    import extract
    r = {"spec": spec, "state": "ok", "failed": [], "dropped": {}, "fns": [], "verified": 0, "obligations": 0, "smt_ms": 0,
         "wall": 0.0, "vacuous": [], "trusted": [], "subs": [], "types": [], "notes": []}
    path = os.path.join(ROOT, "specs", spec + ".rs")
    skip = {}
    rl = 30 if tier == "quick" else 100
    for attempt in range(12):
        try:
            text, meta = extract.assemble(path, skip=set(skip))
        except extract.LostAnchor as e:
            fn = getattr(e, "fn", None)
            if fn and fn not in skip:
                skip[fn] = f"lost anchor: {e}"
                continue
            r["state"] = "lost"
            r["notes"].append(f"lost anchor: {e}")
            return r
        v = run_verus(text, rl, 8, 500)
        r["wall"] += v["wall"]
        vr = v["json"].get("verification-results", {})
        if v["timeout"]:
            r["state"] = "lost"
            r["notes"].append("verifier timed out")
            return r
        if "verified" in vr and not vr.get("encountered-vir-error") and not (vr.get("encountered-error") and vr["verified"] == 0 and vr["errors"] == 0):
            break
        # rustc / VIR error: blame a function and set it aside
        lines = text.split("\n")

        def owner(n):
            for a, b, fn, fl, ln in meta["map"]:
                if a <= n <= b:
                    return fn
            return None
        hit = None
        for d in v["diags"]:
            for (a, b, prim, lab) in sorted(d["spans"], key=lambda s: not s[2]):
                o = owner(a)
                if o and o not in skip:
                    hit = (o, d["message"])
                    break
            if hit:
                break
        if not hit:
            r["state"] = "lost"
            r["notes"].append("the template no longer compiles: " + "; ".join(d["message"] for d in v["diags"][:3])[:600] + v["stderr"][-300:] * (not v["diags"]))
            return r
        skip[hit[0]] = "outside the verifier: " + hit[1][:300]
    else:
        r["state"] = "lost"
        r["notes"].append("too many functions outside the verifier")
        return r
    r["dropped"] = skip
    r["subs"], r["types"] = meta["subs"], meta["types"]
    lines = text.split("\n")
    fb = fns_of(v["json"])
    r["fns"] = [dict(f, under_contract=f["fn"] not in skip) for f in meta["fns"]]
    r["verified"] = vr["verified"]
    r["obligations"] = vr["verified"] + vr["errors"]
    r["smt_ms"] = v["json"].get("times-ms", {}).get("smt", {}).get("total", 0)
    r["breakdown"] = [{"fn": f["function"], "ms": f["time"], "ok": f["success"]} for f in fb]
    r["trusted"] = trusted(text)
    lock = json.load(open(LOCK)).get(spec, {}) if os.path.exists(LOCK) else {}
    for d in v["diags"]:
        own, tags = None, set()
        for (a, b, prim, lab) in sorted(d["spans"], key=lambda s: not s[2]):
            for (x, y, fn, fl, ln) in meta["map"]:
                if x <= a <= y and (own is None):
                    own = (fn, fl, ln)
        for (a, b, prim, lab) in d["spans"]:
            # only the clause that failed, not the exit point
            if "at this exit" in lab or "at the end of" in lab or "returning" in lab:
                continue
            # a precondition's text lives in the callee; tags there still name what depends on it
            for n in range(a, min(b, a + 12) + 1):
                tags |= set(re.findall(r"\[([A-Z]\d{2,3})\]", lines[n - 1].split("//", 1)[1])) if "//" in lines[n - 1] else set()
        kind = "gaveup" if GAVEUP.search(d["message"]) else ("obligation" if OBLIGATION.search(d["message"]) else "other")
        ft = set()
        changed = None
        if own:
            for (x, y, fn, fl, ln) in meta["map"]:
                if (fn, fl) == own[:2]:
                    for n in range(x, y + 1):
                        if "//" in lines[n - 1]:
                            ft |= set(re.findall(r"\[([A-Z]\d{2,3})\]", lines[n - 1].split("//", 1)[1]))
            cur = next(f for f in meta["fns"] if f["fn"] == own[0] and f["file"] == own[1])
            ref = lock.get(own[0])
            changed = ref is not None and ref["shape"] != cur["shape"]
        r["failed"].append({"fn": own[0] if own else None, "file": own[1] if own else None, "line": own[2] if own else None,
                            "message": d["message"], "tags": sorted(tags), "fn_tags": sorted(ft), "kind": kind, "reshaped": changed,
                            "clause": " ".join(lines[s[0] - 1].strip() for s in d["spans"] if s[2])[:400], "text": d["text"][:3000]})
    # functions with a failing tagged clause: the untagged asserts on the way are not reported on their own
    return r


def vacuity(spec):
    """Every function and every loop contract must be refutable: assert(false) has to fail there."""
    import extract
    path = os.path.join(ROOT, "specs", spec + ".rs")
    try:
        text, meta = extract.assemble(path, vac=True)
    except extract.LostAnchor as e:
        return {"checked": 0, "vacuous": [], "note": str(e)}
    text = text.replace("#[verifier::loop_isolation(false)]", "")  # else what follows the first assert(false) is never checked
    lines = text.split("\n")
    want = [i + 1 for i, l in enumerate(lines) if "// VACUITY" in l]
    v = run_verus(text, 5, 60, 400)
    if v["timeout"] or "verified" not in v["json"].get("verification-results", {}):
        return {"checked": 0, "vacuous": [], "note": "not run"}
    got = {s[0] for d in v["diags"] for s in d["spans"]}
    # a function the solver gave up on was not shown vacuous either
    gave = [s for d in v["diags"] if GAVEUP.search(d["message"]) for s in d["spans"]]
    miss = []
    for n in want:
        if n in got:
            continue
        fn = next(((a, b, f) for a, b, f, *_ in meta["map"] if a <= n <= b), None)
        if fn and any(fn[0] <= g[0] <= fn[1] for g in gave):
            continue
        # later loops of a function whose entry already failed are still reported separately (multiple errors)
        miss.append(fn[2] if fn else f"line {n}")
    return {"checked": len(want), "vacuous": miss}


def trusted(text):
    out = []
    ls = text.split("\n")
    for i, l in enumerate(ls):
        s = l.split("//")[0]
        if "external_body" in s or re.search(r"\baxiom fn\b|\buninterp spec fn\b|assume_specification|external_fn_specification", s):
            for j in range(i, min(i + 4, len(ls))):
                m = re.search(r"\b(fn|struct|enum)\s+(\w+)", ls[j].split("//")[0])
                if m:
                    k = "axiom" if "axiom" in s else "uninterpreted" if "uninterp" in s else "trusted"
                    out.append(f"{k} {m.group(1)} {m.group(2)}")
                    break
        if re.search(r"\bassume\(|\badmit\(", s):
            out.append(f"assume at assembled line {i + 1}: {s.strip()[:120]}")
    seen, r = set(), []
    for x in out:
        if x not in seen:
            seen.add(x)
            r.append(x)
    return r


# ------------------------------------------------------------------------------------------- main
def known(prop):
    p = os.path.join(ROOT, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)$", l.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    return r


def main():
    if "--setup" in sys.argv:
        os.makedirs(EV, exist_ok=True)
        for n in ("vx", "replay"):
            b, e = build(n)
            if e:
                print(e)
                return 1
        return 0
    if "--lock" in sys.argv:
        vx, e = build("vx")
        os.environ["VX_BIN"] = vx
        import extract
        lock = {}
        for s in sorted({s for c in CONF.values() for s in c.get("specs", [])}):
            t, m = extract.assemble(os.path.join(ROOT, "specs", s + ".rs"))
            lock[s] = {f["fn"]: {"shape": f["shape"]} for f in m["fns"]}
        json.dump(lock, open(LOCK, "w"), indent=0, sort_keys=True)
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    c = CONF[prop]
    t0 = time.time()
    os.makedirs(EV, exist_ok=True)
    notes = []
    vx, e = build("vx")
    if e:
        notes.append("the extractor did not build: " + e[-400:])
    specs = c.get("specs", [])
    results, vac = [], {}
    rep = {"ran": False}
    with cf.ThreadPoolExecutor(8) as ex:
        futs, vf = [], {}
        if vx:
            os.environ["VX_BIN"] = vx
            futs = [ex.submit(verify, s, tier) for s in specs]
            vf = {s: ex.submit(vacuity, s) for s in specs}

        def do_replay():
            b, e = build("replay")
            if e:
                return {"ran": False, "error": e}
            out = os.path.join(EV, f"{prop}.search.json")
            if os.path.exists(out):
                os.remove(out)
            ids = ",".join(k for k, _ in known(prop))
            cmd = [b, c.get("replay", prop), "--seed", str(seed), "--tier", tier, "--out", out, "--known", ids]
            rc, so, se = sh(cmd, timeout=300 if tier == "quick" else 1500)
            try:
                j = json.load(open(out))
            except (OSError, ValueError):
                j = {"explored": 0, "error": f"rc={rc} {se[-800:]}"}
                if rc in (-6, -11):        # the code under test ended the process: an overflow of the stack, a panic while panicking
                    died = killer(cmd, rc)
                    if died is not None:
                        j = {"explored": 0, "violation": {"case": died, "key": "abort", "trace": [],
                                                          "what": f"case {died} ends the process (signal {-rc}): {se.strip()[-300:]}"}}
            j["ran"] = "error" not in j
            j["bin_rc"] = rc
            return j
        rf = ex.submit(do_replay) if c.get("replay", prop) else None
        for f, s in zip(futs, specs):
            try:
                results.append(f.result())
            except Exception as e:  # the machinery itself failed: not a verdict
                results.append({"spec": s, "state": "lost", "failed": [], "dropped": {}, "fns": [], "verified": 0, "obligations": 0,
                                "smt_ms": 0, "wall": 0, "trusted": [], "subs": [], "types": [], "notes": [f"{type(e).__name__}: {e}"]})
        for s, f in vf.items():
            try:
                vac[s] = f.result()
            except Exception as e:
                vac[s] = {"checked": 0, "vacuous": [], "note": f"{type(e).__name__}: {e}"}
        if rf:
            rep = rf.result()

    # ---- verdict
    mine = lambda f: prop in f["tags"] or (not f["tags"] and (prop in f["fn_tags"] or not f["fn_tags"]))
    failed, undecided = [], []
    for r in results:
        tagged = {(f["fn"]) for f in r["failed"] if f["tags"]}
        for f in r["failed"]:
            if not f["tags"] and f["fn"] in tagged and f["fn"] is not None:
                continue            # an assertion on the way to a tagged clause that failed as well
            if not mine(f):
                continue
            if f["fn"] is None or f["kind"] != "obligation":
                undecided.append(f"{r['spec']}: {f['fn']}: {f['message']}")
            elif f["reshaped"]:
                undecided.append(f"{r['spec']}: {f['fn']} was restructured (loops/closures differ), its loop contracts no longer fit: {f['message']}")
            else:
                failed.append(dict(f, spec=r["spec"]))
        for fn, why in r["dropped"].items():
            undecided.append(f"{r['spec']}: {fn}: {why}")
        if r["state"] != "ok":
            undecided.append(f"{r['spec']}: " + "; ".join(r["notes"]))
    for s, w in vac.items():
        for x in w["vacuous"]:
            undecided.append(f"{s}: contract of {x} is vacuous")
    viol = None
    rpath = os.path.join(EV, f"{prop}.replay.json")
    if os.path.exists(rpath):
        os.remove(rpath)
    if rep.get("violation"):
        viol = {"kind": "failing input", "property": prop, "seed": seed, "tier": tier, **rep["violation"],
                "rerun": f"{TARGET}/debug/replay {c.get('replay', prop)} --seed {seed} --only {rep['violation'].get('case')}",
                "failed_obligations": failed}
    elif failed:
        viol = {"kind": "failed obligation", "property": prop, "failed_obligations": failed,
                "search": {k: rep.get(k) for k in ("explored", "ran", "error")}}
    proved = bool(results) and not undecided and not failed and all(r["state"] == "ok" for r in results)
    level = c["level"] if (proved or not results) else "exploration"
    ob = sum(r["obligations"] for r in results)
    di = sum(r["verified"] for r in results)
    fns = [f"{f['file']}: {f['fn']}" for r in results for f in r["fns"] if f["under_contract"]]
    mytags = sorted({f"{f['file']}: {f['fn']}" for r in results for f in r["fns"] if prop in f.get("tags", [])})
    cov = {
        "deciding_step": "Verus accepts every obligation generated from the current source" if results else "bounded search on the real crates",
        "functions_under_contract": fns,
        "functions_stating_the_property": mytags,
        "types_copied_from_source": sorted({t for r in results for t in r["types"]}),
        "obligations_by_function": {r["spec"]: [f"{b['fn'].split('::', 1)[-1]} {b['ms']}ms {'ok' if b['ok'] else 'FAILED'}" for b in r.get("breakdown", [])] for r in results},
        "solver_ms": sum(r["smt_ms"] for r in results),
        "vacuity": {s: {"contracts_refuted": w["checked"] - len(w["vacuous"]), "of": w["checked"], **({"note": w["note"]} if "note" in w else {})} for s, w in vac.items()},
        "extraction": {"mechanical": __import__("extract").DROPS, "explicit_substitutions": sorted({x for r in results for x in r["subs"]})},
        "not_decided_by_proof_this_run": undecided,
        "failed_obligations": [f"{f['fn']}: {f['message']}: {f['clause']}" for f in failed],
        "search": {"label": "bounded, not counted as proved", **{k: v for k, v in rep.items() if k not in ("violation",)}},
        "samples": rep.get("samples", []),
        "notes": notes + [n for r in results for n in r["notes"]],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "obligations": ob, "discharged": di,
          "checker_cmd": f"cd /verif && VERIF_TIER={tier} python3 vlib/check.py {prop}",
          "trusted_base": ["Verus 0.2026.09.13.671956e, Z3 4.16.0 (bundled), rustc",
                           "vlib/extract.py and rs/vx: mechanical extraction, rewriting limited to what coverage.extraction lists",
                           "64-bit usize; exclusive access to &mut self while an async method runs"]
          + sorted({t for r in results for t in r["trusted"]}) + c.get("assumes", [])}
    json.dump(ev, open(os.path.join(EV, f"{prop}.json"), "w"), indent=1)
    for k, what in known(prop):
        print(f"KNOWN-FINDING: property={prop} {k}: {what}")
    for u in undecided:
        print(f"note: not decided by proof: {u[:300]}")
    if rep.get("error"):
        print(f"note: the search did not run: {rep['error'][-300:]}")
    if viol:
        json.dump(viol, open(rpath, "w"), indent=1)
        rel = os.path.relpath(rpath, ROOT)
        if viol["kind"] == "failing input":
            print("failing input:", str(viol.get("what"))[:500])
            print(f"VIOLATION property={prop} replay={rel}")
        else:
            for f in failed:
                print(f"failed obligation: {f['fn']} ({f['file']}:{f['line']}): {f['message']}: {f['clause'][:200]}")
            print(f"VIOLATION property={prop} replay={rel} no-failing-input-found")
        return 1
    print(f"{prop}: held; {di}/{ob} obligations discharged, {rep.get('explored', 0)} cases searched, level {level}, {time.time() - t0:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
