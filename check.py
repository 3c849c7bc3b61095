#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current tree.

1. Extracts the functions under contract from /repo (vx/extract.py) and has Verus discharge every
   obligation of the units the property is built on.
2. Runs the native bounded checker of the same contracts (harness/) on the compiled code: it stands in,
   labelled bounded, for what the proof leaves out, and supplies the failing input of a violation.
Exit 0: held.  Exit 1: a line `VIOLATION property=<id> replay=<path> [no-failing-input-found]`.
"""
import concurrent.futures as cf
import json, os, re, resource, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "vx"))
import extract  # noqa: E402

BUILD = os.path.join(V, ".build")
EV = os.path.join(V, "evidence")
CFG = json.load(open(os.path.join(V, "checks.json")))
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, "harness"), RUST_BACKTRACE="0",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
VTIME = 420 if TIER == "quick" else 1500


def sh(cmd, timeout, **kw):
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e, time.time() - t
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -99, "", "timed out after %d s" % timeout, time.time() - t


# ---------------------------------------------------------------- proof
FN = re.compile(r"/\*@@FN (.*?) @@\*/")
TAG = re.compile(r"/\*([A-Z]\d\d(?:,[A-Z]\d\d)*)\*/")


def locate(lines, n):
    """label of the extracted function that contains line n (1-based), or None"""
    for i in range(min(n, len(lines)) - 1, -1, -1):
        if "/*@@END@@*/" in lines[i] and i < n - 1:
            return None
        m = FN.search(lines[i])
        if m:
            return m.group(1)
    return None


def verus(path, unit, extra=()):
    rc, o, e, t = sh(["verus", os.path.basename(path), "--verify-module", "u_" + unit, "--triggers-mode", "silent", "--output-json", "--time-expanded",
                      "--error-format=json", "--num-threads", "2"] + list(extra), VTIME, cwd=os.path.dirname(path))
    try:
        j = json.loads(o[o.index("{"):])
    except Exception:
        j = {}
    diags = []
    for ln in e.split("\n"):
        if ln.startswith("{"):
            try:
                d = json.loads(ln)
                if d.get("level") == "error":
                    diags.append(d)
            except Exception:
                pass
    return rc, j, diags, e, t


def run_unit(unit):
    """result of one unit: per function status, counts, trusted items"""
    res = {"unit": unit, "status": "ok", "undecided": [], "failed": [], "verified": 0, "errors": 0, "smt_ms": 0, "wall_s": 0.0, "fns": [], "trusted": [], "subs": [], "vacuous": []}
    t0 = time.time()
    d = os.path.join(BUILD, "verus", "%s.%d" % (unit, os.getpid()))
    os.makedirs(d, exist_ok=True)
    skip = {}
    for attempt in range(12):
        try:
            out = extract.build(unit, skip)
        except extract.Lost as x:
            lab = getattr(x, "label", None)
            if lab and lab not in skip:
                skip[lab] = "lost anchor: %s" % x
                continue
            res["status"] = "undecided"
            res["reason"] = "extraction: %s" % x
            break
        text = "\n".join(out.text)
        path = os.path.join(d, unit + ".rs")
        open(path, "w").write(text)
        lines = text.split("\n")
        rc, j, diags, err, t = verus(path, unit)
        vr = j.get("verification-results") or {}
        res["verus_version"] = (j.get("verus") or {}).get("version", "")
        if rc == -99:
            res["status"] = "undecided"
            res["reason"] = "Verus " + err
            break
        if "verified" not in vr or vr.get("encountered-vir-error") or (vr.get("verified", 0) == 0 and vr.get("errors", 0) == 0):
            # not a proof result: the text is outside what the verifier accepts
            new = {}
            for dg in diags:
                for sp in dg.get("spans", []):
                    lab = locate(lines, sp["line_start"])
                    if lab and lab not in skip:
                        new[lab] = "outside the verifier's reach: %s" % dg["message"].split("\n")[0][:200]
            if new:
                skip.update(new)
                continue
            res["status"] = "undecided"
            res["reason"] = "Verus rejected the extracted text: %s" % (diags[0]["message"][:300] if diags else err[-300:])
            break
        res["verified"], res["errors"] = vr.get("verified", 0), vr.get("errors", 0)
        res["smt_ms"] = ((j.get("times-ms") or {}).get("smt") or {}).get("total", 0)
        res["fns"] = [f for f in out.fns if f["unit"] == unit and f["fn"] not in skip]
        res["types"] = out.types
        res["subs"] = sorted(set(out.subs))
        fd = []
        for m in ((j.get("times-ms") or {}).get("smt") or {}).get("smt-run-module-times", []):
            fd += m.get("function-breakdown", [])
        res["queries"] = len(fd)
        for dg in diags:
            msg = dg["message"]
            if msg.startswith("aborting due") or not dg.get("spans"):
                continue
            lab = None
            tags = set()
            clause = ""
            for sp in dg["spans"]:
                lab = lab or (None if sp["is_primary"] else locate(lines, sp["line_start"]))
            for sp in dg["spans"]:
                if sp["is_primary"]:
                    clause = " ".join(x["text"].strip() for x in sp["text"])[:300]
                    for m in TAG.finditer(lines[sp["line_start"] - 1]):
                        tags |= set(m.group(1).split(","))
                    lab = lab or locate(lines, sp["line_start"])
                elif sp.get("label", "") and "fail" in (sp.get("label") or ""):
                    for m in TAG.finditer(lines[sp["line_start"] - 1]):
                        tags |= set(m.group(1).split(","))
            item = {"fn": lab or "lemma in unit " + unit, "message": msg, "clause": clause, "tags": sorted(tags), "rendered": dg.get("rendered", "")}
            if "Resource limit" in msg or "rlimit" in msg or "timed out" in msg or lab is None:
                res["undecided"].append({"fn": item["fn"], "reason": ("solver resource limit" if lab else "a lemma that mentions no code was not discharged: " + msg)})
            else:
                res["failed"].append(item)
        res["trusted"] = trusted(text)
        # vacuity: with an unsatisfiable assertion behind the precondition, every function has to fail
        try:
            vo = extract.build(unit, skip, vacuity=True)
            vp = os.path.join(d, unit + "_vac.rs")
            vt = "\n".join(vo.text)
            open(vp, "w").write(vt)
            vl = vt.split("\n")
            rc2, j2, d2, e2, _ = verus(vp, unit)
            hit = set()
            for dg in d2:
                for sp in dg.get("spans", []):
                    if "vacuity_probe" in vl[sp["line_start"] - 1]:
                        hit.add(locate(vl, sp["line_start"]))
            want = {f["fn"] for f in res["fns"] if not f.get("empty")}
            if "verified" in (j2.get("verification-results") or {}) and rc2 != -99:
                res["probed"] = len(want & hit)
                res["vacuous"] = sorted(want - hit)
        except extract.Lost:
            pass
        break
    for k, v in skip.items():
        res["undecided"].append({"fn": k, "reason": v})
    res["wall_s"] = round(time.time() - t0, 2)
    subprocess.run(["rm", "-rf", d])
    return res


def trusted(text):
    t = set()
    cur = ""
    for m in re.finditer(r"#\[verifier::external_body\][^\n]*?\n?[^\n]*?\bfn\s+(\w+)", text):
        t.add("external_body: " + m.group(1))
    for m in re.finditer(r"assume_specification[^\[]*\[\s*([^\]]*?)\s*\]", text):
        t.add("assumed specification: " + m.group(1))
    for m in re.finditer(r"\b(assume|admit)\s*\(", text):
        t.add("%s in the unit text" % m.group(1))
    for m in re.finditer(r"pub (?:broadcast )?axiom fn (\w+)", text):
        t.add("axiom: " + m.group(1))
    return sorted(t)


# ---------------------------------------------------------------- bounded stand-in
def build_harness():
    rc, o, e, t = sh(["cargo", "build", "--offline", "--quiet"], 700, cwd=os.path.join(V, "harness"), env=ENV)
    return rc, e, t


def run_harness(prop):
    rc, e, bt = build_harness()
    if rc != 0:
        return {"error": "the contract checker does not build against /repo: " + e[-1500:], "build_s": bt}
    exe = os.path.join(BUILD, "harness", "debug", "vharness")
    lim = 400 if TIER == "quick" else 3000
    cap = lambda: resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    rc, o, e, t = sh([exe, prop, str(SEED), TIER], lim, env=ENV, preexec_fn=cap)
    try:
        r = json.loads(o.strip().split("\n")[-1])
    except Exception:
        tr = os.path.join(BUILD, "trace.%s.%d" % (prop, os.getpid()))
        sh([exe, prop, str(SEED), TIER], lim, env=dict(ENV, VH_TRACE=tr), preexec_fn=cap)
        case = open(tr, errors="replace").read() if os.path.exists(tr) else "?"
        if os.path.exists(tr):
            os.remove(tr)
        if rc == -99:
            return {"error": "the contract checker did not finish in %d s; last case: %s" % (lim, case[:500]), "build_s": bt}
        r = {"ok": False, "evaluations": 0, "distinct": 0, "samples": [], "sections": [], "known": [], "fail": {"case": case, "msg": "the process ended abnormally (status %d): %s" % (rc, e[-500:])}}
    r["build_s"] = round(bt, 2)
    r["run_s"] = round(t, 2)
    return r


def known_findings():
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    return [l.strip() for l in open(p)] if os.path.exists(p) else []


def main():
    prop = sys.argv[1]
    cfg = CFG["checks"][prop]
    os.makedirs(EV, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    with cf.ThreadPoolExecutor(8) as ex:
        hf = ex.submit(run_harness, prop)
        uf = [ex.submit(run_unit, u) for u in cfg["units"]]
        units = [f.result() for f in uf]
        h = hf.result()
    failed, undec = [], []
    for u in units:
        for f in u["failed"]:
            if not f["tags"] or prop in f["tags"]:
                failed.append(dict(f, unit=u["unit"]))
        for x in u["undecided"]:
            undec.append("%s (%s): %s" % (x["fn"], u["unit"], x["reason"]))
        if u["status"] != "ok":
            undec.append("unit %s: %s" % (u["unit"], u["reason"]))
        for f in u["vacuous"]:
            undec.append("%s (%s): the vacuity probe was not refuted" % (f, u["unit"]))
    ver = sum(u["verified"] for u in units)
    err = sum(u["errors"] for u in units)
    fns = [dict(fn=f["fn"], file=f["file"], unit=u["unit"]) for u in units for f in u["fns"]]
    tb = sorted({t for u in units for t in u["trusted"]})
    cov = {
        "obligations": ver + err, "discharged": ver,
        "checker_cmd": "verus <unit>.rs --verify-module u_<unit> on the text that vx/extract.py takes from /repo, units: %s" % ", ".join(cfg["units"]),
        "trusted_base": tb + ["Verus, Z3 (the back end of Verus), rustc", "vx/extract.py: what it drops or rewrites is listed under extraction_rules and declared_rewrites"],
        "back_end": "Verus %s with its bundled Z3" % next((u.get("verus_version") for u in units if u.get("verus_version")), "?"),
        "solver_ms": sum(u["smt_ms"] for u in units),
        "functions_under_contract": fns, "functions_under_contract_count": len(fns),
        "units": [{k: u.get(k) for k in ("unit", "status", "verified", "errors", "queries", "smt_ms", "wall_s", "probed")} for u in units],
        "undecided_by_proof": undec,
        "extraction_rules": extract.RULES, "declared_rewrites": sorted({s for u in units for s in u["subs"]}),
        "bounded_stand_in": {"what": cfg["bounded"], "evaluations": h.get("evaluations", 0), "distinct_nontrivial": h.get("distinct", 0),
                             "rule": "cases come from the section's exhaustive enumeration or seeded generator; non-trivial as counted by the section (usually: the machine has a transition)",
                             "sections": h.get("sections", []), "samples": h.get("samples", [])[:6], "truncated_by_time": h.get("truncated", False), "error": h.get("error")},
    }
    viol = 0
    line = None
    replay = os.path.join(EV, "replay_%s.txt" % prop)
    if h.get("fail"):
        viol = 1
        line = "VIOLATION property=%s replay=%s" % (prop, replay)
    elif failed:
        viol = 1
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
    if viol:
        with open(replay, "w") as f:
            f.write("property %s, tier %s, seed %d\n" % (prop, TIER, SEED))
            if h.get("fail"):
                f.write("\nfailing input on the real code (replay: cd /verif && VERIF_SEED=%d VERIF_TIER=%s %s %s %d %s):\n  case: %s\n  what: %s\n" % (SEED, TIER, os.path.join(BUILD, "harness/debug/vharness"), prop, SEED, TIER, h["fail"]["case"], h["fail"]["msg"]))
            for x in failed:
                f.write("\nfailed obligation: %s in %s (unit %s)\n  clause: %s\n%s\n" % (x["message"], x["fn"], x["unit"], x["clause"], x["rendered"]))
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "proof", "coverage": cov, "assumptions": CFG["assumptions"] + cfg.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": viol}
    json.dump(ev, open(os.path.join(EV, prop + ".json"), "w"), indent=1)
    print("%s: %d of %d obligations discharged over %d functions of /repo (%s); bounded stand-in: %d evaluations, %d distinct non-trivial; %.0f s" %
          (prop, ver, ver + err, len(fns), ", ".join("%s %s" % (u["unit"], u["status"]) for u in units), h.get("evaluations", 0), h.get("distinct", 0), time.time() - t0))
    for x in undec:
        print("undecided by proof this run (bounded stand-in only): " + x)
    for k in known_findings():
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", k)
        if m and m.group(1) == prop and m.group(2) in h.get("known", []):
            print("KNOWN-FINDING: property=%s %s" % (prop, m.group(3)))
    if h.get("fail"):
        print("  failing input: %s\n  %s" % (h["fail"]["case"][:600], h["fail"]["msg"][:600]))
    for x in failed[:5]:
        print("  failed obligation: %s: %s [%s]" % (x["fn"], x["message"], x["clause"][:160]))
    if line:
        print(line)
        sys.exit(1)
    if h.get("error"):
        print("ERROR: " + h["error"])
        sys.exit(3)
    sys.exit(0)


if __name__ == "__main__":
    main()
