#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

1. Extract the functions under contract from /repo's working tree (vx).
2. Verus must accept every obligation of every function in the property's cone.
3. The concrete replay (harness) runs the same property on the real crates.

exit 0: accepted and quiet.  exit 1: VIOLATION line.
A function that the extraction or the verifier's front end cannot take (an
unsupported construct, a lost anchor, a resource limit) is not a violation: its
contract is assumed for the rest of the unit, it is reported as bounded (decided
by the concrete replay only) and not counted as discharged.
"""
from concurrent.futures import ThreadPoolExecutor
import json, os, re, signal, subprocess, sys, threading, time, shutil, resource

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "bin"))
from props import PROPS  # noqa

OUT = os.path.join(HERE, "out")
TGT = os.path.join(HERE, "target")
VX = os.path.join(TGT, "vx", "release", "vx")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="stable")
ENV["PATH"] = os.path.expanduser("~/.cargo/bin") + ":/usr/local/bin:" + ENV.get("PATH", "")
T0 = time.time()
ASSUME = [("all", "usize is 64 bits; buffers and vectors are shorter than 2^48 elements"),
          ("all", "message strings (format!, Display) and log output have no effect on results"),
          ("cursor", "AsRef::as_ref returns the same bytes on every call"), ("bitstream", "AsRef::as_ref returns the same bytes on every call"),
          ("unroll", "AsRef::as_ref returns the same bytes on every call"),
          ("unroll", "indexmap's IndexMap behaves as a map (stand-in); a clone of a Block equals it; PartialMapCtx::default() has empty tables"),
          ("attrs", "hashbrown's HashMap and indexmap's IndexMap behave as a map (stand-ins)"), ("rec", "indexmap's IndexMap behaves as a map (stand-in)")]


def sh(cmd, timeout=None, cwd=None, env=None, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, cwd=cwd, env=env or ENV, **kw)
    except subprocess.TimeoutExpired as e:
        o = e.stdout or ""
        if isinstance(o, bytes):
            o = o.decode("utf8", "replace")
        return subprocess.CompletedProcess(cmd, -999, o, "timeout")


def build_vx():
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(TGT, "vx"))
    r = sh(["cargo", "build", "--offline", "--release", "-q"], cwd=os.path.join(HERE, "vx"), env=env, timeout=600)
    return r.returncode == 0 or os.path.exists(VX), r.stderr[-2000:]


# the replay crates: harness uses /repo's public interface only, harness2 needs its cfg(vx_hooks) access
RUSTFLAGS = {"harness": "-Awarnings", "harness2": "-Awarnings --cfg vx_hooks"}


def start_harness_build(crate):
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(TGT, crate), RUSTFLAGS=RUSTFLAGS[crate])
    return subprocess.Popen(["cargo", "build", "--offline", "-q"], cwd=os.path.join(HERE, crate), env=env,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


# ------------------------------------------------------------------ verus
ANSI = re.compile(r"\x1b\[[0-9;]*m")


def run_vx(unit, degrade, tag, extra=()):
    rs, js = f"{OUT}/{tag}.rs", f"{OUT}/{tag}.json"
    for f in (rs, js):
        if os.path.exists(f):
            os.remove(f)
    cmd = [VX, f"{HERE}/units/{unit}.vc", REPO, rs, js]
    for d in degrade:
        cmd += ["--degrade", d]
    cmd += list(extra)
    r = sh(cmd, timeout=120)
    if r.returncode != 0 or not os.path.exists(js):
        return None, (r.stderr or r.stdout)[-3000:]
    return json.load(open(js)), rs


def run_group(cmd, timeout):
    """like sh, but ends the solvers with the verifier"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd=OUT, env=ENV, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return subprocess.CompletedProcess(cmd, p.returncode, o, e)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return subprocess.CompletedProcess(cmd, -999, "", "timeout")


def run_verus(rs, extra=(), air=False, limit=None):
    lg = rs[:-3] + ".log"
    shutil.rmtree(lg, ignore_errors=True)
    cmd = ["verus", "--output-json", "--time-expanded", "--error-format=json", "--num-threads", "7"]
    if air:
        cmd += ["--log", "air", "--log-dir", lg]
    cmd += list(extra) + [os.path.basename(rs)]
    r = run_group(cmd, limit or max(60, min(240, 620 - (time.time() - T0))))
    res, diags = None, []
    i = r.stdout.find("{")
    if i >= 0:
        try:
            res = json.loads(r.stdout[i:])
        except ValueError:
            res = None
    for line in r.stderr.splitlines():
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("level") == "error" and not d.get("message", "").startswith("aborting due to"):
                diags.append(d)
    return {"cmd": " ".join(cmd), "rc": r.returncode, "res": res, "diags": diags, "err": r.stderr, "log": lg}


def fn_at(info, line):
    for f in info["functions"]:
        if f["start"] <= line <= f["end"]:
            return f
    return None


def owner(info, d):
    """the extracted function a diagnostic belongs to"""
    msg = d["message"]
    spans = d.get("spans", [])
    order = []
    for s in spans:
        lab = (s.get("label") or "")
        w = 0 if s.get("is_primary") else 1
        if "failed precondition" in lab or "failed this postcondition" in lab:
            w += 2
        order.append((w, s))
    order.sort(key=lambda x: x[0])
    for _, s in order:
        f = fn_at(info, s["line_start"])
        if f:
            return f["name"]
    m = re.search(r"function `?([\w:]+)`?", msg)
    if m:
        for f in info["functions"]:
            if f["name"].split("::")[-1] == m.group(1).split("::")[-1]:
                return f["name"]
    return None


def span_text(d):
    t = []
    for s in d.get("spans", []):
        t.append("%s:%d: %s%s" % (os.path.basename(s["file_name"]), s["line_start"], " ".join(x["text"].strip() for x in s.get("text", [])[:3])[:300],
                                  (" -- " + s["label"]) if s.get("label") else ""))
    return t


def air_counts(lg):
    """proof obligations (labelled AIR assertions) generated per function"""
    n, per = 0, {}
    if not os.path.isdir(lg):
        return 0, {}
    for f in os.listdir(lg):
        cur = None
        for line in open(os.path.join(lg, f), errors="replace"):
            if line.startswith(";; Function-Def "):
                cur = line.split()[2]
            elif line.startswith(";; "):
                if line.startswith((";; Function-Specs", ";; Function-Axioms", ";; Function-Decl")):
                    cur = None
            s = line.strip()
            if s == "(assert" or s.startswith("(assert ("):
                if f.count("._") or cur:
                    n += 1
                    per[cur or f] = per.get(cur or f, 0) + 1
    return n, per


def hanging(info, rs):
    lines, names = open(rs).read().splitlines(), []
    for f in info["functions"]:
        if f["has_contract"] and f["status"] == "contract":
            t = " ".join(lines[f["start"] - 1:f["end"]])
            n = re.search(r"\bfn\s+(\w+)", t)
            i = re.match(r"\s*impl\s*(?:<[^{]*?>\s+)?(\w+)", t)
            if n:
                names.append((f["name"], (i.group(1) + "::" if i and i.start(1) < n.start() else "") + n.group(1)))

    def one(x):
        r = run_group(["verus", "--num-threads", "1", "--triggers-mode", "silent", "--verify-root", "--verify-function", x[1], os.path.basename(rs)], 60)
        return x[0] if r.returncode == -999 else None
    with ThreadPoolExecutor(7) as ex:
        return [n for n in ex.map(one, names) if n]


def verify_unit(unit, concrete=lambda: False):
    """returns dict: status ok|failed|lost, degraded, failed obligations, counts"""
    degrade, why = [], {}
    tag = unit
    t = time.time()
    for _ in range(40):
        info, rs = run_vx(unit, degrade, tag)
        if info is None or info.get("fatal"):
            return {"unit": unit, "status": "lost", "reason": "extraction: " + (rs if info is None else "; ".join(map(str, info["fatal"]))), "degraded": why, "failed": [], "wall": time.time() - t}
        v = run_verus(rs, air=True)
        vr = (v["res"] or {}).get("verification-results", {})
        ran = v["res"] is not None and not vr.get("encountered-vir-error", True) and "verified" in vr and (vr.get("verified", 0) + vr.get("errors", 0) > 0)
        if ran:
            break
        # front-end rejection: find the functions concerned, and set them aside
        new = set()
        for d in v["diags"]:
            o = owner(info, d)
            if o and o not in degrade:
                new.add(o)
                why[o] = "front end: " + d["message"][:200]
        if v["rc"] == -999:
            # some query does not end, whatever its budget: find whose
            for o in hanging(info, rs):
                if o not in degrade:
                    new.add(o)
                    why[o] = "the solver does not end"
        if not new:
            return {"unit": unit, "status": "lost", "reason": "front end: " + "; ".join(d["message"][:200] for d in v["diags"][:3]) + v["err"][-300:] * (not v["diags"]),
                    "degraded": why, "failed": [], "wall": time.time() - t}
        degrade += sorted(new)
    else:
        return {"unit": unit, "status": "lost", "reason": "too many rejected functions", "degraded": why, "failed": [], "wall": time.time() - t}
    attempts = [v]
    # a failure must be stable: other solver seeds and a larger budget may still find the proof
    # (not needed when the concrete replay already shows a failing input)
    for seed in ((11, "30"), (5, "40")) if vr.get("errors") and not concrete() else ():
        if time.time() - T0 > 400:
            break
        v2 = run_verus(rs, ("--smt-option", f"smt.random_seed={seed[0]}", "--rlimit", seed[1]), air=True)
        vr2 = (v2["res"] or {}).get("verification-results", {})
        if "errors" in vr2 and not vr2.get("encountered-vir-error", True):
            attempts.append(v2)
            if vr2["errors"] == 0:
                break
    fails = []
    for k, a in enumerate(attempts):
        fs = {}
        for d in a["diags"]:
            o = owner(info, d) or "(lemma)"
            fs.setdefault(o, []).append(d)
        fails.append(fs)
    common = set(fails[0])
    for fs in fails[1:]:
        common &= set(fs)
    failed = []
    limited = {}
    soft = {f["name"]: f["soft"] for f in info["functions"] if f.get("soft")}
    for o in sorted(common):
        ds = fails[-1][o]
        real = [d for d in ds if "rlimit" not in d["message"] and "Resource limit" not in d["message"]]
        if not real:
            limited[o] = "resource limit"
            continue
        if o in soft:
            # the proof text refers to statements that are not there any more: says nothing about the code
            limited[o] = "proof hints without a place: " + "; ".join(soft[o])
            continue
        failed.append({"function": o, "obligations": [{"message": d["message"], "at": span_text(d), "text": ANSI.sub("", d.get("rendered") or "")[:3000]} for d in real]})
    best = attempts[-1]
    smt = (best["res"].get("times-ms") or {}).get("smt", {})
    fdet = []
    for m in smt.get("smt-run-module-times", []):
        fdet += m.get("function-breakdown", [])
    nobl, per = air_counts(best["log"])
    shutil.rmtree(best["log"], ignore_errors=True)
    return {"unit": unit, "status": "failed" if failed else "ok", "degraded": {**why, **{k: v for k, v in limited.items()}}, "failed": failed,
            "info": info, "rs": rs, "verified": best["res"]["verification-results"]["verified"], "errors": best["res"]["verification-results"]["errors"],
            "obligations": nobl, "per": per, "cmd": best["cmd"], "smt_ms": smt.get("total"), "queries": len(fdet), "wall": time.time() - t,
            "degrade_args": degrade, "verus": best["res"].get("verus", {}).get("version")}


def vacuity(unit, u, cone):
    """with `assert(false)` added after each precondition, every function that has one must fail;
    so must a function with no precondition (the assumptions alone do not contradict each other)"""
    info, rs = run_vx(unit, u["degrade_args"], unit + "_vac", ("--vacuity",))
    if info is None:
        return None, []
    s = re.sub(r"#\[verifier::rlimit\(\d+\)\]", "", open(rs).read())
    open(rs, "w").write(s)
    v = run_verus(rs, ("--multiple-errors", "0", "--rlimit", "2"))
    if v["res"] is None or v["res"]["verification-results"].get("encountered-vir-error"):
        return None, []
    hit = set()
    for d in v["diags"]:
        o = owner(info, d)
        if o:
            hit.add(o)
    exp = [f["name"] for f in info["functions"] if f["probed"] and f["name"] not in u["degraded"]]
    vac = [n for n in exp if n not in hit]
    return len(exp) - len(vac), vac


def scan_trusted(rs):
    out = []
    lines = open(rs).read().splitlines()
    for i, l in enumerate(lines):
        if re.search(r"external_body|assume_specification|\badmit\(|\bassume\(|external_type_specification|accept_recursive|uninterp", l) and not l.strip().startswith("//") and "proved in unit" not in l:
            nxt = " ".join(x.strip() for x in lines[i:i + 3])
            out.append(nxt[:160])
    return out


# ------------------------------------------------------------------ harness
def run_harness(prop, crate, binname, tier, seed, budget):
    exe = f"{TGT}/{crate}/debug/{binname}"
    outj = f"{OUT}/h_{prop}.json"
    os.makedirs(OUT, exist_ok=True)
    for f in (outj, outj + ".case"):
        if os.path.exists(f):
            os.remove(f)
    if not os.path.exists(exe):
        return {"status": "absent"}

    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))
    r = sh([exe, prop, tier, str(seed), outj], timeout=budget, preexec_fn=lim, cwd=OUT)
    cmd = f"{exe} {prop} {tier} {seed} {outj}"
    if r.returncode == 0 and os.path.exists(outj):
        return {"status": "ok", "cmd": cmd, "stats": json.load(open(outj))}
    if r.returncode == 3 and os.path.exists(outj):
        return {"status": "fail", "cmd": cmd, "case": json.load(open(outj))}
    if os.path.exists(outj + ".case"):
        try:
            case = json.load(open(outj + ".case"))
        except ValueError:
            case = {"input": open(outj + ".case").read()}
        if r.returncode != -999 or time.time() - os.path.getmtime(outj + ".case") > 20:
            case["exit"] = r.returncode
            case["stderr"] = r.stderr[-600:]
            return {"status": "fail", "cmd": cmd, "case": case}
    return {"status": "error", "cmd": cmd, "rc": r.returncode, "err": r.stderr[-1500:]}


def known_findings(prop):
    f = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\w+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[prop]
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    crate = cfg.get("crate", "harness")
    hb = start_harness_build(crate)
    okvx, vxerr = build_vx()
    box = {"h": {"status": "absent"}, "err": ""}
    budget = 240 if tier == "quick" else 2400

    def replay():
        _, herr = hb.communicate()
        if hb.returncode == 0:
            box["h"] = run_harness(prop, crate, cfg["harness"], tier, seed, budget)
        else:
            box["err"] = herr or "failed"
    th = threading.Thread(target=replay)
    th.start()

    def concrete():
        th.join()
        return box["h"]["status"] == "fail"
    units = []
    if okvx:
        with ThreadPoolExecutor(4) as ex:
            units = list(ex.map(lambda u: verify_unit(u, concrete), cfg["units"]))
    else:
        units = [{"unit": u, "status": "lost", "reason": "extractor did not build: " + vxerr, "degraded": {}, "failed": [], "wall": 0} for u in cfg["units"]]

    contracts, bounded, failed, trusted, notes = [], {}, [], set(), []
    used = set()
    obligations = discharged = 0
    smt_ms = 0
    probes = 0
    vacuous = []
    rules = {}
    for u in units:
        cone = cfg["units"][u["unit"]]
        inc = lambda n: cone == "*" or n in cone or n.split("/")[0] in cone
        if u["status"] == "lost":
            notes.append(f"unit {u['unit']} not verified this run: {u['reason'][:400]}")
            for n in (cone if cone != "*" else ["(all)"]):
                bounded[f"{u['unit']}::{n}"] = "not extracted / rejected by the front end"
            continue
        present = {f["name"] for f in u["info"]["functions"] if f["has_contract"]}
        for l in u["info"].get("lost", []):
            nm = l if isinstance(l, str) else str(l)
            bounded[f"{u['unit']}::{nm}"] = "lost anchor (no such function in /repo)"
        for f in u["info"]["functions"]:
            if f["status"] == "elsewhere":
                used.add(f"{f['name']} ({f['why']})")
                continue
            if not f["has_contract"] or not inc(f["name"]):
                continue
            if f["name"] in u["degraded"]:
                bounded[f["name"]] = u["degraded"][f["name"]]
            elif f["status"] == "contract":
                contracts.append(f"{f['name']} ({f['file']}:{f['src_line']})")
            else:
                bounded[f["name"]] = f["status"] + ": " + f["why"]
        for x in u["failed"]:
            if inc(x["function"]) or x["function"] == "(lemma)":
                failed.append(dict(x, unit=u["unit"], cmd=u["cmd"]))
            else:
                notes.append(f"outside this property's cone, not accepted: {x['function']}")
        obligations += u["obligations"]
        discharged += u["obligations"] - sum(len(x["obligations"]) for x in u["failed"])
        smt_ms += u["smt_ms"] or 0
        trusted |= set(scan_trusted(u["rs"]))
        for k, n in u["info"]["rules"].items():
            rules[k] = rules.get(k, 0) + n
        if not u["failed"]:
            n, vac = vacuity(u["unit"], u, cone)
            if n is None:
                notes.append(f"vacuity probe of {u['unit']} did not run")
            else:
                probes += n
                vacuous += vac
    if vacuous:
        notes.append("VACUOUS preconditions (contract counts as not proved): " + ", ".join(vacuous))
        for n in vacuous:
            bounded[n] = "vacuous precondition"
        contracts = [c for c in contracts if c.split(" (")[0] not in vacuous]

    th.join()
    h = box["h"]
    exe_ok = not box["err"]
    if exe_ok:
        if failed and h["status"] == "ok":
            # an obligation failed: look harder for a concrete input
            for s in (seed + 1000, seed + 2000, seed + 3000):
                if time.time() - T0 > 500:
                    break
                h2 = run_harness(prop, crate, cfg["harness"], "quick", s, 200)
                if h2["status"] == "fail":
                    h = h2
                    break
    else:
        notes.append("concrete replay did not build: " + box["err"][-600:])
    if h["status"] == "error":
        notes.append(f"concrete replay gave no verdict (rc {h.get('rc')}): {h.get('err', '')[-300:]}")

    violation = None
    os.makedirs(f"{OUT}/replay", exist_ok=True)
    rp = f"{OUT}/replay/{prop}.json"
    if os.path.exists(rp):
        os.remove(rp)
    if h["status"] == "fail":
        violation = f"VIOLATION property={prop} replay={rp}"
        json.dump({"property": prop, "kind": "failing input on the real code", "case": h["case"], "rerun": h["cmd"] + f" {h['case'].get('index', '')}",
                   "failed_obligations": failed}, open(rp, "w"), indent=1)
    elif failed:
        violation = f"VIOLATION property={prop} replay={rp} no-failing-input-found"
        json.dump({"property": prop, "kind": "failed obligation", "failed_obligations": failed, "replay": "the concrete replay found no failing input"}, open(rp, "w"), indent=1)

    kf = known_findings(prop)
    units_text = " all ".join(list(cfg["units"]) + ["all"])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "; ".join(f"{VX} units/{u['unit']}.vc {REPO} out/{u['unit']}.rs out/{u['unit']}.json && (cd out && {u.get('cmd', 'verus')})" for u in units),
            "back_end": "Verus (Z3 via AIR): " + str(next((u.get("verus") for u in units if u.get("verus")), "")),
            "functions_under_contract": contracts,
            "contracts_proved_in_another_unit": sorted(used),
            "obligations_by_function": {k.split("::", 1)[-1]: n for u in units for k, n in sorted(u.get("per", {}).items()) if "&%" not in k},
            "verified_items": sum(u.get("verified", 0) for u in units),
            "solver_ms": smt_ms,
            "vacuity_probes_failed_as_required": probes,
            "bounded_not_proved": bounded,
            "extraction_rules_applied": rules,
            "trusted_base": sorted(trusted) + ["Verus/vstd specifications of the Rust standard library", "vx extraction rules (DESIGN.md)"],
            "failed_obligations": [f"{x['function']}: {o['message']}" for x in failed for o in x["obligations"]],
            "concrete_replay": {"status": h["status"], **(h.get("stats") or {}), "bound": "seeded enumeration and random inputs; a bounded check, never counted as proved"},
            "notes": notes,
        },
        "assumptions": cfg.get("assumptions", []) + [a for k, a in ASSUME if k in units_text.split()],
        "wall_s": round(time.time() - T0, 2), "violations": 1 if violation else 0,
    }
    json.dump(ev, open(f"{HERE}/evidence/{prop}.json", "w"), indent=1)
    for k in kf:
        print(f"KNOWN-FINDING: property={prop} {k}")
    print(f"{prop}: {len(contracts)} functions under contract, {discharged}/{obligations} obligations discharged, {len(bounded)} bounded; replay {h['status']}; {ev['wall_s']}s")
    for n in notes:
        print("note:", n)
    for f in failed:
        print("failed obligation:", f["function"], "|", "; ".join(o["message"] for o in f["obligations"]))
    if violation:
        print(violation)
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
