#!/usr/bin/env python3
"""check.py ID            run the check of one property (VERIF_TIER, VERIF_SEED)
check.py --setup         build everything the checks need
check.py --replay FILE   re-run the failing case of a replay file

The deciding step is Verus accepting every obligation generated from /repo's current source
(contracts/*.vc, extracted mechanically by extract/).  The harness (bounded, labelled so) looks
for a failing input against the real crate: it replays failed obligations and stands in for
functions outside the verifier's reach."""
import fcntl, glob, json, os, re, signal, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
REPO = os.environ.get("VH_REPO", "/repo")
TC = "1.98.1-x86_64-unknown-linux-gnu"
EXT = f"{B}/ext/release/extract"
HT = "h" if REPO == "/repo" else "halt"
VH = f"{B}/{HT}/debug/vh"
CRATES = "svd_rs svd_parser svd_encoder yaml_rust2 anyhow hashlink globset itertools regex once_cell phf log".split()
sys.path.insert(0, V)
from props import PROPS  # noqa: E402

VERIF_MSGS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
              "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied",
              "unable to prove", "possible bit shift", "constructed value may fail", "assertion not satisfied",
              "loop must have a decreases", "requires not satisfied", "recommendation not met", "not satisfied",
              "possible truncation", "cannot prove", "could not prove", "unreachable code", "index out of bounds")
# a unit's verifier run, and all proofs of one check, end after this many seconds: what is not decided then is reported undecided
UNIT_LIMIT = 400
DEADLINE = time.time() + (560 if os.environ.get("VERIF_TIER", "quick") == "quick" else 3600)
RLIMIT = ("rlimit", "resource limit", "timed out", "solver crashed", "could not finish")


def sh(cmd, log=None, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if log:
        open(log, "w").write(p.stdout)
    return p.returncode, p.stdout


class Build:
    """cargo builds, each under its own lock so that parallel checks do not collide"""

    @staticmethod
    def one(name, manifest, target, args, toolchain=None):
        os.makedirs(B, exist_ok=True)
        with open(f"{B}/{name}.lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            env = dict(os.environ, CARGO_TARGET_DIR=f"{B}/{target}", CARGO_NET_OFFLINE="true")
            env.pop("RUSTFLAGS", None)
            c = ["cargo"] + ([f"+{toolchain}"] if toolchain else []) + ["build", "--offline", "--manifest-path", f"{V}/{manifest}"] + args
            return sh(c, f"{B}/{name}.log", env=env)

    @staticmethod
    def ext():
        return Build.one("ext", "extract/Cargo.toml", "ext", ["--release"])

    @staticmethod
    def vdeps():
        return Build.one("vdeps", "vdeps/Cargo.toml", "vdeps", [], TC)

    @staticmethod
    def harness():
        m = "harness/Cargo.toml"
        if REPO != "/repo":  # development only: a scratch copy of the harness pointed elsewhere
            d = f"{B}/alt"
            os.makedirs(d, exist_ok=True)
            for f in ("Cargo.lock",):
                open(f"{d}/{f}", "w").write(open(f"{V}/harness/{f}").read())
            t = open(f"{V}/harness/Cargo.toml").read().replace('path = "/repo"', f'path = "{REPO}"')
            t += f'\n[[bin]]\nname = "vh"\npath = "{V}/harness/src/main.rs"\n'
            open(f"{d}/Cargo.toml", "w").write(t)
            m = "build/alt/Cargo.toml"
        return Build.one(HT, m, HT, [])


def par(fs):
    out = [None] * len(fs)

    def run(i):
        try:
            out[i] = fs[i]()
        except Exception as e:  # noqa: BLE001
            out[i] = e
    ts = [threading.Thread(target=run, args=(i,)) for i in range(len(fs))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for o in out:
        if isinstance(o, Exception):
            raise o
    return out


def verus_cmd(f, extra):
    d = f"{B}/vdeps/debug/deps"
    c = ["verus", f, "-L", f"dependency={d}"]
    for k in CRATES:
        r = sorted(glob.glob(f"{d}/lib{k}-*.rlib"), key=os.path.getmtime)
        if r:
            c += ["--extern", f"{k}={r[-1]}"]
            if k == "yaml_rust2":
                c += ["--extern", f"yaml_rust={r[-1]}"]
    return c + ["--triggers-mode", "silent"] + extra


def extract(unit, out, rep, stubs=(), canary=False):
    c = [EXT, "--repo", REPO, "--contract", f"{V}/contracts/{unit}.vc", "--out", out, "--report", rep]
    if stubs:
        c += ["--stub", ",".join(sorted(stubs))]
    if canary:
        c += ["--canary"]
    rc, o = sh(c)
    if rc:
        raise RuntimeError("extract: " + o)
    return json.load(open(rep))["functions"]


def run_verus(f, logdir, extra=()):
    """-> (json or None, [diag])"""
    ex = ["--output-json", "--time-expanded", "--error-format=json", "--num-threads", "4"] + list(extra)
    if logdir:
        ex += ["--log-dir", logdir, "--log", "air-final"]
    try:
        p = subprocess.Popen(verus_cmd(f, ex), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=os.path.dirname(f), start_new_session=True)
        so, se = p.communicate(timeout=max(1, min(UNIT_LIMIT, DEADLINE - time.time())))
    except subprocess.TimeoutExpired:
        # the verifier's own session: its solver ends with it
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, [{"kind": "rlimit", "msg": "verifier timed out", "lines": [], "text": "verifier timed out"}]
    try:
        js = json.loads(so[so.index("{"):])
    except ValueError:
        js = None
    ds = []
    for l in se.splitlines():
        if not l.startswith("{"):
            if "panicked at" in l:
                ds.append({"kind": "tool", "msg": l, "lines": [], "text": l})
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") != "error":
            continue
        m = d.get("message", "")
        if m.startswith("aborting due to"):
            continue
        low = m.lower()
        if any(x in low for x in RLIMIT):
            k = "rlimit"
        elif d.get("code") is None and any(x in low for x in VERIF_MSGS) and "not supported" not in low:
            k = "verif"
        else:
            k = "compile"
        sp = d.get("spans", [])
        ds.append({"kind": k, "msg": m, "lines": [s["line_start"] for s in sp if s.get("is_primary")] + [s["line_start"] for s in sp if not s.get("is_primary")],
                   "labels": [f"{s.get('label')}: {(s.get('text') or [{}])[0].get('text', '').strip()}" for s in sp], "text": d.get("rendered", m)})
    return js, ds


def owner(fns, lines):
    for ln in lines:
        for f in fns:
            g = f.get("gen_lines")
            if g and g[0] <= ln <= g[1]:
                return f["name"]
    return None


def scan_trusted(text):
    """mechanical scan of the generated file for everything that is assumed rather than proved"""
    out = []
    for m in re.finditer(r"assume_specification(?:<[^\[]*>)?\s*\[\s*(.*?)\s*\]\s*\(", text):
        out.append("assumed contract of dependency: " + m.group(1).strip("[] "))
    for m in re.finditer(r"external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:broadcast\s+)?(proof fn|fn|struct)\s+(\w+)", text):
        out.append({"proof fn": "axiom: ", "fn": "trusted wrapper or stub: ", "struct": "opaque type: "}[m.group(1)] + m.group(2))
    for m in re.finditer(r"\baxiom fn (\w+)", text):
        out.append("axiom: " + m.group(1))
    for m in re.finditer(r"\bassume\(|\badmit\(", text):
        out.append("assume/admit at offset %d" % m.start())
    for m in re.finditer(r"uninterp spec fn (\w+)", text):
        out.append("uninterpreted: " + m.group(1))
    return sorted(set(out))


def prove(unit, wd):
    """-> dict with functions, failed obligations, undecided functions, counts"""
    t0 = time.time()
    stubs, undecided, log = set(), {}, []
    rep = {"unit": unit, "failed": [], "undecided": undecided, "functions": [], "obligations": 0, "discharged": 0, "solver_ms": 0, "trusted": [], "cmd": ""}
    src = f"{wd}/{unit}.rs"
    for it in range(8):
        fns = extract(unit, src, f"{wd}/{unit}.json", stubs)
        for f in fns:
            if f.get("lost"):
                undecided.setdefault(f["name"], "anchor not found in current source: %s" % f["lost"])
        ld = f"{wd}/{unit}.log"
        js, ds = run_verus(src, ld)
        bad = [d for d in ds if d["kind"] in ("compile", "tool")]
        rl = [d for d in ds if d["kind"] == "rlimit"]
        if js is None and not ds:
            bad = [{"kind": "tool", "msg": "no answer from the verifier", "lines": [], "text": ""}]
        new = {}
        for d in bad + rl:
            o = owner([f for f in fns if not f.get("stub")], d["lines"])
            if o and o not in stubs:
                new.setdefault(o, f"{'outside the verifier' if d in bad else 'solver limit'}: {d['msg'][:200]}")
        if (bad or rl) and not new:
            # cannot be attributed to one function: the unit is undecided
            d = (bad or rl)[0]
            for f in fns:
                if not f.get("imported"):
                    undecided.setdefault(f["name"], ("unit not accepted: " if bad else "solver limit: ") + d["msg"][:200])
            rep["unit_error"] = d["text"][:2000]
            rep["functions"] = fns
            break
        if new:
            stubs |= set(new)
            undecided.update(new)
            continue
        ver = [d for d in ds if d["kind"] == "verif"]
        vr = js.get("verification-results", {}) if js else {}
        if not ver and not (vr.get("success") and vr.get("errors") == 0 and vr.get("verified", 0) > 0):
            # nothing counts as proved unless the verifier says that it succeeded
            for f in fns:
                if not f.get("imported"):
                    undecided.setdefault(f["name"], "the verifier did not report success")
            rep["unit_error"] = "the verifier did not report success: %r" % vr
            rep["functions"] = fns
            break
        failing = {}
        for d in ver:
            failing.setdefault(owner(fns, d["lines"]) or "?", []).append(d)
        rep["functions"] = fns
        rep["failed"] = [{"function": k, "obligations": [{"message": d["msg"], "where": d.get("labels", []), "verifier_output": d["text"][:3000]} for d in v]} for k, v in failing.items()]
        air = f"{ld}/root-final.air"
        n = 0
        if os.path.exists(air):
            t = open(air).read()
            n = t.count("(location") - t.count("recommendation not met")
        rep["obligations"] = n
        rep["discharged"] = n - sum(len(v) for v in failing.values())
        if js:
            rep["verified"] = js.get("verification-results", {}).get("verified")
            rep["errors"] = js.get("verification-results", {}).get("errors")
            mods = js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", [])
            rep["solver_ms"] = js.get("times-ms", {}).get("smt", {}).get("total", 0)
            rep["function_ms"] = {f["function"].split("::")[-1] if "::" in f["function"] else f["function"]: f.get("time-micros", 0) // 1000 for m in mods for f in m.get("function-breakdown", [])}
        break
    else:
        rep["unit_error"] = "no stable set of functions within the verifier's reach"
    rep["trusted"] = scan_trusted(open(src).read())
    rep["cmd"] = "verus %s.rs (extracted from %s by extract/ with contracts/%s.vc)" % (unit, REPO, unit)
    # vacuity: with assert(false) at the start of every body, every function must fail
    live = [f["name"] for f in rep["functions"] if not f.get("stub") and not f.get("imported")]
    if not rep.get("unit_error"):
        csrc = f"{wd}/{unit}_canary.rs"
        cf = extract(unit, csrc, f"{wd}/{unit}_canary.json", stubs, canary=True)
        js, ds = run_verus(csrc, None)
        # refuted, or not provable within the limits under which the real obligations are proved
        hit = {owner(cf, d["lines"]) for d in ds if d["kind"] in ("verif", "rlimit")}
        vac = [n for n in live if n not in hit]
        for n in vac:
            undecided.setdefault(n, "vacuous: the canary assertion is not refuted")
        rep["vacuous"] = vac
    rep["proved"] = [n for n in live if n not in undecided and n not in {f["function"] for f in rep["failed"]}]
    rep["wall_s"] = round(time.time() - t0, 1)
    return rep


def harness(pid, seed, mult, out, limit=600, extra=()):
    """-> json or None"""
    if os.path.exists(out):
        os.remove(out)
    scratch = f"{out}.scratch"
    os.makedirs(scratch, exist_ok=True)
    try:
        p = subprocess.run([VH, pid, "--seed", str(seed), "--mult", str(mult), "--out", out, "--limit", str(limit), "--scratch", scratch] + list(extra),
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=limit + 120)
        if p.returncode not in (0,):
            sys.stderr.write(p.stderr[-2000:])
    except subprocess.TimeoutExpired:
        pass
    finally:
        subprocess.run(["rm", "-rf", scratch])
    try:
        return json.load(open(out))
    except (OSError, ValueError):
        return None


def known_findings():
    out = []
    p = f"{V}/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    if "--setup" in sys.argv:
        r = par([Build.ext, Build.vdeps, Build.harness])
        for rc, o in r:
            if rc:
                print(o[-3000:])
                return 2
        return 0
    if "--replay" in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        rc, o = Build.harness()
        f = r.get("failing_input")
        if rc or not f:
            print(o[-2000:] if rc else "no failing input recorded; failed obligations:\n" + json.dumps(r.get("failed_obligations"), indent=1))
            return 2
        os.execv(VH, [VH, r["property"], "--seed", str(f["seed"]), "--case", str(f["case"]), "--scratch", f"{B}/replay.scratch"])
    pid = sys.argv[1]
    P = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    wd = f"{B}/run/{pid}.{os.getpid()}"
    os.makedirs(wd, exist_ok=True)
    try:
        return run(pid, P, tier, seed, t0, wd)
    finally:
        subprocess.run(["rm", "-rf", wd])


def run(pid, P, tier, seed, t0, wd):
    # the three builds; proofs start as soon as the extractor and the dependencies are there
    res = {}

    def proofs():
        for rc, o in par([Build.ext, Build.vdeps]):
            if rc:
                raise RuntimeError("build of the proof tools failed\n" + o[-3000:])
        res["proofs"] = par([(lambda u=u: prove(u, wd)) for u in P["units"]])

    def bounded():
        rc, o = Build.harness()
        if rc:
            raise RuntimeError("/repo does not build\n" + o[-3000:])
        if P.get("harness", True):
            mult = 1 if tier == "quick" else 20
            res["h"] = harness(pid, seed, mult, f"{wd}/h.json", limit=150 if tier == "quick" else 1500)

    par([proofs, bounded])
    proofs_, h = res["proofs"], res.get("h")
    failed = [dict(f, unit=r["unit"]) for r in proofs_ for f in r["failed"]]
    if failed and P.get("harness", True) and h and not h["failures"]:
        # replay: search harder for an input on which the real code shows the failed obligation
        h2 = harness(pid, seed + 1000003, 12, f"{wd}/h2.json", limit=240)
        if h2 and h2["failures"]:
            h = h2
    os.makedirs(f"{V}/evidence", exist_ok=True)
    os.makedirs(f"{B}/replay", exist_ok=True)
    kf = [k for k in known_findings() if k[0] == pid]
    hfail = h["failures"] if h else []
    hknown = {k["key"] for k in (h or {}).get("known", [])}
    viol = bool(hfail or failed)
    fns = {}
    for r in proofs_:
        for f in r["functions"]:
            n = f["name"]
            st = "proved" if n in r["proved"] else ("FAILED" if n in {x["function"] for x in r["failed"]} else
                                                    ("not decided this run: " + r["undecided"][n] if n in r["undecided"] else "contract assumed here"))
            # proved in one unit and used through its contract in another: proved
            rank = ["FAILED", "proved", "not decided", "contract"]
            if n in fns and [i for i, k in enumerate(rank) if fns[n]["status"].startswith(k)] <= [i for i, k in enumerate(rank) if st.startswith(k)]:
                continue
            fns[n] = {"source": f"{f['file']} {f.get('impl', '')} {f.get('fn', '')}".strip(), "status": st}
            if f.get("rewrites"):
                fns[n]["mechanical_rewrites"] = f["rewrites"]
    obligations = sum(r["obligations"] for r in proofs_)
    discharged = sum(r["discharged"] for r in proofs_)
    undecided = {n: s["status"] for n, s in fns.items() if s["status"].startswith("not decided")}
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "; ".join(r["cmd"] for r in proofs_),
        "trusted_base": ["Verus 0.2026.09.13 and Z3 (back end of every obligation)", "the extractor's rewrite rules (DESIGN.md)"] + sorted({t for r in proofs_ for t in r["trusted"]}) + P.get("trusted", []),
        "functions_under_contract": fns,
        "functions_proved": sum(1 for s in fns.values() if s["status"] == "proved"),
        "functions_not_decided_this_run": undecided,
        "canary": "assert(false) inserted in every body: refuted in %d of %d functions" % (
            sum(len([f for f in r["functions"] if not f.get("stub") and not f.get("imported")]) - len(r.get("vacuous", [])) for r in proofs_),
            sum(len([f for f in r["functions"] if not f.get("stub") and not f.get("imported")]) for r in proofs_)),
        "solver_ms": sum(r["solver_ms"] for r in proofs_),
        "proof_wall_s": max([r["wall_s"] for r in proofs_] or [0]),
    }
    if h:
        cov["bounded_harness"] = {"label": "bounded: random cases against the real crate, not counted as proved", "evaluations": h["evaluations"], "distinct_nontrivial": h["distinct_nontrivial"],
                                  "rule": h["rule"], "classes": h["classes"], "samples": h["samples"], "skipped": h["skipped"], "wall_s": h["wall_s"]}
        if P["level"] == "exploration":
            cov.update({"evaluations": h["evaluations"], "distinct_nontrivial": h["distinct_nontrivial"], "rule": h["rule"], "samples": h["samples"]})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov,
          "assumptions": P.get("assumptions", []) + ["error texts are abstracted: contracts speak of success and failure only",
                                                     "resource exhaustion is not modelled; panics are outside the contracts except where an obligation excludes them (index, overflow)"],
          "wall_s": round(time.time() - t0, 1), "violations": len(hfail) + len(failed)}
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for _, key, text in kf:
        if key in hknown or not P.get("harness", True):
            print(f"KNOWN-FINDING: property={pid} {text}")
    print(f"{pid}: {cov['functions_proved']} functions proved, {discharged}/{obligations} obligations discharged, {len(undecided)} undecided"
          + (f"; bounded: {h['evaluations']} cases, {h['distinct_nontrivial']} non-trivial" if h else ""))
    for n, s in undecided.items():
        print(f"  undecided {n}: {s}")
    if not viol:
        if h is None and P.get("harness", True):
            print("harness gave no answer")
            return 2
        return 0
    rp = f"{B}/replay/{pid}.json"
    json.dump({"property": pid, "failing_input": hfail[0] if hfail else None, "more_failing_inputs": hfail[1:], "failed_obligations": failed,
               "how_to_replay": f"python3 {V}/check.py --replay {rp}"}, open(rp, "w"), indent=1)
    for f in failed:
        print(f"  failed obligation in {f['function']} ({f['unit']}): " + "; ".join(o["message"] for o in f["obligations"]))
    if hfail:
        print(f"  failing input (case {hfail[0]['case']}): {hfail[0]['why'][:600]}")
    print(f"VIOLATION property={pid} replay={rp}" + ("" if hfail else " no-failing-input-found"))
    return 1


if __name__ == "__main__":
    try:
        sys.exit(main())
    except RuntimeError as e:
        print(e)
        sys.exit(2)
