#!/usr/bin/env python3
"""run_check.py Cxx [quick|thorough]

Decides one property on /repo's current working tree:
  1. gover generates every proof obligation of the contracts (contracts/*.gvc)
     from /repo's source and discharges them with z3 / cvc5;
  2. the executable form of the contracts (harness/Cxx) runs against the real code
     through a build overlay: it is the replay for failed obligations and the bounded
     stand-in for the functions out of the verifier's reach.
Exit 0: all obligations discharged and no failing input.  Exit 1: VIOLATION line.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
if tier not in ("quick", "thorough"):
    tier = "quick"
try:
    seed = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    seed = 1
T0 = time.time()
LIMIT = 820 if tier == "quick" else 3300

env = dict(os.environ)
env.update(GOENV="off", GOWORK="off", GO111MODULE="on", GOPROXY="off", GOSUMDB="off",
           GOTOOLCHAIN="local", GOFLAGS="-mod=mod", VERIF_SEED=str(seed), VERIF_TIER=tier)
env.setdefault("HOME", "/root")
env.setdefault("GOPATH", "/root/go")
env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
env.setdefault("GOCACHE", "/root/.cache/go-build")
for k in ("GOROOT", "http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY"):
    env.pop(k, None)


def left():
    return LIMIT - (time.time() - T0)


def run(cmd, cwd, timeout, e=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=e or env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=max(5, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return -9, out + "\n[timed out]"


def build_gover():
    b = os.path.join(V, ".build")
    os.makedirs(b, exist_ok=True)
    exe = os.path.join(b, "gover")
    src = os.path.join(V, "gover")
    newest = max(os.path.getmtime(os.path.join(src, f)) for f in os.listdir(src))
    if not (os.path.exists(exe) and os.path.getmtime(exe) > newest):
        rc, out = run(["go", "build", "-o", exe + ".new", "."], src, 400)
        if rc != 0:
            print(out)
            raise SystemExit("gover does not build")
        os.replace(exe + ".new", exe)
    return exe


known = []
kf = os.path.join(V, "known_findings.txt")
if os.path.exists(kf):
    for l in open(kf):
        l = l.strip()
        m = re.match(r"KNOWN-FINDING: property=(\S+) id=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            known.append((m.group(2), m.group(3)))


def tail(s, n):
    return s if len(s) <= n else s[:n // 2] + "\n...\n" + s[-n // 2:]


# further proofs of a property: other contract sets (forprops) over the same source
PARTS = {"C08": [("C08N", ["-kinds", "nonblocking"])]}


def deductive(work):
    exe = build_gover()
    rep = os.path.join(work, "report.json")
    t = "15" if tier == "quick" else "120"
    dl = 330 if tier == "quick" else 1500
    smt = os.path.join(work, "smt")
    os.makedirs(smt, exist_ok=True)
    r, outs = None, ""
    for part, extra in [(prop, [])] + PARTS.get(prop, []):
        rc, out = run([exe, "-repo", REPO, "-contracts", os.path.join(V, "contracts"), "-prop", part,
                       "-t", t, "-deadline", str(dl), "-out", rep, "-work", smt] + extra, V, dl + 120)
        outs += out
        try:
            p = json.load(open(rep))
            os.remove(rep)
        except Exception:
            return rc, outs, None
        if r is None:
            r = p
            continue
        for k, v in p.items():
            if isinstance(v, list) or v is None:
                r[k] = (r.get(k) or []) + (v or [])
            elif isinstance(v, int):
                r[k] = r.get(k, 0) + v
            elif isinstance(v, dict):
                r[k] = r.get(k) or {}
                for a, b in v.items():
                    r[k][a] = r[k].get(a, 0) + b
    return rc, outs, r


def harness(work):
    """returns list of (name, status, output, stats, samples)"""
    d = os.path.join(V, "harness", prop)
    cfgp = os.path.join(d, "spec.json")
    res = []
    if not os.path.exists(cfgp):
        return res
    cfg = json.load(open(cfgp))
    for i, r in enumerate(cfg["runs"]):
        if r.get("tier") == "thorough" and tier != "thorough":
            continue
        rep = {}
        for base, _, fs in os.walk(os.path.join(V, "harness", "vh")):
            for f in fs:
                rep[os.path.join(REPO, "verifh", os.path.relpath(base, os.path.join(V, "harness", "vh")), f).replace("/./", "/")] = os.path.join(base, f)
        for dst, srcf in r["files"].items():
            rep[os.path.join(REPO, dst)] = os.path.join(d, srcf)
        e = dict(env)
        hd = os.path.join(work, "h%d" % i)
        os.makedirs(hd, exist_ok=True)
        e["VERIF_SCRATCH"] = hd
        e["VERIF_REPO"] = REPO
        e.update(r.get("env", {}))
        for tr in r.get("transform", []):
            # mechanical instrumentation of the current source (schedule points)
            outd = os.path.join(hd, "src")
            os.makedirs(outd, exist_ok=True)
            rc, o = run([build_tool(tr["tool"]), "-out", outd] + [os.path.join(REPO, f) for f in tr["files"]], V, 120)
            if rc != 0:
                res.append((r["name"], "nobuild", o, {}, []))
                break
            for f in tr["files"]:
                rep[os.path.join(REPO, f)] = os.path.join(outd, os.path.basename(f))
        else:
            ov = os.path.join(hd, "overlay.json")
            json.dump({"Replace": rep}, open(ov, "w"))
            to = r.get("timeout", 120) * (1 if tier == "quick" else 6)
            cmd = ["go", "test", "-overlay", ov, "-vet=off", "-count=1", "-v", "-timeout", "%ds" % to, "-run", r["run"]]
            if r.get("race"):
                cmd.append("-race")
            if r.get("tags"):
                cmd += ["-tags", r["tags"]]
            cmd.append(r["pkg"])
            rc, out = run(cmd, REPO, min(to + 150, left() - 10), e)
            st, sm = {}, []
            for m in re.finditer(r"^VERIF-STAT ([^=\n]+)=(\d+)$", out, re.M):
                st[m.group(1)] = st.get(m.group(1), 0) + int(m.group(2))
            for m in re.finditer(r"^VERIF-SAMPLE (.*)$", out, re.M):
                sm.append(m.group(1)[:400])
            if rc == 0:
                s = "pass" if re.search(r"^--- PASS", out, re.M) else "vacuous"
            elif re.search(r"\[(build|setup) failed\]|no required module|cannot find", out) and "--- FAIL" not in out:
                s = "nobuild"
            elif rc == -9 and "VERIF-FAIL" not in out and "panic:" not in out:
                s = "killed"
            else:
                s = "fail"
            res.append((r["name"], s, out, st, sm))
    return res


_tools = {}


def build_tool(name):
    if name not in _tools:
        exe = os.path.join(V, ".build", name)
        src = os.path.join(V, "tools", name)
        os.makedirs(os.path.join(V, ".build"), exist_ok=True)
        rc, out = run(["go", "build", "-o", exe, "."], src, 200)
        if rc != 0:
            raise SystemExit(out)
        _tools[name] = exe
    return _tools[name]


def main():
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    rdir = os.path.join(V, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    try:
        # --harness / --proof: development aids, never used by the registered commands
        rc, gout, rep = (0, "", None) if "--harness" in sys.argv else deductive(work)
        hres = [] if "--proof" in sys.argv else harness(work)
    finally:
        shutil.rmtree(work, ignore_errors=True)

    failed, notes = [], []
    if rep is None:
        failed = ["extraction: the verifier could not load the source"]
        rep = {"functions": [], "obligations": [], "total": 0, "discharged": 0, "backends": {}, "solver_ms": 0,
               "trusted": [], "externals": [], "vacuity_checks": 0, "instances": 0, "queries": 0}
    else:
        for k in ("functions", "obligations", "trusted", "externals", "failed"):
            rep[k] = rep.get(k) or []
        failed = list(rep["failed"])
        if rep["total"] == 0:
            failed.append("no obligation generated")
    kn = {k: d for k, d in known}
    kf_hit = []
    concrete = []
    known_runs = set()
    for name, s, out, st, sm in hres:
        if s == "fail":
            ids = re.findall(r"VERIF-FAIL \[(\S+?)\]", out)
            if ids and all(i in kn for i in ids):
                kf_hit += ids
                known_runs.add(name)
                continue
            concrete.append((name, out))
        elif s in ("nobuild", "killed", "vacuous"):
            failed.append("bounded stand-in %s: %s" % (name, s))
            notes.append((name, out))
    for k, d in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    failed = [f for f in failed if f not in kn]

    replay = os.path.join(rdir, "%s.txt" % prop)
    viol = 0
    lines = []
    if concrete or failed:
        viol = 1
        with open(replay, "w") as f:
            for n, o in concrete:
                f.write("== failing input found by harness %s (go test -overlay; seed %d) ==\n%s\n\n" % (n, seed, tail(o, 20000)))
            if failed:
                f.write("== obligations not discharged ==\n")
                for n in failed:
                    f.write(n + "\n")
                for o in rep.get("obligations") or []:
                    if o["status"] != "discharged":
                        f.write("\n-- %s  (%s) status=%s back end=%s\n%s\n%s\n" % (o["name"], o.get("pos", ""), o["status"], o.get("backend", ""), o.get("note", ""), o.get("output", "")))
                f.write("\nverifier output:\n" + tail(gout, 8000))
            for n, o in notes:
                f.write("\n== %s ==\n%s\n" % (n, tail(o, 8000)))
        if concrete:
            lines.append("VIOLATION property=%s replay=%s" % (prop, replay))
        else:
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
    elif os.path.exists(replay):
        os.remove(replay)

    meta = {}
    mp = os.path.join(V, "contracts", "assumptions.json")
    if os.path.exists(mp):
        meta = json.load(open(mp))
    fns = [f["key"] for f in rep["functions"]]
    trusted = sorted(set(rep.get("trusted") or []))
    exts = sorted(rep.get("externals") or [])
    cov = {
        "obligations": rep["total"],
        "discharged": rep["discharged"],
        "checker_cmd": ".build/gover -repo %s -contracts contracts -prop %s" % (REPO, prop),
        "trusted_base": trusted + ["external function left uninterpreted: " + x for x in exts] + meta.get("base", []),
        "functions_under_contract": fns,
        "function_details": rep["functions"],
        "obligation_instances": rep.get("instances", 0),
        "vacuity_checks": rep.get("vacuity_checks", 0),
        "back_ends": rep.get("backends", {}),
        "solver_ms": rep.get("solver_ms", 0),
        "failed_obligations": failed,
        "bounded_stand_ins": [{"name": n, "status": "known finding" if n in known_runs else s, "counts": st, "samples": sm} for n, s, o, st, sm in hres],
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
        "assumptions": meta.get("base", []) + meta.get(prop, []) + trusted,
        "wall_s": round(time.time() - T0, 1), "violations": viol,
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged over %d functions, solver %d ms; stand-ins: %s; %.1fs" % (
        prop, rep["discharged"], rep["total"], len(fns), rep.get("solver_ms", 0),
        ", ".join("%s=%s" % (n, "known" if n in known_runs else s) for n, s, *_ in hres) or "none", time.time() - T0))
    for f in failed[:20]:
        print("  not discharged:", f)
    for n, o in concrete:
        for m in re.findall(r"VERIF-FAIL .*", o)[:3]:
            print("  " + m[:500])
    for l in lines:
        print(l)
    sys.exit(1 if viol else 0)


main()
