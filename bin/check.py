#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property on /repo's current working tree.

1. Every proof unit of the property (bin/units.py) is compiled from the current
   source text with its contracts and given to CBMC.  A unit is
     PROVED    every obligation discharged and the end of the harness reachable
     FAILED    a contract-level obligation (postcondition, call precondition,
               lemma, safety check) has a counterexample
     UNDECIDED the verifier gave no verdict about the property: time or memory
               limit, source no longer fits the harness (does not compile, loop
               not fully unwound, frame or loop annotation no longer fits)
2. The bounded stand-in for the same property (native/: the unmodified library
   under ASan/UBSan against independent oracles) runs at the same time.  It
   covers what is not under contract, supplies the failing input for a FAILED
   unit, and is the only verdict for an UNDECIDED one; it is never counted as
   proved.

exit 0, or exit 1 with VIOLATION property=<id> replay=<path>.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
import annot, native, units

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
SOFT = re.compile(r"VPTOOL|unwinding assertion|recursion unwinding|loop invariant|loop_invariant|decreases|variant|"
                  r"is assignable|is freeable|no body|assigns clause|loop assigns|undefined function|included in")
LINE = re.compile(r"^\[([^\]]+)\] (?:file \S+ )?(?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$")


def limits(mem):
    def f():
        import resource
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


def run(cmd, to, mem=8 << 30, cwd=None):
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, preexec_fn=limits(mem),
                         stdin=subprocess.DEVNULL, text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=to)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        rc = "timeout"
    return rc, out or "", time.time() - t


SEM = threading.Semaphore(int(os.environ.get("VERIF_JOBS", "7")))


def split_run(cb, to, mem):
    rc, out, _ = run(cb + ["--show-properties"], 60)
    props = re.findall(r"^Property (\S+):", out, re.M)

    def one(p):
        with SEM:
            if stop:
                return "timeout", "", 0.0
            r = run(cb + ["--slice-formula", "--property", p], to, mem)
        if r[0] == "timeout":
            stop.append(p)
        return r

    stop = []
    with ThreadPoolExecutor(max_workers=64) as ex:
        rs = list(ex.map(one, props))
    bad = [r[0] for r in rs if r[0] not in (0, 10)]
    lines = [ln for r in rs for ln in r[1].splitlines() if LINE.match(ln.strip()) or "no body" in ln or "VERIFICATION" in ln]
    if not props:
        lines = out.splitlines()
    return (bad[0] if bad else 0), "\n".join(lines), sum(r[2] for r in rs)


def run_unit(u, prop, tmp, tier):
    """-> dict(name, status, why, obligations, discharged, failed, wall, out)"""
    d = os.path.join(tmp, "u_" + re.sub(r"\W", "_", u["name"]))
    os.makedirs(d, exist_ok=True)
    res = dict(name=u["name"], functions=u["functions"], status="UNDECIDED", why="", obligations=0, discharged=0,
               failed=[], solver_s=0.0, out="", bounded=u.get("bounded", ""))
    if u.get("smt2"):
        rc, out, w = run(u["smt2"] + [os.path.join(VERIF, "contracts", u["file"])], u.get("timeout", 120))
        res.update(cmd=" ".join(u["smt2"]), solver_s=round(w, 1), obligations=1, out=out[-2000:])
        last = out.strip().splitlines()[-1:]
        if last == ["unsat"] or (rc == 0 and last and "depends on axioms: [propext, Quot.sound]" in last[0]):
            res.update(status="PROVED", discharged=1)
        else:
            res["why"] = "lemma not proved (rc %s)" % rc
        return res
    inc = ["-I" + d]
    try:
        for src, loops in u.get("annot", {}).items():
            text = open(os.path.join(REPO, "src", src)).read()
            open(os.path.join(d, os.path.basename(src)), "w").write(annot.annotate(text, loops, src))
    except annot.Misfit as e:
        res["why"] = "loop annotation does not fit: %s" % e
        return res
    except OSError as e:
        res["why"] = str(e)
        return res
    inc += ["-I" + os.path.join(VERIF, "contracts"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "include"),
            "-I" + os.path.join(REPO, "src/blake2")]
    a, b = os.path.join(d, "a.gb"), os.path.join(d, "b.gb")
    cmd = (["goto-cc", "-DNDEBUG", "-DLIBRSYNC_STATIC_DEFINE", "-DP_" + prop] + ["-D" + x for x in u.get("defs", [])] + inc
           + ["--function", u["harness"], os.path.join(VERIF, "contracts", u["file"]), "-o", a])
    rc, out, w = run(cmd, 120)
    if rc != 0:
        res["why"], res["out"] = "goto-cc could not compile the unit", out[-3000:]
        return res
    m = re.search(r"function '(\w+)' is not declared", out)
    if m:
        res["why"] = "function %s is not declared in the current source" % m.group(1)
        return res
    if u.get("enforce") or u.get("replace") or u.get("loops"):
        gi = ["goto-instrument", "--dfcc", u["harness"]]
        for f in u.get("enforce", []):
            gi += ["--enforce-contract", f]
        for f in u.get("replace", []):
            gi += ["--replace-call-with-contract", f]
        if u.get("loops"):
            gi += ["--apply-loop-contracts"]
        rc, out, w = run(gi + [a, b], 120)
        if rc != 0:
            res["why"], res["out"] = "goto-instrument rejected the unit", out[-3000:]
            return res
    elif u.get("calls"):
        rc, out, w = run(["goto-instrument"] + [x for c in u["calls"] for x in ("--replace-calls", c)] + [a, b], 120)
        if rc != 0:
            res["why"], res["out"] = "goto-instrument rejected the unit", out[-3000:]
            return res
    else:
        b = a
    cb = ["cbmc", b, "--unwind", str(u.get("unwind", 10)), "--unwinding-assertions", "--no-malloc-may-fail", "--drop-unused-functions"]
    if u.get("solver", "cadical"):
        cb += ["--sat-solver", u.get("solver", "cadical")] if u.get("solver", "cadical") in ("cadical", "minisat2") else ["--" + u["solver"]]
    if not u.get("checks"):
        cb += ["--no-standard-checks"]
    cb += u.get("cbmc", [])
    res["cmd"] = " ".join(cb[:1] + ["<unit>"] + cb[2:])
    to = u.get("timeout", 300) * (3 if tier == "thorough" else 1)
    if u.get("split"):                    # one run per obligation
        res["cmd"] += " --slice-formula --property <each>"
        rc, out, w = split_run(cb, to, u.get("mem", 6) << 30)
    else:
        with SEM:
            rc, out, w = run(cb, to, u.get("mem", 6) << 30)
    res["solver_s"] = round(w, 1)
    if rc == "timeout":
        res["why"] = "time limit"
        return res
    reach_seen = reach_ok = False
    soft, hard, n, ok = [], [], 0, 0
    for ln in out.splitlines():
        m = LINE.match(ln.strip())
        if not m:
            continue
        nm, _, desc, st = m.groups()
        if "REACH" in desc:
            reach_seen = True
            reach_ok |= st == "FAILURE"
            continue
        if "pointer_arithmetic" in nm or "pointer relation" in desc:
            continue
        n += 1
        if st == "SUCCESS":
            ok += 1
        elif SOFT.search(desc) or SOFT.search(nm):
            soft.append(nm + ": " + desc)
        elif st == "FAILURE":
            hard.append(nm + ": " + desc)
        else:
            soft.append(nm + ": " + desc + " " + st)
    res.update(obligations=n, discharged=ok)
    nobody = [x for x in re.findall(r"no body for (?:function|callee) (\S+)", out) if not x.startswith("__CPROVER")]
    nobody = [x for x in nobody if x.strip("'") not in u.get("havoc_ok", [])]
    if not n or "VERIFICATION" not in out:
        res["why"], res["out"] = "verifier stopped (rc %s)" % rc, out[-2000:]
    elif nobody:
        res["why"] = "call to a function outside the unit: " + ", ".join(sorted(set(nobody))[:5])
    elif hard and all("unwinding" in s for s in soft):
        res.update(status="FAILED", failed=hard, why="; ".join(hard)[:400])
        if u.get("split"):
            cb += ["--slice-formula", "--property", hard[0].split(":")[0]]
        rc, tr, _ = run(cb + ["--trace", "--stop-on-fail"], min(300, 60 + 3 * int(w)), u.get("mem", 6) << 30)
        res["out"] = out[-6000:] + "\n==== verifier trace (first failing obligation) ====\n" + tr[-40000:]
    elif soft or hard:
        res["why"], res["out"] = "annotation does not fit: " + "; ".join(soft)[:400], out[-3000:]
    elif reach_seen and not reach_ok:
        res["why"] = "harness end unreachable (vacuous)"
    else:
        res["status"] = "PROVED"
    return res


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence")
    rep = os.path.join(ev, "replay")
    os.makedirs(rep, exist_ok=True)
    us = units.for_property(prop, tier)
    tmp = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    try:
        nat = native.Native(prop, tier, SEED, tmp, REPO, VERIF)
        nt = threading.Thread(target=nat.run)
        nt.start()
        order = sorted(us, key=lambda u: -u.get("est", 1))
        with ThreadPoolExecutor(max_workers=32) as ex:
            results = list(ex.map(lambda u: run_unit(u, prop, tmp, tier), order))
        nt.join()
        failed = [r for r in results if r["status"] == "FAILED"]
        undecided = [r for r in results if r["status"] == "UNDECIDED"]
        if failed and not nat.failures:
            nat.search_more()
        viol = []
        if nat.failures:
            p = os.path.join(rep, prop + "_input.txt")
            with open(p, "w") as f:
                f.write("Property %s fails on the real code for the input below.\n\n" % prop)
                for x in nat.failures:
                    f.write(x + "\n\n")
                for r in failed:
                    f.write("Failed obligations of %s:\n  %s\n\n%s\n" % (r["name"], "\n  ".join(r["failed"]), r["out"]))
            viol.append("VIOLATION property=%s replay=%s" % (prop, p))
        elif failed:
            p = os.path.join(rep, prop + "_obligation.txt")
            with open(p, "w") as f:
                f.write("Property %s: the verifier rejects these obligations; the search on the real code found no failing input.\n" % prop)
                for r in failed:
                    f.write("\nUnit %s (%s)\n  %s\n\n%s\n" % (r["name"], r.get("cmd", ""), "\n  ".join(r["failed"]), r["out"]))
            viol.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
        n = sum(r["obligations"] for r in results if not r["bounded"])
        ok = sum(r["discharged"] for r in results if not r["bounded"] and r["status"] == "PROVED")
        fns = sorted({f for r in results if r["status"] == "PROVED" and not r["bounded"] for f in r["functions"]})
        nproved = sum(r["status"] == "PROVED" and not r["bounded"] for r in results)
        level = units.level(prop)
        cov = dict(obligations=n, discharged=ok,
                   checker_cmd="goto-cc; goto-instrument --dfcc H --enforce-contract F; cbmc --unwinding-assertions (CBMC 6.11.0, CaDiCaL back end), per unit",
                   trusted_base=units.trusted(prop),
                   functions_under_contract=fns,
                   units=[{k: r[k] for k in ("name", "functions", "status", "why", "obligations", "discharged", "solver_s", "bounded")} for r in results],
                   units_proved=nproved, units_undecided=len(undecided), units_failed=len(failed),
                   solver_seconds=round(sum(r["solver_s"] for r in results), 1),
                   bounded_stand_in=nat.summary())
        cov.update(evaluations=nat.cases, distinct_nontrivial=nat.nontriv, rule=native.RULE.get(prop, ""), samples=nat.samples[:4])
        e = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=cov,
                 assumptions=units.assumptions(prop), wall_s=round(time.time() - t0, 1), violations=len(viol))
        json.dump(e, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
        for r in results:
            print("%-9s %-34s %4d/%-4d %6.1fs %s" % (r["status"], r["name"], r["discharged"], r["obligations"], r["solver_s"], r["why"][:200]))
        print("bounded   native: %s" % nat.summary()["text"])
        try:
            for ln in open(os.path.join(VERIF, "known-findings.txt")):
                if ln.startswith("KNOWN-FINDING: property=%s " % prop):
                    print(ln.strip())
        except OSError:
            pass
        print("%s %s: %d units proved, %d undecided, %d failed; %d/%d obligations; %.0f s" % (
            prop, tier, nproved, len(undecided), len(failed), ok, n, time.time() - t0))
        for v in viol:
            print(v)
        sys.stdout.flush()
        return 1 if viol else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
