"""check.py PID: decides one property on /repo's current tree.  Exit 0 or 1, nothing else."""
import os, sys, json, time, re, traceback, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rx, nat

SHAPE_ONLY = False
THOROUGH = rx.TIER == "thorough"


class Proof:
    """One verifier run: `ok`, or `failures` (obligations refuted or not proved), or `undecided`."""
    def __init__(self, name, engine):
        self.name, self.engine = name, engine
        self.obligations = self.discharged = 0
        self.failures, self.undecided, self.functions, self.trust = [], [], [], []
        self.cmd, self.time, self.smt_ms, self.bounded = "", 0.0, 0, ""
        self.shape = {}         # function -> shape, compared with the committed baseline


def verus_proof(name, build, functions, expect_min, smoke=None):
    """build() -> (text, shape). A proof that verifies fewer obligations than the committed minimum is void."""
    p = Proof(name, "Verus (Z3)")
    p.functions = list(functions)
    t0 = time.time()
    if SHAPE_ONLY:
        p.shape = build()[1]
        return p
    try:
        text, p.shape = build()
        path = os.path.join(rx.BUILD, "verus_%s.rs" % name)
        rx.write_if_changed(path, text)
        p.trust = rx.scan_trust(text)
        r = rx.run_verus(path, timeout=420, rlimit=300 if THOROUGH else 150)
        p.cmd, p.smt_ms = r.cmd, r.smt_ms
        p.obligations, p.discharged = r.verified + r.errors, r.verified
        p.failures, p.undecided = r.failures, list(r.undecided)
        if r.ok and r.verified < expect_min:
            p.undecided.append("only %d obligations were generated, at least %d expected" % (r.verified, expect_min))
        if r.ok and smoke:
            # vacuity guard: the same text with a false postcondition added must be refused
            bad = smoke(text)
            if bad:
                path2 = os.path.join(rx.BUILD, "verus_%s_smoke.rs" % name)
                rx.write_if_changed(path2, bad[0])
                r2 = rx.run_verus(path2, timeout=300, rlimit=50, extra=["--verify-root"] + sum([["--verify-function", f] for f in bad[1]], []))
                names = {f["fn"] for f in r2.failures}
                for f in bad[1]:
                    if f not in names and not r2.undecided:
                        p.undecided.append("contract of %s is vacuous: it proves false" % f)
    except rx.Undecided as ex:
        p.undecided.append(str(ex))
    except Exception:
        p.undecided.append("machinery: " + traceback.format_exc()[-1500:])
    p.time = time.time() - t0
    return p


def kani_proof(name, module, harnesses, functions, timeout=480, bounded="", extra=()):
    """Contracts checked by Kani over the full domain of the bytes and words the functions read."""
    import kani
    p = Proof(name, "Kani (CBMC)")
    p.functions, p.bounded = list(functions), bounded
    if SHAPE_ONLY:
        return p
    try:
        res, p.cmd, p.time, note = kani.run(module, harnesses, timeout=timeout, extra=extra)
        for h, r in res.items():
            p.obligations += r["checks"]
            p.discharged += r["checks"] - r.get("nfail", 0)
            if r["status"] == "fail":
                for m in r["failed"]:
                    p.failures.append(dict(fn=h, msg=m, detail="harness %s: %s" % (h, "; ".join(r["failed"]))))
                p.shape[h] = "kani"
            elif r["status"] != "ok":
                p.undecided.append("%s: %s %s" % (h, r.get("why", ""), note[-400:]))
            elif r["checks"] < 2:
                p.undecided.append("%s: no obligations" % h)
    except Exception:
        p.undecided.append("machinery: " + traceback.format_exc()[-1500:])
    return p


def fn_shape(x, keys):
    """What a refutation is worth something against: the loops and calls of each extracted function."""
    s = {}
    for k in keys:
        f = x["functions"].get(k)
        if not f or "error" in f:
            continue
        b = f["body"]
        s[k] = "loops=%d params=%s" % (len(re.findall(r"__vloop", b)), ",".join(p["name"] for p in f["params"]))
    return s


def baseline_shape():
    try:
        return json.load(open(os.path.join(rx.VERIF, "baseline/shape.json")))
    except OSError:
        return {}


class Native:
    def __init__(self, group, quick=45, search=120, thorough=240, prop=None):
        self.group, self.quick, self.search, self.thorough, self.prop = group, quick, search, thorough, prop


def known_findings(pid):
    out = []
    p = os.path.join(rx.VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) (.*)", l)
            if m and m.group(1) == pid:
                out.append(m.group(2).strip())
    return out


def main(pid):
    import registry
    t0 = time.time()
    spec = registry.PROPS[pid]
    os.makedirs(os.path.join(rx.VERIF, "evidence"), exist_ok=True)
    os.makedirs(rx.BUILD, exist_ok=True)
    print("property %s (%s): %s" % (pid, rx.TIER, spec["title"]))
    proofs = []
    for mk in spec["proofs"]:
        p = mk()
        proofs.append(p)
        st = "accepted" if not p.failures and not p.undecided else "NOT accepted"
        print("  %s [%s]: %s, %d/%d obligations, %.0f s" % (p.name, p.engine, st, p.discharged, p.obligations, p.time))
        for f in p.failures[:8]:
            print("    failed obligation in %s: %s" % (f["fn"], f["msg"]))
        for u in p.undecided[:4]:
            print("    undecided: %s" % u[:300].replace("\n", " "))
    clean = all(not p.failures and not p.undecided for p in proofs)
    natives, violation = [], None
    for n in spec.get("native", []):
        secs = n.thorough if THOROUGH else (n.quick if clean else max(20, min(n.search, 780 - (time.time() - t0))))
        if violation:
            break
        try:
            r = nat.run(n.group, n.prop or spec["drv"], secs)
        except Exception:
            r = dict(status="none", cases=0, message="machinery: " + traceback.format_exc()[-800:])
        r["group"], r["mode"] = n.group, n.prop or spec["drv"]
        natives.append(r)
        print("  native driver %s: %s, %d cases %s" % (n.group, r["status"], r["cases"], r["message"][:400]))
        if r["status"] == "fail":
            violation = r
    replay = os.path.join(rx.VERIF, "evidence", "replay_%s.json" % pid)
    if os.path.exists(replay):
        os.remove(replay)
    rc, line = 0, ""
    first = next((f for p in proofs for f in p.failures), None)
    base = baseline_shape()
    solid = [(p, f) for p in proofs for f in p.failures
             if p.shape.get(f["fn"]) == "kani" or p.shape.get(f["fn"]) and base.get(p.name, {}).get(f["fn"]) == p.shape.get(f["fn"])]
    if violation:
        json.dump(dict(property=pid, kind="input", driver=violation["group"], mode=violation["mode"], message=violation["message"],
                       params=violation["params"], bytes=violation["bytes"], case=violation["case"].hex(),
                       obligation=first, how="python3 lib/replay.py " + os.path.relpath(replay, rx.VERIF)), open(replay, "w"), indent=1)
        rc, line = 1, "VIOLATION property=%s replay=%s" % (pid, replay)
    elif solid:
        p, f = solid[0]
        json.dump(dict(property=pid, kind="obligation", proof=p.name, function=f["fn"], obligation=f["msg"], verifier_output=f["detail"],
                       all_failed=[dict(fn=g["fn"], msg=g["msg"]) for _, g in solid], command=p.cmd,
                       searched=[dict(driver=n["group"], cases=n["cases"], note=n["message"]) for n in natives]), open(replay, "w"), indent=1)
        rc, line = 1, "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay)
    if not line and not clean and not any(n["status"] == "ok" and n["cases"] for n in natives):
        raise rx.Undecided("neither the proof nor the search gave an answer: " + "; ".join([u for p in proofs for u in p.undecided] + [n["message"] for n in natives])[:1500])
    kf = known_findings(pid)
    oblig = sum(p.obligations for p in proofs)
    disc = sum(p.discharged for p in proofs)
    trust = sorted(set(t for p in proofs for t in p.trust) | set(spec.get("trusted", [])))
    level = "proof" if clean and oblig else "other"
    cov = dict(obligations=oblig, discharged=disc, checker_cmd="; ".join(p.cmd for p in proofs if p.cmd), trusted_base=trust,
               proofs=[dict(name=p.name, engine=p.engine, functions=p.functions, obligations=p.obligations, discharged=p.discharged,
                            seconds=round(p.time, 1), smt_ms=p.smt_ms, bounded=p.bounded, failed=[f["msg"] + " in " + str(f["fn"]) for f in p.failures],
                            undecided=[u[:300] for u in p.undecided]) for p in proofs],
               native_companion=[dict(driver=n["group"], mode=n["mode"], cases=n["cases"], status=n["status"], note=n["message"][:300],
                                      label="bounded, not counted as proved") for n in natives])
    if level == "other":
        cov["explanation"] = ("The verifier did not accept every obligation on this tree (see proofs); the answer of this run rests on "
                              "the bounded native search with the real code, which is not a proof.")
    else:
        cov["explanation"] = spec.get("explanation", "")
    ev = dict(property=pid, tier=rx.TIER, seed=rx.SEED, level=level, coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=1 if rc else 0)
    with open(os.path.join(rx.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if line:
        print(line)
    else:
        print("held" + ("" if clean else " on everything explored (bounded: the proof was not redone)"))
    return rc


if __name__ == "__main__":
    pid = sys.argv[1]
    try:
        rc = main(pid)
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc(file=sys.stdout)
        # an internal error is no statement about the code
        os.makedirs(os.path.join(rx.VERIF, "evidence"), exist_ok=True)
        json.dump(dict(property=pid, tier=rx.TIER, seed=rx.SEED, level="other",
                       coverage=dict(explanation="internal error of the check: " + traceback.format_exc()[-1000:]), wall_s=0.0, violations=0),
                  open(os.path.join(rx.VERIF, "evidence", pid + ".json"), "w"))
        rc = 2
    sys.exit(rc)
