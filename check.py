#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current tree."""
import json, os, sys, time, threading
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "ptv"))
import build, run, kani

LEVEL = json.load(open(os.path.join(VERIF, "spec", "levels.json"))) if os.path.exists(os.path.join(VERIF, "spec", "levels.json")) else {}
EXPECT_F = os.path.join(VERIF, "spec", "expected.json")
FINDINGS = os.path.join(VERIF, "known_findings.json")


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    flags = [a for a in sys.argv[1:] if a.startswith("-")]
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = args[2:] or None
    t0 = time.time()
    pre = "h_%s_" % pid.lower()
    sel = lambda n: n.startswith(pre) and (only is None or n in only)
    opts = run.Opts()
    if tier == "thorough":
        opts.ms, opts.symex_s, opts.hard_s, opts.search_ms, opts.search_n, opts.total_s = 20000, 300, 600, 20000, 3000000, 3600
    opts.verbose = "-v" in flags
    rec = {"property": pid, "tier": tier, "seed": seed}
    out = {}
    errs = []

    def go(what):
        try:
            c = build.Crate(only=sel)
            out[what] = (c, c.build(what))
        except build.BuildError as e:
            errs.append("%s: %s" % (what, e))
    ths = [threading.Thread(target=go, args=(w,)) for w in ("mir", "native")]
    [x.start() for x in ths]
    [x.join() for x in ths]
    if "native" not in out and "mir" not in out:
        print("cannot build: " + "\n".join(errs))
        sys.exit(2)
    tb = time.time() - t0
    expected = json.load(open(EXPECT_F)).get(pid, {}) if os.path.exists(EXPECT_F) else {}
    res = {}
    # native stand-in and vacuity check run beside the prover
    nat = {}
    names = []
    if "native" in out:
        c, binary = out["native"]
        names = [n for n in c.harnesses if sel(n)]

        def search(n):
            nat[n] = run.native(binary, ["search", n, seed, opts.search_n, opts.search_ms], opts.search_ms / 1000.0 + 30)

        def allsearch():
            with run.ThreadPoolExecutor(3) as tp:
                list(tp.map(search, names))
        nt = threading.Thread(target=allsearch)
    kres = {}

    def bitprecise():
        c0 = out["mir"][0]
        ks = [n for n in c0.harnesses if "_kani_" in n and sel(n)]
        if ks:
            kres.update(kani.run(ks, c0, tier))
    if "mir" in out:
        mir = out["mir"][1]
        kt = threading.Thread(target=bitprecise)
        kt.start()
        res = run.verify(mir, opts, set(n.rsplit("::", 1)[1] for n, _ in mir["roots"] if sel(n.rsplit("::", 1)[1]) and "_kani_" not in n and "_native_" not in n))
        kt.join()
        res.update(kres)
    if "native" in out:
        nt.start()
        nt.join()
    # ---------------------------------------------------------------- judge
    lost = {}
    for w in out:
        lost.update(dict((k, v) for k, v in out[w][0].lost.items() if sel(k)))
    violations = []
    summary = {}
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)

    def violation(n, kind, detail, found):
        path = os.path.join(rdir, "%s_%s.json" % (pid, n))
        json.dump({"property": pid, "harness": n, "kind": kind, "detail": detail,
                   "replay_command": "assemble with ptv/build.py, then: ptvrun replay %s %s %s" % (n, detail.get("seed", 1), " ".join(str(x) for x in detail.get("inputs", [])))}, open(path, "w"), indent=1)
        violations.append((path, n, found, kind, detail))
    allnames = sorted(set(names) | set(res) | set(lost))
    stats = {"obligations": 0, "proved": 0, "panic_obligations": 0, "by": {}, "solver_s": 0.0}
    for n in allnames:
        r, s = res.get(n), nat.get(n)
        h = {"native": None}
        if s is not None:
            h["native"] = {k: s.get(k) for k in ("ran", "passed", "skipped")}
        failed_native = s is not None and (s.get("code") in (1, 2))
        labels = {}
        if r is not None:
            h.update(paths=r.get("paths"), unsupported=r.get("unsupported"), seconds=round(r.get("s", 0), 2))
            for o in r["obl"]:
                l = labels.setdefault(o["label"], {"proved": 0, "unknown": 0, "refuted": 0, "skipped": 0})
                l[o["verdict"]] += 1
                stats["obligations"] += 1
                stats["solver_s"] += o["s"]
                if o["verdict"] == "proved":
                    stats["proved"] += 1
                    for k in o["how"].split("+"):
                        stats["by"][k] = stats["by"].get(k, 0) + 1
        h["labels"] = labels
        ok = r is not None and not r.get("unsupported") and labels and all(l["proved"] and not (l["unknown"] or l["refuted"] or l["skipped"]) for l in labels.values())
        h["status"] = "proved" if ok else "bounded" if s is not None and s.get("passed") else "open"
        if n in lost:
            h["lost"] = lost[n]
        if failed_native:
            violation(n, "native", {"fails": s["fails"], "seed": s.get("seed"), "log": s.get("log", []), "inputs": [x[1] for x in s.get("log", [])]}, True)
        elif r is not None:
            tried = 0
            for o in r["obl"]:
                if o["verdict"] != "refuted":
                    continue
                rep = run.native(out["native"][1], ["replay", n, seed] + o["replay"], 20) if "native" in out else {}
                if rep.get("code") in (0, 3) and tried < 3:
                    # the model lies where the native reading of the contract does not apply, or does not fix everything: look around it
                    tried += 1
                    nr = run.native(out["native"][1], ["near", n, seed, 10 ** 7, 1500] + o["replay"], 20)
                    if nr.get("code") in (1, 2):
                        violation(n, "native, near the model of obligation %s at %s" % (o["label"], o["where"]), {"fails": nr["fails"], "seed": nr.get("seed"), "log": nr.get("log", []), "inputs": [x[1] for x in nr.get("log", [])]}, True)
                        break
                if rep.get("code") in (1, 2):
                    violation(n, "obligation %s at %s" % (o["label"], o["where"]), {"fails": rep["fails"], "inputs": o["replay"], "seed": seed, "goal": o.get("goal"), "path": o.get("pc")}, True)
                    break
            else:
                # an invariant is an artefact of the proof: if one is lost, what is refuted after it need not be about the code
                shape = r.get("shape_lost") or any(o["label"].startswith("loop invariant") and o["verdict"] != "proved" for o in r["obl"])
                for o in r["obl"]:
                    if not shape and o["verdict"] == "refuted" and o.get("genuine"):
                        was = expected.get(n, {}).get("proved")
                        if was:
                            violation(n, "obligation %s at %s" % (o["label"], o["where"]), {"inputs": o["replay"], "goal": o.get("goal"), "path": o.get("pc"), "verifier": "refuted over exact arithmetic by %s" % o["how"]}, False)
                            break
        if opts.verbose or only:
            h["obl"] = r["obl"] if r else None
        summary[n] = h
    # a harness proved on the unchanged tree whose proof did not go through: search longer before letting it pass
    if "native" in out:
        again = [n for n in summary if expected.get(n, {}).get("proved") and summary[n]["status"] != "proved" and n in names and not any(v[1] == n for v in violations)]

        def longer(n):
            ms = 25000 if tier == "quick" else 60000
            s = run.native(binary, ["search", n, seed + 1000, 10 ** 8, ms], ms / 1000.0 + 30)
            if s.get("code") in (1, 2):
                violation(n, "native", {"fails": s["fails"], "seed": s.get("seed"), "log": s.get("log", []), "inputs": [x[1] for x in s.get("log", [])]}, True)
            else:
                summary[n]["native_long"] = {k: s.get(k) for k in ("ran", "passed", "skipped")}
        with run.ThreadPoolExecutor(6) as tp:
            list(tp.map(longer, again))
    findings = json.load(open(FINDINGS)) if os.path.exists(FINDINGS) else {"known": [], "fixed": []}
    real = []
    for v in violations:
        kf = [f for f in findings["known"] if f["property"] == pid and f["harness"] == v[1] and all(any(f["match"] in x for x in [fl]) for fl in v[4].get("fails", ["?"]))]
        if kf:
            print("KNOWN-FINDING: property=%s %s" % (pid, kf[0]["what"]))
        else:
            real.append(v)
    vac = [n for n in names if nat.get(n, {}).get("passed", 0) == 0 and nat.get(n, {}).get("code") is None]
    proved = [n for n in summary if summary[n]["status"] == "proved"]
    bounded = [n for n in summary if summary[n]["status"] != "proved"]
    lv = LEVEL.get(pid, {})
    fns = sorted(set(f for r in res.values() for f in r.get("called", []) if "ptv" not in f))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": lv.get("level", "proof"), "wall_s": round(time.time() - t0, 1),
          "coverage": {"obligations": stats["obligations"], "discharged": stats["proved"],
                       "checker_cmd": "python3-vt check.py %s %s" % (pid, tier),
                       "trusted_base": TRUST,
                       "functions_under_contract": fns, "back_ends": stats["by"], "solver_s": round(stats["solver_s"], 1), "build_s": round(tb, 1),
                       "library_models": sorted(set(m for r in res.values() for m in r.get("models", []))),
                       "harnesses_proved": proved, "harnesses_bounded_not_proved": bounded, "harnesses": summary,
                       "vacuity": {"harnesses_without_a_passing_native_run": vac},
                       "evaluations": sum((nat[n].get("ran") or 0) for n in nat),
                       "lost": lost, "build_errors": errs}}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d harnesses proved, %d bounded only; %d/%d obligations; %.1fs (build %.1fs)" % (pid, len(proved), len(bounded), stats["proved"], stats["obligations"], time.time() - t0, tb))
    for n in summary:
        h = summary[n]
        if h["status"] != "proved" or opts.verbose:
            bad = dict((k, v) for k, v in h["labels"].items() if v["unknown"] or v["refuted"])
            print("  %-34s %-8s paths=%s %ss %s%s native=%s" % (n, h["status"], h.get("paths"), h.get("seconds"), ("UNSUPPORTED: %s " % h.get("unsupported")) if h.get("unsupported") else "", bad, h["native"]), h.get("lost", ""))
    if vac:
        print("  no passing native run: %s" % vac)
    if "--expect" in flags:
        e = json.load(open(EXPECT_F)) if os.path.exists(EXPECT_F) else {}
        e[pid] = dict((n, {"proved": n in proved}) for n in summary)
        json.dump(e, open(EXPECT_F, "w"), indent=1, sort_keys=True)
    for path, n, found, kind, detail in real:
        print("  failed: %s %s %s" % (n, kind, "; ".join(detail.get("fails", []))[:300]))
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if found else " no-failing-input-found"))
    sys.exit(1 if real else 0)


TRUST = ["MIR exporter (exporter/src/main.rs) and rustc nightly's MIR construction", "VC generator ptv/symex.py, library models ptv/models.py, simplifier ptv/terms.py",
         "polynomial identity checker ptv/prove.py (sympy rings), z3 5.3.2", "floating-point arithmetic idealised as exact real arithmetic (rounding ignored); machine integers exact with overflow obligations",
         "contracts in spec/*.rs", "Kani 0.68 / CBMC for harnesses named h_*_kani_* (bit-precise machine arithmetic, loops unwound completely with unwinding assertions)"]
if __name__ == "__main__":
    main()
