"""Property runner: hypothesis driven, sharded over processes, with replay files, known findings and evidence."""
import hashlib, json, os, subprocess, sys, time, traceback, collections, importlib, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
for p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if p not in sys.path:
        sys.path.append(p)
import numpy as np
import vexec, vfuncs, vlib, vclient, vbuild, vcmp   # noqa

class Failure:
    def __init__(self, sig, msg, finding=None):
        self.sig, self.msg, self.finding = sig, msg, finding
    def __repr__(self):
        return "%s: %s%s" % (self.sig, self.msg, " [finding %s]" % self.finding if self.finding else "")

class Part:
    """one executable piece of a property"""
    name = ""
    weight = 1
    target = {}            # keyword arguments of vclient.Target
    def strategy(self, tier):
        raise NotImplementedError
    def execute(self, d, ctx):
        """-> list of Failure"""
        raise NotImplementedError
    def nontrivial(self, d):
        return True
    examples = {"quick": 1000, "thorough": 10000}

class Ctx:
    def __init__(self, src, part):
        self.src, self.part = src, part
        self.targets = {}
        self.evals = 0
    def target(self, **kw):
        key = json.dumps(kw, sort_keys=True, default=str)
        t = self.targets.get(key)
        if t is None:
            kw = dict(kw)
            v = kw.pop("variant", None)
            t = self.targets[key] = vclient.Target(vbuild.variant(v) if v else self.src, **kw)
        return t
    def run(self, case, **kw):
        self.evals += 1
        r = self.target(**(kw or self.part.target)).run(case)
        if "\tlen: " in r.get("stdout", "") and not case.get("ledger") and not any(s[0] in ("mgmt", "bench") for s in case["steps"]):
            raise vclient.TargetPrinted(r["stdout"])
        return r
    def ref(self, case):
        return vexec.run_case(case)
    def both(self, case, **kw):
        """-> (got, want) ; got may be an exception Failure"""
        return self.run(case, **kw), self.ref(case)
    def close(self):
        for t in self.targets.values():
            t.kill()

class StopRun(KeyboardInterrupt):
    pass

def guarded(part, d, ctx):
    try:
        return part.execute(d, ctx)
    except vclient.TargetDied as e:
        return [Failure("crash", str(e)[:600])]
    except vclient.TargetPrinted as e:
        return [Failure("ledger off", "recorded although the ledger is off: %r" % str(e)[:300])]
    except vclient.TargetHung as e:
        return [Failure("hang", str(e)[:600])]

def dhash(d):
    return hashlib.sha1(json.dumps(d, sort_keys=True, default=str).encode()).hexdigest()[:16]

def run_shard(prop, partname, tier, seed, examples, budget, survey=False):
    from hypothesis import given, settings, HealthCheck, Phase, seed as hseed, Verbosity
    from hypothesis.internal.conjecture import engine
    if not hasattr(engine.ConjectureRunner, "_mutate"):
        # every random case is normally followed by five variations of itself: keep those rare, for more distinct cases
        engine.ConjectureRunner._mutate = engine.ConjectureRunner.generate_mutations_from
        engine.ConjectureRunner.generate_mutations_from = lambda self, data: self._mutate(data) if self.random.random() < 0.04 else None
    mod = importlib.import_module("props." + prop.lower())
    part = {p.name: p for p in mod.PARTS}[partname]
    src = vbuild.build()
    ctx = Ctx(src, part)
    known = known_ids(prop)
    t0 = time.monotonic()
    res = {"evals": 0, "nontrivial": set(), "known": collections.Counter(), "samples": [], "survey": {}, "fail": None, "runs": 0, "timeout": False}
    state = {"first": None}
    def body(d):
        now = time.monotonic()
        if state["first"] is None and now - t0 > budget:
            res["timeout"] = True
            return
        if state["first"] is not None and now - state["first"] > (90 if tier == "quick" else 240):
            raise StopRun()
        fails = guarded(part, d, ctx)
        res["runs"] += 1
        if state["first"] is None and part.nontrivial(d):
            res["nontrivial"].add(dhash(d))
            if len(res["samples"]) < 2 or (len(res["samples"]) < 4 and res["runs"] % 97 == 0):
                res["samples"].append(d)
        real = []
        for f in fails:
            if f.finding and f.finding in known:
                res["known"][f.finding] += 1
            else:
                real.append(f)
        if survey:
            for f in real:
                s = res["survey"].setdefault(f.sig, [0, f.msg, d])
                s[0] += 1
                if len(json.dumps(d, default=str)) < len(json.dumps(s[2], default=str)):
                    s[1], s[2] = f.msg, d
            return
        if real:
            if state["first"] is None:
                state["first"] = now
            res["fail"] = {"part": partname, "desc": d, "msg": str(real[0])[:2000], "sig": real[0].sig}
            raise AssertionError(real[0].sig)
    test = settings(max_examples=examples, database=None, deadline=None, derandomize=False, print_blob=False,
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                    phases=[Phase.generate] + ([] if survey else [Phase.shrink]), verbosity=Verbosity.quiet)(given(part.strategy(tier))(body))
    test = hseed(seed)(test)
    try:
        test()
    except StopRun:
        pass
    except AssertionError:
        pass
    except BaseException as e:   # noqa  hypothesis.errors.Flaky, ExceptionGroup ...
        if res["fail"] is None:
            ctx.close()
            raise
    ctx.close()
    res["evals"] = ctx.evals
    res["nontrivial"] = sorted(res["nontrivial"])
    res["known"] = dict(res["known"])
    res["wall"] = time.monotonic() - t0
    return res

def known_file():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)

def known_ids(prop):
    return {k["id"] for k in known_file()["findings"] if k["property"] == prop}

def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--part")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--examples", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--survey", action="store_true")
    ap.add_argument("--out")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "6")))
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args(argv)
    if a.shard is not None:
        seed = a.seed * 1000003 + a.shard * 7919 + int(hashlib.sha1(a.part.encode()).hexdigest()[:6], 16)
        r = run_shard(a.prop, a.part, a.tier, seed, a.examples, a.budget, a.survey)
        with open(a.out, "w") as f:
            json.dump(r, f, default=str)
        return 0
    return run_all(a)

def run_all(a):
    t0 = time.monotonic()
    prop, tier = a.prop, a.tier
    mod = importlib.import_module("props." + prop.lower())
    try:
        src = vbuild.build()
    except vbuild.BuildError as e:
        print("BUILD FAILED\n%s" % e)
        return 2
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    work = os.path.join(VERIF, ".build", "run_%s_%d" % (prop, os.getpid()))
    os.makedirs(work)
    rc = 0
    try:
        # pinned known findings first
        pinned_lines = []
        parts = {p.name: p for p in mod.PARTS}
        for k in known_file()["findings"]:
            if k["property"] != prop:
                continue
            ctx = Ctx(src, parts[k["part"]])
            fails = guarded(parts[k["part"]], k["desc"], ctx)
            ctx.close()
            if any(f.finding == k["id"] for f in fails):
                pinned_lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        for l in pinned_lines:
            print(l)
        sys.stdout.flush()
        budget = a.budget or {"quick": 150.0, "thorough": 650.0}[tier]
        jobs = []
        sel = [p for p in mod.PARTS if not a.part or p.name == a.part]
        for p in sel:
            total = a.examples or int(p.examples[tier] * a.scale)
            nsh = max(1, min(p.shards[tier] if hasattr(p, "shards") else (2 if tier == "quick" else 6), total))
            for s in range(nsh):
                jobs.append((p.name, s, max(1, total // nsh)))
        # interleave parts so that a time cap does not starve the last ones
        running, results, pending = [], [], list(jobs)
        maxj = a.jobs
        started = 0
        waves = -(-len(jobs) // maxj)
        shard_budget = budget / max(1, waves)
        while pending or running:
            while pending and len(running) < maxj:
                pn_, s, ex = pending.pop(0)
                out = os.path.join(work, "%s_%d.json" % (pn_, s))
                cmd = [vclient.PY, "-s", os.path.join(HERE, "vrun.py"), prop, "--tier", tier, "--seed", str(a.seed), "--part", pn_,
                       "--shard", str(s), "--examples", str(ex), "--budget", "%.1f" % shard_budget, "--out", out] + (["--survey"] if a.survey else [])
                errf = open(out + ".err", "w+")
                env = dict(os.environ, TMPDIR=work, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", HYPOTHESIS_STORAGE_DIRECTORY=work)
                running.append((subprocess.Popen(cmd, stdout=errf, stderr=errf, env=env, cwd=HERE), pn_, s, out, errf))
            time.sleep(0.05)
            still = []
            for r in running:
                p, pn_, s, out, errf = r
                if p.poll() is None:
                    still.append(r); continue
                errf.seek(0); err = errf.read(); errf.close()
                if p.returncode or not os.path.exists(out):
                    results.append((pn_, s, None, err))
                else:
                    with open(out) as f:
                        results.append((pn_, s, json.load(f), err))
            running = still
        viol = []
        evals, nontriv, samples, known = 0, set(), [], collections.Counter()
        per = collections.OrderedDict()
        errors = []
        for pn_, s, r, err in results:
            if r is None:
                errors.append((pn_, s, err)); continue
            evals += r["evals"]
            nontriv |= {pn_ + ":" + h for h in r["nontrivial"]}
            known.update(r["known"])
            q = per.setdefault(pn_, {"cases": 0, "executions": 0, "distinct_nontrivial": 0, "capped_by_time": False})
            q["cases"] += r["runs"]; q["executions"] += r["evals"]; q["distinct_nontrivial"] += len(r["nontrivial"]); q["capped_by_time"] |= r["timeout"]
            if s == 0 or not samples:
                samples += [{"part": pn_, "case": d} for d in r["samples"][:1]]
            if r["fail"]:
                viol.append(r["fail"])
            if a.survey:
                for k, v in sorted(r["survey"].items()):
                    print("SURVEY", pn_, k, v[0], "|", v[1][:300], "|", json.dumps(v[2], default=str)[:700])
        for e in errors:
            print("SHARD ERROR", e[0], e[1]); print(e[2][-1200:])
            rc = 2
        seen = set()
        for v in viol:
            key = (v["part"], v["sig"])
            if key in seen:
                continue
            seen.add(key)
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (prop, v["part"], dhash(v["desc"])))
            with open(path, "w") as f:
                json.dump({"property": prop, "part": v["part"], "desc": v["desc"], "observed": v["msg"]}, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  part %s: %s" % (v["part"], v["msg"][:1500]))
            rc = 1
        ev = {"property": prop, "tier": tier, "seed": a.seed, "level": "exploration",
              "coverage": {"evaluations": evals, "distinct_nontrivial": len(nontriv), "rule": mod.RULE, "samples": samples[:12],
                           "parts": per, "known_finding_hits": dict(known), "repo_build": os.path.basename(os.path.dirname(src))},
              "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.monotonic() - t0, 2), "violations": len(seen)}
        if not a.part:
            with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1, default=str)
        print("%s %s: %d executions, %d distinct non-trivial cases, %d violations, %.1fs" % (prop, tier, evals, len(nontriv), len(seen), time.monotonic() - t0))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc

if __name__ == "__main__":
    sys.modules["vrun"] = sys.modules["__main__"]
    sys.exit(main(sys.argv[1:]))
