#!/usr/bin/env python3
"""check.py ID [--only PART] | check.py replay FILE | check.py list"""
import json, os, random, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import CheckError, log


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.parts = []
        self.failures = []   # confirmed
        self.unconfirmed = []
        self.samples = []
        self.states = self.transitions = self.traces = self.behaviours = 0
        self.exhaustive = True
        self.t0 = time.time()

    def graph(self, module, consts, **kw):
        g = vlib.load_graph(module, consts, **kw)
        return g

    def replay(self, name, suite, behs, worlds=(None,), opt=None, variant="", timeout=30, maxt=420, workers=8, seedmix=0):
        """Replay behaviours on the real code in each world, and a sample of
        them in a build whose goroutines are delayed at synchronisation points."""
        for w in worlds:
            bl = behs[w] if isinstance(behs, dict) else behs
            self.replay1(name, suite, bl, w, opt, variant, timeout, maxt, workers, seedmix)
            if variant == "" and suite not in NOT_WOVEN:
                rng = random.Random("%s %s %s" % (self.seed, name, w))
                n = len(bl) if len(bl) <= 400 else max(400, len(bl) // (2 if self.thorough else 4))
                self.replay1(name, suite, rng.sample(bl, n), w, opt, "woven", timeout, maxt, workers, seedmix + 1)

    def replay1(self, name, suite, bl, w, opt, variant, timeout, maxt, workers, seedmix):
        if not bl:
            raise CheckError("part %s has no behaviours" % name)
        o = dict(opt or {})
        if w is not None:
            o["world"] = w
        t = time.time()
        res = vlib.run_harness(suite, bl, self.seed + seedmix, o, variant=variant, timeout=timeout, maxt=maxt, workers=workers)
        part = {"part": name, "world": w, "build": variant or "plain", "behaviours": len(bl), "replayed": res["ran"],
                "steps": sum(len(b["steps"]) for b in bl), "wall_s": round(time.time() - t, 1)}
        if res.get("stats"):
            part["stats"] = res["stats"]
        self.parts.append(part)
        log("  %-22s %-8s %-6s %6d behaviours, %d failures, %.1fs" % (name, w or "", variant, res["ran"], len(res["failures"] or []), time.time() - t))
        self.traces += res["ran"]
        for f in res["failures"] or []:
            f["part"], f["variant"] = name, variant
            (self.failures if f["repro"] > 0 or f["kind"] == "panic" else self.unconfirmed).append(f)
        if res["errors"] and not res["failures"]:
            raise CheckError("harness: " + "; ".join(res["errors"])[:3000])
        if self.failures and not os.environ.get("VERIF_ALL"):
            raise Stop()

    def model(self, name, module, consts, invariants=(), properties=(), spec="Spec", timeout=800, constraints=(), extra=""):
        """Check invariants/properties of the specification itself."""
        lines, st = vlib.run_tlc(module, consts, None, False, invariants, properties, constraints, spec=spec, timeout=timeout, extra=extra)
        text = st.pop("text")
        if st["rc"] != 0:
            raise CheckError("specification %s (%s) violates its properties:\n%s" % (module, name, text[-5000:]))
        self.states += st.get("states", 0)
        self.transitions += st.get("generated", 0)
        self.parts.append({"part": name, "model": module, "invariants": list(invariants), "properties": list(properties), **st})
        log("  %-22s model: %d states, %.1fs" % (name, st.get("states", 0), st["wall_s"]))

    def histories(self, name, module, consts, suite, worlds, n, opt=None, variant="", spec="HSpec", timeout=30, per=4000, tries=6):
        """Record executions of the real code and check each against the
        specification with TLC."""
        logs = {}
        for w in worlds:
            o = dict(opt or {})
            if w is not None:
                o["world"] = w
            t = time.time()
            res = vlib.run_harness(suite, [{"steps": [], "over": True}] * n, self.seed, o, variant=variant, timeout=timeout, tries=tries)
            self.parts.append({"part": name, "world": w, "executions": res["ran"], "histories": len(res["logs"] or {}),
                               "stats": res.get("stats"), "wall_s": round(time.time() - t, 1)})
            log("  %-22s %-8s %6d executions, %d histories, %d failures, %.1fs" %
                (name, w or "", res["ran"], len(res["logs"] or {}), len(res["failures"] or []), time.time() - t))
            for f in res["failures"] or []:
                f["part"], f["variant"] = name, variant
                # what a concurrent execution did is conclusive, whether or not it happens again
                self.failures.append(f)
            if res["errors"] and not res["failures"]:
                raise CheckError("harness: " + "; ".join(res["errors"])[:3000])
            if self.failures and not os.environ.get("VERIF_ALL"):
                raise Stop()
            for l, (i, k) in (res["logs"] or {}).items():
                logs.setdefault(l, (w, i))
        keys = sorted(logs)
        for lo in range(0, len(keys), per):
            batch = keys[lo:lo + per]
            bad, st = vlib.check_histories(module, consts, [json.loads(x) for x in batch], spec)
            self.states += st.get("states", 0)
            self.transitions += st.get("generated", 0)
            self.traces += len(batch)
            self.parts.append({"part": name, "histories_checked": len(batch), "rejected": len(bad), "tlc": st})
            log("  %-22s %6d histories checked by TLC, %d rejected, %.1fs" % (name, len(batch), len(bad), st["wall_s"]))
            if lo == 0:
                self.samples.append({"part": name, "history": json.loads(batch[len(batch) // 2])})
            for x in bad[:5]:
                w, i = logs[batch[x]]
                self.failures.append({"kind": "history", "part": name, "suite": suite, "opt": dict(opt or {}, world=w), "seed": self.seed, "idx": i,
                                      "variant": variant, "module": module, "consts": {k: sorted(v) if isinstance(v, set) else v for k, v in consts.items()},
                                      "spec": spec, "history": json.loads(batch[x]),
                                      "msg": "the specification explains no such execution:\n" + vlib.show_history(json.loads(batch[x])),
                                      "repro": 1, "tries": 1, "beh": {"steps": []}})
            if self.failures and not os.environ.get("VERIF_ALL"):
                raise Stop()

    def use(self, name, g, paths, sampled_of=None):
        """Turn graph paths into behaviours and account for them."""
        self.states += g.n
        cov = set()
        for p in paths:
            cov.update(p)
        self.transitions += len(g.edges)
        self.parts.append({"part": name, "states": g.n, "transitions": len(g.edges), "paths": len(paths),
                           "paths_to_cover_all": sampled_of, "transitions_covered": len(cov), "tlc": g.stats})
        if len(cov) < len(g.edges):
            self.exhaustive = False
        log("  %-22s graph: %d states, %d transitions, %d of %s paths cover %d" % (name, g.n, len(g.edges), len(paths), sampled_of, len(cov)))
        bl = [g.beh(p) for p in paths]
        for b in bl[:1]:
            self.samples.append({"part": name, "behaviour": [s["a"] for s in b["steps"]],
                                 "expected": [s["o"] for s in b["steps"]]})
        return bl

    def cover(self, name, g, limit, maxlen=60, seedmix=0):
        """A transition cover of the graph, or a sample of it in which every
        operation occurs; short behaviours several times."""
        paths = g.cover(self.seed + seedmix, maxlen)
        total = len(paths)
        if limit and len(paths) > limit:
            rng = random.Random(self.seed * 7919 + seedmix)
            rng.shuffle(paths)
            keep = set()
            for label, share in ((g.label2, 3), (g.label1, 4)):
                by = {}
                for i, p in enumerate(paths):
                    for l in {label(e) for e in p}:
                        by.setdefault(l, []).append(i)
                per = max(2, limit // (share * len(by)))
                for l in sorted(by, key=lambda l: (len(by[l]), l)):
                    if len(keep) >= limit * 3 // 4:
                        break
                    n = per - sum(1 for i in by[l] if i in keep)
                    keep.update([i for i in by[l] if i not in keep][:max(0, n)])
            rest = [i for i in range(len(paths)) if i not in keep]
            paths = [paths[i] for i in sorted(keep)] + [paths[i] for i in rest[:max(0, limit - len(keep))]]
            rng.shuffle(paths)
        bl = self.use(name, g, paths, total)
        return bl + [b for b in bl if len(b["steps"]) <= 2] * 15


NOT_WOVEN = {"servertcp", "protowire"}


class Stop(Exception):
    pass


def write_evidence(ctx, level, wall, violations, assumptions):
    os.makedirs(vlib.EVID, exist_ok=True)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
          "coverage": {"states": ctx.states, "transitions": ctx.transitions,
                       "traces_validated_against_impl": ctx.traces, "samples": ctx.samples[:6],
                       "exhaustive": False, "parts": ctx.parts,
                       "unconfirmed_failures": len(ctx.unconfirmed)},
          "assumptions": assumptions, "wall_s": round(wall, 1), "violations": violations}
    tmp = os.path.join(vlib.EVID, ctx.prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(vlib.EVID, ctx.prop + ".json"))


def report(ctx, f, n):
    d = os.path.join(vlib.EVID, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (ctx.prop, n))
    with open(path, "w") as fh:
        json.dump(f, fh, indent=1)
    log("--- %s part=%s world=%s seed=%s (reproduced %d of %d)" % (f["kind"], f.get("part"), (f.get("opt") or {}).get("world"), f["seed"], f["repro"], f["tries"]))
    log("    behaviour: " + json.dumps([s["a"] for s in f["beh"]["steps"]]))
    log("    " + f["msg"][:3000])
    return os.path.relpath(path, vlib.VERIF)


def run_check(prop, only=None):
    import props
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ctx = Ctx(prop, tier, seed)
    p = props.PROPS[prop]
    try:
        for name, fn in p["parts"]:
            if only and only not in name:
                continue
            if ctx.thorough is False and name.startswith("deep"):
                continue
            fn(ctx, name)
    except Stop:
        pass
    except vlib.GenError as e:
        ctx.failures.append({"kind": "generate", "part": name, "msg": str(e), "seed": seed, "repro": 1, "tries": 1, "beh": {"steps": []}})
    # a bubble has its own clock: rare is not the same as accidental
    rare = [f for f in ctx.unconfirmed if f.get("bubble") and f["kind"] != "hang"]
    if not ctx.failures and len(rare) >= 2:
        ctx.failures += rare
    wall = time.time() - ctx.t0
    write_evidence(ctx, p.get("level", "model_checking"), wall, len(ctx.failures), p.get("assumptions", []))
    for f in ctx.unconfirmed[:3]:
        log("NOTE: a failure could not be reproduced and is not reported as a violation:")
        report(ctx, f, 900 + ctx.unconfirmed.index(f))
    if ctx.failures:
        for n, f in enumerate(ctx.failures[:3]):
            path = report(ctx, f, n)
            if n == 0:
                first = path
        print("VIOLATION property=%s replay=%s" % (prop, first), flush=True)
        return 1
    log("%s: held on everything explored (%.1fs, %d traces)" % (prop, wall, ctx.traces))
    return 0


def replay_file(path):
    f = json.load(open(path))
    if f["kind"] == "generate":
        try:
            vlib.build_harness("regen")
        except vlib.GenError as e:
            print("generate", e)
            print("REPLAY: failure reproduced")
            return 1
        print("REPLAY: no failure")
        return 0
    if f["kind"] == "history":
        consts = {k: set(v) if isinstance(v, list) else v for k, v in f["consts"].items()}
        bad, _ = vlib.check_histories(f["module"], consts, [f["history"]], f["spec"])
        print(vlib.show_history(f["history"]))
        print("REPLAY: %s" % ("failure reproduced (the recorded execution is rejected)" if bad else "no failure"))
        return 1 if bad else 0
    res = vlib.run_harness(f["suite"], [f["beh"]], f["seed"], f["opt"] or {}, variant=f.get("variant", ""), tries=0, only=0)
    fails = res["failures"] or []
    for x in fails:
        print(x["kind"], x["msg"][:6000])
    print("REPLAY: %s" % ("failure reproduced" if fails else "no failure"))
    return 1 if fails else 0


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "replay":
            return replay_file(a[1])
        if a[0] == "setup":
            vlib.build_harness()
            return 0
        only = a[a.index("--only") + 1] if "--only" in a else None
        return run_check(a[0], only)
    except CheckError as e:
        log("ERROR: %s" % e)
        return 2
    finally:
        vlib.cleanup()


if __name__ == "__main__":
    sys.exit(main())
