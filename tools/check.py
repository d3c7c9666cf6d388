#!/usr/bin/env python3
"""Decides one property on the current working tree of the repository.

usage: check.py <property> [--tier quick|thorough] [--keep]
"""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import engine as e
import plans
import worlds
from gen import Gen


D100 = {"quick": 100, "thorough": 1500}


def walk(rng, x):
    """Operations of an alphabet at random, with repetitions of the recent ones."""
    ops, probes = x["alphabet"]
    r = []
    for _ in range(rng.randint(6, 22)):
        k = rng.random()
        if r and k < 0.25:
            r.append(rng.choice(r[-4:]))
        elif probes and k < 0.55:
            r.append(rng.choice(probes))
        else:
            r.append(rng.choice(ops))
    return r


def known_findings(prop):
    """Entries "known: property=<id> world=<name> methods=<m.f,m.f> <text>" of known-findings.txt."""
    r = []
    with open(os.path.join(e.VERIF, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) world=(\S+) methods=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                r.append({"world": m.group(2), "methods": {tuple(map(int, x.split("."))) for x in m.group(3).split(",")}, "text": m.group(4)})
    return r


def mentioned(x):
    """All pairs (mock, method) in a part of a script."""
    if isinstance(x, dict):
        r = {(x["m"], x["f"])} if "m" in x and "f" in x else set()
        return r.union(*[mentioned(v) for v in x.values()])
    if isinstance(x, (list, tuple)):
        return set().union(*[mentioned(v) for v in x])
    return set()


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.plan = plans.PLANS[prop]
        self.work = tempfile.mkdtemp(prefix="fk-%s-" % prop.lower())
        self.build = e.Build(self.work)
        self.pool = cf.ThreadPoolExecutor(e.CORES)
        self.slow = cf.ThreadPoolExecutor(e.CORES - 1)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "explorations": [], "random": [], "steps_replayed": 0}
        self.bad = []            # (world, variant, script ops, at, expected, observed, fields, neighbours)
        self.known = set()
        self.findings = known_findings(prop)

    def log(self, *a):
        print("[%s]" % self.prop, *a, flush=True)

    # ------------------------------------------------------------ exploration and replay
    def explorations(self):
        todo = self.plan.get("explore", [])
        futs = []
        for n, x in enumerate(todo):
            for v in self.variants(x):
                self.build.start(x["world"], v)
            cfg = {"ops": x["ops"], "pre": x["pre"], "depth": x["depth"][self.tier], "maxHist": x.get("maxHist", 6),
                   "maxStmt": x.get("maxStmt", 4), "maxCond": x.get("maxCond", 40), "fields": x.get("fields", self.plan["fields"]),
                   "prop": self.prop, "emit": True, "walk": x.get("walk", len(x["ops"])), "leaf": x.get("leaf", False)}
            cfg["ops"] = x["ops"] + x.get("probes", [])
            if x.get("probes"):
                cfg["walk"] = len(x["ops"])
            futs.append((n, x, self.slow.submit(e.explore, worlds.world(x["world"]), cfg, self.work, "x%d" % n)))
        return futs

    def variants(self, x):
        v = x.get("variants") or self.plan.get("variants") or {}
        return v(self) if callable(v) else v.get(self.tier) or ["c++14"]

    def replay(self, n, x, fut):
        t0 = time.time()
        ex = fut.result()
        if ex.violated:
            raise e.CheckError("the specification breaks the property: " + ex.violated)
        fields = x.get("fields", self.plan["fields"])
        scripts, expect = [], {}
        npre = len(x["pre"])
        ops = x["ops"] + x.get("probes", [])
        limit = x.get("limit", {}).get(self.tier, 60000)
        outs_at = dict(ex.items)
        pairs = [(p, i) for p, outs in ex.items for i in outs]
        total = len(pairs)
        if total > limit:
            random.Random(self.seed).shuffle(pairs)
            pairs = pairs[:limit]
        for k, (p, i) in enumerate(pairs):
            ids = list(p) + [i]
            scripts.append({"id": k, "ops": x["pre"] + [ops[j - 1] for j in ids]})
            expect[k] = ids
        for v in self.variants(x):
            exe = self.build.exe(x["world"], v)
            res, order = e.run_sharded(exe, scripts, self.work, "r%d.%s" % (n, v), self.pool)
            steps = 0
            for s in scripts:
                obs = res[s["id"]]
                ids = expect[s["id"]]
                if isinstance(obs, dict):
                    if "crash" in obs:
                        self.bad.append((x["world"], v, s["ops"], None, None, obs, fields, None))
                    continue
                for q in range(len(ids)):
                    exp = outs_at.get(tuple(ids[:q]), {}).get(ids[q])
                    if exp is None:
                        continue
                    steps += 1
                    if not e.agrees(exp, obs[npre + q], fields):
                        self.bad.append((x["world"], v, s["ops"][:npre + q + 1], npre + q, exp, obs[npre + q], fields, order(s["id"])))
                        break
            self.cov["steps_replayed"] += steps
            self.cov["traces_validated_against_impl"] += len(scripts)
        self.cov["states"] += ex.states
        self.cov["transitions"] += ex.generated
        self.cov["explorations"].append({"world": x["world"], "name": x.get("name", ""), "alphabet": len(ops),
                                         "depth": x["depth"][self.tier], "states": ex.states,
                                         "steps_in_graph": total, "replayed": len(scripts)})
        if scripts:
            s = scripts[len(scripts) // 2]
            self.cov["samples"].append({"kind": "replayed transition", "ops": s["ops"][-3:],
                                        "expected": outs_at[tuple(expect[s["id"]][:-1])][expect[s["id"]][-1]]})
        self.log("explored %s/%s: %d states, %d of %d transitions replayed, %.1f s"
                 % (x["world"], x.get("name", n), ex.states, len(scripts), total, time.time() - t0))

    # ------------------------------------------------------------ random traces
    def randoms(self):
        res = []
        # walks over the alphabets of the explorations: operations that do not change the state of
        # the specification are repeated, which the explorations have no reason to do
        for n, x in enumerate(self.plan.get("explore", [])):
            count = x.get("walks", D100)[self.tier]
            if count and x["depth"][self.tier] > 1:
                res.append(("w%d" % n, dict(x, name="walks: " + x["name"], n={self.tier: count}, alphabet=(x["ops"], x["probes"]))))
        for n, x in enumerate(self.plan.get("random", [])):
            for v in self.variants(x):
                self.build.start(x["world"], v)
            res.append((n, x))
        return res

    def run_random(self, n, x):
        t0 = time.time()
        w = worlds.world(x["world"])
        fields = x.get("fields", self.plan["fields"])
        count = x["n"][self.tier]
        rng = random.Random("%s/%s/%s" % (self.seed, self.prop, n))
        scripts = []
        fixed = x.get("fixed", [])
        for k in range(max(count, len(fixed))):
            if k < len(fixed):
                scripts.append({"id": k, "ops": fixed[k]})
            elif "alphabet" in x:
                scripts.append({"id": k, "ops": x["pre"] + walk(rng, x)})
            else:
                scripts.append({"id": k, "ops": Gen(rng, w, x["profile"]).program()})
        steps = 0
        accepted = {}            # a variant that behaves exactly as another one need not be validated again
        for v in self.variants(x):
            exe = self.build.exe(x["world"], v)
            res, order = e.run_sharded(exe, scripts, self.work, "t%s.%s" % (n, v), self.pool)
            traces = []
            for s in scripts:
                obs = res[s["id"]]
                if isinstance(obs, dict):
                    if "crash" in obs:
                        self.bad.append((x["world"], v, s["ops"], None, None, obs, fields, None))
                    continue
                traces.append({"id": s["id"], "ops": s["ops"], "outs": [e.project(q, fields) for q in obs]})
            self.cov["traces_validated_against_impl"] += len(traces)
            traces = [t for t in traces if accepted.get(t["id"]) != t["outs"]]
            k = max(1, min(e.CORES - 1, len(traces) // 60))
            futs = [self.slow.submit(e.validate, w, self.prop, traces[i::k], self.work, "v%s.%s.%d" % (n, v, i))
                    for i in range(k) if traces[i::k]]
            bad = []
            for f in futs:
                more, states = f.result()
                steps += states
                self.cov["states"] += states
                bad += more
                for b in more:
                    s = scripts[b["id"]]
                    at = b["at"] - 1
                    self.bad.append((x["world"], v, s["ops"][:at + 1], at, b["exp"], res[s["id"]][at], fields, order(b["id"])))
            rejected = {b["id"] for b in bad}
            accepted.update((t["id"], t["outs"]) for t in traces if t["id"] not in rejected)
            self.cov["transitions"] += sum(len(t["ops"]) for t in traces)
        kinds = {}
        for s in scripts:
            obs = res[s["id"]]
            if not isinstance(obs, dict):
                for op, ob in zip(s["ops"], obs):
                    kk = op["t"] + ":" + ob["k"]
                    kinds[kk] = kinds.get(kk, 0) + 1
        self.cov["random"].append({"world": x["world"], "name": x.get("name", ""), "traces": len(scripts), "steps": steps,
                                   "variants": len(self.variants(x)),
                                   "outcomes": kinds})
        s = scripts[-1]
        self.cov["samples"].append({"kind": "validated trace", "ops": s["ops"][-2:]})
        self.log("validated %s/%s: %d traces, %d steps, %.1f s" % (x["world"], x.get("name", n), len(scripts), steps, time.time() - t0))

    # ------------------------------------------------------------ violations
    def judge(self, world, v, scripts, fields):
        """Runs scripts in fresh processes and validates them: index -> (at, expected, observed)."""
        exe = self.build.exe(world, v)
        w = worlds.world(world)
        res = {}
        items = [{"id": i, "ops": s} for i, s in enumerate(scripts)]
        outs = {}
        futs = [self.pool.submit(e.run_driver, exe, [it], self.work, "j%d" % it["id"], 0) for it in items]
        for f in futs:
            outs.update(f.result())
        traces = []
        for it in items:
            obs = outs[it["id"]]
            if isinstance(obs, dict):
                res[it["id"]] = (len(it["ops"]) - 1, None, obs)
            else:
                traces.append({"id": it["id"], "ops": it["ops"], "outs": [e.project(q, fields) for q in obs]})
        if traces:
            bad, _ = e.validate(w, self.prop, traces, self.work, "judge")
            for b in bad:
                res[b["id"]] = (b["at"] - 1, b["exp"], outs[b["id"]][b["at"] - 1])
        return res

    def shrink(self, world, v, ops, fields, budget=45):
        t0 = time.time()
        best = ops
        verdict = self.judge(world, v, [best], fields).get(0)
        if verdict is None:
            return None
        if verdict[1] is not None:
            best = best[:verdict[0] + 1]
        step = max(1, len(best) // 2)
        while time.time() - t0 < budget:
            cands = [best[:i] + best[i + step:] for i in range(0, len(best), step)]
            cands = [c for c in cands if c]
            if not cands:
                break
            r = self.judge(world, v, cands, fields)
            if r:
                k = min(r, key=lambda i: len(cands[i]))
                best, verdict = cands[k], r[k]
                if verdict[1] is not None:
                    best = best[:verdict[0] + 1]
                step = max(1, min(step, len(best) // 2))
            elif step == 1:
                break
            else:
                step = step // 2
        return best, verdict

    def again(self, world, v, batch, at, fields):
        """Runs a batch in one fresh process; what the last script shows that the specification does not."""
        res = e.run_driver(self.build.exe(world, v), batch, self.work, "again")
        last = batch[-1]
        obs = res[last["id"]]
        if isinstance(obs, dict):
            return None
        bad, _ = e.validate(worlds.world(world), self.prop, [{"id": 0, "ops": last["ops"], "outs": [e.project(q, fields) for q in obs]}],
                            self.work, "again")
        return (bad[0]["at"] - 1, bad[0]["exp"], obs[bad[0]["at"] - 1]) if bad else None

    def confirm(self, found):
        """A violation counts when it shows again in a fresh run."""
        tried = 0
        for (world, v, ops, at, exp, obs, fields, neighbours) in sorted(found, key=lambda b: len(b[2])):
            if tried >= 4:
                break
            tried += 1
            for _ in range(2):
                r = self.shrink(world, v, ops, fields)
                if r:
                    return {"property": self.prop, "world": world, "variant": v, "ops": r[0], "at": r[1][0],
                            "expected": r[1][1], "observed": r[1][2], "fields": fields}
        for (world, v, ops, at, exp, obs, fields, neighbours) in found[:2]:
            if neighbours:
                # depends on what ran before in the same process: the same scripts in the same order
                # have to show it twice; then as few of them as still show it
                if not all(self.again(world, v, neighbours, at, fields) for _ in range(2)):
                    continue
                batch = neighbours
                for k in (2, 8, 32, 128, 512, 2048):
                    if k < len(neighbours) and self.again(world, v, neighbours[-k:], at, fields):
                        batch = neighbours[-k:]
                        break
                r = self.again(world, v, batch, at, fields)
                if r:
                    return {"property": self.prop, "world": world, "variant": v, "ops": batch[-1]["ops"], "at": r[0], "expected": r[1],
                            "observed": r[2], "fields": fields, "before": [b["ops"] for b in batch[:-1]]}
        return None

    def listed(self, b):
        """Whether a difference is a known finding: its script mentions all methods of the entry."""
        for k in self.findings:
            if b[0] == k["world"] and k["methods"] <= mentioned(b[2]):
                self.known.add(k["text"])
                return True
        return False

    # ------------------------------------------------------------ main
    def run(self):
        t0 = time.time()
        xs = self.explorations()
        rs = self.randoms()
        stages = [(self.replay, a) for a in xs] + [(self.run_random, a) for a in rs]
        stages += [(f, (self,)) for f in self.plan.get("extra", [])]
        violation = None
        for f, a in stages:
            seen = len(self.bad)
            f(*a)
            self.bad[seen:] = [b for b in self.bad[seen:] if not self.listed(b)]
            if len(self.bad) > seen:
                violation = self.confirm(self.bad[seen:])
                if violation:
                    break
        if self.bad and violation is None:
            raise e.CheckError("%d differences did not show again: %s" % (len(self.bad), json.dumps(self.bad[0][:6])[:2000]))
        self.evidence(time.time() - t0, 1 if violation else 0)
        for k in sorted(self.known):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if violation:
            d = os.path.join(e.VERIF, "out")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-violation.json" % self.prop)
            json.dump(violation, open(path, "w"), indent=1)
            self.log("differs at operation %s: %s" % (violation["at"], json.dumps(violation["ops"][-1:])[:600]))
            self.log("expected", json.dumps(violation["expected"])[:800])
            self.log("observed", json.dumps(violation["observed"])[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            return 1
        self.log("held: %d states, %d traces, %.1f s" % (self.cov["states"], self.cov["traces_validated_against_impl"], time.time() - t0))
        return 0

    def evidence(self, wall, violations):
        d = os.path.join(e.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "wall_s": round(wall, 2), "violations": violations,
              "assumptions": plans.ASSUMPTIONS + self.plan.get("assumptions", [])}
        json.dump(ev, open(os.path.join(d, self.prop + ".json"), "w"), indent=1)


def main(argv):
    if argv[1:2] == ["--list"]:
        print(" ".join(plans.PLANS))
        return 0
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or 1)
    except ValueError:
        seed = 1
    c = Check(prop, tier, seed)
    try:
        return c.run()
    except e.CheckError as x:
        print("CHECK ERROR: %s" % x, file=sys.stderr)
        return 2
    finally:
        for p in (c.pool, c.slow, c.build.pool):
            p.shutdown(wait=False, cancel_futures=True)
        e.stop_all()
        shutil.rmtree(c.work, ignore_errors=True)


if __name__ == "__main__":
    rc = main(sys.argv)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
