"""One run of one check: workload, verdicts, evidence, exit status.

A family is a pair of functions: gen(seed) -> JSON-able case (or None), run(case) -> result.  A result is a dict
with "status" in
  ok          the monitors observed the execution and the property held
  violation   the oracle rejects what was observed; "kind" names the mechanism, "detail" the observation
  skip        the case is outside the property's domain (not counted)
and optional "tags" (what the case exercises), "count" (monitor counters, summed), "nontrivial" (bool), "sample".
Anything else (worker death, exception, time out) is retried once, alone.  If the code under test raised an exception no
check expects, did not return, or ended the process again, that is a violation; otherwise the case is inconclusive.
"""
import argparse
import collections
import hashlib
import json
import os
import sys
import time

from . import env, pool

EXIT_OK, EXIT_VIOLATION, EXIT_INCONCLUSIVE = 0, 1, 3


class Family:
    def __init__(self, name, gen, run, quick, thorough=None, timeout=120):
        self.name, self.gen, self.run, self.timeout = name, gen, run, timeout
        self.n = {"quick": quick, "thorough": thorough if thorough is not None else quick * 8}


def cases(name, items, run, timeout=120):
    """A family whose cases are a fixed list (all of them in every run)."""
    items = list(items)
    return Family(name, lambda seed: items[seed % len(items)], run, len(items), len(items), timeout)


class Check:
    def __init__(self, pid, families, *, rule, level="exploration", require=None, min_evals=1, assumptions=(),
                 budget=(420, 3000), workers=None, explanation=None):
        self.pid, self.families, self.rule, self.level = pid, families, rule, level
        self.require = require or {}
        self.min_evals, self.assumptions = min_evals, list(assumptions)
        self.budget = {"quick": budget[0], "thorough": budget[1]}
        self.workers = workers
        self.explanation = explanation

    # -- known findings -------------------------------------------------------------------------------------
    def _known(self):
        p = os.path.join(env.VERIF, "known_findings.json")
        try:
            with open(p) as f:
                return [k for k in json.load(f)["findings"] if k["property"] == self.pid]
        except FileNotFoundError:
            return []

    @staticmethod
    def _matches(k, case, res):
        """A known finding is identified by family, mechanism and (a subset of) the failing case's parameters."""
        if k["family"] != case["family"] or k["kind"] != res.get("kind"):
            return False
        return all(case["params"].get(p) == v for p, v in k.get("params", {}).items())

    # -- execution ------------------------------------------------------------------------------------------
    def _exec(self, case):
        fam = next(f for f in self.families if f.name == case["family"])
        return fam.run(case["params"])

    def _todo(self):
        """Cases of all families, interleaved in proportion, so that a deadline starves none of them."""
        fams = [(f, f.n[env.TIER]) for f in self.families]
        slots = sorted(((i + .5) / n, k, i) for k, (_, n) in enumerate(fams) for i in range(n))
        for _, k, i in slots:
            f = fams[k][0]
            params = f.gen(i)
            if params is None:
                continue
            yield {"property": self.pid, "family": f.name, "params": params}

    def main(self, argv=None):
        ap = argparse.ArgumentParser()
        ap.add_argument("--replay")
        ap.add_argument("--family")
        ap.add_argument("-n", type=int)
        a = ap.parse_args(argv)
        if a.replay:
            return self._replay(a.replay)
        if a.family:
            self.families = [f for f in self.families if f.name == a.family]
        if a.n:
            for f in self.families:
                f.n[env.TIER] = a.n
        return self._run()

    def _replay(self, path):
        with open(path) as f:
            case = json.load(f)["case"]
        fam = next(f for f in self.families if f.name == case["family"])
        for _, res in pool.pmap(self._exec, [case], timeout=fam.timeout * 2):
            print(json.dumps(res, indent=1, default=str))
            if res["status"] in ("violation", "code_error", "hang", "crash"):
                print(f"VIOLATION property={self.pid} replay={path}")
                return EXIT_VIOLATION
            return EXIT_OK if res["status"] in ("ok", "skip") else EXIT_INCONCLUSIVE

    def _run(self):
        t0 = time.time()
        deadline = t0 + self.budget[env.TIER]
        todo = []

        def feed():
            for c in self._todo():
                todo.append(c)
                yield c

        tmo = max(f.timeout for f in self.families)
        ev, skips, retry = [], 0, []
        bad = []
        fam_count = collections.Counter()
        tags, counts = collections.Counter(), collections.Counter()
        digests, samples = set(), {}

        def absorb(case, res):
            nonlocal skips
            st = res["status"]
            if st == "skip":
                skips += 1
                return
            ev.append(1)
            fam_count[case["family"]] += 1
            tags.update(res.get("tags", ()))
            counts.update({k: v for k, v in res.get("count", {}).items()})
            if res.get("nontrivial", True):
                digests.add(res.get("digest") or hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest())
            samples.setdefault(case["family"], [])
            if len(samples[case["family"]]) < 2:
                samples[case["family"]].append({"case": case["params"], "observed": res.get("sample", res.get("count"))})
            if st == "violation":
                bad.append((case, res))

        for i, res in pool.pmap(self._exec, feed(), timeout=tmo, workers=self.workers, deadline=deadline):
            if res["status"] in ("ok", "skip", "violation"):
                absorb(todo[i], res)
            else:
                retry.append((todo[i], res))
        unresolved = []
        done = 0
        for case, first in retry[:8]:
            if done >= 2 and first["status"] == "hang":
                unresolved.append((case, first))
                continue
            for _, res in pool.pmap(self._exec, [case], timeout=tmo):
                if res["status"] in ("ok", "skip", "violation"):
                    absorb(case, res)
                elif res["status"] in ("code_error", "hang", "crash") and res["status"] == first["status"]:
                    # twice the same, the second time alone: the code under test raised where it must not, does not return, or ends the process
                    done += res["status"] == "hang"
                    absorb(case, {"kind": res["status"], **res, "status": "violation", "twice": True})
                else:
                    unresolved.append((case, res))
        unresolved += retry[8:]

        known = self._known()
        hit, fresh = {}, []
        for case, res in bad:
            k = next((k for k in known if self._matches(k, case, res)), None)
            if k is not None:
                hit[k["what"]] = hit.get(k["what"], 0) + 1
            else:
                fresh.append((case, res))
        # a violation is reported only if the same case fails again, alone
        confirmed = []
        kinds = collections.Counter()
        for case, res in fresh:
            if kinds[res.get("kind")] >= 3:
                continue
            if res.get("twice"):
                kinds[res.get("kind")] += 1
                confirmed.append((case, res))
                continue
            # (several times, as what is watched may depend on the schedule)
            for _ in range(3):
                (_, again), = pool.pmap(self._exec, [case], timeout=tmo * 2)
                if again["status"] == "violation":
                    kinds[res.get("kind")] += 1
                    confirmed.append((case, again))
                    break
            else:
                unresolved.append((case, {"status": "flaky", "detail": f"{res.get('kind')}: {res.get('detail')}"}))
            if len(confirmed) >= 12:
                break
        for what in hit:
            print(f"KNOWN-FINDING: property={self.pid} {what}")
        rdir = os.path.join(env.EVIDENCE, "replays")
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.pid + "-"):
                os.unlink(os.path.join(rdir, f))
        for n, (case, res) in enumerate(confirmed):
            p = os.path.join(rdir, f"{self.pid}-{n}.json")
            with open(p, "w") as f:
                json.dump({"case": case, "result": res, "seed": env.SEED}, f, indent=1, default=str)
            print(f"VIOLATION property={self.pid} replay={p}")
            print(f"  {case['family']}: {res.get('kind')}: {str(res.get('detail'))[:600]}")

        missing = [f"{k}>={v} (saw {counts.get(k, 0) + tags.get(k, 0)})" for k, v in self.require.items()
                   if counts.get(k, 0) + tags.get(k, 0) < v]
        wall = time.time() - t0
        cov = {
            "evaluations": len(ev), "distinct_nontrivial": len(digests), "rule": self.rule,
            "samples": [s for v in samples.values() for s in v][:12],
            "families": dict(fam_count), "skipped_out_of_domain": skips,
            "observed": dict(sorted(counts.items())), "features": dict(sorted(tags.items())),
            "cut_by_deadline": time.time() > deadline,
            "known_findings_hit": hit,
            "inconclusive_cases": [{"case": c, "why": str(r.get("detail"))[-400:], "status": r["status"]} for c, r in unresolved[:5]],
        }
        if self.explanation:
            cov["explanation"] = self.explanation
        edir = env.EVIDENCE
        os.makedirs(edir, exist_ok=True)
        tmp = os.path.join(edir, f".{self.pid}.tmp")
        with open(tmp, "w") as f:
            json.dump({"property": self.pid, "tier": env.TIER, "seed": env.SEED, "level": self.level, "coverage": cov,
                       "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(confirmed)},
                      f, indent=1, default=str)
        os.replace(tmp, os.path.join(edir, f"{self.pid}.json"))
        print(f"{self.pid}: {len(ev)} evaluations, {len(digests)} distinct, {skips} skipped, {dict(fam_count)}, "
              f"{len(confirmed)} violations, {len(unresolved)} inconclusive, {wall:.0f}s")
        if confirmed:
            return EXIT_VIOLATION
        if unresolved:
            for c, r in unresolved[:5]:
                print(f"INCONCLUSIVE {json.dumps(c, default=str)[:300]}: {r['status']} {str(r.get('detail'))[-600:]}")
            if len(unresolved) > max(2, len(ev) // 100):
                return EXIT_INCONCLUSIVE
        if len(ev) < self.min_evals or missing:
            print(f"INCONCLUSIVE: monitors not reached: {len(ev)} evaluations (need {self.min_evals}); {missing}")
            return EXIT_INCONCLUSIVE
        return EXIT_OK


def seeds(tag, n_mult=1):
    """gen function: a case that is only a seed, different for every VERIF_SEED and family."""
    h = int(hashlib.sha1(f"{tag}/{env.SEED}".encode()).hexdigest()[:7], 16)
    return lambda i: {"seed": h + i}


def ok(**kw):
    return {"status": "ok", **kw}


def skip(why=""):
    return {"status": "skip", "detail": why}


def violation(kind, detail, **kw):
    return {"status": "violation", "kind": kind, "detail": detail, **kw}
