"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: the property held on everything explored; 1: VIOLATION; 2: the check
itself failed."""
import argparse
import importlib
import json
import os
import re
import shutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import tlc  # noqa: E402


class Result:
    """What one job found."""

    def __init__(self):
        self.bad = []            # dict(id, sig, text, replay)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}

    def add(self, o):
        self.bad += o.bad
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.samples += o.samples
        for k, v in o.extra.items():
            if k in self.extra and isinstance(v, int):
                self.extra[k] += v
            elif k in self.extra and isinstance(v, dict):
                for a, b in v.items():
                    self.extra[k][a] = self.extra[k].get(a, 0) + b
            else:
                self.extra[k] = v


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"

    def n(self, quick, thorough=None):
        return quick if self.quick else (thorough if thorough is not None else quick * 12)


def known():
    """known-findings.txt -> list of (property, compiled signature, text)"""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"^known: property=(\S+) match=<<(.*?)>> (.*)$", line.strip())
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


def evidence(prop, tier, seed, level, res, wall, violations, note):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = dict(states=res.states, transitions=res.transitions,
               traces_validated_against_impl=res.traces, samples=res.samples[:6])
    cov.update(res.extra)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(wall, 1),
              violations=violations, assumptions=note)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    tlc.ensure_build()
    if a.prop == "selftest":
        import jobs
        return jobs.selftest()
    import bayespy
    repo = os.path.realpath(os.environ.get("BP_REPO", "/repo"))
    if not os.path.realpath(bayespy.__file__).startswith(repo + os.sep):
        raise tlc.Machinery("bayespy is imported from %s, not from %s" % (bayespy.__file__, repo))
    import jobs
    spec = jobs.PROPS[a.prop]
    ctx = Ctx(a.prop, a.tier, a.seed)
    if a.replay:
        return jobs.replay(ctx, a.replay)
    res = Result()
    for job in spec:
        res.add(job(ctx))
    if res.traces == 0:
        raise tlc.Machinery("nothing was explored")
    # verdict
    kn = [k for k in known() if k[0] == a.prop]
    rdir = os.path.join(VERIF, "replay", a.prop)
    shutil.rmtree(rdir, ignore_errors=True)
    reported, hit, seen = 0, {}, set()
    for b in res.bad:
        k = [x for x in kn if x[1].search(b["sig"])]
        if k:
            hit.setdefault(k[0][2], b)
            continue
        reported += 1
        if b["id"] in seen or len(seen) >= 12:
            continue
        seen.add(b["id"])
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, re.sub(r"[^A-Za-z0-9_.+-]", "_", b["id"])[:80] + ".json")
        with open(path, "w") as f:
            json.dump(dict(property=a.prop, tier=a.tier, seed=a.seed, **b), f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (a.prop, os.path.relpath(path, VERIF)))
        print("  %s" % b["text"])
    for text in hit:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, text))
    wall = time.time() - t0
    evidence(a.prop, a.tier, a.seed, "model_checking", res, wall, reported, jobs.NUM)
    print("%s %s: %d traces, %d states, %d transitions, %d failures, %.0f s"
          % (a.prop, a.tier, res.traces, res.states, res.transitions, reported, wall))
    return 1 if reported else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
