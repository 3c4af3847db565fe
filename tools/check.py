#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current working tree.

Exit 0: held on everything explored.  Exit 1 with a line
`VIOLATION property=<id> replay=<path>`: broken.  Anything else: error."""
import concurrent.futures as cf
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib                                                    # noqa: E402
import props                                                  # noqa: E402


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.lab = lib.Lab()
        self.lab.full_jit = self.tier == "thorough"
        self.t0 = time.time()
        self.violations = []      # (what, path)
        self.known = []
        self.cov = {"states": 0, "transitions": 0,
                    "traces_validated_against_impl": 0, "samples": []}
        self.notes = {}
        self.assumptions = []

    # -- sizes -----------------------------------------------------------
    def n(self, quick, thorough=None):
        return quick if self.tier == "quick" else (thorough or quick * 10)

    # -- reporting -------------------------------------------------------
    def count(self, key, k=1):
        self.notes[key] = self.notes.get(key, 0) + k

    def sample(self, x):
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append(x)

    def violation(self, what, detail):
        d = os.path.join(lib.VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.prop}-{len(self.violations)}.json")
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what,
                       "seed": self.seed, "tier": self.tier,
                       "how_to_replay": "feed `script` to the driver "
                       "(tools/replay.py FILE) and `line` to the TLA+ module",
                       **detail}, f, indent=1)
        self.violations.append((what, p))

    def add_stats(self, st):
        self.cov["states"] += st["distinct"]
        self.cov["transitions"] += st["states"]

    # -- validation of recorded executions -------------------------------
    def validate(self, module, lines, scripts=None, what="", cfg=None,
                 timeout=240, env=None, heap="2g", tolerate=False, limit=4):
        """Every line must be accepted by the TLA+ module.  A line that is
        not is checked once more on its own before it is reported."""
        if not lines:
            return set()
        by = {l["id"]: l for l in lines}
        if len(by) != len(lines):
            raise lib.ToolError("duplicate trace ids")
        kw = dict(cfg=cfg, timeout=timeout, env=env, heap=heap,
                  tolerate_timeout=tolerate, tolerate_eval=True)
        pr, st = self.lab.tlc(module, lines, **kw)
        self.add_stats(st)
        ok = lib.ids_of(pr, "OK")
        rest = [i for i in by if i not in ok]
        undecided = 0
        while rest and len(self.violations) < limit:
            now, rest = rest[:lib.NPROC], rest[lib.NPROC:]
            with cf.ThreadPoolExecutor(lib.NPROC) as ex:
                res = list(ex.map(lambda i: self.lab.tlc(
                    module, [by[i]], **kw), now))
            for i, (pr1, st1) in zip(now, res):
                if i in lib.ids_of(pr1, "OK"):
                    ok.add(i)
                elif st1["timeouts"]:
                    undecided += 1
                elif len(self.violations) < limit:
                    why = ([b for w, b in pr1 if w == "BAD"]
                           + [e[:200] for e in st1["evalerr"]]
                           + ["no behaviour of the specification explains it"])
                    self.violation(f"{what or module}: {why[0]}",
                                   {"module": module, "line": by[i],
                                    "script": (scripts or {}).get(i)})
        if undecided:
            self.count("undecided", undecided)
        self.cov["traces_validated_against_impl"] += len(ok)
        return ok

    def records(self, scripts, secs=20, allow_crash=False):
        """Run scripts; a crash or a hang of the code is a violation."""
        out = self.lab.run(scripts, secs=secs)
        for i in list(out):
            bad = [r for r in out[i] if r["tag"] == "crash"]
            if bad:
                if not allow_crash and len(self.violations) < 4:
                    again = self.lab.run({i: scripts[i]}, secs=secs)[i]
                    if any(r["tag"] == "crash" for r in again):
                        self.violation(f"the code under test crashed or hung "
                                       f"(signal {bad[0]['sig']})",
                                       {"script": scripts[i]})
                        del out[i]
                        continue
                    out[i] = again
                    continue
                del out[i]
        return out


def main():
    prop = sys.argv[1]
    ctx = Ctx(prop)
    fn, level = props.REGISTRY[prop]
    try:
        ctx.lab.build()
        fn(ctx)
    except lib.ToolError as e:
        print("ERROR", e)
        if not ctx.violations:
            sys.exit(2)
    except Exception:
        traceback.print_exc()
        if not ctx.violations:   # what was found before is reported
            sys.exit(2)
    finally:
        ctx.lab.close()
    cov = dict(ctx.cov)
    cov.update(ctx.notes)
    ev = {"property": prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
          "coverage": cov, "assumptions": ctx.assumptions,
          "wall_s": round(time.time() - ctx.t0, 2),
          "violations": len(ctx.violations)}
    os.makedirs(os.path.join(lib.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(lib.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in ctx.known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    for what, path in ctx.violations:
        print(f"{what}"[:400])
        print(f"VIOLATION property={prop} replay={os.path.relpath(path, lib.VERIF)}")
    print(f"{prop} {ctx.tier} seed={ctx.seed}: "
          f"{cov['traces_validated_against_impl']} executions validated, "
          f"{cov['states']} states, {len(ctx.violations)} violations, "
          f"{ev['wall_s']} s  {ctx.notes}")
    sys.exit(1 if ctx.violations else 0)


if __name__ == "__main__":
    main()
