"""Executed steps, whole and phase by phase."""
import hashlib
import json

from gen_phase import fl
from gen_run import Run, unitq
from lib import sparse


class Staged(Run):
    def build(self):
        out = list(self.lines0) + ["dump -1/end"]
        for k, (p, q) in enumerate(self.poses):
            a = f"{fl(p)} {fl(unitq(q))}"
            out += [f"seed {self.rng.randint(0, 10 ** 6)}", "save"]
            for m in range(self.maxit + 1):
                out += [f"step {k}/m{m} {m} {a}", "load"]
            out += [f"calcbodypos {k}/place {a}", f"updatebodysoil {k}/carry {a}",
                    f"moveall {k}/displace", "eq 0"]
            for m in range(1, self.maxit + 1):
                out += ["widen", f"dump {k}/area{m}", f"relaxt {k}/ground{m}",
                        "shuffle", f"relaxb {k}/slab{m}"]
            out += ["load", f"step {k}/end -1 {a}"]
        return out

    def steps(self, i, recs):
        """-> [(id, trace line, {tag: state})]"""
        T = {r["tag"]: sparse(r) for r in recs}
        for k in range(len(self.poses)):
            if not T[f"{k}/end"]["ret"]:
                continue
            tags = ["place", "carry", "displace"] + [
                f"{x}{m}" for m in range(1, self.maxit + 1)
                for x in ("area", "ground", "slab")]
            g = lambda t: T[f"{k}/{t}"]
            after = [{"op": t.rstrip("0123456789"), "h": digest(g(t)),
                      "eq": g(t)["eq"]} for t in tags]
            step = [{"max": m, "h": digest(g(f"m{m}")), "eq": g(f"m{m}")["eq"]}
                    for m in range(self.maxit + 1)]
            step.append({"max": self.maxit, "h": digest(g("end")),
                         "eq": g("end")["eq"]})
            yield i + k, {"id": i + k, "eq": T[f"{k - 1}/end"]["eq"],
                          "after": after, "step": step}, \
                {t: g(t) for t in tags + [f"m{m}" for m in
                                          range(self.maxit + 1)] + ["end"]}

    def passes(self, i, k, T):
        """The same step as executions to be explained one by one."""
        b = self.base()
        cases = [dict(b, id=10 * (i + k), plan=["slide", "push"],
                      pre=dict(T["carry"], eq=T["carry"]["eq"]),
                      post=dict(T["m0"], eq=T["carry"]["eq"],
                                warn=int(soil(T["m0"]) < soil(T["carry"]))))]
        for m in range(1, self.maxit + 1):
            if T[f"m{m - 1}"]["eq"]:
                break
            cases.append(dict(b, id=10 * (i + k) + m, warn=0,
                              plan=["widen", "gflow", "sflow"],
                              pre=T[f"m{m - 1}"],
                              post=dict(T[f"m{m}"], warn=0)))
        return cases


def soil(d):
    return (sum(e[2] - d["bg"] for e in d["t"]) +
            sum(e[4] - e[3] for e in d["s"]))


def digest(d):
    x = {k: d[k] for k in ("bg", "t", "w", "s", "r", "ba", "ra", "ia", "bp",
                           "bo")}
    return hashlib.md5(json.dumps(x, sort_keys=True).encode()).hexdigest()
