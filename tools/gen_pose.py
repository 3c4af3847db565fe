"""Calls of the pose functions."""
import math
import random

from gen_phase import fl
from gen_run import Tool, U, unitq, units

# cos and sin of half angles in [0, pi/2] as Pythagorean triples
TRIPLES = [(1, 0, 1), (0, 1, 1), (3, 4, 5), (4, 3, 5), (5, 12, 13),
           (12, 5, 13), (8, 15, 17), (15, 8, 17), (24, 7, 25), (7, 24, 25),
           (20, 21, 29), (21, 20, 29)]


def quat(rng, length=100000):
    lim = min(6400, 6e8 / max(length, 1))     # TLC has 32-bit integers
    z = rng.random()
    if z < 0.1:
        q = [0, 0, 0, 0]
        q[rng.randrange(4)] = rng.choice([1, -1, 3])
        return q
    if z < 0.25:
        q = [rng.randint(1, 9), 0, 0, 0]
        q[rng.randint(1, 3)] = rng.randint(-9, 9)
        return q
    m = rng.choice([3, 20, 70])
    while True:
        q = [rng.randint(-m, m) for _ in range(4)]
        if any(q) and sum(v * v for v in q) < lim:
            return q


class Poses:
    def __init__(self, rng, n=20):
        self.rng = rng
        self.hx, self.hy = rng.randint(3, 30), rng.randint(3, 30)
        self.cxy, self.cz = rng.choice([(0.1, 0.1), (0.1, 0.05), (0.2, 0.05),
                                        (0.05, 0.02), (0.1, 0.04)])
        self.tool = Tool(rng, self.cxy)
        self.ops = [self.op() for _ in range(n)]

    def op(self):
        rng = self.rng
        vec = lambda m: [rng.choice([0, rng.randint(-m, m)]) if
                         rng.random() < 0.4 else rng.randint(-m, m)
                         for _ in range(3)]
        k = rng.choice(["rotate", "mulq", "angle", "normal", "corners",
                        "corners", "bodyframe", "bodyframe"])
        if k == "rotate":
            v = vec(200000)
            return {"op": k, "q": quat(rng, math.hypot(*v)), "v": v}
        if k == "mulq":
            return {"op": k, "a": quat(rng), "b": quat(rng)}
        if k == "angle":
            a = []
            for _ in range(3):
                c, s, r = rng.choice(TRIPLES)
                sg = rng.choice([(1, 1), (1, -1), (-1, 1), (-1, -1)])
                a.append([c * sg[0], s * sg[1], r])
            return {"op": k, "a": a}
        if k == "normal":
            while True:
                a, b, c = vec(100000), vec(100000), vec(100000)
                u = [x - y for x, y in zip(b, a)]
                v = [x - y for x, y in zip(c, a)]
                w = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2],
                     u[0] * v[1] - u[1] * v[0])
                if math.hypot(*w) > 0.3 * math.hypot(*u) * math.hypot(*v) > 1e8:
                    return {"op": k, "a": a, "b": b, "c": c}
        if k == "corners":
            return {"op": k, "q": quat(rng, 120000), "p": vec(100000)}
        o = {"op": k, "p": vec(60000),
             "i": rng.randint(0, 2 * self.hx), "j": rng.randint(0, 2 * self.hy),
             "z": rng.randint(-100000, 100000)}
        c = int(self.cxy * U)
        o["q"] = quat(rng, math.hypot((o["i"] - self.hx) * c - o["p"][0],
                                      (o["j"] - self.hy) * c - o["p"][1],
                                      o["z"] - o["p"][2]))
        return o

    def script(self):
        rng = self.rng
        ls = [f"grid {self.hx * self.cxy} {self.hy * self.cxy} {40 * self.cz}"
              f" {self.cxy} {self.cz}", "param 0.8 3 4", self.tool.line(),
              "unit 0.00001"]
        m = lambda v: fl([x / U for x in v])
        # orientations are given normalised or not
        def sc(q):
            z = rng.random()
            return fl(unitq(q) if z < 0.6 else q if z < 0.8 else
                      [x * 0.02 for x in q])
        for k, o in enumerate(self.ops):
            if o["op"] == "rotate":
                ls.append(f"rotate {k} {sc(o['q'])} {m(o['v'])}")
            elif o["op"] == "mulq":
                ls += ["unit 1", f"mulq {k} {fl(o['a'])} {fl(o['b'])}",
                       "unit 0.00001"]
            elif o["op"] == "angle":
                ls.append(f"angle {k} " + fl([2 * math.atan2(s, c)
                                              for c, s, r in o["a"]]))
            elif o["op"] == "normal":
                ls.append(f"normal {k} {m(o['a'])} {m(o['b'])} {m(o['c'])}")
            elif o["op"] == "corners":
                ls.append(f"corners {k} {m(o['p'])} {sc(o['q'])}")
            else:
                ls += [f"pose {m(o['p'])} {sc(o['q'])}",
                       f"bodyframe {k} {o['i']} {o['j']} {o['z'] / U!r}"]
        return ls

    def line(self, cid, T):
        t = self.tool
        rel = lambda v: [a - b for a, b in zip(units(v), units(t.o))]
        L = {"id": cid, "hx": self.hx, "hy": self.hy,
             "cxy": int(round(self.cxy * U)),
             "tool": {"j": rel(t.j), "b": rel(t.b), "t": rel(t.t),
                      "width": int(round(t.width * U))}, "ops": []}
        for k, o in enumerate(self.ops):
            r = T[str(k)]
            L["ops"].append(dict(o, out=r.get("p") or r.get("q") or r.get("c")))
        return L
