"""Simulations that write output now and then, into folders that may already
hold output of earlier runs."""
import os
import random

import gen_phase
from gen_phase import fl
from gen_run import Run, unitq
from lib import sparse


def folder(rng, path):
    """Create a folder, possibly with earlier output."""
    for d in ("soil_simulator", "results"):
        os.makedirs(os.path.join(path, d))
    open(os.path.join(path, "scratch"), "w").close()   # files may be removed
    z = rng.random()
    names = []
    if z > 0.4:
        n = rng.choice([1, 2, 3, 9, 10, 11, 99, 100, 101]) if z > 0.7 else 1
        if z > 0.985:
            n = rng.choice([255, 256, 999, 1000, 1001])
        for s in ("terrain", "bucket", "blade"):
            gone = set(rng.sample(range(n), rng.choice([0, 0, 1, 1, 2]) % (n + 1)))
            m = n if rng.random() < 0.6 else rng.randint(0, n)
            for k in range(m):
                if k not in gone:
                    names.append(f"{s}_{k:05d}.csv")
                    if s == "terrain" and rng.random() < 0.9:
                        names.append(f"body_soil_{k:05d}.csv")
    if rng.random() < 0.25:  # ground files removed, carried-soil files left
        for k in rng.sample(range(5), rng.randint(1, 3)):
            f = f"body_soil_{k:05d}.csv"
            if f not in names:
                names.append(f)
    if rng.random() < 0.3:
        names += rng.sample(["notes.txt", "terrain_1.csv", "terrain_00007.csv~",
                             "terrain_000.csv", "bucket.csv"], 2)
    for k, f in enumerate(names):
        with open(os.path.join(path, "results", f), "w") as o:
            z = rng.random()
            if z > 0.1:       # otherwise an empty file
                o.write(f"x,y,z\n{k},1,2\n" if z > 0.2 else "?")


def removals(rng):
    """Output files removed between two requests, if they are there."""
    if rng.random() < 0.7:
        return []
    n = rng.choice([1, 2, 2, 3])
    one = rng.choice(["terrain", "body_soil", "bucket", "blade", ""])
    return [f"rmfile {s}_{k:05d}.csv" for k in range(n)
            for s in ("terrain", "body_soil", "bucket", "blade")
            if not one or s == one]


class Still:
    """Output of arbitrary states: soil on walls anywhere in the grid."""

    def __init__(self, rng, path):
        self.rng, self.path = rng, path
        hx, hy = rng.choice([(3, 8), (8, 3), (2, 9), (5, 5), (4, 6), (3, 3)])
        if rng.random() < 0.04:
            hx, hy = rng.choice([(130, 3), (3, 128), (66, 2)])
        W = gen_phase.World(hx, hy, *rng.choice([(0.1, 0.1), (0.1, 0.05),
                                                 (0.2, 0.05), (0.05, 0.05)]))
        W.hz = 30 * W.cz
        W.kind = rng.choice(["bucket", "blade"])
        W.q = rng.choice(gen_phase.QUATS)
        W.p = tuple(rng.randint(-300, 300) for _ in range(3))
        W.bg = rng.choice([0, 0, -2, 5, -11])
        cols = [(i, j) for i in range(W.X) for j in range(W.Y)]
        edge = [c for c in cols if c[0] in (0, W.X - 1) or c[1] in (0, W.Y - 1)]
        for c in rng.sample(cols, rng.randint(0, 12)):
            W.t[c] = rng.randint(-25, 25)
        n = rng.choice([0, 1, 1, 2, 3, 10])
        for c in rng.sample(cols, n) + rng.sample(edge, rng.choice([0, 0, 1, 2])):
            for k in (1, 2):
                W.w.pop(c + (k,), None)
                W.s.pop(c + (k,), None)
            W.r = [e for e in W.r if e[:2] != c]
            gen_phase.add_walls(rng, W, *c, W.t.get(c, W.bg),
                                over=rng.choice([-3, -2, -1, 0, 1, 4]))
        W.area["ba"] = (1, 2 * hx, 1, 2 * hy)
        self.W = W
        folder(rng, path)

    def script(self):
        n = self.rng.choice([1, 1, 2, 3])
        self.asks = n
        ls = [f"folder {self.path}"] + self.W.lines() + ["unit 0.0001", "dump st"]
        for a in range(n):
            ls += [f"ls {a}/pre", "write", f"ls {a}/post"]
            ls += removals(self.rng)
        return ls

    def lines(self, cid, recs):
        T = {r["tag"]: r for r in recs}
        W = self.W
        d = sparse(T["st"])
        u = lambda v: int(round(v * 100000))
        for a in range(self.asks):
            L = {"id": cid + a, "X": W.X, "Y": W.Y, "hx": W.hx, "hy": W.hy,
                 "q": list(W.q), "p": [100 * v for v in W.p], "cxy": u(W.cxy),
                 "cz": u(W.cz), "hz": 30, "blade": W.kind == "blade",
                 "tool": {"j": [0, 0, 0], "b": [0, 0, -50000],
                          "t": [70000, 0, -50000], "width": 50000}
                 if W.kind == "bucket" else
                 {"j": [10000, 0, 0], "b": [0, 0, 50000],
                  "t": [30000, 0, -50000], "width": 50000},
                 "st": {x: d[x] for x in ("bg", "t", "s")}}
            yield finish(L, T, a)


def finish(L, T, a):
    L["pre"] = [{"name": f["name"], "hash": f["hash"]}
                for f in T[f"{a}/pre"]["files"]]
    had = {f["name"] for f in L["pre"]}
    L["post"] = [f if f["name"] not in had else
                 {"name": f["name"], "hash": f["hash"]}
                 for f in T[f"{a}/post"]["files"]]
    return L


class Sim:
    def __init__(self, rng, path):
        self.rng, self.path = rng, path
        kw = dict(nsteps=rng.randint(3, 8), half=(8, 10), maxit=(1, 3),
                  jump=0.05, skip=0.25)
        self.runs = [Run(rng, **kw) for _ in range(rng.choice([1, 1, 1, 2]))]
        folder(rng, path)

    def script(self):
        rng = self.rng
        ls = [f"folder {self.path}"]
        self.asks = []                    # (run, pose index) per request
        for k, r in enumerate(self.runs):
            ls += [f"world {k}"] + r.lines0 + [f"seed {rng.randint(0, 10**6)}"]
        todo = [[(k, m) for m in range(len(r.poses))]
                for k, r in enumerate(self.runs)]
        now = {}
        while any(todo):
            q = rng.choice([t for t in todo if t])
            k, m = q.pop(0)
            r = self.runs[k]
            p, o = r.poses[m]
            now[k] = m
            ls += [f"world {k}", "unit 0.00001",
                   f"step {k}/{m} -1 {fl(p)} {fl(unitq(o))}"]
            for _ in range(rng.choice([0, 0, 1, 1, 1, 2])):
                a = len(self.asks)
                self.asks.append((k, m))
                ls += removals(rng)
                ls += ["unit 0.0001", f"ls {a}/pre", "write", f"ls {a}/post",
                       "unit 0.00001"]
        return ls

    def lines(self, cid, recs):
        T = {r["tag"]: r for r in recs}
        out = []
        for a, (k, m) in enumerate(self.asks):
            r = self.runs[k]
            last = [x for x in range(m + 1) if T[f"{k}/{x}"]["ret"]]
            if not last:
                continue
            d = sparse(T[f"{k}/{m}"])
            L = r.head(last[-1])          # the pose of the last executed step
            L.update(id=cid + a, st={x: d[x] for x in ("bg", "t", "s")})
            out.append(finish(L, T, a))
        return out
