"""Initialisations of all kinds of grids, in fresh and in used worlds."""
import random

from gen_phase import fl


class Terrain:
    """Several initialisations in one process."""

    def __init__(self, rng, n=3):
        self.rng = rng
        self.ls, self.meta = [], {}
        for w in range(n):
            cxy, cz = rng.choice([(0.1, 0.1), (0.1, 0.05), (0.2, 0.05),
                                  (0.05, 0.02), (0.25, 0.04)])
            hx, hy = rng.choice([(5, 5), (4, 9), (11, 3), (8, 7), (2, 6),
                                 (14, 14)])
            if rng.random() < 0.05:
                hx, hy = rng.choice([(130, 3), (3, 140), (64, 4), (35, 35)])
            ex, ey = rng.choice([(0, 0), (0, 0), (0.3, 0), (-0.2, 0.3)])
            sx, sy = round((hx + ex) * cxy, 4), round((hy + ey) * cxy, 4)
            self.ls += [f"world {w}", f"grid {sx} {sy} {20 * cz!r} {cxy} {cz}",
                        "param 0.8 3 4",
                        "body bucket 0 0 0 0 0 0 0 0 -0.5 0.7 0 -0.5 0.5",
                        "unit 0.00001", "pose 0.1 0.2 0.3 1 0 0 0"]
            if rng.random() < 0.6:       # something is there already
                self.ls.append(f"tfill {rng.randint(-4, 4)}")
                for _ in range(4):
                    i, j = rng.randint(0, 2 * hx), rng.randint(0, 2 * hy)
                    k, a = rng.randint(1, 2), rng.randint(-3, 4)
                    self.ls += [f"w {i} {j} {k} {a} {a + 1}",
                                f"s {i} {j} {k} {a + 1} {a + 3}",
                                f"r {i} {j} {k} 2 0.1 0.2 0.3"]
                self.ls += ["area ba 2 5 1 4", "area ra 1 3 2 4",
                            f"eq {rng.randint(0, 1)}"]
            self.meta[w] = (hx, hy, sx, sy, cxy, cz)
        seeds = [rng.randint(0, 10 ** 6) for _ in range(2)]
        self.calls = []
        for k in range(2 * n):
            w = rng.randrange(n)
            seed = rng.choice(seeds)
            hx, hy, sx, sy, cxy, cz = self.meta[w]
            r = rng.choice([0, 300, 1000, 1000, 2000, -700])
            self.calls.append((w, seed, r))
            self.ls += [f"world {w}", f"dump {k}/pre", f"perm {k}/perm {seed}",
                        f"seed {seed}", f"init {r * cz!r}", f"dump {k}/post"]

    def lines(self, cid, recs):
        T = {r["tag"]: r for r in recs}
        for k, (w, seed, r) in enumerate(self.calls):
            hx, hy, sx, sy, cxy, cz = self.meta[w]
            rest = [{x: T[f"{k}/{q}"][x] for x in
                     ("w", "s", "r", "ba", "ra", "ia", "eq", "bp", "bo")}
                    for q in ("pre", "post")]
            u = lambda v: int(round(v * 1e4))
            yield {"id": cid + k, "kind": "init", "X": 2 * round(sx / cxy) + 1,
                   "Y": 2 * round(sy / cxy) + 1, "cxy": u(cxy), "sx": u(sx),
                   "sy": u(sy), "r": r, "perm": T[f"{k}/perm"]["perm"],
                   "t": T[f"{k}/post"]["t"], "off": T[f"{k}/post"]["off"],
                   "rest": rest}


def noise(rng, n=60):
    seed = rng.randint(0, 10 ** 6)
    ls = [f"perm p {seed}"]
    v = []
    for k in range(n):
        d = rng.choice([7, 64, 100, 999])
        m = rng.choice([1, 3, 30]) * d
        a, b = rng.randint(0, m), rng.randint(0, m)
        v.append([a, b, d])
        ls.append(f"noise {k} {a} {b} {d}")
    return ls, v
