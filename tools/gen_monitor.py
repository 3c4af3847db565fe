"""States, consistent or corrupted, for the built-in checkers.  Heights in
tenths of a cell."""
import random

import gen_phase
from gen_phase import World, add_walls, fl


def tenths(v, cz):
    return f"{v * cz / 10:.7f}"


class Mon:
    def __init__(self, rng):
        self.rng = rng
        hx, hy = rng.choice([(4, 4), (5, 3), (3, 6)])
        cxy, cz = rng.choice([(0.1, 0.1), (0.1, 0.05), (0.2, 0.05),
                              (0.05, 0.02), (0.1, 0.04)])
        W = World(hx, hy, cxy, cz)
        W.kind = rng.choice(["bucket", "blade"])
        W.bg = rng.choice([0, 0, -3, 2, 5])
        z = rng.random()
        if z < 0.015:         # much soil
            W.bg = rng.choice([-1, 1]) * int(10 / cz)
            W.hx, W.hy = hx, hy = 12, 14
        elif z < 0.03:       # long grids
            W.hx, W.hy = hx, hy = rng.choice([(130, 2), (2, 133), (64, 3)])
        W.X, W.Y = 2 * hx + 1, 2 * hy + 1
        self.W = W
        cells = [(i, j) for i in range(W.X) for j in range(W.Y)]
        rng.shuffle(cells)
        for c in cells[:rng.randint(0, 10)]:
            W.t[c] = W.bg + rng.randint(-4, 4)
        for c in cells[10:10 + rng.randint(1, 8)] + cells[:2]:
            add_walls(rng, W, *c, W.t.get(c, W.bg), two=0.6)
        self.t = {c: 10 * v for c, v in W.t.items()}
        self.w = {k: [10 * a for a in v] for k, v in W.w.items()}
        self.s = {k: [10 * a for a in v] for k, v in W.s.items()}
        self.r = [[r[0], r[1], r[2], 10 * r[3]] for r in W.r]
        x = sorted(rng.sample(range(1, 2 * hx + 1), 2))
        y = sorted(rng.sample(range(1, 2 * hy + 1), 2))
        self.ba = (x + y) if rng.random() < 0.4 else [1, 2 * hx, 1, 2 * hy]
        self.n0 = self.total()
        self.muts = []
        for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
            self.corrupt()
        self.n1 = self.total()

    def total(self):
        rnd = lambda v: (v + 5) // 10
        W = self.W
        n = W.X * W.Y * W.bg - len(self.t) * W.bg
        n += sum(rnd(v) for v in self.t.values())
        return n + sum(rnd(b - a) for a, b in self.s.values())

    def amount(self):
        # never half a cell: the rounding of the code would be ambiguous
        return self.rng.choice([10, 10, 20, -10, 3, -3, 1, -2, 30, 7])

    def corrupt(self):
        rng, W = self.rng, self.W
        if not self.w:
            return
        key = rng.choice(list(self.w))
        skeys = list(self.s) or [key]
        sk = rng.choice(skeys)
        a = self.amount()
        m = rng.choice(["ground", "wlo", "whi", "wflip", "wdrop", "wother",
                        "slo", "shi", "sflip", "sdrop", "sghost", "sother",
                        "rh", "rdrop", "radd", "rslot", "rmove", "sshift",
                        "touch", "wshift", "empty", "ground2"])
        self.muts.append(m)
        i, j, k = key
        if m == "ground":
            self.t[(i, j)] = self.w[key][0] + rng.choice([10, 10, 3, 0, 1])
        elif m == "ground2":      # above the second wall or inside
            self.t[(i, j)] = max(self.w[q][rng.randint(0, 1)]
                                 for q in self.w if q[:2] == (i, j)) + abs(a)
        elif m == "wlo":
            self.w[key][0] += a
        elif m == "whi":
            self.w[key][1] += a
        elif m == "wflip":
            self.w[key].reverse()
        elif m == "wdrop":
            del self.w[key]
        elif m == "wother":
            o = (i, j, 3 - k)
            if o in self.w:
                self.w[o] = list(self.w[key]) if rng.random() < 0.3 else \
                    [v + a for v in self.w[o]]
            else:
                z = rng.choice([self.w[key][0] - 10, self.w[key][1],
                                self.w[key][1] + 1, self.w[key][1] - 3,
                                self.w[key][0] - 13])
                self.w[o] = [z, z + 10]
        elif m == "touch":
            o = (i, j, 3 - k)
            self.w[o] = [self.w[key][1], self.w[key][1] + 10] \
                if rng.random() < 0.5 else [self.w[key][0] - 20, self.w[key][0]]
        elif m == "wshift":
            self.w[key] = [v + a for v in self.w[key]]
        elif m == "slo" and sk in self.s:
            self.s[sk][0] += a
        elif m == "shi" and sk in self.s:
            self.s[sk][1] += a
        elif m == "sshift" and sk in self.s:
            self.s[sk] = [v + a for v in self.s[sk]]
        elif m == "sflip" and sk in self.s:
            self.s[sk].reverse()
        elif m == "sdrop" and sk in self.s:
            del self.s[sk]
        elif m == "sghost":       # soil where there is no wall
            c = (rng.randrange(W.X), rng.randrange(W.Y), rng.randint(1, 2))
            if c not in self.w and c not in self.s:
                self.s[c] = [10, 10 + rng.choice([10, 30, 0])]
                if rng.random() < 0.5:
                    self.r.append([*c, self.s[c][1] - 10])
        elif m == "sother" and sk in self.s:
            o = (*sk[:2], 3 - sk[2])
            self.s[o], _ = self.s[sk], self.s.pop(sk)
        elif m == "rh" and self.r:
            rng.choice(self.r)[3] += a
        elif m == "rdrop" and self.r:
            self.r.pop(rng.randrange(len(self.r)))
        elif m == "radd":
            q = rng.choice(list(self.w) or [key])
            self.r.append([*q, rng.choice([10, -10, 3, 0])])
        elif m == "rslot" and self.r:
            q = rng.choice(self.r)
            q[2] = 3 - q[2]
        elif m == "rmove" and self.r:
            q = rng.choice(self.r)
            q[rng.randint(0, 1)] = rng.randrange(min(W.X, W.Y))
        elif m == "empty":
            self.s.setdefault(key, [self.w[key][1]] * 2)

    def clean(self):
        """Intervals [0, 0] are absent by definition."""
        for d in (self.w, self.s):
            for k in [k for k, v in d.items() if v == [0, 0]]:
                del d[k]

    def script(self):
        W, rng = self.W, self.rng
        cz = W.cz
        self.clean()
        ls = W.head() + [f"tfill {W.bg}"]
        z = lambda v: tenths(v, cz)
        for (i, j), h in self.t.items():
            ls.append(f"traw {i} {j} {z(h)}")
        for nm, d in (("wraw", self.w), ("sraw", self.s)):
            for (i, j, k), (lo, hi) in d.items():
                ls.append(f"{nm} {i} {j} {k} {z(lo)} {z(hi)}")
        for r in self.r:
            ls.append(f"rraw {r[0]} {r[1]} {r[2]} {z(r[3])}")
        ls += gen_phase.noise(rng, "0.000001")
        ls.append("area ba " + " ".join(map(str, self.ba)))
        ns = [self.n1, self.n0, self.n1 + rng.choice([1, -1, 5])]
        self.asks = [("soil", None)]
        ls.append("checksoil 0")
        for n in ns:
            ls.append(f"checkvolume {len(self.asks)} {n}")
            self.asks.append(("volume", n))
        n = rng.choice(ns)
        ls.append(f"check {len(self.asks)} {n}")
        self.asks.append(("both", n))
        return ls

    def line(self, cid, T):
        W = self.W
        o = {"id": cid, "X": W.X, "Y": W.Y, "bg": 10 * W.bg,
             "t": [[*c, v] for c, v in self.t.items()],
             "w": [[*k, *v] for k, v in self.w.items()],
             "s": [[*k, *v] for k, v in self.s.items()],
             "r": self.r, "ba": self.ba, "ask": [], "muts": self.muts}
        for q, (kind, n) in enumerate(self.asks):
            x = T[str(q)]
            a = {"kind": kind, "warn": x["warn"], "same": x["same"]}
            if n is not None:
                a["n"] = n
            if "ret" in x:
                a["ret"] = x["ret"]
            o["ask"].append(a)
        return o
