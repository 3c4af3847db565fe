"""Tiny worlds in which the random choices decide the outcome, each executed
many times."""
import json

from gen_phase import QUATS, World, add_slab, fl, unit
from lib import sparse

D4 = [(1, 0), (-1, 0), (0, 1), (0, -1)]
D8 = D4 + [(1, 1), (1, -1), (-1, 1), (-1, -1)]


class Fair:
    def __init__(self, rng, kind, n):
        self.rng, self.kind, self.n = rng, kind, n
        W = self.W = World(5, 5, *rng.choice([(0.1, 0.1), (0.1, 0.05),
                                              (0.2, 0.05)]))
        W.kind = rng.choice(["bucket", "blade"])
        W.dh = rng.choice([1, 1, 2, 3])
        W.buf = 2
        W.q = rng.choice(QUATS)
        W.bg = rng.choice([0, -1, 2])
        W.area["ia"] = W.area["ba"] = (2, 9, 2, 9)
        W.area["ra"] = (2, 5, 2, 4)
        self.c = (5 + rng.randint(-1, 1), 5 + rng.randint(-1, 1))
        self.sym = 0             # number of equally likely outcomes, if known
        self.op, self.plan = getattr(self, kind)()

    def at(self, d, n=1):
        return self.c[0] + n * d[0], self.c[1] + n * d[1]

    # -- ground avalanches ------------------------------------------------
    def ground(self):
        """A peak one step too high: the first open direction takes it all."""
        W, rng = self.W, self.rng
        D = D4[:]
        rng.shuffle(D)
        k = rng.choice([2, 3, 4, 4])
        W.t[self.c] = W.bg + W.dh + 1
        for d in D[k:]:
            W.t[self.at(d)] = W.bg + W.dh + 1
            for e in D4:         # keep these out of the game
                x = (self.at(d)[0] + e[0], self.at(d)[1] + e[1])
                if x != self.c and x not in W.t:
                    W.t[x] = W.bg + W.dh
        if k == 4 and rng.random() < 0.5:
            d = rng.choice(D)    # one way leads onto a wall
            j = rng.randint(1, 2)
            W.w[(*self.at(d), j)] = (W.bg - 1, W.bg)
            W.t[self.at(d)] = W.bg - 1
        self.sym = k
        return ["relaxt"], ["gflow"]

    def peak(self):
        """Higher peaks, several directions in turn."""
        W, rng = self.W, self.rng
        D = D4[:]
        rng.shuffle(D)
        W.t[self.c] = W.bg + W.dh + rng.choice([2, 3, 5])
        for d in D[2:]:
            if rng.random() < 0.5:
                W.t[self.at(d)] = W.bg + rng.randint(1, 2)
        return ["relaxt"], ["gflow"]

    def twopeaks(self):
        """Two columns compete: the order of the columns matters."""
        W, rng = self.W, self.rng
        d = rng.choice(D4)
        a = W.bg + W.dh + 1
        W.t[self.c] = a
        W.t[self.at(d, 2)] = a
        z = rng.random()
        for e in D4:             # the only open column is the one in between
            for m in (0, 2):
                x = (self.at(d, m)[0] + e[0], self.at(d, m)[1] + e[1])
                if x not in W.t and x != self.at(d):
                    W.t[x] = W.bg + 1
        return ["relaxt"], ["gflow"]

    # -- carried soil -----------------------------------------------------
    def slab(self):
        W, rng = self.W, self.rng
        k = rng.randint(1, 2)
        lo = W.bg + rng.randint(1, 3)
        h = W.dh + 1
        W.w[(*self.c, k)] = (lo - 1, lo)
        W.s[(*self.c, k)] = (lo, lo + h)
        W.r = [(*self.c, k, h, 0.0, 0.0, 0.0)]
        D = D4[:]
        rng.shuffle(D)
        n = rng.choice([2, 3, 4, 4])
        for d in D[:n]:
            W.w[(*self.at(d), rng.randint(1, 2))] = (lo - 1, lo)
        for d in D[n:]:
            W.w[(*self.at(d), rng.randint(1, 2))] = (lo - 1, lo + h)
        self.sym = n
        return ["relaxb"], ["sflow"]

    def slabpeak(self):
        W, rng = self.W, self.rng
        k = rng.randint(1, 2)
        lo = W.bg + rng.randint(1, 3)
        h = W.dh + rng.choice([1, 2, 3, 5])
        W.w[(*self.c, k)] = (lo - 1, lo)
        W.s[(*self.c, k)] = (lo, lo + h)
        W.r = [(*self.c, k, h, 0.0, 0.0, 0.0)]
        for d in D4:
            z = rng.random()
            if z < 0.6:
                W.w[(*self.at(d), rng.randint(1, 2))] = (
                    lo - 1, lo + rng.choice([0, 0, 1]))
        return ["relaxb"], ["sflow"]

    # -- squeezed soil ----------------------------------------------------
    def squeezed(self):
        W, rng = self.W, self.rng
        k = rng.randint(1, 2)
        lo, gap, a = W.bg + rng.randint(0, 2), rng.randint(1, 3), rng.randint(1, 3)
        W.w[(*self.c, k)] = (lo, lo + 1)
        top = lo + 1 + gap
        W.w[(*self.c, 3 - k)] = (top, top + rng.randint(1, 3))
        W.s[(*self.c, k)] = (lo + 1, top + a)
        W.r = [(*self.c, k, gap + a, 0.0, 0.0, 0.0)]
        D = D8[:]
        rng.shuffle(D)
        n = rng.choice([2, 4, 8, 8])
        for d in D[n:]:          # walls as high as the ceiling
            W.w[(*self.at(d), rng.randint(1, 2))] = (
                lo, top + rng.randint(0, 2))
        for d in D[:n]:
            if rng.random() < 0.5:
                W.w[(*self.at(d), rng.randint(1, 2))] = (lo, lo + 1)
        self.sym = n
        return ["movebs"], ["slide"]

    # -- ground hit by the tool -------------------------------------------
    def buried(self):
        W, rng = self.W, self.rng
        a = rng.randint(1, 4)
        W.w[(*self.c, rng.randint(1, 2))] = (W.bg - a, W.bg + 1)
        ring = rng.choice([1, 1, 1, 2])
        if ring == 2:            # no room in the first ring
            for d in D8:
                W.w[(*self.at(d), rng.randint(1, 2))] = (W.bg, W.bg + 1)
        D = D8[:]
        rng.shuffle(D)
        n = rng.choice([2, 4, 8, 8])
        for d in D[n:]:
            W.w[(*self.at(d, ring), rng.randint(1, 2))] = (W.bg, W.bg + 2)
        self.sym = n
        W.area["ba"] = (self.c[0], self.c[0] + 1, self.c[1], self.c[1] + 1)
        return ["movebody"], ["push"]

    def narrow(self):
        """Room for one cell under each wall: several directions in turn."""
        W, rng = self.W, self.rng
        a = 2
        W.w[(*self.c, rng.randint(1, 2))] = (W.bg - a, W.bg + 1)
        D = D8[:]
        rng.shuffle(D)
        for d in D[4:]:
            W.w[(*self.at(d), rng.randint(1, 2))] = (W.bg, W.bg + 2)
        for d in D[:4]:
            W.w[(*self.at(d), rng.randint(1, 2))] = (W.bg + 1, W.bg + 2)
        self.sym = 6
        W.area["ba"] = (self.c[0], self.c[0] + 1, self.c[1], self.c[1] + 1)
        return ["movebody"], ["push"]

    # -- one step with two parcels ------------------------------------------
    def parcels(self):
        """Two neighbouring parcels on the edge of a blade, moved one cell and
        relaxed once."""
        W, rng = self.W, self.rng
        W.kind, W.cxy, W.cz = "edge", 0.1, 0.1
        W.q, W.bg, W.maxit = (1, 0, 0, 0), -4, 1
        W.dh, self.n = 1, 8 * self.n
        a, b = rng.choice([(2, 0), (3, 0), (3, 1)])
        x = rng.choice([4, 5])
        for k in range(2):       # y from -0.1 to 0.1
            h = a + (b if k else 0)
            W.w[(x, 5 + k, 1)] = (-1, 1)
            W.s[(x, 5 + k, 1)] = (1, 1 + h)
            W.r.append((x, 5 + k, 1, h, round(0.1 * (x - 5), 3),
                        round(0.1 * k, 3), 0.1))
        return ["step"], ["widen", "gflow", "sflow"]

    # ---------------------------------------------------------------------
    def script(self):
        rng, W = self.rng, self.W
        ls = W.lines()
        if self.kind == "parcels":
            ls = [l for l in ls if not l.startswith("body")]
            ls.insert(2, "body blade 0 0 0 0 0 0 0.03 0 -0.1 0.03 0 0.1 0.2")
        ls += ["save", "dump pre"]
        go = [f"{self.op[0]} out"]
        if self.kind == "parcels":
            a = f"{fl([0.0, 0.0, 0.1])} {fl([1, 0, 0, 0])}"
            ls += [f"step before 0 {a}", "load"]
            go = [f"step out 1 {a}"]
        m = 0
        while m < self.n:
            # a new seed, or the generator going on
            k = rng.choice([1, 1, 1, 20, 100])
            ls.append(f"seed {rng.randint(0, 2 ** 31)}")
            for _ in range(k):
                ls += ["reload"] + go
            m += k
        self.total = m
        return ls

    def line(self, cid, recs):
        T = [sparse(r) for r in recs]
        first = 1
        pre = T[0]
        if self.kind == "parcels":
            pre, first = T[1], 2
        seen, count = {}, {}
        for r in T[first:]:
            x = {k: r[k] for k in ("bg", "t", "w")}
            x["s"] = r["s"]
            x["r"] = sorted(e[:4] for e in r["r"])
            key = json.dumps(x, sort_keys=True)
            seen.setdefault(key, x)
            count[key] = count.get(key, 0) + 1
        W = self.W
        L = W.case(cid, self.plan, pre, pre)
        L["seen"] = [dict(seen[k], count=count[k]) for k in seen]
        L["total"] = self.total
        L["sym"] = self.sym
        return L
