"""Random well-formed column worlds for single phases (relaxation passes and
displacement passes), small enough for TLC to infer the hidden order."""
import math
import random

# Body poses: unit quaternions proportional to small integer ones.
QUATS = [(1, 0, 0, 0), (1, 0, 1, 0), (1, 0, 0, 1), (2, 1, 0, 0), (2, 0, -1, 0),
         (3, 0, 0, 1), (1, 1, 1, 1), (2, 1, 1, -1), (3, -1, 0, 2), (4, 0, -1, 1)]


def unit(q):
    n = math.sqrt(sum(v * v for v in q))
    return [v / n for v in q]


def fl(v):
    return " ".join(repr(float(x)) for x in v)


class World:
    """A script under construction; heights are integers."""

    def __init__(self, hx, hy, cxy=0.1, cz=0.05, hz=4.0):
        self.hx, self.hy, self.cxy, self.cz = hx, hy, cxy, cz
        self.hz = hz
        self.X, self.Y = 2 * hx + 1, 2 * hy + 1
        self.bg = 0
        self.t, self.w, self.s, self.r = {}, {}, {}, []
        self.area = {}
        self.q, self.p = (1, 0, 0, 0), (0, 0, 0)   # pose: integer quat, mm
        self.dh, self.eps, self.maxit, self.buf = 1, 0.0, 3, 4
        self.seed = 0
        self.kind = "bucket"

    def head(self):
        g = [self.hx * self.cxy, self.hy * self.cxy, self.hz]
        rep = math.atan((self.dh + self.eps) * self.cz / self.cxy)
        out = [f"grid {fl(g)} {self.cxy} {self.cz}",
               f"param {rep!r} {self.maxit} {self.buf}"]
        if self.kind == "bucket":
            out.append("body bucket 0 0 0 0 0 0 0 0 -0.5 0.7 0 -0.5 0.5")
        else:
            out.append("body blade 0 0 0 0.1 0 0 0 0 0.5 0.3 0 -0.5 0.5")
        out.append(f"seed {self.seed}")
        return out

    def lines(self):
        out = self.head()
        out.append(f"tfill {self.bg}")
        for (i, j), h in sorted(self.t.items()):
            out.append(f"t {i} {j} {h}")
        for nm, d in (("w", self.w), ("s", self.s)):
            for (i, j, k), (lo, hi) in sorted(d.items()):
                out.append(f"{nm} {i} {j} {k} {lo} {hi}")
        for r in self.r:
            out.append("r " + " ".join(map(str, r)))
        for n, a in self.area.items():
            out.append(f"area {n} " + " ".join(map(str, a)))
        out.append(f"pose {fl([v / 1000 for v in self.p])} {fl(unit(self.q))}")
        return out

    def embed(self, rng):
        """The same arrangement in a much longer grid, off its centre, and
        higher or lower."""
        d = rng.choice([31, 70, 130, 130])
        n = [0, 0]
        ax = rng.randint(0, 1)
        n[ax] = rng.choice([0, d, 2 * d, 2 * d - 1, d + rng.randint(0, d)])
        if ax:
            self.hy += d
        else:
            self.hx += d
        self.X, self.Y = 2 * self.hx + 1, 2 * self.hy + 1
        z = rng.choice([0, int(rng.choice([-7, 3, 7]) / self.cz)])
        self.hz += 8
        self.bg += z
        lift = lambda v: v + z if isinstance(v, int) else (v[0] + z, v[1] + z)
        up = lambda m: {(c[0] + n[0], c[1] + n[1]) + c[2:]: lift(v)
                        for c, v in m.items()}
        self.t, self.w, self.s = up(self.t), up(self.w), up(self.s)
        self.r = [(e[0] + n[0], e[1] + n[1]) + e[2:] for e in self.r]
        self.area = {k: (a[0] + n[0], a[1] + n[0], a[2] + n[1], a[3] + n[1])
                     for k, a in self.area.items()}
        by = (n[ax] - d) * mm(self.cxy)
        self.p = tuple(v + by * (k == ax) + z * mm(self.cz) * (k == 2)
                       for k, v in enumerate(self.p))
        return self

    def case(self, cid, plan, pre, post):
        return {"id": cid, "plan": plan, "X": self.X, "Y": self.Y,
                "hx": self.hx, "hy": self.hy, "dh": self.dh, "buf": self.buf,
                "maxit": self.maxit, "pre": pre, "post": post,
                "q": list(self.q), "p": list(self.p), "cxy": mm(self.cxy),
                "cz": mm(self.cz)}


def mm(v):
    return int(round(v * 1000))


def split(rng, h, parts=3):
    out = []
    while h > 0:
        a = h if len(out) >= parts - 1 else rng.randint(1, h)
        out.append(a)
        h -= a
    return out


def add_slab(rng, W, i, j, k, h, parts=2):
    if h <= 0:
        return
    lo = W.w[(i, j, k)][1]
    W.s[(i, j, k)] = (lo, lo + h)
    for a in split(rng, h, rng.randint(1, parts)):
        W.r.append((i, j, k, a) + tuple(
            round(rng.uniform(-0.6, 0.6), 3) for _ in range(3)))


def add_walls(rng, W, i, j, t, over=None, tight=0.5, squeeze=False, two=0.5):
    """Walls of column (i, j) starting at or above t (or at `over`)."""
    lo = over if over is not None else t + (
        0 if rng.random() < tight else rng.randint(1, 4))
    hi = lo + rng.choice([1, 1, 2, 3])
    if rng.random() < two:
        lo2 = hi + rng.choice([1, 2, 3, 5])
        hi2 = lo2 + rng.choice([1, 2])
        b = rng.randint(1, 2)
        W.w[(i, j, b)] = (lo, hi)
        W.w[(i, j, 3 - b)] = (lo2, hi2)
        gap = lo2 - hi
        z = rng.random()
        h = 0 if z < 0.3 else gap if z < 0.5 else rng.randint(0, gap)
        if squeeze and rng.random() < 0.7:
            h = gap + rng.randint(0, 4)
        add_slab(rng, W, i, j, b, h)
        if rng.random() < 0.5:
            add_slab(rng, W, i, j, 3 - b, rng.randint(0, 5))
    else:
        k = rng.randint(1, 2)
        W.w[(i, j, k)] = (lo, hi)
        if rng.random() < 0.6:
            add_slab(rng, W, i, j, k, rng.randint(0, 7))


def boxed(rng, W, ci, cj):
    """A squeezed slab with walls all round, most of them too high to pass."""
    gap = rng.randint(1, 3)
    lo = W.bg + rng.randint(0, 2)
    b = rng.randint(1, 2)
    W.w[(ci, cj, b)] = (lo, lo + 1)
    W.w[(ci, cj, 3 - b)] = (lo + 1 + gap, lo + 2 + gap)
    add_slab(rng, W, ci, cj, b, gap + rng.randint(1, 4), 3)
    high = rng.choice([0.7, 0.98])
    for i in range(ci - 1, ci + 2):
        for j in range(cj - 1, cj + 2):
            if (i, j) == (ci, cj):
                continue
            z = rng.random()
            k = rng.randint(1, 2)
            if z < high:           # as high as the ceiling, or higher
                W.w[(i, j, k)] = (lo + rng.choice([-0, 1, 1]),
                                  lo + 1 + gap + rng.choice([0, 0, 1, -1]))
                if W.w[(i, j, k)][0] >= W.w[(i, j, k)][1]:
                    W.w[(i, j, k)] = (lo, lo + 1 + gap)
            elif z < 0.93:         # two walls, the gap may be full
                g = rng.randint(1, 3)
                W.w[(i, j, k)] = (lo, lo + 1)
                W.w[(i, j, 3 - k)] = (lo + 1 + g, lo + 3 + g)
                add_slab(rng, W, i, j, k, rng.choice([0, g, g, g - 1]))


def plate(rng, W, ci, cj):
    """A plate of walls with little or no room below; one or two of them are
    buried, so that the ground has to go several columns away."""
    a, b = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2)])
    z = W.bg + rng.randint(-1, 2)
    cells = [(i, j) for i in range(ci - a, ci + a + 1)
             for j in range(cj - b, cj + b + 1)]
    for (i, j) in cells:
        if rng.random() < 0.08 and (i, j) != (ci, cj):
            continue
        lo = z + rng.choice([0, 0, 0, 1])
        W.w[(i, j, rng.randint(1, 2))] = (lo, lo + rng.randint(1, 2))
        room = rng.choice([0, 0, 0, 0, 0, 0, 1, 2])
        W.t[(i, j)] = lo - room
    rng.shuffle(cells)
    for c in [(ci, cj)] + cells[:rng.randint(0, 1)]:
        W.t[c] = W.t.get(c, W.bg) + rng.randint(1, 9)


DIRS = [(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (1, -1), (-1, 1), (-1, -1)]


def star(rng, W, ci, cj):
    """A buried wall in the middle of eight arms of walls: there is no room
    for the ground before ring `n`."""
    far = min(ci, cj, W.X - 1 - ci, W.Y - 1 - cj)
    n = rng.randint(1, max(1, far - 1))
    z = W.bg + rng.randint(-1, 2)
    some = [d for d in DIRS if rng.random() < rng.choice([0.1, 0.3])] \
        or [rng.choice(DIRS)]
    for d in DIRS:
        last = n - 1 if d in some else min(far, n + rng.randint(0, 2))
        for m in range(1, last + 1):
            c = (ci + m * d[0], cj + m * d[1])
            lo = z + rng.choice([0, 0, 0, 1, -1])
            W.w[c + (rng.randint(1, 2),)] = (lo, lo + rng.randint(1, 2))
            room = rng.choice([0] * 12 + [1, 2])
            W.t[c] = lo - room
    k = rng.randint(1, 2)
    W.w[(ci, cj, k)] = (z, z + rng.randint(1, 2))
    if rng.random() < 0.4:
        lo = W.w[(ci, cj, k)][1] + rng.randint(1, 3)
        W.w[(ci, cj, 3 - k)] = (lo, lo + 1)
    W.t[(ci, cj)] = z + rng.randint(1, 7)
    W.area["ba"] = (max(1, ci - rng.randint(0, 4)), min(2 * W.hx, ci + 3),
                    max(1, cj - 3), min(2 * W.hy, cj + rng.randint(1, 5)))


def arms(rng, W, ci, cj):
    """A squeezed slab; every direction is a path over gaps between walls that
    ends at a high wall, a low wall, a raised wall or the open ground."""
    far = min(ci, cj, W.X - 1 - ci, W.Y - 1 - cj)
    gap = rng.randint(1, 3)
    z = W.bg + rng.randint(0, 2)
    k = rng.randint(1, 2)
    W.w[(ci, cj, k)] = (z, z + rng.randint(1, 2))
    floor = W.w[(ci, cj, k)][1]
    W.w[(ci, cj, 3 - k)] = (floor + gap, floor + gap + rng.randint(1, 2))
    add_slab(rng, W, ci, cj, k, gap + rng.randint(1, 6), 2)
    closed = rng.choice([0.5, 0.8, 0.95])
    for d in DIRS:
        top, ceil = floor, floor + gap
        more = min(far - 1, rng.choice([0, 0, 1, 1, 2, 3]))
        for m in range(1, far + 1):
            c = (ci + m * d[0], cj + m * d[1])
            k = rng.randint(1, 2)
            if m > more:
                e = rng.random()
                if e < closed:                        # too high to pass
                    hi = ceil + rng.choice([0, 0, 1])
                    W.w[c + (k,)] = (min(top, hi - 1)
                                     - rng.choice([0, 0, 1]), hi)
                elif e < closed + (1 - closed) / 3:   # can be climbed
                    hi = ceil - 1 - rng.choice([0, 0, 1])
                    W.w[c + (k,)] = (hi - rng.randint(1, 2), hi)
                elif e < closed + 2 * (1 - closed) / 3:   # above the floor
                    lo = top + rng.randint(1, 2)
                    W.w[c + (k,)] = (lo, lo + rng.randint(1, 3))
                break
            g = rng.choice([1, 1, 2, 3])
            lo = top - rng.choice([2, 1, 1, 0])
            hi = lo + rng.randint(1, 2)
            W.w[c + (k,)] = (lo, hi)
            W.w[c + (3 - k,)] = (hi + g, hi + g + rng.randint(1, 2))
            add_slab(rng, W, c[0], c[1], k, rng.choice([g, g, 0, g - 1]))
            top, ceil = hi, hi + g


def used_up(rng, W):
    """Parcels that an earlier pass has emptied are still in the list."""
    if W.w and rng.random() < 0.3:
        many = rng.random() < 0.05
        for _ in range(rng.randint(250, 300) if many else rng.randint(1, 3)):
            c = rng.choice(sorted(W.w))
            W.r.insert(rng.randint(0, len(W.r)), c + (0, 0.1, 0.2, 0.3))


def gen(rng, kind):
    """One scenario for phase `kind`; returns (World, op)."""
    hx, hy = rng.choice([(5, 5), (6, 4), (4, 6)])
    far = kind == "movebody" and rng.random() < 0.2
    if far:
        hx, hy = rng.choice([(6, 7), (7, 7), (8, 6)])
    cxy, cz = rng.choice([(0.1, 0.1), (0.1, 0.05), (0.07, 0.03), (0.2, 0.05), (0.05, 0.05),
                          (0.1, 0.04)])
    W = World(hx, hy, cxy, cz)
    W.kind = rng.choice(["bucket", "blade"])
    W.dh = rng.choice([1, 1, 2, 2, 3])
    W.eps = rng.choice([0, 0, -0.4, 0.4, 0.25, -0.25])
    W.buf = rng.choice([2, 3, 4])
    W.seed = rng.randint(0, 10 ** 6)
    W.q = rng.choice(QUATS)
    W.p = tuple(rng.randint(-300, 300) for _ in range(3))
    W.bg = rng.choice([0, -2, -1, 1, 3, -6])
    ci, cj = hx + rng.randint(-1, 1), hy + rng.randint(-1, 1)
    size = rng.choice([1, 1, 2])
    if kind.startswith("relax") and rng.random() < 0.2:     # next to the border
        if rng.random() < 0.5:
            ci = rng.choice([size + 1, 2 * hx - 1 - size])
        else:
            cj = rng.choice([size + 1, 2 * hy - 1 - size])
    cells = [(i, j) for i in range(ci - size, ci + size + 1)
             for j in range(cj - size, cj + size + 1)]
    rng.shuffle(cells)
    full = (0, 2 * hx, 0, 2 * hy)
    W.area["ba"] = (max(1, ci - 3), min(2 * hx, ci + 4),
                    max(1, cj - 3), min(2 * hy, cj + 4))
    if kind in ("relaxt", "relaxb", "iter"):
        for c in cells[:rng.randint(1, 6)]:
            W.t[c] = W.bg + rng.choice([-5, -3, -2, -1, 1, 2, 3, 4, 5, 7])
        nw = rng.randint(0 if kind == "relaxt" else 1, 5)
        rng.shuffle(cells)
        for (i, j) in cells[:nw]:
            t = W.t.get((i, j), W.bg)
            add_walls(rng, W, i, j, t)
        a = rng.choice([0, 0, 1])
        W.area["ia"] = (max(1, ci - 2 - a), min(2 * hx, ci + 3 + a),
                        max(1, cj - 2 - a), min(2 * hy, cj + 3 + a))
        if rng.random() < 0.25:    # an impact area that cuts the active region
            W.area["ia"] = (ci - 1, ci + 1, cj, cj + 2)
        W.area["ra"] = (2, 5, 2, 4)
        used_up(rng, W)
    elif kind == "movebs" and rng.random() < 0.2:
        boxed(rng, W, ci, cj)
    elif kind == "movebs" and rng.random() < 0.35:
        arms(rng, W, ci, cj)
    elif far:
        star(rng, W, ci, cj)
    elif kind == "movebody" and rng.random() < 0.25:
        plate(rng, W, ci, cj)
    elif kind == "movebs":
        nw = rng.randint(1, 6)
        for (i, j) in cells[:nw]:
            if rng.random() < 0.3:
                W.t[(i, j)] = W.bg + rng.randint(-2, 3)
            add_walls(rng, W, i, j, W.t.get((i, j), W.bg), squeeze=True,
                      two=0.7)
    elif kind == "movebody":
        for c in cells[:rng.randint(1, 5)]:
            W.t[c] = W.bg + rng.choice([-2, -1, 1, 2, 3, 4])
        rng.shuffle(cells)
        for (i, j) in cells[:rng.randint(1, 5)]:
            t = W.t.get((i, j), W.bg)
            deep = rng.random() < 0.6
            add_walls(rng, W, i, j, t,
                      over=t - rng.randint(1, 5) if deep else None)
        if rng.random() < 0.25:    # part of the walls outside the tool region
            W.area["ba"] = (ci - 1, ci + rng.randint(1, 3),
                            cj - 1, cj + rng.randint(1, 3))
    else:       # moveall
        for c in cells[:rng.randint(0, 3)]:
            W.t[c] = W.bg + rng.choice([-2, -1, 1, 2, 3])
        rng.shuffle(cells)
        for (i, j) in cells[:rng.randint(1, 4)]:
            t = W.t.get((i, j), W.bg)
            deep = rng.random() < 0.4
            add_walls(rng, W, i, j, t, squeeze=True,
                      over=t - rng.randint(1, 3) if deep else None)
    return W


PLAN = {"relaxt": ["gflow"], "relaxb": ["sflow"], "movebs": ["slide"],
        "movebody": ["push"], "moveall": ["slide", "push"],
        "iter": ["gflow", "sflow"]}
OPS = {"relaxt": ["relaxt"], "relaxb": ["relaxb"], "movebs": ["movebs"],
       "movebody": ["movebody"], "moveall": ["moveall"],
       "iter": ["relaxt", "relaxb"]}


LONG = 0.05         # part of the scenarios on a long grid


def noise(rng, amplitude="0.000002"):
    """Floating-point noise below the tolerance (1e-5) on all heights."""
    return [] if rng.random() < 0.4 else \
        [f"jitter {amplitude} {rng.randint(0, 10 ** 6)}"]


def batch(seed, kind, n, base):
    """n scenarios: {id: (World, script lines)}."""
    out = {}
    for k in range(n):
        rng = random.Random(f"{seed}/{kind}/{k}")
        W = gen(rng, kind)
        if rng.random() < LONG:
            W.embed(rng)
        ls = W.lines() + noise(rng) + ["dump pre"]
        ops = OPS[kind]
        for o in ops[:-1]:
            ls.append(f"{o} -")
        ls.append(f"{ops[-1]} post")
        out[base + k] = (W, ls)
    return out
