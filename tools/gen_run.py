"""Random whole simulations: terrain, tool, trajectory.  Each executed step is
run from a snapshot with growing limits on the number of avalanche passes, so
that the states between the passes are recorded too."""
import math
import random

from gen_phase import fl, mm


def qmul(a, b):
    return (a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
            a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
            a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0])


def rot(q, v):
    n = sum(x * x for x in q)
    c = (q[0] / n, -q[1] / n, -q[2] / n, -q[3] / n)
    r = qmul(qmul(c, (0,) + tuple(v)), q)
    return r[1:]


def axis(ax, a):
    q = [math.cos(a / 2), 0, 0, 0]
    q[ax + 1] = math.sin(a / 2)
    return tuple(q)


U = 100000          # length units per metre in the traces


def snap(pose):
    """Pose with an integer quaternion and a position on the 0.1 mm grid."""
    p, q = pose
    n = math.sqrt(sum(x * x for x in q))
    return (tuple(round(x, 4) for x in p),
            tuple(int(round(80 * x / n)) for x in q))


def unitq(q):
    n = math.sqrt(sum(x * x for x in q))
    return [x / n for x in q]


def units(v):
    return [int(round(x * U)) for x in v]


class Tool:
    def __init__(self, rng, cell):
        self.kind = rng.choice(["bucket", "blade"])
        a, b = rng.randint(2, 5) * cell, rng.randint(2, 6) * cell
        self.width = rng.choice([2, 3, 4, 5]) * cell + rng.choice([0, 0.3]) * cell
        jit = lambda: rng.choice([0, 0, 0.13, -0.21]) * cell
        if self.kind == "bucket":
            j = (0, 0, 0)
            bb = (jit(), 0, -a)
            t = (b, 0, -a + jit())
        else:       # a blade: joint in the middle, ankle below, heel above
            j = (b / 3, 0, 0.0)
            bb = (b / 3 + jit(), 0, -a / 2)
            t = (b / 3 + b / 2, 0, a / 2)
            if rng.random() < 0.5:
                j, bb, t = (0, 0, 0), (0.3 * cell, 0, -a), (b, 0, -a / 3)
        o = rng.choice([(0, 0, 0), (0, 0, 0), (0.1 * cell, 0.2 * cell, -0.5 * a)])
        rnd = lambda v: tuple(round(x, 4) for x in v)
        self.o, self.j, self.b, self.t = map(rnd, (o, j, bb, t))
        self.width = round(self.width, 4)

    def line(self):
        return (f"body {self.kind} {fl(self.o)} {fl(self.j)} {fl(self.b)} "
                f"{fl(self.t)} {self.width}")

    def corners(self, p, q):
        v = [rot(q, [a - b for a, b in zip(c, self.o)])
             for c in (self.j, self.b, self.t)]
        ab = [v[1][k] - v[0][k] for k in range(3)]
        ac = [v[2][k] - v[0][k] for k in range(3)]
        n = (ab[1] * ac[2] - ab[2] * ac[1], ab[2] * ac[0] - ab[0] * ac[2],
             ab[0] * ac[1] - ab[1] * ac[0])
        m = math.sqrt(sum(x * x for x in n))
        n = [x / m for x in n]
        out = []
        for c in v:
            for sg in (0.5, -0.5):
                out.append([c[k] + p[k] + sg * self.width * n[k]
                            for k in range(3)])
        return out

    def shift(self, a, b):
        return max(math.dist(x, y) for x, y in
                   zip(self.corners(*a), self.corners(*b)))


class Run:
    """One simulation."""

    def __init__(self, rng, nsteps=6, half=(8, 11), maxit=(0, 4), jump=0.12,
                 skip=0.1, rough=0.5, high=0, cliff=False):
        self.rng, self.high = rng, high
        self.hx, self.hy = rng.randint(*half), rng.randint(*half)
        if rng.random() < 0.15:            # long and narrow
            a, b = rng.choice([(7, 15), (8, 17)])
            self.hx, self.hy = rng.choice([(a, b), (b, a)])
        self.long = rng.random() < 0.04    # much longer than needed
        if self.long:
            d = rng.choice([60, 130])
            if rng.random() < 0.5:
                self.hx += d
            else:
                self.hy += d
        if cliff:
            a, b = 7, rng.choice([100, 120, 130])
            self.hx, self.hy = rng.choice([(a, b), (b, a)])
        self.cliff = cliff
        self.cxy, self.cz = rng.choice([(0.1, 0.1), (0.07, 0.03), (0.1, 0.05),
                                        (0.2, 0.05), (0.05, 0.02), (0.1, 0.04)])
        self.X, self.Y = 2 * self.hx + 1, 2 * self.hy + 1
        self.dh = rng.choice([1, 1, 2, 2, 3])
        self.maxit = rng.randint(*maxit)
        self.buf = rng.choice([2, 3, 4])
        self.tool = Tool(rng, self.cxy)
        self.maxq = max(self.cxy, self.cz)
        self.minc = min(self.cxy, self.cz)
        self.lines0 = [
            f"grid {fl([self.hx * self.cxy, self.hy * self.cxy, 60 * self.cz])}"
            f" {self.cxy} {self.cz}",
            f"param {math.atan((self.dh + rng.choice([0, 0.3, -0.3])) * self.cz / self.cxy)!r}"
            f" {self.maxit} {self.buf}", self.tool.line(), "unit 0.00001",
            f"seed {rng.randint(0, 10 ** 6)}"]
        self.terrain(rough)
        self.path(nsteps, jump, skip)

    def terrain(self, rough):
        rng = self.rng
        bg = rng.choice([0, 0, -3, 2])
        out = [f"tfill {bg}"]
        z = rng.random()
        if self.cliff:       # it takes hundreds of passes
            far, h = rng.randint(40, 60), rng.randint(40, 55)
            for i in range(self.X):
                for j in range(self.Y):
                    if max(i, j) >= max(self.X, self.Y) - far:
                        out.append(f"t {i} {j} {bg + h}")
        elif z < rough:
            for _ in range(rng.randint(1, 5)):
                ci, cj = rng.randint(3, self.X - 4), rng.randint(3, self.Y - 4)
                h, s = rng.randint(-8, 10), rng.choice([1, 2, 3, 4])
                if self.high and rng.random() < 0.7:
                    h, s = rng.randint(10, 18), rng.choice([2, 4, 6, 9])
                for i in range(max(0, ci - 4), min(self.X, ci + 5)):
                    for j in range(max(0, cj - 4), min(self.Y, cj + 5)):
                        v = abs(h) - s * max(abs(i - ci), abs(j - cj))
                        if v > 0:
                            out.append(f"t {i} {j} {bg + (v if h > 0 else -v)}")
        elif z < rough + 0.2 and not self.long:
            out.append(f"init {rng.choice([20, 60, 150]) * self.cz}")
        self.lines0 += out
        self.bg = bg

    def inside(self, pose):
        mx = (self.hx - 3.5) * self.cxy
        my = (self.hy - 3.5) * self.cxy
        return all(abs(c[0]) <= mx and abs(c[1]) <= my and
                   abs(c[2]) < 55 * self.cz for c in self.tool.corners(*pose))

    def path(self, n, jump, skip):
        rng = self.rng
        while True:
            q = axis(2, rng.choice([0, 0, math.pi / 2, rng.uniform(-3, 3)]))
            if rng.random() < 0.6:
                q = qmul(q, axis(1, rng.uniform(-0.6, 0.6)))
            if rng.random() < 0.3:
                q = qmul(q, axis(0, rng.uniform(-0.4, 0.4)))
            p = [rng.uniform(-1, 1) * self.hx * self.cxy * 0.6,
                 rng.uniform(-1, 1) * self.hy * self.cxy * 0.6, 0]
            low = min(c[2] for c in self.tool.corners(p, q))
            p[2] = self.bg * self.cz - low + rng.uniform(-4, 1.5) * self.cz
            p[2] += self.high * self.cz
            pose = snap((tuple(p), q))
            if self.inside(pose):
                break
        self.poses = [pose]
        head = rng.uniform(-3.2, 3.2)
        mode = rng.choice(["dig", "push", "lift", "spin"])
        tries = 0
        while len(self.poses) < n and tries < 200:
            tries += 1
            if rng.random() < 0.25:
                mode = rng.choice(["dig", "push", "lift", "spin", "any"])
            d = {"dig": (math.cos(head), math.sin(head), -0.7),
                 "push": (math.cos(head), math.sin(head), 0.05),
                 "lift": (0.4 * math.cos(head), 0.4 * math.sin(head), 1),
                 "spin": (0, 0, 0.2),
                 "any": tuple(rng.uniform(-1, 1) for _ in range(3))}[mode]
            ax = rng.choice([0, 1, 1, 2]) if mode in ("spin", "any", "dig") else None
            sg = rng.choice([-1, 1])
            z = rng.random()
            f = (rng.uniform(2.2, 6) if z < jump else
                 rng.uniform(0.1, 0.45) if z < jump + skip else
                 rng.uniform(0.6, 1.9))
            lo, hi = 0.0, 20 * self.maxq
            base = self.poses[-1]

            def at(u):
                p = tuple(a + u * b for a, b in zip(base[0], d))
                q = base[1]
                if ax is not None:
                    q = qmul(q, axis(ax, sg * u))
                return p, q
            for _ in range(40):
                m = (lo + hi) / 2
                if self.tool.shift(base, at(m)) < f * self.minc:
                    lo = m
                else:
                    hi = m
            pose = snap(at(lo))
            if self.inside(pose):
                self.poses.append(pose)
            else:
                head = rng.uniform(-3.2, 3.2)
                mode = rng.choice(["push", "lift", "any"])

    def script(self, prefixes=True, stages=False):
        """Script lines; records are tagged k/x with k the step number."""
        out = list(self.lines0) + ["dump -1/end"]
        for k, (p, q) in enumerate(self.poses):
            s = self.rng.randint(0, 10 ** 6)
            a = f"{fl(p)} {fl(unitq(q))}"
            out += [f"seed {s}", "save"]
            if prefixes:
                for m in range(self.maxit):
                    out += [f"step {k}/{m} {m} {a}", "load"]
            if stages:
                out += [f"calcbodypos {k}/walls {a}",
                        f"updatebodysoil {k}/carry {a}",
                        f"moveall {k}/moved", "load"]
                for m in range(1, self.maxit + 1):
                    out += [f"step - {m - 1} {a}", "widen", "eq 1",
                            f"relaxt {k}/g{m}", "load"]
            out.append(f"step {k}/end -1 {a}")
        return out

    def head(self, k=None):
        """Constant part of a trace line (for step k)."""
        o = self.base()
        if k is not None:
            p, q = self.poses[k]
            t = self.tool
            rel = lambda v: [a - b for a, b in zip(units(v), units(t.o))]
            o.update(q=list(q), p=units(p), blade=t.kind == "blade",
                     cxy=int(round(self.cxy * U)), cz=int(round(self.cz * U)),
                     hz=60,
                     tool={"j": rel(t.j), "b": rel(t.b), "t": rel(t.t),
                           "width": int(round(t.width * U))})
        return o

    def base(self):
        return {"X": self.X, "Y": self.Y, "hx": self.hx, "hy": self.hy,
                "dh": self.dh, "buf": self.buf, "maxit": self.maxit}
