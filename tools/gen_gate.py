"""Histories of requested poses around the two movement thresholds."""
import math
import random

from gen_phase import fl
from gen_run import Run, U, axis, qmul, rot, snap, unitq, units


class Gate(Run):
    def __init__(self, rng, nreq):
        self.nreq = nreq
        super().__init__(rng, nsteps=1, maxit=(0, 1))
        self.clean = rng.random() < 0.5

    def path(self, n, jump, skip):
        super().path(1, jump, skip)
        rng = self.rng
        if rng.random() < 0.5:     # high above everything
            p, q = self.poses[0]
            self.poses[0] = ((p[0], p[1], round(p[2] + 25 * self.cz, 4)), q)
        if rng.random() < 0.2:     # first placed at or near the reference pose
            v = [rng.gauss(0, 1) for _ in range(3)]
            m = math.sqrt(sum(x * x for x in v))
            f = rng.choice([0, 0, 0.2, 0.45, 0.9]) * self.minc / m
            pose = (tuple(round(f * x, 4) for x in v), (1, 0, 0, 0))
            if self.inside(pose):
                self.poses[0] = pose
        self.reqs = [("step", self.poses[0])]
        if rng.random() < 0.3:
            self.reqs.insert(0, ("ask", self.poses[0]))
        last = self.poses[0]
        cur = last
        tries = 0
        while len(self.reqs) < self.nreq and tries < 400:
            tries += 1
            mode = rng.choice(["move", "move", "pivot", "pivot", "creep", "same"])
            f = rng.choice([0.1, 0.4, 0.46, 0.485, 0.515, 0.54, 0.6, 1, 1.9,
                            1.96, 2.04, 2.1, 2.5, 4])
            base = last
            if mode == "same":
                pose = last
            elif mode == "creep":      # several small moves in one direction
                f = 0.2
                base = cur
                d = getattr(self, "dir", None) or self.newdir()
                pose = self.move(base, d, f)
            elif mode == "move":
                self.dir = None
                pose = self.move(base, self.newdir(), f)
            else:
                pose = self.pivot(base, f)
            if pose is None or not self.inside(pose):
                continue
            kind = "ask" if rng.random() < 0.4 else "step"
            self.reqs.append((kind, pose))
            cur = pose
            if kind == "step" and self.tool.shift(last, pose) >= 0.5 * self.minc:
                last = pose

    def newdir(self):
        rng = self.rng
        self.dir = rng.choice([(1, 0, 0), (0, -1, 0), (0, 0, 1),
                               tuple(rng.gauss(0, 1) for _ in range(3))])
        return self.dir

    def move(self, base, d, f):
        m = math.sqrt(sum(x * x for x in d))
        return (tuple(round(a + f * self.minc * b / m, 5)
                      for a, b in zip(base[0], d)), base[1])

    def pivot(self, base, f):
        """Turn about one corner (any axis) until the farthest moves f cells."""
        rng = self.rng
        k = rng.randrange(6)
        small = rng.choice([(0, 1, 0), (0, 0, 1), (1, 0, 0), (1, 1, 0),
                            (0, 1, -1), (1, 1, 1)])
        c0 = self.tool.corners(*base)[k]

        def at(s):
            # an exact integer quaternion: s + small
            q = qmul(base[1], (s,) + tuple(small))
            p0 = self.tool.corners((0, 0, 0), q)[k]
            return (tuple(round(a - b, 5) for a, b in zip(c0, p0)),
                    tuple(int(v) for v in q))
        best = None
        for s in range(4, 200):
            u = at(s)
            if self.tool.shift(base, u) < f * self.minc:
                break
            best = u
        if best is None:
            return None
        # keep the quaternion small, or TLC overflows
        if max(abs(x) for x in best[1]) > 2000:
            n = math.sqrt(sum(x * x for x in best[1]))
            q = tuple(int(round(80 * x / n)) for x in best[1])
            p0 = self.tool.corners((0, 0, 0), q)[k]
            best = (tuple(round(a - b, 5) for a, b in zip(c0, p0)), q)
        n2 = sum(x * x for x in best[1])
        if n2 > 9000:
            n = math.sqrt(n2)
            q = tuple(int(round(80 * x / n)) for x in best[1])
            p0 = self.tool.corners((0, 0, 0), q)[k]
            best = (tuple(round(a - b, 5) for a, b in zip(c0, p0)), q)
        return best

    def script(self):
        out = list(self.lines0)
        if self.clean:
            out.append("tfill -50")
        for k, (kind, (p, q)) in enumerate(self.reqs):
            a = f"{fl(p)} {fl(unitq(q))}"
            if kind == "ask":
                out.append(f"checkmove {k}/ask {a}")
            else:
                out += [f"hash {k}/h0", f"step {k}/step -1 {a}", f"hash {k}/h1"]
        return out

    def line(self, cid, T):
        o = self.base()
        o["id"] = cid
        t = self.tool
        rel = lambda v: [a - b for a, b in zip(units(v), units(t.o))]
        o.update(cxy=int(round(self.cxy * U)), cz=int(round(self.cz * U)), tol=8,
                 clean=self.clean,
                 tool={"j": rel(t.j), "b": rel(t.b), "t": rel(t.t),
                       "width": int(round(t.width * U))})
        o["req"] = []
        for k, (kind, (p, q)) in enumerate(self.reqs):
            r = {"kind": kind, "q": list(q), "p": units(p)}
            if kind == "ask":
                x = T[f"{k}/ask"]
                r.update(ret=x["ret"], warn=x["warn"], same=x["same"])
            else:
                x = T[f"{k}/step"]
                r.update(ret=x["ret"], warn=x["warn"], bp=x["bp"], bo=x["bo"],
                         same=T[f"{k}/h0"]["hash"] == T[f"{k}/h1"]["hash"])
            o["req"].append(r)
        return o
