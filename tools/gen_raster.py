"""Surfaces and tool placements anywhere in the grid."""
import math
import random

from gen_phase import fl
from gen_run import Tool, snap, unitq, units

CELLS = [(0.1, 0.1), (0.1, 0.05), (0.07, 0.03), (0.2, 0.05), (0.05, 0.02), (0.1, 0.04)]


def size(rng, hx, hy):
    """Half sizes of the grid: usually small, sometimes long or wide."""
    if rng.random() < 0.12:
        d = rng.choice([25, 60, 130, 150])
        return (hx + d, hy) if rng.random() < 0.5 else (hx, hy + d)
    return hx, hy


class Place:
    """A few poses of one tool, each on an empty world."""

    def __init__(self, rng, n=4):
        self.rng = rng
        self.cxy, self.cz = rng.choice(CELLS)
        self.hx, self.hy = size(rng, rng.randint(9, 13), rng.randint(9, 13))
        self.hz = rng.choice([60] * 9 + [140, 250])
        self.tool = Tool(rng, self.cxy)
        self.buf = rng.choice([2, 3])
        self.poses = []
        while len(self.poses) < n:
            z = rng.random()
            if z < 0.15:
                q = [1, 0, 0, 0]
            elif z < 0.4:        # rotated about one axis
                q = [rng.randint(-9, 9), 0, 0, 0]
                q[rng.randint(1, 3)] = rng.choice([-9, -4, -1, 1, 2, 7])
            else:
                q = [rng.gauss(0, 1) for _ in range(4)]
            p = [rng.uniform(-1, 1) * (self.hx - 5) * self.cxy,
                 rng.uniform(-1, 1) * (self.hy - 5) * self.cxy,
                 rng.uniform(-1, 1) * (self.hz - 40) * self.cz]
            if rng.random() < 0.1:      # on the lattice
                p = [round(p[0] / self.cxy) * self.cxy,
                     round(p[1] / self.cxy) * self.cxy,
                     round(p[2] / self.cz) * self.cz]
            pose = snap((p, q))
            lim = [(self.hx - 1) * self.cxy, (self.hy - 1) * self.cxy,
                   (self.hz - 2) * self.cz]
            if all(abs(c[k]) < lim[k] - self.cxy * (k < 2)
                   for c in self.tool.corners(*pose) for k in range(3)):
                self.poses.append(pose)

    def script(self):
        out = [f"grid {fl([self.hx * self.cxy, self.hy * self.cxy])} "
               f"{self.hz * self.cz!r} {self.cxy} {self.cz}",
               f"param 0.8 3 {self.buf}", self.tool.line(), "unit 0.00001",
               "pose 0 0 0 1 0 0 0", "save"]
        for k, (p, q) in enumerate(self.poses):
            out += ["load", f"calcbodypos {k} {fl(p)} {fl(unitq(q))}"]
        return out

    def line(self, cid, k, rec):
        t = self.tool
        p, q = self.poses[k]
        rel = lambda v: [a - b for a, b in zip(units(v), units(t.o))]
        return {"id": cid, "kind": "place", "hx": self.hx, "hy": self.hy,
                "cxy": int(round(self.cxy * 1e5)),
                "cz": int(round(self.cz * 1e5)), "q": list(q), "p": units(p),
                "blade": t.kind == "blade",
                "tool": {"j": rel(t.j), "b": rel(t.b), "t": rel(t.t),
                         "width": int(round(t.width * 1e5))}, "w": rec["w"]}


class Surf:
    """Rectangles, triangles and lines given by their vertices."""

    def __init__(self, rng, n=4):
        self.rng = rng
        self.cxy, self.cz = rng.choice(CELLS)
        self.hx, self.hy = size(rng, rng.randint(8, 12), rng.randint(8, 12))
        self.hz = rng.choice([40, 61] * 4 + [140, 250])
        self.items = [self.item() for _ in range(n)]

    def ok(self, p):
        """Inside the grid; close to a cell border only if exactly on it."""
        c, z = self.cxy * 1e4, self.cz * 1e4
        if abs(p[0]) > (self.hx - 1) * c or abs(p[1]) > (self.hy - 1) * c \
                or abs(p[2]) > (self.hz - 3) * z:
            return False
        if self.lattice:
            return True
        f = lambda v: abs(v - round(v))
        return min(f(p[0] / c + 0.5) * c, f(p[1] / c + 0.5) * c,
                   f(p[2] / z) * z) > 5

    def item(self):
        rng = self.rng
        c, z = self.cxy * 1e4, self.cz * 1e4
        while True:
            kind = rng.choice(["rect", "rect", "tri", "tri", "line"])
            a = [rng.uniform(-1, 1) * (self.hx - 2) * c,
                 rng.uniform(-1, 1) * (self.hy - 2) * c,
                 rng.uniform(-1, 1) * (self.hz - 15) * z]
            L = rng.choice([0.7, 2, 5])
            u = [rng.uniform(-L, L) * c for _ in range(2)]
            u.append(rng.choice([0, 1, 1, 3]) * rng.uniform(-L, L) * c)
            v = [rng.uniform(-L, L) * c for _ in range(2)]
            v.append(rng.choice([0, 1, 1, 3]) * rng.uniform(-L, L) * c)
            for w in (u, v):     # directions along the axes
                if rng.random() < 0.25:
                    k = rng.randint(0, 2)
                    for m in range(3):
                        if m != k:
                            w[m] = 0
            # vertices on borders of the cells
            self.lattice = rng.random() < 0.3
            if self.lattice:
                on = lambda y, o: [round(y[0] / c * o) / o * c,
                                   round(y[1] / c * o) / o * c,
                                   round(y[2] / z) * z]
                a, u, v = on(a, 2), on(u, rng.choice([1, 2])), on(v, 1)
            a, u, v = ([int(round(x)) for x in y] for y in (a, u, v))
            if max(map(abs, u)) > 15000 or max(map(abs, v)) > 15000:
                continue
            add = lambda *ps: [sum(t) for t in zip(*ps)]
            poly = {"line": [a, add(a, u)], "tri": [a, add(a, u), add(a, v)],
                    "rect": [a, add(a, u), add(a, u, v), add(a, v)]}[kind]
            n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2],
                 u[0] * v[1] - u[1] * v[0]]
            flat = math.hypot(*n) < 0.05 * math.hypot(*u) * math.hypot(*v)
            # nearly (not exactly) vertical surfaces are left to numerics
            steep = 0 < abs(n[2]) < 0.02 * math.hypot(*n)
            if all(map(self.ok, poly)) and max(map(abs, u)) > 0 and not (
                    kind != "line" and (flat or steep)):
                return kind, poly

    def script(self):
        out = [f"grid {fl([self.hx * self.cxy, self.hy * self.cxy])} "
               f"{self.hz * self.cz!r} {self.cxy} {self.cz}"]
        for k, (kind, poly) in enumerate(self.items):
            out.append(f"{kind} {k} " +
                       " ".join(fl([x / 1e4 for x in p]) for p in poly))
        return out

    def line(self, cid, k, rec):
        return {"id": cid, "kind": "surf", "hx": self.hx, "hy": self.hy,
                "hz": self.hz, "cxy": int(round(self.cxy * 1e5)),
                "cz": int(round(self.cz * 1e5)), "poly": self.items[k][1],
                "cells": rec["cells"]}
