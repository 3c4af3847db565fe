"""Carried parcels, an old and a new pose, walls around the new places."""
import copy
import random

from gen_phase import LONG, QUATS, World, add_slab, fl, split, unit
from gen_run import U, rot

SMALL = [(1, 0, 0, 0), (12, 1, 0, 0), (12, 0, 1, 0), (12, 0, 0, 1),
         (20, 1, 1, 0), (15, 0, -1, 2), (30, -1, 0, 1)]


def qmul(a, b):
    from gen_run import qmul as m
    return m(a, b)


def gen(rng):
    hx, hy = rng.choice([(6, 6), (7, 5), (5, 8)])
    cxy, cz = rng.choice([(0.1, 0.1), (0.1, 0.05), (0.2, 0.05), (0.05, 0.05),
                          (0.1, 0.04)])
    W = World(hx, hy, cxy, cz)
    W.kind = rng.choice(["bucket", "blade"])
    W.bg = rng.choice([0, -2, -6, 1])
    q0 = rng.choice(QUATS)
    q1 = rng.choice([q0, qmul(q0, rng.choice(SMALL)), rng.choice(QUATS)])
    many = rng.random() < 0.008
    if many:
        q1 = q0
    p0 = [round(rng.uniform(-1, 1) * cxy, 4) for _ in range(3)]
    dp = rng.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0.4, 0),
                     (0.5, -1, 0.3), (-1, -0.9, -0.5), (0, 0, 0),
                     (0.2, 0.6, -1)] if not many else [(0.9, -0.5, 0.3)])
    p1 = [round(a + rng.uniform(0.3, 2.5) * cxy * b, 4) for a, b in zip(p0, dp)]
    # walls of the tool at the new pose: a patch around a random column
    ci, cj = hx + rng.randint(-2, 2), hy + rng.randint(-2, 2)
    z0 = W.bg + rng.randint(1, 6)
    dens = rng.choice([0.15, 0.5, 0.9, 1])
    for i in range(ci - 2, ci + 3):
        for j in range(cj - 2, cj + 3):
            if rng.random() < dens:
                k = rng.randint(1, 2)
                lo = z0 + rng.randint(-1, 3)
                hi = lo + rng.randint(1, 3)
                W.w[(i, j, k)] = (lo, hi)
                if rng.random() < 0.4:
                    W.w[(i, j, 3 - k)] = (hi + rng.randint(1, 4),
                                          hi + rng.randint(5, 7))
    parcels = []
    for _ in range(rng.randint(257, 300) if many else rng.randint(1, 7)):
        i, j = ci + rng.randint(-2, 2), cj + rng.randint(-2, 2)
        tops = [hi for (a, b, k), (lo, hi) in W.w.items()
                if abs(a - i) <= 1 and abs(b - j) <= 1]
        z = rng.choice(tops) if tops and rng.random() < 0.85 else z0
        # with many parcels, nothing that rounding could decide
        z += rng.choice([0.4, -0.6, 1.3, -1.7] if many else
                        [0, 0, 0.4, -0.6, 1.3, -1.7, 3])
        g = [(i - hx + rng.uniform(-0.45, 0.45)) * cxy - p1[0],
             (j - hy + rng.uniform(-0.45, 0.45)) * cxy - p1[1],
             z * cz - p1[2]]
        qc = (q1[0], -q1[1], -q1[2], -q1[3])
        v = [round(x, 4) for x in rot(qc, g)]
        # TLC's integers have 32 bits
        if U * sum(map(abs, v)) * max(sum(x * x for x in q)
                                      for q in (q0, q1)) > 2.0e9:
            continue
        h = rng.choice([1, 1, 2, 3, 4, 0, rng.randint(5, 12)])
        parcels.append((v, h))
    # where the soil lay before: slabs without walls (these have moved on)
    spots = [(i, j, k) for i in range(2, 2 * hx - 1)
             for j in range(2, 2 * hy - 1) for k in (1, 2)]
    tot = {}
    for v, h in parcels:
        c = rng.choice(spots) if not W.r or rng.random() < 0.7 else W.r[-1][:3]
        W.r.append(tuple(c) + (h,) + tuple(v))
        tot[tuple(c)] = tot.get(tuple(c), 0) + h
    for (i, j, k), h in tot.items():
        if h:
            lo = z0 + rng.randint(-3, 5)
            W.s[(i, j, k)] = (lo, lo + h)
    W.area["ba"] = (2, 2 * hx - 1, 2, 2 * hy - 1)
    # thicknesses with floating-point noise, which the move takes away
    W.blur = rng.choice([0, 0, 0.0001, 0.002, 0.04])
    # lengths in metres or in millimetres
    W.per = rng.choice([1, 1, 1, 1000])
    if W.per > 1:
        W.hz = 30 * cz
    if rng.random() < LONG:
        was = W.p
        W.embed(rng)
        by = [round((a - b) / 1000, 4) for a, b in zip(W.p, was)]
        p0 = [round(a + b, 4) for a, b in zip(p0, by)]
        p1 = [round(a + b, 4) for a, b in zip(p1, by)]
    return W, q0, p0, q1, p1


def script(W, q0, p0, q1, p1):
    rng = random.Random(str(W.r))
    blur = lambda s: " ".join(
        str(round(int(v) + rng.uniform(-1, 1) * W.blur, 5))
        if n == 4 and v != "0" else v for n, v in enumerate(s.split()))
    V, big = copy.copy(W), lambda v: [round(W.per * x, 6) for x in v]
    V.cxy, V.cz, V.hz = big((W.cxy, W.cz, W.hz))
    V.r = [r[:4] + tuple(big(r[4:])) for r in W.r]
    out = [blur(s) if s.startswith("r ") and W.blur else s
           for s in V.lines()[:-1]] + [f"unit {W.per / U}"]
    out.append(f"pose {fl(big(p0))} {fl(unit(q0))}")
    out.append("dump pre")
    out.append(f"updatebodysoil post {fl(big(p1))} {fl(unit(q1))}")
    return out


def line(cid, W, q0, p0, q1, p1, pre, post):
    u = lambda v: [int(round(x * U)) for x in v]
    old = [list(r[:4]) + u(r[4:]) for r in W.r]
    return {"id": cid, "kind": "move", "X": W.X, "Y": W.Y, "hx": W.hx,
            "hy": W.hy, "cxy": int(round(W.cxy * U)), "cz": int(round(W.cz * U)),
            "q0": list(q0), "p0": u(p0), "q1": list(q1), "p1": u(p1),
            "old": old, "pre": pre, "post": post}


def batch(seed, n, base):
    out = {}
    for k in range(n):
        a = gen(random.Random(f"{seed}/carry/{k}"))
        out[base + k] = (a, script(*a))
    return out
