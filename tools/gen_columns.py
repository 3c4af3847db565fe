"""Insertions of wall intervals: every column TLC reaches x every interval,
random surfaces, and placements on used worlds."""
import re

from gen_run import Run, unitq
from gen_phase import fl


def states(raw):
    """Columns printed by MCColumns."""
    out = set()
    for m in re.finditer(r'<<"COL",\s*\{(.*?)\}>>', raw, re.S):
        iv = re.findall(r"<<(-?\d+), (-?\d+)>>", m.group(1))
        out.add(tuple(sorted((int(a), int(b)) for a, b in iv)))
    return sorted(out)


def inserts(rng, cols, top, per=400):
    """Scenarios covering every column x interval x slot order."""
    todo = []
    ivs = [(a, b) for a in range(-1, top + 2) for b in range(a + 1, top + 2)]
    for c in cols:
        for order in ([c, c[::-1]] if len(c) == 2 else [c]):
            for v in ivs:
                todo.append((order, v, 2 if len(c) == 1 and rng.random() < 0.2
                             else 1))
    rng.shuffle(todo)
    while todo:
        part, todo = todo[:per], todo[per:]
        cxy, cz = rng.choice([(0.1, 0.1), (0.1, 0.05), (0.2, 0.05),
                              (0.05, 0.02), (0.1, 0.04)])
        sh = rng.choice([0, -1, -3, -5, -9, 10])
        # the sentinel interval [0, 0] never occurs: intervals are proper
        ls = [f"grid {10 * cxy} {10 * cxy} {60 * cz} {cxy} {cz}",
              "param 0.8 3 4", "body bucket 0 0 0 0 0 0 0 0 -0.5 0.7 0 -0.5 0.5"]
        place = []
        for n, (c, v, first) in enumerate(part):
            i, j = n % 21, n // 21
            for q, (lo, hi) in enumerate(c):
                k = q + 1 if len(c) == 2 else first
                ls.append(f"w {i} {j} {k} {lo + sh} {hi + sh}")
            place.append((i, j, [[a + sh, b + sh] for a, b in c],
                          [v[0] + sh, v[1] + sh]))
        for i, j, c, v in place:
            ls.append(f"include {i} {j} {v[0]} {v[1]}")
        ls.append("dump post")
        yield ls, place


def insert_line(cid, place, rec):
    at = {}
    for e in rec["w"]:
        at.setdefault((e[0], e[1]), []).append(e[3:])
    return {"id": cid, "kind": "insert",
            "cols": [[c, v, at.get((i, j), [])] for i, j, c, v in place]}


def surface(rng):
    cxy, cz = rng.choice([(0.1, 0.1), (0.1, 0.05), (0.2, 0.05), (0.05, 0.02)])
    hz = rng.choice([20, 31])
    ls = [f"grid {6 * cxy} {4 * cxy} {hz * cz} {cxy} {cz}", "param 0.8 3 4",
          "body bucket 0 0 0 0 0 0 0 0 -0.5 0.7 0 -0.5 0.5"]
    cols = [(i, j) for i in range(3, 6) for j in range(2, 5)]
    for (i, j) in cols:
        z = rng.random()
        a = rng.randint(-6, 4)
        b = a + rng.randint(1, 3)
        if z < 0.5:
            ls.append(f"w {i} {j} {rng.choice([1, 1, 1, 2])} {a} {b}")
        elif z < 0.8:
            c = b + rng.randint(1, 4)
            k = rng.randint(1, 2)
            ls.append(f"w {i} {j} {k} {a} {b}")
            ls.append(f"w {i} {j} {3 - k} {c} {c + rng.randint(1, 3)}")
    ls.append("dump pre")
    cells = []
    for (i, j) in rng.sample(cols, rng.randint(1, 9)):
        k = rng.randint(-7, 8) + hz
        for _ in range(rng.randint(1, 4)):
            cells.append([i, j, k])
            k += rng.choice([0, 1, 1, 3])
    cells.sort()
    ls.append(f"updatebody {len(cells)} " +
              " ".join(str(v) for c in cells for v in c))
    ls.append("dump post")
    return ls, cells, hz


class Poses(Run):
    """Sequences of placements, each also made on a fresh world."""

    def __init__(self, rng):
        super().__init__(rng, nsteps=5, maxit=(0, 1), jump=0.5, skip=0.1)
        for _ in range(3):           # anywhere else
            p, q = rng.choice(self.poses)
            pose = (tuple(round(v + rng.uniform(-1, 1) * w, 4) for v, w in
                          zip(p, (self.hx * self.cxy * 0.3,
                                  self.hy * self.cxy * 0.3, 3 * self.cz))), q)
            if self.inside(pose):
                self.poses.append(pose)

    def script(self):
        out = list(self.lines0)
        out += ["world 1"] + [l for l in self.lines0 if l.split()[0] in
                              ("grid", "param", "body", "unit")] + \
            ["pose 0 0 0 1 0 0 0", "save", "world 0", "dump -1"]
        for k, (p, q) in enumerate(self.poses):
            a = f"{fl(p)} {fl(unitq(q))}"
            out += [f"calcbodypos {k} {a}", "world 1", "load",
                    f"calcbodypos {k}/fresh {a}", "world 0"]
        return out
