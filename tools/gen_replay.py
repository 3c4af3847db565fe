"""Histories of several worlds in one process.  Worlds come in groups built
from the same description; the calls made on the members of a group are
prefixes of one list of calls, interleaved with those of the other groups and
with calls that must not have any effect.  The same calls are made on a world of
each group in a process of its own as well."""
import random

from gen_phase import fl
from gen_run import Run, unitq


class Mix:
    def __init__(self, rng):
        self.rng = rng
        self.log = []            # (world, key, what)
        self.own = []            # per group: script and log in its own process
        self.once = rng.random() < 0.35
        self.ls = self.alone() if self.once else self.mixed()

    def reads(self, w, pose):
        rng = self.rng
        k = rng.choice(["checksoil x", "checkvolume x 7", "check x 3", "write",
                        "write", "again", "again", "checkmove"])
        if k == "again":         # the pose it has already been asked for
            if pose is None:
                return []
            k = f"step - {rng.choice([0, 3])} {pose}"
        if k == "checkmove":
            k = f"checkmove x {pose}" if pose else "checksoil x"
        if k == "write" and pose is None:
            return []
        return self.event(w, 0, [k])

    def event(self, w, key, ls):
        n = len(self.log)
        self.log.append((w, key, ls[-1]))
        out = [f"world {w}"] + ls
        for v in self.worlds:
            out += [f"world {v}", f"hash {n}/{v}"]
        return out

    def calls(self, r, n):
        """A list of calls on a world of this description."""
        rng = self.rng
        ls = []
        if rng.random() < 0.3:
            ls.append((f"init {rng.choice([100, 700]) * r.cz!r}", None))
        for p, q in r.poses:
            a = f"{fl(p)} {fl(unitq(q))}"
            z = rng.random()
            if z < 0.9:
                ls.append((f"step - {rng.choice([-1, -1, 0, 2])} {a}", a))
            else:                # the phases on their own
                ls += [(f"pose {a}", None), (f"calcbodypos - {a}", None), ("widen", None),
                       ("relaxt -", None), ("relaxb -", None)]
        return ls[:n]

    def build(self, runs):
        out = []
        self.worlds, self.built = [], {}
        for g, (r, copies) in enumerate(runs):
            for _ in range(copies):
                w = len(self.worlds) + 1
                self.worlds.append(w)
                self.built[w] = 1000 * (g + 1) + 999
                out += [f"world {w}"] + [l for l in r.lines0
                                         if not l.startswith(("seed", "init"))]
        return out

    def mixed(self):
        rng = self.rng
        kw = dict(nsteps=4, half=(7, 9), maxit=(1, 3), jump=0.05, skip=0.1)
        runs = [(Run(rng, **kw), rng.choice([1, 2, 2])) for _ in range(2)]
        if all(c == 1 for _, c in runs):
            runs[0] = (runs[0][0], 2)
        out = self.build(runs)
        todo, w = [], 0
        for g, (r, copies) in enumerate(runs):
            base = self.calls(r, rng.randint(3, 6))
            keyed = [(1000 * (g + 1) + k, rng.randint(0, 10 ** 6), c, p)
                     for k, (c, p) in enumerate(base)]
            for _ in range(copies):
                w += 1
                todo.append((w, list(keyed), [None]))
            self.own.append(self.single(r, self.built[w], keyed))
        if rng.random() < 0.4:   # one after the other
            order = [t for t in todo for _ in t[1]]
        else:
            order = [t for t in todo for _ in t[1]]
            rng.shuffle(order)
        for w in self.worlds:    # nothing has happened yet
            out += self.event(w, self.built[w], ["checksoil x"])
        for w, q, at in order:
            key, seed, c, p = q.pop(0)
            out += self.event(w, key, [f"seed {seed}", c])
            if p:
                at[0] = p
            elif not c.startswith("init"):
                at[0] = None     # phases do not store the pose
            if rng.random() < 0.4:
                out += self.reads(w, at[0])
        return out

    def single(self, r, built, keyed):
        ls = ["world 1"] + [l for l in r.lines0
                            if not l.startswith(("seed", "init"))]
        log = [(built, "checksoil x")]
        ls += ["checksoil x", "hash 0"]
        for key, seed, c, _ in keyed:
            ls += [f"seed {seed}", c, f"hash {len(log)}"]
            log.append((key, c))
        return ls, log

    def alone(self):
        """The generator is seeded once per run: calls without effect must not
        draw from it either."""
        rng = self.rng
        r = Run(rng, nsteps=4, half=(7, 9), maxit=(1, 3), jump=0.05, skip=0.1)
        copies = rng.choice([2, 3])
        out = self.build([(r, copies)])
        base = self.calls(r, 5)
        seed = rng.randint(0, 10 ** 6)
        for w in self.worlds:
            out.append(f"seed {seed}")
            p = None
            for k, (c, a) in enumerate(base):
                out += self.event(w, 1 + k, [c])
                p = a if a else p if c.startswith("init") else None
                while w > 1 and rng.random() < 0.5:
                    out += self.reads(w, p)
        return out

    def line(self, cid, recs, own=()):
        """own: the records of the processes of a single world."""
        T = {r["tag"]: r for r in recs}
        O = [{r["tag"]: r for r in o} for o in own]
        k0 = len(self.worlds)
        h0, c0 = ([o["0"][f] for o in O] for f in ("hash", "cfg"))
        log = []
        for n, (w, k, what) in enumerate(self.log):
            log.append({"w": w, "key": k, "what": what.split()[0],
                        "h": [T[f"{n}/{v}"]["hash"] for v in self.worlds] + h0,
                        "cfg": [T[f"{n}/{v}"]["cfg"] for v in self.worlds]
                        + c0})
        for g, o in enumerate(O):
            for n, (k, what) in enumerate(self.own[g][1]):
                h, c = list(log[-1]["h"]), list(log[-1]["cfg"])
                h[k0 + g], c[k0 + g] = o[str(n)]["hash"], o[str(n)]["cfg"]
                log.append({"w": k0 + g + 1, "key": k, "what": what.split()[0],
                            "h": h, "cfg": c})
        return {"id": cid, "worlds": k0 + len(O), "log": log}
