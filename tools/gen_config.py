"""Constructor arguments: products of boundary values, and random ones."""
import itertools


def d(v):
    return f"{v / 10000:.4f}"


def cases(rng, thorough):
    out = []
    size = [-1000, 0, 499, 500, 501, 1000, 1400, 1600, 10000]
    cell = [-1000, 0, 500, 1000, 1]
    zs = [-500, 0, 200, 500, 501, 1600]
    for a in itertools.product(size, size, zs, cell, [-500, 0, 200, 499, 500, 501, 1000]):
        good = all(v > 0 for v in a)
        if a[3] == 1 and (a[4] > 1 or not good):
            a = a[:3] + (1000,) + a[4:]
        # ties of the rounding are ambiguous
        if good and any((2 * g) % c == c % 2 and (g % c) * 2 == c
                        for g, c in ((a[0], a[3]), (a[1], a[3]), (a[2], a[4]))):
            continue
        out.append({"kind": "grid", "a": list(a)})
    out = list({tuple(c["a"]): c for c in out}.values())
    if not thorough:
        # keep the ones that differ from a valid tuple in at most 2 places
        valid = [1000, 1400, 500, 500, 200]
        near = [c for c in out if sum(v not in (x, 10000, 1600, 501) for v, x in
                                      zip(c["a"], valid)) <= 2]
        rng.shuffle(out)
        out = near[:2500] + out[:1500]
    for _ in range(200 if not thorough else 3000):
        c = rng.choice([12, 40, 200, 400, 500, 1000])
        z = rng.choice([v for v in (4, 12, 100, 200, 400, 500, 1000) if v <= c])
        m = rng.choice([60, 60, 60, 300])
        f = lambda q, m: q * rng.randint(1, m) + rng.choice([0, 0, q // 4, -q // 4])
        a = [f(c, m), f(c, m), f(z, m), c, z]
        out.append({"kind": "grid", "a": a})
    for a in itertools.product([-16000, -1000, -1, 0, 1, 5000, 8500, 15707,
                                15710, 31416],
                               [-100, -2, -1, 0, 1, 2, 10], [-3, 0, 1, 2, 3, 10]):
        out.append({"kind": "param", "a": list(a)})
    P = [[0, 0, 0], [0, 0, -5000], [7000, 0, -5000], [1000, -2000, 3000]]
    for kind in ("bucket", "blade"):
        for j, b, t in itertools.product(P, P, P):
            for o in ([0, 0, 0], [1000, 2000, -3000]):
                for w in ((-5000, 0, 1, 5000) if o[0] or thorough else (5000, 0)):
                    out.append({"kind": kind, "v": [o, j, b, t], "w": w})
        for n in itertools.product([0, 2, 3, 4], repeat=4):
            v = [(p + [700])[:m] for p, m in zip(P, n)]
            out.append({"kind": kind, "v": v, "w": rng.choice([5000, 5000, 0])})
        # a single differing coordinate is enough
        for k in range(3):
            for a, b in ((1, 2), (1, 3), (2, 3)):
                v = [[0, 0, 0], list(P[1]), list(P[2]), list(P[3])]
                v[b] = list(v[a])
                out.append({"kind": kind, "v": [list(x) for x in v], "w": 500})
                v[b][k] += 1
                out.append({"kind": kind, "v": v, "w": 500})
    return out


def command(tag, c):
    if c["kind"] == "grid":
        return f"ctor {tag} grid " + " ".join(d(v) for v in c["a"])
    if c["kind"] == "param":
        return f"ctor {tag} param {d(c['a'][0])} {c['a'][1]} {c['a'][2]}"
    return (f"ctor {tag} {c['kind']} " +
            " ".join(f"{len(v)} " + " ".join(d(x) for x in v) for v in c["v"]) +
            " " + d(c["w"]))
