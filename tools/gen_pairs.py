"""Replays on the implementation the pairs of columns enumerated by MCPairs."""
import re

import gen_phase


def config(kind, dhs, heaps):
    """Configuration of MCPairs (text)."""
    st = lambda v: "{" + ", ".join(map(str, v)) + "}"
    return (f'SPECIFICATION Spec\nCONSTANT Kind = "{kind}"\n'
            f"CONSTANT Dhs = {st(dhs)}\nCONSTANT Heaps = {st(heaps)}\n"
            "INVARIANTS TypeOK Kept Levelled Settled Downhill\n"
            "CONSTRAINT Show\nCHECK_DEADLOCK FALSE\n")


HEAPS = [11, 12, 21, 13, 31, 14, 22, 15, 23, 32, 17]


def parse(text):
    """The arrangements printed by TLC, as lists of integers."""
    out = []
    for m in re.finditer(r'<<\s*"PAIR",(.*?)(?=<<\s*"PAIR"|\Z)', text, re.S):
        body = m.group(1).split("\n\n")[0]
        a, b = body.split('"=>"')
        v = [int(x) for x in re.findall(r"-?\d+", a)]
        i, b = 0, b.strip(" ,")
        tok = re.findall(r"<<|>>|-?\d+", b)

        def tree():
            nonlocal i
            res = []
            while i < len(tok) and tok[i] != ">>":
                if tok[i] == "<<":
                    i += 1
                    res.append(tree())
                    i += 1
                else:
                    res.append(int(tok[i]))
                    i += 1
            return res
        e = tree()
        if len(v) != 12 or len(e) < 7:
            continue
        out.append((v, e[:7]))
    return out


def tree(text):
    """Nested tuples of integers printed by TLC."""
    tok = re.findall(r"<<|>>|-?\d+", text)
    st = [[]]
    for x in tok:
        if x == "<<":
            st.append([])
        elif x == ">>":
            if len(st) == 1:
                break
            v = st.pop()
            st[-1].append(v)
        else:
            st[-1].append(int(x))
    return st[0]


def parse_walks(text):
    out = []
    for m in re.finditer(r'<<\s*"PAIR",(.*?)(?=<<\s*"PAIR"|\Z)', text, re.S):
        a, b = m.group(1).split('"=>",')
        a, b = tree(a), tree(b)
        if len(a) == 3 and len(b) >= 3:
            out.append((a, b[:3]))
    return out


def walk_config(gap, amts, big):
    return (f"SPECIFICATION Spec\nCONSTANT Gap = {gap}\nCONSTANT Amts = "
            "{" + ", ".join(map(str, amts)) + "}\n"
            f"CONSTANT Big = {str(big).upper()}\n"
            "INVARIANTS Proper Kept Blocked\nCONSTRAINT Show\n"
            "CHECK_DEADLOCK FALSE\n")


def walk_scenario(rng, a, b):
    """-> (World, script, expected state, expected loss)."""
    gap, amt, cols = a
    W = gen_phase.World(4, 4, *rng.choice([(0.1, 0.1), (0.1, 0.05),
                                           (0.2, 0.05), (0.05, 0.05), (0.1, 0.04)]))
    W.seed = rng.randint(0, 10 ** 6)
    W.q = rng.choice(gen_phase.QUATS)
    W.p = tuple(rng.randint(-300, 300) for _ in range(3))
    z = rng.choice([0, 0, 7, -7, 1, -1, 12, -12, rng.randint(-9, 9)])
    d = rng.choice(gen_phase.DIRS)
    ci, cj = (4 - d[0] + rng.randint(-1, 1) * (d[0] == 0),
              4 - d[1] + rng.randint(-1, 1) * (d[1] == 0))
    W.bg = z - 25
    W.area["ba"] = (1, 8, 1, 8)
    at = lambda n: (ci + n * d[0], cj + n * d[1])
    anchor = lambda: tuple(round(rng.uniform(-0.6, 0.6), 3) for _ in range(3))
    kc = rng.randint(1, 2)
    W.w[(ci, cj, kc)] = (z - rng.randint(1, 3), z)
    W.w[(ci, cj, 3 - kc)] = (z + gap, z + gap + rng.randint(1, 2))
    W.s[(ci, cj, kc)] = (z, z + gap + amt)
    led = [(ci, cj, kc, gap + amt)]
    if rng.random() < 0.3:
        hi = W.w[(ci, cj, 3 - kc)][1]
        W.s[(ci, cj, 3 - kc)] = (hi, hi + 2)
        led.append((ci, cj, 3 - kc, 2))
    for e in gen_phase.DIRS:
        if e != d:
            W.w[(ci + e[0], cj + e[1], rng.randint(1, 2))] = (
                z - rng.choice([20, 2, 0]), z + gap + rng.choice([0, 0, 1, 3]))
    for n in (1, 2, 3):
        t, w1, w2, s1, s2 = cols[n - 1]
        for k, v, u in ((1, w1, s1), (2, w2, s2)):
            if v[0] != v[1]:
                W.w[at(n) + (k,)] = (z + max(v[0], -22), z + min(v[1], 22))
            if u[0] != u[1]:
                W.s[at(n) + (k,)] = (z + u[0], z + u[1])
                for x in gen_phase.split(rng, u[1] - u[0], rng.randint(1, 2)):
                    led.append(at(n) + (k, x))
    rng.shuffle(led)
    W.r = [c + anchor() for c in led]
    if b is None:
        return W, W.lines() + gen_phase.noise(rng), None, None
    after, new, left = b
    t, s = {}, dict(W.s)
    led.remove((ci, cj, kc, gap + amt))
    s[(ci, cj, kc)] = (z, z + gap)
    led.append((ci, cj, kc, gap))
    for n in (1, 2, 3):
        tt, w1, w2, s1, s2 = after[n - 1]
        if tt != cols[n - 1][0]:
            t[at(n)] = W.bg + tt - cols[n - 1][0]
        for k, u in ((1, s1), (2, s2)):
            s.pop(at(n) + (k,), None)
            if u[0] != u[1]:
                s[at(n) + (k,)] = (z + u[0], z + u[1])
    led += [at(n) + (k, x) for n, k, x in new]
    want = {"t": t, "s": s, "w": dict(W.w), "r": sorted(led)}
    return W, W.lines() + gen_phase.noise(rng) + ["movebs post"], want, left


def scenario(rng, kind, v, e):
    """-> (World, script, expected state after the pass).  The pair is placed
    somewhere in a grid, in one of the four directions, at some height."""
    dh, n, ph, tq, w1a, w1b, w2a, w2b, s1a, s1b, s2a, s2b = v
    W = gen_phase.World(3, 3, *rng.choice([(0.1, 0.1), (0.1, 0.05),
                                           (0.2, 0.05), (0.05, 0.05), (0.1, 0.04)]))
    W.dh = dh
    W.eps = rng.choice([0, 0.4, 0.25]) if dh == 0 else \
        rng.choice([0, 0, -0.4, 0.4, 0.25, -0.25])
    W.maxit, W.seed = 1, rng.randint(0, 10 ** 6)
    W.q = rng.choice(gen_phase.QUATS)
    W.p = tuple(rng.randint(-300, 300) for _ in range(3))
    z = rng.choice([0, 0, 7, -7, 1, -1, 20, -20, rng.randint(-9, 9)])
    ci, cj = rng.randint(2, 4), rng.randint(2, 4)
    d = rng.choice([(1, 0), (-1, 0), (0, 1), (0, -1)])
    q = (ci + d[0], cj + d[1])
    top = n * ph if kind == "slab" else 0
    # all the rest is as high, or higher
    W.bg = z + (40 if kind == "slab" else 0)
    kc = rng.randint(1, 2)
    anchor = lambda: tuple(round(rng.uniform(-0.6, 0.6), 3) for _ in range(3))
    W.t[q] = z + tq
    for k, a, b in ((1, w1a, w1b), (2, w2a, w2b)):
        if a != b:
            W.w[q + (k,)] = (z + a, z + b)
    led = []
    for k, a, b in ((1, s1a, s1b), (2, s2a, s2b)):
        if a != b:
            W.s[q + (k,)] = (z + a, z + b)
            for x in gen_phase.split(rng, b - a, rng.randint(1, 2)):
                led.append(q + (k, x))
    old = []
    if kind == "slab":
        W.t[(ci, cj)] = z - 2
        W.w[(ci, cj, kc)] = (z - 2, z)
        W.s[(ci, cj, kc)] = (z, z + top)
        old = [(ci, cj, kc, ph)] * n
        if not led and rng.random() < 0.3:       # a second wall above it
            lo = z + top + rng.randint(0, 3)
            W.w[(ci, cj, 3 - kc)] = (lo, lo + 1)
        W.r = [c + anchor() for c in led]
        W.r = [c + anchor() for c in old] + W.r if rng.random() < 0.5 \
            else W.r + [c + anchor() for c in old]
        W.area["ia"] = (2, 3, 2, 3)
    else:
        W.t[(ci, cj)] = z
        if rng.random() < 0.4:            # a wall over the ground
            lo = z + rng.choice([0, 0, 1, 3])
            W.w[(ci, cj, kc)] = (lo, lo + 1)
            if rng.random() < 0.5:
                W.s[(ci, cj, kc)] = (lo + 1, lo + 3)
                led.append((ci, cj, kc, 2))
        W.r = [c + anchor() for c in led]
        W.area["ia"] = (ci, ci + 1, cj, cj + 1)
    W.area["ba"] = (1, 2, 1, 2)
    W.area["ra"] = (2, 4, 2, 4)
    if e is None:
        return W, W.lines() + gen_phase.noise(rng), None
    tc, tq2, sc, sq1, sq2, new, left = e
    t = dict(W.t)
    t[(ci, cj)], t[q] = z + tc, z + tq2
    s = dict(W.s)
    for key, iv in (((ci, cj, kc), sc), (q + (1,), sq1), (q + (2,), sq2)):
        if kind == "ground" and key[:2] == (ci, cj):
            continue
        s.pop(key, None)
        if iv[0] != iv[1]:
            s[key] = (z + iv[0], z + iv[1])
    if kind == "slab":
        led = led + [(ci, cj, kc, h) for h in left]
    led = led + [q + (k, a) for k, a in new]
    want = {"t": {c: h for c, h in t.items() if h != W.bg}, "s": s,
            "w": dict(W.w), "r": sorted(led)}
    # parcels in the neighbour are only treated when they are unstable
    return W, W.lines() + gen_phase.noise(rng) + [("relaxt" if kind == "ground" else "relaxb")
                           + " post"], want


def got(d):
    """The same view of a recorded state (sparse dump)."""
    return {"t": {(i, j): h for i, j, h in d["t"]},
            "s": {tuple(x[:3]): tuple(x[3:]) for x in d["s"]},
            "w": {tuple(x[:3]): tuple(x[3:]) for x in d["w"]},
            "r": sorted(tuple(x[:4]) for x in d["r"])}


def slots(k, a, b):
    return [a, b] if k == 1 else [b, a]


def slab(wall, h):
    return [wall[1], wall[1] + h] if h else [0, 0]


def any_pair(rng, kind):
    """An element of the initial states of MCPairs."""
    top = 0 if kind == "ground" else 6
    hp = rng.choice(HEAPS)
    none = [0, 0]
    x = rng.random()
    if x < 0.15:
        t, w, s = rng.randint(-7, top), [none, none], [none, none]
    elif x < 0.5:
        lo = rng.randint(-6, top + 2)
        a, k = [lo, lo + rng.randint(1, 2)], rng.randint(1, 2)
        t = lo - rng.choice([0, 1, 2, 4])
        w = slots(k, a, none)
        s = slots(k, slab(a, rng.randint(0, 4)), none)
    else:
        lo, k = rng.randint(-6, top + 1), rng.randint(1, 2)
        th, gap = rng.randint(1, 2), rng.randint(1, 3)
        a, b = [lo, lo + th], [lo + th + gap, lo + th + gap + 1]
        t = lo - rng.choice([0, 1, 3])
        w = slots(k, a, b)
        s = slots(k, slab(a, min(rng.randint(0, 3), gap)),
                  slab(b, rng.choice([0, 1, 3])))
    return [rng.randint(0, 3), hp // 10, hp % 10, t] + w[0] + w[1] + s[0] + s[1]


def any_walk(rng):
    """An arrangement of the kind MCWalks starts from."""
    none = [0, 0]

    def one(k=None):
        k = k or rng.randint(1, 2)
        lo = rng.randint(-3, 3)
        a = [lo, lo + rng.randint(1, 4)]
        return [-60] + slots(k, a, none) + slots(k, slab(
            a, rng.choice([0, 1, 2])), none)

    def two():
        k, lo = rng.randint(1, 2), rng.randint(-3, 2)
        th, g = rng.randint(1, 2), rng.randint(1, 3)
        a, b = [lo, lo + th], [lo + th + g, lo + th + g + 1]
        return [-60] + slots(k, a, b) + slots(
            k, slab(a, min(rng.randint(0, 3), g)), slab(b, rng.choice([0, 2])))
    bare = lambda: [-60] + [none] * 4
    c1 = two() if rng.random() < 0.7 else rng.choice([bare, one])()
    c2 = rng.choice([bare, one, two])()
    c3 = rng.choice([bare(), [-60, [-50, 50], none, none, none]])
    return rng.randint(1, 3), rng.choice([1, 2, 3, 4, 6]), [c1, c2, c3]
