"""One function per property: makes executions of the real code, hands them to
the TLA+ modules, records what was covered."""
import collections
import concurrent.futures as cf
import os
import random

import gen_carry
import gen_phase
import gen_run
from lib import sparse

PHASES = ["relaxt", "relaxb", "movebs", "movebody", "moveall"]
BASE = {"relaxt": 100000, "relaxb": 200000, "movebs": 300000,
        "movebody": 400000, "moveall": 500000, "carry": 600000,
        "run": 1000000, "runbig": 5000000}


# ---------------------------------------------------------------------------
# Pools of recorded executions
def phase_pool(ctx, kind, n, salt="", unit=None):
    """-> [(id, World, pre record, post record)], {id: script}"""
    b = gen_phase.batch(f"{ctx.seed}{salt}", kind, n, BASE[kind])
    scripts = {i: (["unit " + unit] if unit else []) + v[1]
               for i, v in b.items()}
    out = ctx.records(scripts)
    res = []
    for i, recs in out.items():
        T = {r["tag"]: r for r in recs}
        if "post" in T:
            res.append((i, b[i][0], sparse(T["pre"]), sparse(T["post"])))
    return res, scripts


def carry_pool(ctx, n, salt=""):
    b = gen_carry.batch(f"{ctx.seed}{salt}", n, BASE["carry"])
    scripts = {i: v[1] for i, v in b.items()}
    out = ctx.records(scripts)
    res = []
    for i, recs in out.items():
        T = {r["tag"]: r for r in recs}
        if "post" in T:
            res.append((i, b[i][0], sparse(T["pre"]), sparse(T["post"])))
    return res, scripts


def run_pool(ctx, n, salt="", prefixes=True, stages=False, base="run",
             secs=60, **kw):
    """-> [(id, Run, step number, [pre, after 0, 1, .. passes], tags)]"""
    runs = {BASE[base] + 100 * k:
            gen_run.Run(random.Random(f"{ctx.seed}{salt}/run/{k}"), **kw)
            for k in range(n)}
    scripts = {i: r.script(prefixes, stages) for i, r in runs.items()}
    out = ctx.records(scripts, secs=secs)
    res = []
    for i, recs in out.items():
        T = {x["tag"]: sparse(x) for x in recs}
        r = runs[i]
        for k in range(len(r.poses)):
            e = T.get(f"{k}/end")
            pre = T.get(f"{k - 1}/end")
            if e is None or pre is None:
                break
            st = [pre]
            if prefixes:
                st += [T[f"{k}/{m}"] for m in range(r.maxit)]
            st.append(e)
            res.append((i + k, r, k, st, T))
    sc = {}
    for i, s in scripts.items():
        for k in range(99):
            sc[i + k] = s
    return res, sc


def changed(a, b):
    return a["t"] != b["t"] or a["s"] != b["s"] or a["r"] != b["r"]


def facts_all(ctx, want, extra_run=None, phases=None, carry=True, runs=True,
              np=60, nr=30, na=0, salt=""):
    """Evaluates the predicates `want` on every kind of execution."""
    lines, scripts = [], {}
    moved = collections.Counter()
    for kind in (phases if phases is not None else PHASES):
        pool, sc = phase_pool(ctx, kind, ctx.n(np, np * 20), salt=want[0])
        scripts.update(sc)
        for i, W, pre, post in pool:
            L = W.case(i, [], pre, post)
            del L["pre"], L["post"]
            L.update(what=kind, st=[pre, post], want=want)
            lines.append(L)
            moved[kind] += changed(pre, post)
    if na:
        import gen_pairs as gp
        rng = random.Random(f"{ctx.seed}/arrangements/{want[0]}")
        made, sc = {}, {}
        for k in range(ctx.n(na, na * 20)):
            i, kind = 2200000 + k, rng.choice(["relaxt", "relaxb", "relaxb",
                                               "movebs"])
            if kind == "movebs":
                W, lines_, *_ = gp.walk_scenario(rng, gp.any_walk(rng), None)
            else:
                g = "ground" if kind == "relaxt" else "slab"
                W, lines_, *_ = gp.scenario(rng, g, gp.any_pair(rng, g), None)
            sc[i] = lines_ + ["dump pre", kind + " post"]
            made[i] = W, kind
        for i, recs in ctx.records(sc).items():
            W, kind = made[i]
            pre, post = map(sparse, recs[:2])
            L = W.case(i, [], pre, post)
            del L["pre"], L["post"]
            L.update(what=kind, st=[pre, post], want=want)
            lines.append(L)
            moved["arranged_" + kind] += changed(pre, post)
        scripts.update(sc)
    if carry:
        pool, sc = carry_pool(ctx, ctx.n(np, np * 20), salt=want[0])
        scripts.update(sc)
        for i, a, pre, post in pool:
            W = a[0]
            lines.append({"id": i, "X": W.X, "Y": W.Y, "what": "carry",
                          "st": [pre, post], "want": want})
            moved["carry"] += 1
    if runs:
        kw = dict(jump=0.0)
        kw.update(extra_run or {})
        pool, sc = run_pool(ctx, ctx.n(nr, nr * 12), salt=want[0] + salt, **kw)
        scripts.update(sc)
        for i, r, k, st, T in pool:
            if not st[-1]["ret"]:
                continue
            lines.append(dict(r.head(k), id=i, what="step", st=st, want=want))
            moved["steps"] += 1
            moved["steps_with_carried_soil"] += bool(st[0]["r"])
            moved["step_states"] += len(st) - 1
    for k, v in moved.items():
        ctx.count("cases_" + k, v)
    if lines:
        ctx.sample({k: lines[0][k] for k in lines[0] if k != "st"})
        ctx.sample({"script": scripts[lines[-1]["id"]][-8:]})
    ctx.validate("TraceFacts", lines, scripts, what="/".join(want))
    return lines, scripts


def phase_exact(ctx, kinds, n, salt=""):
    """Full inference: some order of treatment explains each execution."""
    for kind, k in zip(kinds, n):
        pool, sc = phase_pool(ctx, kind, k, salt=salt)
        cases = []
        for i, W, pre, post in pool:
            cases.append(W.case(i, gen_phase.PLAN[kind], pre, post))
            ctx.count("changed_" + kind, int(changed(pre, post)))
            ctx.count("lossy_" + kind, int(post["warn"] > 0))
        if cases:
            ctx.sample({"kind": kind, "script": sc[cases[0]["id"]]})
        ctx.validate("TracePhase", cases, sc, what=kind, timeout=150,
                     tolerate=True)


MCSIM = """SPECIFICATION Spec
CONSTANT Size = {size}
CONSTANT Dh = {dh}
CONSTANT Passes = {passes}
CONSTANT Family = "{family}"
CONSTANT Pick = {pick}
CONSTANT Of = {of}
INVARIANTS {invs}
{live}
CHECK_DEADLOCK FALSE
"""


def whole_steps(ctx, runs):
    """Model checking of whole steps on small worlds, in every order.
    runs: dicts of constants; `of` > 1 takes one slice, chosen by the seed."""
    each = max(1, 8 // len(runs))

    def one(j):
        d = dict(size=5, dh=1, passes=1, of=1, live="")
        d.update(runs[j])
        d["pick"] = ctx.seed * 7919 % d["of"]
        cfg = os.path.join(ctx.lab.dir, f"mcsim{j}.cfg")
        with open(cfg, "w") as f:
            f.write(MCSIM.format(**d))
        return ctx.lab.tlc("MCSim", None, cfg=cfg, workers=each, heap="4g",
                           timeout=ctx.n(150, 1500), tolerate_timeout=True,
                           fifo=True)[1]
    with cf.ThreadPoolExecutor(8) as ex:
        for st in ex.map(one, range(len(runs))):
            ctx.add_stats(st)
            ctx.count("model_states", st["distinct"])
            ctx.count("model_runs_cut_short", st["timeouts"])


# ---------------------------------------------------------------------------
def c01(ctx):
    whole_steps(ctx, [dict(family="wall", of=ctx.n(240, 20), invs="SoilKept"),
                      dict(family="gap", of=ctx.n(32, 4), invs="SoilKept"),
                      dict(family="bare", of=ctx.n(2, 1), passes=3,
                           invs="SoilKept")])
    lines, sc = facts_all(ctx, ["mass"], np=1000, nr=90, na=1200)
    # Executions that lost soil must be explained by the specification: no
    # direction was open to it.
    lossy = []
    for L in lines:
        a, b = L["st"][0], L["st"][-1]
        if L["what"] in ("movebs", "moveall") and b["warn"] > 0:
            c = dict(L, plan=gen_phase.PLAN[L["what"]], pre=a, post=b)
            del c["st"], c["want"]
            lossy.append(c)
    ctx.count("announced_losses", len(lossy))
    ctx.validate("TracePhase", lossy, sc, what="announced loss", tolerate=True)


def c02(ctx):
    whole_steps(ctx, [dict(family="wall", of=ctx.n(240, 20), invs="LedgerKept"),
                      dict(family="gap", of=ctx.n(32, 4), invs="LedgerKept")])
    facts_all(ctx, ["ledger"], np=1200, nr=90, na=1500)


def c03(ctx):
    whole_steps(ctx, [dict(family="wall", of=ctx.n(240, 20), invs="Clear"),
                      dict(family="gap", of=ctx.n(32, 4), invs="Clear")])
    facts_all(ctx, ["structure"], np=1200, nr=90, na=1500,
              extra_run=dict(jump=0.15))


def c20(ctx):
    facts_all(ctx, ["lattice"], np=1200, nr=70, na=2500,
              extra_run=dict(nsteps=12))
    # Hundreds of passes.
    facts_all(ctx, ["lattice"], phases=[], carry=False, nr=12, salt="cliff",
              extra_run=dict(maxit=(500, 1000), nsteps=2, cliff=True, high=10,
                             prefixes=False))


def pairs(ctx, kind, runs, most):
    """Every arrangement of a pair of columns, enumerated (and checked) by TLC
    with the outcome the specification gives it, replayed on the code.
    runs: list of (repose limits, heaps)."""
    import gen_pairs as gp
    rng = random.Random(f"{ctx.seed}/pairs/{kind}")

    def enum(j):
        cfg = os.path.join(ctx.lab.dir, f"pairs{j}.cfg")
        with open(cfg, "w") as f:
            f.write(gp.config(kind, *runs[j]))
        return ctx.lab.tlc("MCPairs", None, cfg=cfg, heap="3g")[1]
    scripts, want, info = {}, {}, {}
    with cf.ThreadPoolExecutor(4) as ex:
        for st in ex.map(enum, range(len(runs))):
            ctx.add_stats(st)
            P = gp.parse(st["raw"][0])
            ctx.count("arrangements_enumerated", len(P))
            if len(P) > most:
                P = rng.sample(P, most)
            for v, e in P:
                i = 2200000 + len(scripts)
                W, scripts[i], want[i] = gp.scenario(rng, kind, v, e)
                info[i] = (v, e, W.bg)
    out = ctx.records(scripts)
    for i, recs in out.items():
        d = sparse(recs[0])
        if d["bg"] != info[i][2] or gp.got(d) != want[i]:
            if len(ctx.violations) < 4:
                ctx.violation(f"{kind}: the pair of columns does not end as "
                              "specified", {"module": "MCPairs",
                                            "line": info[i],
                                            "script": scripts[i]})
        else:
            ctx.count("arrangements_replayed")
            ctx.cov["traces_validated_against_impl"] += 1
    ctx.sample({"arrangement": info[2200000], "script": scripts[2200000]})


def walks(ctx, runs, most, big=False):
    """Every arrangement of the columns squeezed soil can move to, enumerated
    (and checked) by TLC with its outcome, replayed on the code."""
    import gen_pairs as gp
    rng = random.Random(f"{ctx.seed}/walks")

    def enum(j):
        cfg = os.path.join(ctx.lab.dir, f"walks{j}.cfg")
        with open(cfg, "w") as f:
            f.write(gp.walk_config(*runs[j], big))
        return ctx.lab.tlc("MCWalks", None, cfg=cfg, heap="3g")[1]
    scripts, want, info = {}, {}, {}
    with cf.ThreadPoolExecutor(4) as ex:
        for st in ex.map(enum, range(len(runs))):
            ctx.add_stats(st)
            P = gp.parse_walks(st["raw"][0])
            ctx.count("arrangements_enumerated", len(P))
            if len(P) > most:
                P = rng.sample(P, most)
            for a, b in P:
                i = 2300000 + len(scripts)
                W, scripts[i], want[i], left = gp.walk_scenario(rng, a, b)
                info[i] = (a, b, W.bg, left)
    out = ctx.records(scripts)
    for i, recs in out.items():
        d = sparse(recs[0])
        if (d["bg"] != info[i][2] or gp.got(d) != want[i]
                or (d["warn"] > 0) != (info[i][3] > 0)):
            if len(ctx.violations) < 4:
                ctx.violation("squeezed soil does not move as specified",
                              {"module": "MCWalks", "line": info[i],
                               "script": scripts[i]})
        else:
            ctx.count("arrangements_replayed")
            ctx.cov["traces_validated_against_impl"] += 1
    ctx.sample({"arrangement": info[2300000], "script": scripts[2300000]})


def c04(ctx):
    phase_exact(ctx, ["relaxt"], [ctx.n(400, 6000)], salt="c04")
    dhs = [[0], [1], [2], [3]] + ([] if ctx.tier == "quick" else [[4], [5]])
    pairs(ctx, "ground", [(d, [0]) for d in dhs], 10 ** 6)


def c05(ctx):
    import gen_pairs as gp
    phase_exact(ctx, ["relaxb"], [ctx.n(600, 8000)], salt="c05")
    rng = random.Random(f"{ctx.seed}/heaps")
    pairs(ctx, "slab", [([d], sorted(rng.sample(gp.HEAPS, ctx.n(3, 11))))
                        for d in range(4)], ctx.n(6000, 10 ** 6))


def c06(ctx):
    flags = "FlagRight FlagNeeded RegionsInside"
    whole_steps(ctx, [dict(family="bare", passes=8, live="PROPERTY Ends",
                           invs=flags + " Calm"),
                      dict(family="bare", passes=8, dh=2, live="PROPERTY Ends",
                           invs=flags + " Calm"),
                      dict(family="wall", passes=2, of=ctx.n(350, 40),
                           live="PROPERTY Ends", invs=flags)])
    facts_all(ctx, ["flag", "flagsound"], phases=[], carry=False, nr=120)
    # Many passes, all of them observed.
    facts_all(ctx, ["flag", "flagsound"], phases=[], carry=False, nr=24,
              salt="deep", extra_run=dict(maxit=(8, 30), nsteps=3, half=(7, 9),
                                          rough=0.8))
    # Only the end, with more passes than it takes.
    facts_all(ctx, ["flagsound", "settled"], phases=[], carry=False, nr=60,
              salt="calm", extra_run=dict(maxit=(300, 400), nsteps=2,
                                          half=(7, 9), rough=0.9, high=25,
                                          prefixes=False))
    facts_all(ctx, ["flagsound", "settled"], phases=[], carry=False, nr=12,
              salt="cliff", extra_run=dict(maxit=(2000, 3000), nsteps=1,
                                           cliff=True, high=10,
                                           prefixes=False))


def c07(ctx):
    phase_exact(ctx, ["movebody", "moveall"],
                [ctx.n(900, 12000), ctx.n(60, 1500)], salt="c07")


def c08(ctx):
    phase_exact(ctx, ["movebs", "moveall"],
                [ctx.n(1500, 15000), ctx.n(60, 1500)], salt="c08")
    walks(ctx, [(g, [a]) for g in (1, 2, 3) for a in (1, 2, 4)]
          if ctx.tier != "quick" else [(1, [1]), (1, [3]), (2, [2]), (3, [1])],
          ctx.n(5000, 10 ** 6), big=ctx.tier != "quick")


def c09(ctx):
    pool, sc = carry_pool(ctx, ctx.n(1500, 20000), salt="c09")
    lines = [gen_carry.line(i, *a, pre, post) for i, a, pre, post in pool]
    ctx.count("falls_to_the_ground", sum(l["post"]["warn"] > 0 for l in lines))
    ctx.sample({"script": sc[lines[0]["id"]]})
    ctx.validate("TraceCarry", lines, sc, what="relocation")
    fresh, n = [], 0
    for kind in ("relaxt", "relaxb", "movebs"):
        pool, s2 = phase_pool(ctx, kind, ctx.n(400, 5000), salt="c09",
                              unit="0.00001")
        sc.update(s2)
        for i, W, pre, post in pool:
            old = {tuple(r[:3] + r[4:]) for r in pre["r"]}
            new = [r for r in post["r"] if tuple(r[:3] + r[4:]) not in old]
            n += len(new)
            if new:
                L = W.case(i, [], pre, post)
                L.update(kind="fresh", fresh=new, q1=L["q"],
                         p1=[100 * v for v in L["p"]],
                         cxy=100 * L["cxy"], cz=100 * L["cz"])
                fresh.append(L)
    ctx.count("created_parcels", n)
    ctx.validate("TraceCarry", fresh, sc, what="anchor of a created parcel")


def c12(ctx):
    facts_all(ctx, ["toolregion", "passregions", "passlocal"], phases=[],
              carry=False, nr=80, extra_run=dict(jump=0.15))
    facts_all(ctx, ["onepass"], phases=["relaxt", "relaxb"], carry=False,
              runs=False, np=400)
    facts_all(ctx, ["displacelocal"], phases=["movebs", "movebody", "moveall"],
              carry=False, runs=False, np=300)


MC = "model_checking"
REGISTRY = {"C01": (c01, MC), "C02": (c02, MC), "C03": (c03, MC),
            "C04": (c04, MC), "C05": (c05, MC), "C06": (c06, MC),
            "C07": (c07, MC), "C08": (c08, MC), "C09": (c09, MC),
            "C12": (c12, MC), "C20": (c20, MC)}


def c13(ctx):
    import gen_gate
    gs = {700000 + k: gen_gate.Gate(random.Random(f"{ctx.seed}/gate/{k}"), 20)
          for k in range(ctx.n(400, 6000))}
    scripts = {i: g.script() for i, g in gs.items()}
    out = ctx.records(scripts)
    lines = []
    for i, recs in out.items():
        L = gs[i].line(i, {r["tag"]: r for r in recs})
        lines.append(L)
        for r in L["req"]:
            ctx.count("requests")
            ctx.count("skipped", int(not r["ret"]))
            ctx.count("large_moves", int(r["warn"] > 0))
    ctx.sample({"script": scripts[lines[0]["id"]]})
    ctx.validate("TraceGate", lines, scripts, what="movement gate")


REGISTRY["C13"] = (c13, MC)


def c14(ctx):
    import gen_monitor
    ms = {800000 + k: gen_monitor.Mon(random.Random(f"{ctx.seed}/mon/{k}"))
          for k in range(ctx.n(3000, 40000))}
    scripts = {i: m.script() for i, m in ms.items()}
    out = ctx.records(scripts)
    lines = []
    for i, recs in out.items():
        L = ms[i].line(i, {r["tag"]: r for r in recs})
        lines.append(L)
        ctx.count("rejected" if any(a["warn"] for a in L["ask"][:2])
                  else "accepted")
    ctx.sample({"script": scripts[lines[0]["id"]]})
    ctx.validate("TraceMonitor", lines, scripts, what="verdict of a checker")
    # the states a simulation goes through are consistent
    runs = {850000 + 100 * k:
            gen_run.Run(random.Random(f"{ctx.seed}/c14/{k}"), jump=0.0)
            for k in range(ctx.n(40, 600))}
    scripts, lines = {}, []
    for i, r in runs.items():
        s = r.script(prefixes=False)
        scripts[i] = []
        k = 0
        for l in s:
            scripts[i].append(l)
            if l.startswith("step "):
                scripts[i] += [f"checksoil {k}/soil", f"checkvolume {k}/vol 0"]
                if k == len(r.poses) - 1:      # the dump holds the total
                    scripts[i].append(f"check {k}/both 0")
                k += 1
    out = ctx.records(scripts)
    for i, recs in out.items():
        T = {r["tag"]: r for r in recs}
        r = runs[i]
        for k in range(len(r.poses)):
            if not T[f"{k}/end"]["ret"]:
                continue
            d = sparse(T[f"{k}/end"])
            ten = lambda l, m: [e[:m] + [10 * v for v in e[m:]] for e in l]
            L = {"id": i + k, "X": r.X, "Y": r.Y, "bg": 10 * d["bg"],
                 "t": ten(d["t"], 2), "w": ten(d["w"], 3), "s": ten(d["s"], 3),
                 "r": [e[:3] + [10 * e[3]] for e in d["r"]], "ba": d["ba"],
                 "ask": [{"kind": "soil", **{q: T[f"{k}/soil"][q]
                                             for q in ("ret", "warn", "same")}},
                         {"kind": "volume", "n": 0,
                          **{q: T[f"{k}/vol"][q]
                             for q in ("ret", "warn", "same")}}]}
            if f"{k}/both" in T:
                L["ask"].append({"kind": "both", "n": 0,
                                 **{q: T[f"{k}/both"][q]
                                    for q in ("warn", "same")}})
            lines.append(L)
            scripts[i + k] = scripts[i]
    ctx.count("simulated_states", len(lines))
    ctx.validate("TraceMonitor", lines, scripts, what="verdict of a checker")


REGISTRY["C14"] = (c14, MC)


def c11(ctx):
    import gen_columns as gc
    import lib
    # every column reachable by any sequence of insertions, by TLC
    cfg = "MCColumns.cfg"
    pr, st = ctx.lab.tlc("MCColumns", None, cfg=cfg)
    ctx.add_stats(st)
    cols = gc.states(st["raw"][0])
    ctx.count("enumerated_columns", len(cols))
    rng = random.Random(f"{ctx.seed}/c11")
    scripts, meta, lines = {}, {}, []
    for _ in range(ctx.n(1, 6)):
        for ls, place in gc.inserts(rng, cols, 7):
            i = 1100000 + len(scripts)
            scripts[i], meta[i] = ls, place
    out = ctx.records(scripts)
    for i, recs in out.items():
        lines.append(gc.insert_line(i, meta[i], recs[0]))
        ctx.count("insertions", len(meta[i]))
    for k in range(ctx.n(2000, 30000)):
        i = 1200000 + k
        scripts[i], cells, hz = gc.surface(rng)
        meta[i] = (cells, hz)
    out = ctx.records({i: s for i, s in scripts.items() if i >= 1200000})
    for i, recs in out.items():
        lines.append({"id": i, "kind": "surface", "cells": meta[i][0],
                      "hz": meta[i][1], "pre": recs[0]["w"],
                      "post": recs[1]["w"]})
    ctx.count("surfaces", len(out))
    runs = {1300000 + 100 * k: gc.Poses(random.Random(f"{ctx.seed}/poses/{k}"))
            for k in range(ctx.n(100, 2000))}
    sc = {i: r.script() for i, r in runs.items()}
    out = ctx.records(sc)
    for i, recs in out.items():
        T = {r["tag"]: r for r in recs}
        for k in range(len(runs[i].poses)):
            a, b, f = T[str(k - 1)], T[str(k)], T[f"{k}/fresh"]
            same = all(a[x] == b[x] for x in ("t", "s", "r", "ra", "ia", "eq",
                                              "bp", "bo"))
            lines.append({"id": i + k, "kind": "pose", "used": b["w"],
                          "fresh": f["w"], "other": same})
            scripts[i + k] = sc[i]
            ctx.count("placements")
    ctx.sample({"script": scripts[1200000]})
    ctx.validate("TraceColumns", lines, scripts, what="walls of a column")


REGISTRY["C11"] = (c11, MC)


def c18(ctx):
    import gen_pose
    ps = {1400000 + k: gen_pose.Poses(random.Random(f"{ctx.seed}/pose/{k}"))
          for k in range(ctx.n(800, 12000))}
    scripts = {i: p.script() for i, p in ps.items()}
    out = ctx.records(scripts)
    lines = []
    for i, recs in out.items():
        lines.append(ps[i].line(i, {r["tag"]: r for r in recs}))
        for o in ps[i].ops:
            ctx.count("calls_" + o["op"])
    ctx.sample({"script": scripts[lines[0]["id"]]})
    ctx.validate("TracePose", lines, scripts, what="pose function")


REGISTRY["C18"] = (c18, MC)


def c19(ctx):
    import gen_config as gc
    rng = random.Random(f"{ctx.seed}/c19")
    cs = gc.cases(rng, ctx.tier != "quick")
    rng.shuffle(cs)
    scripts, meta = {}, {}
    for k in range(0, len(cs), 50):
        i = 1500000 + k
        meta[i] = cs[k:k + 50]
        scripts[i] = ["unit 0.0001"] + [gc.command(q, c)
                                        for q, c in enumerate(meta[i])]
    out = ctx.records(scripts)
    lines = []
    for i, recs in out.items():
        for c, r in zip(meta[i], recs):
            c["res"] = {k: v for k, v in r.items() if k not in ("id", "tag")}
            ctx.count("accepted" if r["ok"] else "rejected")
            ctx.count("tuples_" + c["kind"])
        lines.append({"id": i, "cases": meta[i]})
    ctx.sample(meta[1500000][0])
    ctx.validate("TraceConfig", lines, scripts, what="configuration")


REGISTRY["C19"] = (c19, MC)


def c10(ctx):
    import gen_raster as gr
    ctx.lab.full_jit = True
    lines, scripts = [], {}
    sf = {1600000 + 10 * k: gr.Surf(random.Random(f"{ctx.seed}/surf/{k}"))
          for k in range(ctx.n(500, 8000))}
    pl = {1700000 + 10 * k: gr.Place(random.Random(f"{ctx.seed}/place/{k}"))
          for k in range(ctx.n(300, 5000))}
    for pool in (sf, pl):
        sc = {i: s.script() for i, s in pool.items()}
        for i, recs in ctx.records(sc).items():
            s = pool[i]
            for k, r in enumerate(recs):
                L = s.line(i + k, k, r)
                lines.append(L)
                scripts[L["id"]] = sc[i]
                ctx.count("surfaces" if L["kind"] == "surf" else
                          "blade_poses" if L["blade"] else "bucket_poses")
    ctx.sample({"script": scripts[lines[0]["id"]]})
    ctx.validate("TraceRaster", lines, scripts, what="extent of the walls")


REGISTRY["C10"] = (c10, MC)


def c15(ctx):
    import gen_files as gf
    import os
    _, st = ctx.lab.tlc("MCFiles", None, workers=8)
    ctx.add_stats(st)
    sims = {}
    for k in range(ctx.n(250, 3000)):
        i = 11800000 + 50 * k
        sims[i] = gf.Sim(random.Random(f"{ctx.seed}/files/{k}"),
                         os.path.join(ctx.lab.dir, "files", str(k)))
    for k in range(ctx.n(500, 6000)):
        sims[1860000 + 3 * k] = gf.Still(
            random.Random(f"{ctx.seed}/still/{k}"),
            os.path.join(ctx.lab.dir, "still", str(k)))
    sc = {i: s.script() for i, s in sims.items()}
    out = ctx.records(sc)
    lines, scripts = [], {}
    for i, recs in out.items():
        for L in sims[i].lines(i, recs):
            lines.append(L)
            scripts[L["id"]] = sc[i]
            ctx.count("requests_with_soil" if L["st"]["s"] else
                      "requests_without_soil")
    ctx.sample({"script": sc[11800000]})
    ctx.validate("TraceFiles", lines, scripts, what="output request")


REGISTRY["C15"] = (c15, MC)


def c16(ctx):
    import gen_noise as gn
    ts = {1900000 + 10 * k: gn.Terrain(random.Random(f"{ctx.seed}/init/{k}"))
          for k in range(ctx.n(150, 1500))}
    sc = {i: t.ls for i, t in ts.items()}
    lines, scripts = [], {}
    for i, recs in ctx.records(sc).items():
        for L in ts[i].lines(i, recs):
            lines.append(L)
            scripts[L["id"]] = sc[i]
            ctx.count("initialisations")
            hs = [h for row in L["t"] for h in row]
            ctx.count("highest", 0)
            ctx.notes["highest"] = max(ctx.notes["highest"], max(hs), -min(hs))
    rng = random.Random(f"{ctx.seed}/noise")
    sc, meta = {}, {}
    for k in range(ctx.n(200, 3000)):
        i = 1950000 + k
        sc[i], meta[i] = gn.noise(rng)
    scripts.update(sc)
    for i, recs in ctx.records(sc).items():
        T = {r["tag"]: r for r in recs}
        lines.append({"id": i, "kind": "noise", "perm": T["p"]["perm"],
                      "v": [v + [T[str(k)]["v"]]
                            for k, v in enumerate(meta[i])]})
        ctx.count("noise_values", len(meta[i]))
    ctx.sample({"script": scripts[1900000]})
    ctx.validate("TraceNoise", lines, scripts, what="initial terrain")


REGISTRY["C16"] = (c16, MC)


def c17(ctx):
    import gen_replay as gr
    import os
    ms = {2000000 + k: gr.Mix(random.Random(f"{ctx.seed}/mix/{k}"))
          for k in range(ctx.n(400, 6000))}
    scripts = {}
    for i, m in ms.items():
        d = os.path.join(ctx.lab.dir, "mix", str(i))
        for x in ("soil_simulator", "results"):
            os.makedirs(os.path.join(d, x))
        scripts[i] = [f"folder {d}"] + m.ls
    own = {}                 # the same calls in a process of their own
    for i, m in ms.items():
        for g, (ls, _) in enumerate(m.own):
            own[2050000 + 4 * (i - 2000000) + g] = ls
    lines = []
    out, single = ctx.records(scripts), ctx.records(own)
    for i, recs in out.items():
        j = 2050000 + 4 * (i - 2000000)
        if any(j + g not in single for g in range(len(ms[i].own))):
            continue         # crashed: reported
        L = ms[i].line(i, recs, [single[j + g]
                                 for g in range(len(ms[i].own))])
        ctx.count("processes_of_one_world", len(ms[i].own))
        lines.append(L)
        ctx.count("calls", sum(e["key"] != 0 for e in L["log"]))
        ctx.count("calls_without_effect", sum(e["key"] == 0 for e in L["log"]))
        ctx.count("seeded_once", ms[i].once)
    ctx.sample({"script": scripts[2000000][1:]})
    ctx.validate("TraceReplay", lines, scripts, what="equal histories differ")


REGISTRY["C17"] = (c17, MC)


def c21(ctx):
    import gen_step
    _, st = ctx.lab.tlc("Step", None, workers=4)
    ctx.add_stats(st)
    runs = {2100000 + 100 * k:
            gen_step.Staged(random.Random(f"{ctx.seed}/step/{k}"),
                            half=(7, 9), nsteps=5, maxit=(0, 4), jump=0.05)
            for k in range(ctx.n(250, 4000))}
    sc = {i: r.build() for i, r in runs.items()}
    lines, scripts, states = [], {}, {}
    for i, recs in ctx.records(sc).items():
        for j, L, T in runs[i].steps(i, recs):
            lines.append(L)
            scripts[j] = sc[i]
            states[j] = (runs[i], i, T)
    by = {L["id"]: L for L in lines}
    pr, st = ctx.lab.tlc("TraceStep", lines)
    ctx.add_stats(st)
    from lib import ids_of
    same, diff = ids_of(pr, "SAME"), ids_of(pr, "DIFF")
    ctx.cov["traces_validated_against_impl"] += len(same)
    ctx.count("steps", len(lines))
    ctx.count("steps_with_carried_soil",
              sum(bool(T["carry"]["r"]) for _, _, T in states.values()))
    ctx.count("stopped_at_the_maximum",
              sum(not T["end"]["eq"] for _, _, T in states.values()))
    odd = sorted({d // 10 for d in diff}
                 | {L["id"] for L in lines
                    if not all(10 * L["id"] + x + 1 in same
                               for x in range(len(L["step"])))})
    ctx.count("steps_not_equal_to_their_phases", len(odd))
    # These, and some of the others, are explained pass by pass, with the
    # order of treatment inferred.
    rng = random.Random(f"{ctx.seed}/step/pick")
    rest = sorted(set(by) - set(odd))
    pick = odd[:ctx.n(60, 200)] + rng.sample(rest, min(len(rest), ctx.n(150, 1500)))
    cases = []
    for j in pick:
        r, i, T = states[j]
        new = r.passes(i, j - i, T)
        for c in new:
            scripts[c["id"]] = scripts[j]
        cases += new
    size = lambda c: len(c["pre"]["r"]) + len(c["pre"]["t"])
    few = [c for c in cases if c["id"] // 10 in set(odd)]
    few = sorted(few, key=size)[:ctx.n(24, 300)]
    many = [c for c in cases if c["id"] // 10 not in set(odd)]
    many = sorted(many, key=size)[:ctx.n(32, 1000)]
    ctx.sample(by[lines[0]["id"]])
    for c in (few, many):
        ctx.validate("TracePhase", c, scripts, what="step",
                     timeout=ctx.n(10, 20), tolerate=True)
    # A limit or flag that is off shows in the number of passes.
    for j in sorted(by):
        if states[j][2]["m0"]["eq"] and len(ctx.violations) < 4:
            ctx.violation("the equilibrium of an earlier step is kept",
                          {"line": by[j], "script": scripts[j]})
    for j in odd:
        r, i, T = states[j]
        if digest_passes(by[j], T):
            continue
        if len(ctx.violations) < 4:
            ctx.violation("the number of avalanche passes of a step is wrong",
                          {"line": by[j], "script": scripts[j]})


def digest_passes(L, T):
    """After m passes at most, a world at equilibrium stays as it is."""
    n = len(L["step"]) - 1
    for m in range(n - 1):
        if T[f"m{m}"]["eq"] and L["step"][m]["h"] != L["step"][m + 1]["h"]:
            return False
    return L["step"][n - 1]["h"] == L["step"][n]["h"]


REGISTRY["C21"] = (c21, MC)


def c22(ctx):
    import gen_fair as gf
    from lib import ids_of
    kinds = ["ground", "peak", "twopeaks", "slab", "slabpeak", "squeezed",
             "buried", "narrow", "parcels"]
    fs, scripts, lines = {}, {}, []
    for a, kind in enumerate(kinds):
        for k in range(ctx.n(8, 60)):
            i = 20000 + 1000 * a + k
            fs[i] = gf.Fair(random.Random(f"{ctx.seed}/{kind}/{k}"), kind,
                            ctx.n(1000, 3000))
            scripts[i] = fs[i].script()
    for i, recs in ctx.records(scripts, secs=60).items():
        L = fs[i].line(i, recs)
        lines.append(L)
        ctx.count("executions", L["total"])
        ctx.count("outcomes_" + fs[i].kind, len(L["seen"]))
    ctx.sample({"script": scripts[lines[0]["id"]][:40]})
    pr, st = ctx.lab.tlc("TraceFair", lines)
    ctx.add_stats(st)
    hit, miss, unfair = (ids_of(pr, x) for x in ("HIT", "MISS", "UNFAIR"))
    few = lambda i: 64 if fs[i].kind == "parcels" else 24
    # An outcome that was not seen may be a rare one: look much longer before
    # saying that it never happens, and only where there are few outcomes.
    for i in [L["id"] for L in lines if len(L["seen"]) > few(L["id"])]:
        ctx.count("too_many_outcomes_to_expect_each")
        miss.discard(i)
    again = {}
    for i in sorted(miss)[:8]:
        fs[i].n *= 20 if fs[i].kind != "parcels" else 5
        again[i] = fs[i].script()
    if again:
        more = {i: fs[i].line(i, recs)
                for i, recs in ctx.records(again, secs=300).items()}
        lines = [more.get(L["id"], L) for L in lines]
        pr, st = ctx.lab.tlc("TraceFair", list(more.values()))
        ctx.add_stats(st)
        for old, x in ((hit, "HIT"), (miss, "MISS"), (unfair, "UNFAIR")):
            new = ids_of(pr, x)
            for k in [k for k in old if (k // 1000 if x == "HIT" else k) in more]:
                old.discard(k)
            old |= new
        for i in more:           # still too many to expect each of them?
            if len(more[i]["seen"]) > few(i):
                miss.discard(i)
            scripts[i] = again[i]
    for L in lines:
        i = L["id"]
        bad = [k for k in range(len(L["seen"])) if 1000 * i + k + 1 not in hit]
        why = ("an outcome the specification allows never happens" if i in miss
               else "an outcome the specification does not allow" if bad
               else "an outcome is preferred" if i in unfair else None)
        if why and len(ctx.violations) < 4:
            ctx.violation(f"{fs[i].kind}: {why}",
                          {"line": {k: v for k, v in L.items() if k != "seen"},
                           "outcomes": len(L["seen"]), "script": scripts[i]})
        elif not why:
            ctx.cov["traces_validated_against_impl"] += 1


REGISTRY["C22"] = (c22, MC)
