"""Shared machinery: build the driver from the code under test, run scripted
scenarios on it, turn its dumps into trace lines, run TLC on them.

Nothing here judges the code: every verdict comes from a TLA+ module evaluated
by TLC on what the driver recorded."""
import collections
import concurrent.futures as cf
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = ("/opt/veriftools/tla/tla2tools.jar:"
       "/opt/veriftools/tla/CommunityModules-deps.jar")
NPROC = min(8, os.cpu_count() or 8)


class ToolError(Exception):
    """The machinery failed: an error exit, never a violation."""


def uneven(line):
    """Extents that are no whole number of cells: the same grid all the same."""
    g = [float(x) for x in line.split()[1:]]
    rng = random.Random(line + os.environ.get("VERIF_SEED", "1"))
    cells = [g[3], g[3], g[4]]
    for k in range(3):
        if abs(g[k] / cells[k] - round(g[k] / cells[k])) > 0.02 or \
                g[k] < 2 * cells[k]:
            return line
    if rng.random() < 0.5:
        g[:3] = [x + rng.choice([0, 1, 1]) * round(rng.uniform(-0.4, 0.4), 3) * c
                 for x, c in zip(g, cells)]
    return "grid " + " ".join(repr(x) for x in g)


def chunks(items, n):
    n = max(1, min(n, len(items)))
    return [items[i::n] for i in range(n)]


class Lab:
    """Scratch directory with a driver compiled from the code under test."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="soilcheck.")
        self.driver = None
        self.full_jit = False     # pays off for long evaluations only
        self.t0 = time.time()
        self.n_build = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def build(self):
        src = os.path.join(self.dir, "src")
        os.makedirs(os.path.join(self.dir, "results"), exist_ok=True)
        shutil.copytree(os.path.join(REPO, "soil_simulator"),
                        os.path.join(src, "soil_simulator"))
        self.src = src
        self.scratch = os.path.join(self.dir, "run")   # default folder
        for d in ("soil_simulator", "results"):
            os.makedirs(os.path.join(self.scratch, d), exist_ok=True)
        cpps = sorted(glob.glob(os.path.join(src, "soil_simulator", "*.cpp")))
        cpps = [c for c in cpps if os.path.basename(c) != "main.cpp"]
        cpps.append(os.path.join(VERIF, "harness", "driver.cpp"))
        objs, jobs = [], []
        for c in cpps:
            o = os.path.join(self.dir, os.path.basename(c)[:-4] + ".o")
            objs.append(o)
            # relative source names: output files go to ./results of the
            # folder the driver runs in
            name = os.path.relpath(c, src) if c.startswith(src) else c
            jobs.append(["g++", "-std=c++20", "-O2", "-fPIC", "-w",
                         "-D_GLIBCXX_ASSERTIONS", "-I" + src, "-c", name,
                         "-o", o])

        def one(j):
            return subprocess.run(j, capture_output=True, text=True,
                                  timeout=600, cwd=src)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for r in ex.map(one, jobs):
                if r.returncode:
                    raise ToolError("compile failed: " + r.stderr[-2000:])
        self.driver = os.path.join(self.dir, "driver")
        r = one(["g++"] + objs + ["-lglog", "-o", self.driver])
        if r.returncode:
            raise ToolError("link failed: " + r.stderr[-2000:])

    # -- driver ---------------------------------------------------------
    def run(self, scenarios, secs=20, shards=None, cwd=None):
        """scenarios: {id: [lines]} -> {id: [records]}"""
        ids = list(scenarios)
        for i in ids:
            scenarios[i][:] = [uneven(x) if x.startswith("grid ") else x
                               for x in scenarios[i]]
        parts = chunks(ids, shards or NPROC)
        tmp = tempfile.mkdtemp(dir=self.dir)

        def one(k):
            p = os.path.join(tmp, f"s{k}.txt")
            with open(p, "w") as f:
                for i in parts[k]:
                    f.write(f"new {i}\n")
                    f.write("\n".join(scenarios[i]))
                    f.write("\n")
            r = subprocess.run([self.driver, p, str(secs)],
                               capture_output=True, text=True, timeout=1500,
                               cwd=cwd or self.scratch)
            if r.returncode or "unknown command" in r.stderr:
                raise ToolError(f"driver failed: {r.returncode} {r.stderr[-500:]}")
            return r.stdout
        out = collections.OrderedDict((i, []) for i in ids)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for text in ex.map(one, range(len(parts))):
                for line in text.splitlines():
                    j = json.loads(line)
                    out[j["id"]].append(j)
        shutil.rmtree(tmp, ignore_errors=True)
        return out

    # -- TLC ------------------------------------------------------------
    def tlc(self, module, lines=None, cfg=None, shards=None, timeout=600,
            env=None, workers=1, heap="2g", extra=(), weight=None,
            tolerate_timeout=False, tolerate_eval=False, fifo=False):
        """Run TLC on trace lines, sharded.  Returns (tuples printed, stats)."""
        tmp = tempfile.mkdtemp(dir=self.dir)
        if lines is None:
            parts = [None]
        else:
            lines = list(lines)
            if weight:
                lines.sort(key=weight, reverse=True)
            parts = [p for p in chunks(lines, shards or NPROC) if p]
        cfg = cfg or module + ".cfg"

        def one(k):
            e = dict(os.environ)
            e.pop("JAVA_TOOL_OPTIONS", None)
            e.update(env or {})
            if parts[k] is not None:
                p = os.path.join(tmp, f"trace{k}.ndjson")
                with open(p, "w") as f:
                    for j in parts[k]:
                        f.write(json.dumps(j, separators=(",", ":")) + "\n")
                e["TRACE"] = p
            md = os.path.join(tmp, f"md{k}")
            cmd = ["java", "-XX:+UseSerialGC", *([] if self.full_jit else ["-XX:TieredStopAtLevel=1"]), "-Xmx" + heap, "-Xss64m",
                   *([] if fifo else
                     ["-Dtlc2.tool.queue.IStateQueue=StateDeque"]), "-cp",
                   JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", md,
                   "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg),
                   *extra, os.path.join(SPEC, module + ".tla")]
            t0 = time.time()
            try:
                r = subprocess.run(cmd, capture_output=True, text=True,
                                   timeout=timeout, cwd=tmp, env=e)
                return r.returncode, r.stdout + r.stderr, time.time() - t0
            except subprocess.TimeoutExpired as x:
                o = x.stdout or b""
                return None, o.decode("utf-8", "replace"), time.time() - t0
        printed, stats = [], {"states": 0, "distinct": 0, "timeouts": 0,
                              "raw": [], "evalerr": []}
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for rc, text, wall in ex.map(one, range(len(parts))):
                stats["raw"].append(text)
                printed += parse_prints(text)
                m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct",
                               text)
                if m:
                    stats["states"] += int(m[-1][0].replace(",", ""))
                    stats["distinct"] += int(m[-1][1].replace(",", ""))
                if rc is None:
                    stats["timeouts"] += 1
                    if not tolerate_timeout:
                        raise ToolError(f"TLC timed out on {module}")
                elif rc == 0:
                    pass
                elif tolerate_eval and eval_error(text):
                    stats["evalerr"].append(tlc_error(text))
                else:
                    raise ToolError(f"TLC failed on {module} (rc {rc}): "
                                    + tlc_error(text))
        shutil.rmtree(tmp, ignore_errors=True)
        return printed, stats


def eval_error(text):
    """The specification could not make sense of a recorded state (as opposed
    to TLC failing for want of memory, a module or a parse)."""
    if re.search(r"OutOfMemory|StackOverflow|Parsing or semantic|Could not find"
                 r"|Unknown operator|Semantic errors|java\.io", text):
        return False
    return "Error:" in text


def tlc_error(text):
    i = text.find("Error:")
    return text[i if i >= 0 else -1500:][:1800]


def parse_prints(text):
    """PrintT'ed tuples << "WORD", ... >> (possibly over several lines)."""
    out = []
    for m in re.finditer(r'^<<\s?"([A-Z]+)"(.*?)>>\s*$', text,
                         re.M | re.S):
        body = m.group(2)
        out.append((m.group(1), body.strip(" ,\n")))
    return out


def ids_of(printed, word):
    got = set()
    for w, body in printed:
        if w == word:
            m = re.match(r"(-?\d+)", body)
            if m:
                got.add(int(m.group(1)))
    return got


def sparse(d):
    """Driver dump -> trace state (lossless re-encoding of the terrain)."""
    cnt = collections.Counter()
    for row in d["t"]:
        cnt.update(row)
    bg = cnt.most_common(1)[0][0]
    t = [[i, j, h] for i, row in enumerate(d["t"]) for j, h in enumerate(row)
         if h != bg]
    o = {"bg": bg, "t": t, "w": d["w"], "s": d["s"], "r": d["r"],
         "ba": d["ba"], "ra": d["ra"], "ia": d["ia"], "eq": d["eq"],
         "warn": d["warn"], "off": d["off"], "dev": d["dev"]}
    for k in ("ret", "bp", "bo"):
        if k in d:
            o[k] = d[k]
    return o
