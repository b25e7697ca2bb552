"""Shared machinery: builds, TLC runs, behaviours from the state graph, conformance."""
import collections
import concurrent.futures
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TARGET = os.path.join(BUILD, "target")
SHIM = os.path.join(BUILD, "libowshim.so")

sys.path.insert(0, os.path.join(VERIF, "tools"))
import sync  # noqa: E402


class ToolError(Exception):
    """The check itself could not run (exit 2)."""


def cargo_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}
    env.update(
        HOME="/root",
        PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="1",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        CARGO_TARGET_DIR=TARGET,
        CARGO_BUILD_TARGET="x86_64-unknown-linux-gnu",
        DOCS_RS="1",
        RUSTFLAGS="-Awarnings -Crelocation-model=pic -Crelro-level=partial "
        "-Clink-arg=-Wl,-z,lazy -Clink-arg=-Wl,--allow-shlib-undefined",
    )
    return env


def build_shim():
    """libowshim.so: V8's binding layer on the V8 inside node."""
    d = os.path.join(HARNESS, "shim")
    h = hashlib.sha256()
    for n in ("binding.cc", "extra.cc", "support.h"):
        with open(os.path.join(d, n), "rb") as f:
            h.update(f.read())
    stamp = SHIM + ".stamp"
    if os.path.exists(SHIM) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(
        ["g++", "-std=c++20", "-O1", "-fno-rtti", "-fPIC", "-shared", "-w", "-I.",
         "-I/usr/include/node", "binding.cc", "extra.cc", "-o", SHIM],
        cwd=d, capture_output=True, text=True)
    if r.returncode:
        raise ToolError("shim: " + r.stderr[-3000:])
    with open(stamp, "w") as f:
        f.write(h.hexdigest())


PKG = {
    "scoped": ("ow-check-scoped", []),
    "full": ("ow-check-full", []),
    "mux": ("ow-check-full", ["--features", "multiplexing"]),
}


def build(kind):
    """Builds the harness of this kind from /repo's working tree; path of its plugin."""
    sync.main()
    build_shim()
    pkg, extra = PKG[kind]
    r = subprocess.run(
        ["cargo", "build", "--offline", "-p", pkg] + extra,
        cwd=HARNESS, env=cargo_env(), capture_output=True, text=True)
    if r.returncode:
        raise ToolError(f"cargo build -p {pkg}:\n" + r.stderr[-6000:])
    so = os.path.join(TARGET, "x86_64-unknown-linux-gnu", "debug", f"lib{pkg.replace('-', '_')}.so")
    if kind == "mux":
        dst = os.path.join(BUILD, "libmux.so")
        shutil.copyfile(so, dst)
        return dst
    return so


def run_plugin(so, args, timeout, env=None):
    e = dict(os.environ)
    e.update(LD_PRELOAD=SHIM, OW_PROG=so, RUST_BACKTRACE="0", MALLOC_PERTURB_="165")
    e.update(env or {})
    p = subprocess.Popen(["node"] + [str(a) for a in args], env=e, stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return "timeout", out.decode("utf8", "replace"), err.decode("utf8", "replace")


# ------------------------------------------------------------------ TLC

class Tlc:
    def __init__(self):
        self.states = self.generated = self.depth = 0
        self.edges = []
        self.prints = []
        self.error = None
        self.output = ""
        self.wall = 0.0


def tlc(module, cfg, emit=False, workers=1, timeout=800, simulate=None, extra_files=None,
        deadlock=False, java=(), keep=False, seed=1, coverage=False):
    """Runs TLC on spec/<module>.tla with the given configuration text."""
    os.makedirs(os.path.join(BUILD, "tlc"), exist_ok=True)
    d = tempfile.mkdtemp(prefix=module + "-", dir=os.path.join(BUILD, "tlc"))
    t = Tlc()
    t0 = time.time()
    try:
        for n in os.listdir(SPEC):
            if n.endswith(".tla"):
                os.symlink(os.path.join(SPEC, n), os.path.join(d, n))
        for n, text in (extra_files or {}).items():
            p = os.path.join(d, n)
            if os.path.islink(p):
                os.unlink(p)
            with open(p, "w") as f:
                f.write(text)
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-Xmx6g", "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", *java,
               "-cp", JAVA_CP, "tlc2.TLC", "-config", "run.cfg", "-workers", str(workers),
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-seed", str(seed), "-fp", "1"]
        if not deadlock:
            cmd.append("-deadlock")
        if simulate:
            cmd += ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1])]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd.append(module + ".tla")
        out = open(os.path.join(d, "out"), "w+")
        try:
            r = subprocess.run(cmd, cwd=d, stdout=out, stderr=subprocess.STDOUT, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC on {module} ran over {timeout}s")
        out.seek(0)
        rest = []
        for line in out:
            if line.startswith('"{') or line.startswith('"['):
                v = json.loads(json.loads(line.rstrip("\n")))
                if emit and isinstance(v, dict) and "s" in v and "t" in v:
                    t.edges.append((canon(v["s"]), v["a"], canon(v["t"])))
                else:
                    t.prints.append(v)
            else:
                rest.append(line)
        out.close()
        t.output = "".join(rest)
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", t.output)
        if m:
            t.generated, t.states = int(m[-1][0]), int(m[-1][1])
        m = re.search(r"The depth of the complete state graph search is (\d+)", t.output)
        if m:
            t.depth = int(m[1])
        if simulate:
            m = re.findall(r"(\d+) states checked", t.output)
            if m:
                t.generated = int(m[-1])
        if rc == 0:
            t.error = None
        elif rc in (10, 11, 12, 13, 14) or "is violated" in t.output or "was violated" in t.output:
            t.error = t.output[-6000:]
            t.violation = True
        else:
            raise ToolError(f"TLC on {module} failed ({rc}):\n" + t.output[-4000:])
    finally:
        t.wall = time.time() - t0
        if not keep:
            shutil.rmtree(d, ignore_errors=True)
    return t


def canon(v):
    return json.dumps(v, sort_keys=True, separators=(",", ":"))


# ------------------------------------------------------------------ behaviours

class Graph:
    """The labelled state graph TLC printed: state -> [(label, result, next)]."""

    def __init__(self, edges):
        self.out = collections.defaultdict(list)
        seen = set()
        self.init = None
        for s, a, t in edges:
            if self.init is None:
                self.init = s
            label, res = canon(a["op"]), canon(a["r"])
            k = (s, label, res, t)
            if k in seen:
                continue
            seen.add(k)
            self.out[s].append((label, res, t))
        self.nedges = len(seen)
        self.by = {}
        for s, es in self.out.items():
            d = collections.defaultdict(list)
            for label, res, t in es:
                d[label].append((res, t))
            self.by[s] = d

    def tours(self, rng, max_len, max_steps):
        """Paths from the initial state that cover the transitions, within a budget."""
        uncovered = {s: list(range(len(es))) for s, es in self.out.items()}
        for v in uncovered.values():
            rng.shuffle(v)
        left = self.nedges
        # shortest way to each state, once
        prev = {self.init: None}
        order = [self.init]
        for x in order:
            for label, _, t in self.out.get(x, ()):
                if t not in prev:
                    prev[t] = (x, label)
                    order.append(t)
        todo = order  # far states first (from the end): their ways cover the near ones
        paths, steps = [], 0
        while left and steps < max_steps and todo:
            goal = todo[-1]
            if not uncovered.get(goal):
                todo.pop()
                continue
            path, s = [], goal
            while prev[s] is not None:
                s, label = prev[s]
                path.append((s, label))
            path.reverse()
            for x, label in path:
                u = uncovered[x]
                for k, i in enumerate(u):
                    if self.out[x][i][0] == label:
                        u.pop(k)
                        left -= 1
                        break
            labels, s = [label for _, label in path], goal
            while len(labels) < max(max_len, len(path) + 1):
                u = uncovered.get(s)
                if u:
                    i = u.pop()
                    left -= 1
                    label, _, t = self.out[s][i]
                    labels.append(label)
                    s = t
                    continue
                hop = self._nearest(s, uncovered, max_len - len(labels), 60)
                if hop is None:
                    break
                for label, t in hop:
                    labels.append(label)
                    s = t
            paths.append(labels)
            steps += len(labels)
        return paths, self.nedges - left

    def _nearest(self, s, uncovered, limit, visit):
        prev = {s: None}
        q = collections.deque([(s, 0)])
        while q:
            x, d = q.popleft()
            if uncovered.get(x) and x != s:
                hop = []
                while prev[x] is not None:
                    p, label = prev[x]
                    hop.append((label, x))
                    x = p
                return hop[::-1]
            if d >= limit - 1 or len(prev) > visit:
                continue
            for label, _, t in self.out.get(x, ()):
                if t not in prev:
                    prev[t] = (x, label)
                    q.append((t, d + 1))
        return None

    def walks(self, rng, n, length):
        paths = []
        for _ in range(n):
            s, path = self.init, []
            for _ in range(length):
                es = self.out.get(s)
                if not es:
                    break
                label, _, t = rng.choice(es)
                path.append(label)
                s = t
            paths.append(path)
        return paths

    def check(self, path, obs):
        """None if the observations are a behaviour of the specification, else the mismatch."""
        states = {self.init}
        for i, label in enumerate(path):
            if i >= len(obs):
                return {"step": i, "op": json.loads(label), "observed": "nothing",
                        "why": "no observation"}
            o = canon(obs[i])
            cand = [(res, t) for s in states for res, t in self.by.get(s, {}).get(label, ())]
            if not cand:
                return None  # the code took another allowed branch; the rest was not planned for it
            nxt = {t for res, t in cand if res == o}
            if not nxt:
                return {"step": i, "op": json.loads(label), "observed": obs[i],
                        "allowed": [json.loads(r) for r in sorted({r for r, _ in cand})],
                        "state": [json.loads(s) for s in list(states)[:2]]}
            states = nxt
        return None


def run_paths(so, suite, cfg, paths, timeout=600, hang_s=20, env=None, shards=1):
    """Replays paths on the real code. Returns a list of observations per path (dict)."""
    if shards > 1 and len(paths) > 1:
        groups = [list(range(k, len(paths), shards)) for k in range(min(shards, len(paths)))]
        with concurrent.futures.ThreadPoolExecutor(len(groups)) as ex:
            parts = list(ex.map(lambda ix: run_paths(so, suite, cfg, [paths[i] for i in ix], timeout, hang_s, env),
                                groups))
        return {ix[k]: v for ix, r in zip(groups, parts) for k, v in r.items()}
    os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
    d = tempfile.mkdtemp(prefix=suite + "-", dir=os.path.join(BUILD, "run"))
    try:
        results = {}
        first = 0
        doc = {"cfg": cfg, "hang_s": hang_s,
               "paths": [[json.loads(a) for a in p] for p in paths]}
        deaths = 0
        while first < len(paths):
            doc["first"] = first
            fin, fout = os.path.join(d, "in.json"), os.path.join(d, "out.json")
            with open(fin, "w") as f:
                json.dump(doc, f)
            if os.path.exists(fout):
                os.unlink(fout)
            rc, out, err = run_plugin(so, [suite, fin, fout], timeout, env)
            started, ended = None, False
            try:
                lines = open(fout, encoding="utf8", errors="replace").read().split("\n")
            except FileNotFoundError:
                raise ToolError(f"harness {suite} did not start: rc={rc}\n{out[-1000:]}\n{err[-3000:]}")
            for line in lines:
                if not line.strip():
                    continue
                try:
                    v = json.loads(line)
                except ValueError:
                    continue
                if "start" in v:
                    started = v["start"]
                elif "hang" in v:
                    results[v["p"]] = {"p": v["p"], "o": [], "hang": v["s"]}
                elif "end" in v:
                    ended = True
                elif "p" in v:
                    results[v["p"]] = v
            if ended:
                break
            if started is None:
                raise ToolError(f"harness {suite} produced nothing: rc={rc}\n{err[-3000:]}")
            if started not in results:
                results[started] = {"p": started, "o": [], "died": str(rc), "stderr": err[-1500:]}
            deaths += 1
            if deaths >= 3:
                break
            first = started + 1
        return results
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_json(so, suite, doc, timeout=600, env=None):
    """Runs a suite that takes a document and writes JSON lines."""
    os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
    d = tempfile.mkdtemp(prefix=suite + "-", dir=os.path.join(BUILD, "run"))
    try:
        fin, fout = os.path.join(d, "in.json"), os.path.join(d, "out.json")
        with open(fin, "w") as f:
            json.dump(doc, f)
        rc, out, err = run_plugin(so, [suite, fin, fout], timeout, env)
        lines = []
        if os.path.exists(fout):
            for line in open(fout, encoding="utf8", errors="replace"):
                if line.strip():
                    try:
                        lines.append(json.loads(line))
                    except ValueError:
                        pass
        return rc, lines, err
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ checks

class Check:
    """Collects what one run of a check covered and decides its ending."""

    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(f"{self.seed}-{prop}")
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "samples": [], "models": []}
        self.assumptions = []
        self.violations = []
        self.known_seen = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- the specification
    def model(self, module, cfg, emit=False, **kw):
        if not emit:
            kw.setdefault("workers", 4)
        t = tlc(module, cfg, emit=emit, seed=self.seed, **kw)
        self.cov["states"] += t.states
        self.cov["transitions"] += t.generated
        self.cov["models"].append({"module": module, "states": t.states, "generated": t.generated,
                                   "depth": t.depth, "wall_s": round(t.wall, 1)})
        if t.error:
            raise ToolError(f"the specification {module} violates its own properties:\n{t.error}")
        return t

    # -- spec-generated behaviours replayed on the code
    def replay(self, so, suite, cfg, graph, max_len, max_steps, walks=0, walk_len=0, env=None,
               hang_s=20, note=None, timeout=600, shards=1, confirm=0, paths=None):
        """confirm: how often a mismatch must recur on the path alone (suites in real time)."""
        if paths is None:
            paths, covered = graph.tours(self.rng, max_len, max_steps)
        else:
            covered = graph.nedges
        if walks:
            paths += graph.walks(self.rng, walks, walk_len)
        paths = [p for p in paths if p]
        results = run_paths(so, suite, cfg, paths, env=env, hang_s=hang_s, timeout=timeout, shards=shards)
        n = 0
        bad = 0
        for i, path in enumerate(paths):
            r = results.get(i)
            if r is None:
                continue
            n += 1
            mism = None
            if "hang" in r or "died" in r:
                # confirm alone before believing it
                again = run_paths(so, suite, cfg, [path], env=env, hang_s=hang_s, timeout=timeout)
                r2 = again.get(0, {})
                if "hang" in r2 or "died" in r2:
                    mism = {"why": "hangs" if "hang" in r2 else "crashes", "detail": r2}
                else:
                    r = r2
            if mism is None:
                mism = graph.check(path, r["o"])
                fin = r.get("fin")
                if mism is None and isinstance(fin, dict) and ("panic" in fin or "bad" in fin):
                    mism = {"why": "at the end of the path", "observed": fin}
            for _ in range(confirm if mism else 0):
                if mism:
                    r = run_paths(so, suite, cfg, [path], env=env, hang_s=hang_s, timeout=timeout).get(0, {})
                    mism = (graph.check(path, r["o"]) if "o" in r and "hang" not in r and "died" not in r
                            else {"why": "hangs or crashes", "detail": r})
            if mism:
                bad += 1
                cut = path[:mism["step"] + 1] if "step" in mism else path
                self.violation({"suite": suite, "cfg": cfg, "path": [json.loads(a) for a in cut],
                                "mismatch": mism})
                if bad >= 5:
                    break
        self.cov["traces_validated_against_impl"] += n
        self.cov.setdefault("replayed", []).append(
            {"suite": suite, "cfg": cfg, "paths": n, "steps": sum(len(p) for p in paths),
             "graph_transitions": graph.nedges, "transitions_covered": covered,
             "exhaustive": covered == graph.nedges, **({"note": note} if note else {})})
        if paths:
            self.sample({"suite": suite, "path": [json.loads(a) for a in paths[0][:12]],
                         "observed": (results.get(0) or {}).get("o", [])[:12]})
        return bad

    # -- long random behaviours of the specification with large parameters
    def deep(self, so, suite, cfg, module, tla_cfg, num, depth, note=None, alter=None, **kw):
        """tla_cfg names Deep or DeepN as NEXT; TLC simulates num behaviours of that depth."""
        t = tlc(module, tla_cfg, emit=True, simulate=(num, depth), seed=self.seed)
        if t.error:
            raise ToolError(f"the specification {module} violates its own properties:\n{t.error}")
        if alter:
            t.edges = [(s, {**a, "r": alter(a["r"])}, nxt) for s, a, nxt in t.edges]
        self.cov["transitions"] += len(t.edges)
        self.cov["models"].append({"module": module, "simulated": num, "depth": depth,
                                   "transitions": len(t.edges), "wall_s": round(t.wall, 1)})
        g = Graph(t.edges)
        paths, path, last = [], [], None
        for s, a, nxt in t.edges:
            label = canon(a["op"])
            if last and last[0] == s and last[1] == label and last[2] != nxt:
                last = (s, label, nxt)
                continue    # another outcome of the same step
            if s == g.init and (last is None or last[2] != s or len(path) >= depth - 1):
                path = []
                paths.append(path)
            path.append(label)
            last = (s, label, nxt)
        return self.replay(so, suite, cfg, g, 0, 0, paths=paths, note=note or "simulated", **kw)

    # -- histories of the code checked against the specification
    def histories(self, module, consts, hists, note=None, timeout=600, what="history"):
        """hists: lists of events. TLC must explain each one."""
        uniq, idx = [], {}
        for h in hists:
            k = canon(h)
            if k not in idx:
                idx[k] = len(uniq)
                uniq.append(h)
        if not uniq:
            return
        text = "\n".join(json.dumps(h) for h in uniq) + "\n"
        cfg = (f"INIT LInit\nNEXT LNext\nCONSTRAINT LMark\nPOSTCONDITION LDone\n" + consts)
        t = tlc(module, cfg, extra_files={"hist.ndjson": text}, timeout=timeout, seed=self.seed)
        self.cov["states"] += t.states
        self.cov["transitions"] += t.generated
        self.cov["traces_validated_against_impl"] += len(uniq)
        rejected = None
        for p in t.prints:
            if isinstance(p, dict) and "rejected" in p:
                rejected = p["rejected"]
        if rejected is None:
            raise ToolError("history check gave no verdict:\n" + t.output[-3000:])
        self.cov.setdefault("histories", []).append(
            {"module": module, "distinct": len(uniq), "recorded": len(hists), **({"note": note} if note else {})})
        self.sample({"history": uniq[0][:20]})
        for k in rejected[:5]:
            self.violation({"what": what, "module": module, "history": uniq[k - 1],
                            "why": "no behaviour of the specification explains it"})

    def sample(self, v):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(v)

    # -- verdict
    def violation(self, v):
        self.violations.append(v)

    def finish(self):
        known = [k for k in load_known() if k["property"] == self.prop and k["status"] == "known"]
        open_v = []
        for v in self.violations:
            for k in known:
                if matches(k["match"], v):
                    self.known_seen.append(k["id"])
                    break
            else:
                open_v.append(v)
        for k in known:
            if k["id"] in self.known_seen:
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
            else:
                print(f"note: known finding {k['id']} did not show in this run")
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(open_v)}
        if known:
            ev["coverage"]["known_findings"] = {"listed": [k["id"] for k in known],
                                                "reproduced": sorted(set(self.known_seen))}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if open_v:
            rd = os.path.join(BUILD, "replays")
            os.makedirs(rd, exist_ok=True)
            for i, v in enumerate(open_v[:5]):
                p = os.path.join(rd, f"{self.prop}-{i}.json")
                with open(p, "w") as f:
                    json.dump(v, f, indent=1)
                if i == 0:
                    print(json.dumps(v)[:1500])
                print(f"VIOLATION property={self.prop} replay={p}")
            return 1
        print(f"OK property={self.prop} tier={self.tier} wall={ev['wall_s']}s "
              f"states={self.cov['states']} traces={self.cov['traces_validated_against_impl']}")
        return 0


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def matches(pattern, v):
    """A pattern is a dict of dotted paths into the violation and their exact values."""
    for path, want in pattern.items():
        x = v
        for k in path.split("."):
            if isinstance(x, list):
                x = x[int(k)] if int(k) < len(x) else None
            elif isinstance(x, dict):
                x = x.get(k)
            else:
                x = None
        if x != want:
            return False
    return True
