"""The isolate pool: spec/Pool.tla."""
import owlib

SCRIPT = """
const say = (...a) => console.log('@' + JSON.stringify(a));
let n = 0;
addEventListener('fetch', e => {
  const r = e.request.url.split('/').pop();
  say('start', r, KEY, ++n, env.E);
  e.respondWith(new Promise(answer => e.waitUntil((async () => {
    for (;;) {
      const c = await env.CTL.get(r);
      if (c.op === 'spin') for (;;);
      if (c.op === 'mem') try { new ArrayBuffer(1 << 30); } catch {}
      answer(new Response('bye'));
      if (c.op !== 'late') return;
    }
  })())));
});
"""


def cfg(reqs, owners, keys, iso, owner, conc, cached, reuse, ops, invs=(), props=(), nxt="Next", emit=False):
    q = lambda xs: "{" + ", ".join(f'"{x}"' if isinstance(x, str) else str(x) for x in xs) + "}"
    t = f"INIT Init\nNEXT {nxt}\n" + ("VIEW View\n" if nxt == "Next" else "")
    t += (f"CONSTANTS\n  Reqs = {q(range(1, reqs + 1))}\n  Owners = {q(owners)}\n  Keys = {q(keys)}\n"
          f"  Bad = {q([k for k in keys if k.startswith('bad')])}\n  MaxIso = {iso}\n  PerOwner = {owner}\n"
          f"  MaxConc = {conc}\n  MaxCached = {cached}\n  MaxReuse = {reuse}\n  OpNames = {q(ops)}\n")
    if invs:
        t += "INVARIANTS " + " ".join(invs) + "\n"
    if props:
        t += "PROPERTIES " + " ".join(props) + "\n"
    return t + ("ACTION_CONSTRAINT Emit\n" if emit else "")


def run(c, so, name, args, steps, walks=20, deep=None, limits=None):
    reqs, owners, keys, iso, owner, conc, cached, reuse, ops = args
    hc = {"script": SCRIPT, "iso": iso, "owner": owner, "conc": conc, "cached": cached, "reuse": reuse,
          "limits": limits or {"heap_max_mb": 128}}
    if deep:
        c.deep(so, "pool", hc, "Pool", cfg(*args, nxt="Deep", emit=True), *deep, note=name, shards=8)
        return
    c.model("Pool", cfg(*args, invs=["Share", "Limit", "Own"], props=["Used", "Refused"]))
    g = owlib.Graph(c.model("Pool", cfg(*args, emit=True), emit=True).edges)
    c.replay(so, "pool", hc, g, 40, steps, walks=walks, walk_len=40, note=name, shards=8)


def P01(c):
    so = owlib.build("full")
    OPS = ["begin", "ok", "late", "mem", "drop"]
    run(c, so, "two owners", (2, ["o1", "o2"], ["a.1"], 2, 1, 1, 1, 2, OPS), c.pick(6000, 40000))
    run(c, so, "more owners than room", (3, ["o1", "o2", "o3"], ["a.1"], 2, 0, 1, 1, 2, ["begin", "ok", "drop"]), c.pick(6000, 40000))
    run(c, so, "two isolates for an owner", (3, ["o1", "o2"], ["a.1"], 2, 2, 1, 1, 2, ["begin", "ok", "late", "drop"]), c.pick(6000, 40000))
    run(c, so, "one isolate", (2, ["o1", "o2"], ["a.1"], 1, 0, 1, 1, 3, OPS), c.pick(6000, 40000))
    run(c, so, "contexts kept", (1, ["o1"], ["a.1", "a.2", "a.1e5", "b.1", "bad.1"], 1, 1, 1, 3, 3, ["begin", "ok"]), c.pick(6000, 40000))
    run(c, so, "processor time", (1, ["o1", "o2"], ["a.1"], 2, 1, 1, 1, 2, ["begin", "ok", "late", "spin"]), c.pick(240, 3000),
        limits={"cpu_ms": 200})
    run(c, so, "time", (1, ["o1", "o2"], ["a.1"], 2, 1, 1, 1, 2, ["begin", "ok", "late", "wall"]), c.pick(100, 2000),
        limits={"wall_ms": 600})
    run(c, so, "many", (5, ["o1", "o2", "o3", "o4", "o5"], ["a.1", "a.2", "a.1e5", "b.1", "bad.1"], 3, 1, 1, 2, 3, OPS), 0, deep=(c.pick(40, 400), 100))


def P02(c):
    so = owlib.build("mux")
    OPS = ["begin", "ok", "late", "drop"]
    run(c, so, "two at a time", (3, ["o1", "o2"], ["a.1"], 1, 1, 2, 2, 2, OPS), c.pick(6000, 40000))
    run(c, so, "two isolates, two at a time", (4, ["o1"], ["a.1"], 2, 2, 2, 1, 2, ["begin", "ok", "drop"]), c.pick(6000, 40000))
    run(c, so, "many", (5, ["o1", "o2", "o3"], ["a.1", "a.2", "a.1e5", "b.1", "bad.1"], 2, 1, 2, 2, 3, OPS), 0, deep=(c.pick(40, 400), 100))


CALLS = """
const say = (...a) => console.log('@' + JSON.stringify(a));
const td = new TextDecoder();
addEventListener('fetch', e => {
  const r = Number(e.request.url.split('/').pop());
  const got = (n, i, v) => say('got', r, n, i, ...(v || [r, n]));
  const call = ({k, n}) => {
    const id = r + '.' + n;
    if (k === 'tmo') setTimeout(() => got(n, 0), 10);
    if (k === 'ivl') setInterval(() => got(n, 0), 10);
    if (k === 'kv') env.CTL.get(id).then(v => got(n, 0, v));
    if (k === 'fetch') fetch('http://h/' + id).then(x => x.json()).then(v => got(n, 0, v));
    if (k === 'read') fetch('http://h/' + id).then(async x => {
      got(n, 0, JSON.parse(x.headers.get('x-id')));
      const reader = x.body.getReader();
      for (let i = 1; ; i++) {
        const {done, value} = await reader.read();
        if (done) break;
        got(n, i, JSON.parse(td.decode(value)));
      }
    });
  };
  e.respondWith(new Promise(answer => e.waitUntil((async () => {
    for (;;) {
      const c = await env.CTL.get(String(r));
      if (c.op === 'ok') return answer(new Response('bye'));
      call(c);
    }
  })())));
});
"""


def reuse(c, so, name, args, conc, steps, deep=None, reuse=20):
    reqs, calls, kinds, ops = args
    q = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"
    hc = {"script": CALLS, "iso": 1, "owner": 1, "conc": conc, "cached": 2, "reuse": reuse, "plain": True,
          "limits": {"heap_max_mb": 128}}
    def cfg(nxt, emit, props=()):
        return (f"INIT Init\nNEXT {nxt}\n" + ("VIEW View\n" if nxt == "Next" else "") +
                f"CONSTANTS\n  MaxReq = {reqs}\n  MaxCall = {calls}\n  MaxConc = {conc}\n  Kinds = {q(kinds)}\n  OpNames = {q(ops)}\n" +
                ("PROPERTIES " + " ".join(props) + "\n" if props else "") + ("ACTION_CONSTRAINT Emit\n" if emit else ""))
    if deep:
        c.deep(so, "pool", hc, "Reuse", cfg("Deep", True), *deep, note=name, shards=8)
        return
    t = c.model("Reuse", cfg("Next", True, ["Mine"]), emit=True)
    c.replay(so, "pool", hc, owlib.Graph(t.edges), 40, steps, walks=20, walk_len=40, note=name, shards=8)


ALL = ["fetch", "kv", "read", "tmo", "ivl"]


def P03(c):
    so = owlib.build("full")
    mux = owlib.build("mux")
    OPS = ["begin", "call", "answer", "chunk", "tick", "ok", "drop"]
    reuse(c, so, "one call each", (3, 1, ALL, OPS), 1, c.pick(12000, 60000))
    reuse(c, so, "two calls each", (2, 2, ["fetch", "read", "ivl"], OPS), 1, c.pick(12000, 60000))
    reuse(c, mux, "side by side", (3, 1, ["fetch", "kv", "tmo"], OPS), 2, c.pick(6000, 60000))
    reuse(c, so, "many", (30, 4, ALL, OPS), 1, 0, deep=(c.pick(30, 400), 100))
    reuse(c, mux, "many side by side", (30, 4, ALL, OPS), 3, 0, deep=(c.pick(30, 400), 100))
