"""The whole runtime, driven from inside by a script that takes commands."""
import owlib

SAY = "const say = (...a) => console.log('@' + JSON.stringify(a));\n"


def js_driver(handle, setup=""):
    """A worker whose fetch handler takes commands for ever."""
    return SAY + setup + """
addEventListener('fetch', e => e.respondWith((async () => {
  for (;;) {
    const c = await env.CTL.get('cmd');
    if (c.op === 'quit') break;
    %s
  }
  return new Response('bye');
})()));
""" % handle


TABLE = ["0", "1", "2", "3", "'2'", "1.9", "-5", "NaN", "undefined", "64", "100", "5000", "4097", "7", "20",
         "Infinity", "null", "65", "2147483648", "4294967297", "9007199254740993", "1e20", "Number.MAX_VALUE"]

TIMERS = js_driver(r"""
    if (c.op === 'set') set(c.t, c.rep, TABLE[c.d - 1], c.cb);
    else if (c.op === 'clear') globalThis[c.as](ids[c.t]);
    else if (c.op === 'bogus') { clearTimeout(eval(c.v)); clearInterval(eval(c.v)); }
""", "const TABLE = [" + ", ".join(TABLE) + r"""];
const ids = {};
let next = 1;
function set(t, rep, d, cb) {
  next = t + 1;
  const f = (u, ...rest) => {
    say(rest.join() === (t % 3 === 2 ? 'two,3' : '') ? u : 'arguments');
    if (cb.k === 'throw') throw new Error('boom');
    if (cb.k === 'clear') { if (cb.t in ids) clearTimeout(ids[cb.t]); }
    if (cb.k === 'self') clearInterval(ids[u]);
    if (cb.k === 'set' && next <= MAX) set(next, false, cb.ms, { k: 'plain' });
  };
  const s = rep ? setInterval : setTimeout;
  ids[t] = t % 3 === 0 ? s(() => f(t), d) : t % 3 === 1 ? s(f, d, t) : s(f, d, t, 'two', 3);
}
""")


def twice(c, so, hc, g, tour_len, steps, pooled, note):
    """The same paths through a Worker and through the isolate pool."""
    c.replay(so, "rt", hc, g, tour_len, steps, walks=40, walk_len=tour_len, note=note, shards=8)
    if pooled:
        c.replay(so, "rt", dict(hc, via="pool"), g, tour_len, pooled, walks=40, walk_len=tour_len, note=note + ", pooled", shards=8)


def timers_cfg(max_t, delays, ticks, cbs, ops, invs=(), props=(), emit=False, view=True):
    q = lambda xs: "{" + ", ".join(f'"{x}"' if isinstance(x, str) else str(x) for x in xs) + "}"
    t = "INIT Init\nNEXT Next\n" + ("VIEW View\n" if view else "")
    t += (f"CONSTANTS\n  MaxT = {max_t}\n  Delays = {q(delays)}\n  Ticks = {q(ticks)}\n  Cbs = {q(cbs)}\n"
          f"  OpNames = {q(ops)}\n")
    if invs:
        t += "INVARIANTS " + " ".join(invs) + "\n"
    if props:
        t += "PROPERTIES " + " ".join(props) + "\n"
    if emit:
        t += "ACTION_CONSTRAINT Emit\n"
    return t


def E01(c):
    """Timers."""
    so = owlib.build("full")
    props = ["OnlyLive", "ClearedIsDead", "OneShotOnce", "NotEarly", "InOrder"]
    hc = lambda n: {"script": f"const MAX = {n};\n" + TIMERS, "begin": [{"op": "exec"}], "keep": "log"}

    def go(name, args, steps, pooled):
        c.model("Timers", timers_cfg(*args, invs=["NoneDue"], props=props, view=False))
        t = c.model("Timers", timers_cfg(*args, emit=True), emit=True)
        g = owlib.Graph(t.edges)
        twice(c, so, hc(args[0]), g, 60, steps, pooled, name)
    go("set, clear, pass", (3, [1, 2, 3], [1, 3], ["plain"], ["set", "interval", "clear", "tick"]), c.pick(30000, 200000), c.pick(4000, 60000))
    go("callbacks that set, clear, throw", (3, [1, 3], [1, 2], ["plain", "throw", "clear", "self", "set"],
                                            ["set", "interval", "tick"]), c.pick(30000, 200000), c.pick(4000, 60000))
    go("odd arguments", (2, [5, 6, 7, 8, 9, 16, 17, 19, 20, 21, 22, 23], [1, 2], ["plain"], ["set", "interval", "bogus", "tick"]), c.pick(8000, 80000), 0)
    every = ["plain", "throw", "clear", "self", "set"]
    for nxt, n, ops, num in (("Deep", 60, ["set", "clear", "tick", "bogus"], 20), ("DeepN", 60, ["set", "clear", "tick"], 20),
                             ("DeepN", 4, ["set", "interval", "clear", "tick"], 60)):
        t = timers_cfg(n, [1, 3, 4, 10, 11, 12, 13, 14, 15, 18, 19, 20], [1, 7, 64, 100, 3000], every, ops, emit=True, view=False)
        c.deep(so, "rt", hc(n), "Timers", t.replace("NEXT Next", "NEXT " + nxt), c.pick(num, num * 10), 90 if n > 9 else 40,
               note="long delays, many timers" if n > 9 else "long delays, intervals", shards=8)


IO = js_driver(r"""
    const go = (p) => p.then(
      r => { if (r instanceof Response) { resp[c.i] = r; ok(c.i, r); } else say('value', c.i, r === null ? 'null' : typeof r === 'string' ? r : r.v ?? r[0].v); },
      e => say('err', c.i, String(e && e.message || e).replace(/.*(?=e[0-9]+$)/, '')));
    if (c.op === 'call') go(calls[c.k](String(c.i)));
    else if (c.op === 'read') read(c.i);
    else if (c.op === 'text') resp[c.i].text().then(t => say('text', c.i, t), e => say('fail', c.i, ''));
    else if (c.op === 'stop') stop(c.i);
""", r"""
const resp = {}, rd = {};
const calls = {
  fetch: i => fetch('http://h/x/' + i),
  assets: i => env.ASSETS.fetch('http://h/x/' + i),
  worker: i => env.WORKER.fetch('http://h/x/' + i),
  sfetch: i => env.STORE.fetch('http://h/' + i),
  sget: i => env.STORE.get(i),
  kv: i => env.KV.get(i),
  db: i => env.DB.query('select/' + i, []),
};
const ok = (i, r) => say(r.headers.get('x-id') === String(i) && r.ok ? 'http' : 'wrong', i, String(r.status));
const reader = i => rd[i] ??= resp[i].body ? resp[i].body.getReader()
                     : { read: async () => ({ done: true }), cancel: async () => {} };
const read = i => reader(i).read().then(({ value, done }) =>
    done ? say('done', i, '') : say('chunk', i, new TextDecoder().decode(value)), e => say('fail', i, ''));
// a reader that cancels gives the body back: later reads need another
const stop = i => { const r = reader(i); delete rd[i]; r.cancel('no').then(() => say('cancelled', i, ''), e => say('cfail', i, '')); };
""")

BINDINGS = [["ASSETS", "assets"], ["WORKER", "worker"], ["STORE", "storage"], ["KV", "kv"], ["DB", "db"]]


def io_cfg(n, kinds, how, chunks, ops, invs=(), props=(), emit=False, view=True):
    q = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"
    t = "INIT Init\nNEXT Next\n" + ("VIEW View\n" if view else "")
    t += (f"CONSTANTS\n  N = {n}\n  KindOf = {q(kinds)}\n  How = {q(how)}\n  MaxChunks = {chunks}\n  OpNames = {q(ops)}\n")
    if invs:
        t += "INVARIANTS " + " ".join(invs) + "\n"
    if props:
        t += "PROPERTIES " + " ".join(props) + "\n"
    if emit:
        t += "ACTION_CONSTRAINT Emit\n"
    return t


KINDS = ["fetch", "assets", "worker", "sfetch", "sget", "kv", "db"]
HOW = ["buf", "none", "str", "err"]
IOPS = ["call", "answer", "chunk", "end", "read", "text", "stop", "broken", "close"]


def E02(c):
    """Answers and bodies of what a script asks for."""
    so = owlib.build("full")
    hc = {"script": IO, "bindings": BINDINGS, "begin": [{"op": "exec"}], "keep": "io"}

    def go(name, args, steps, pooled):
        c.model("Io", io_cfg(*args, invs=["NoStuck"], props=["Own", "Answered", "Quiet", "Honest"], view=False))
        t = c.model("Io", io_cfg(*args, emit=True), emit=True)
        g = owlib.Graph(t.edges)
        twice(c, so, hc, g, 40, steps, pooled, name)
    go("one call of each kind", (1, KINDS, HOW, 3, IOPS), c.pick(20000, 200000), c.pick(6000, 60000))
    go("two calls", (2, KINDS, ["buf", "str", "err"], 1, ["call", "answer", "chunk", "end", "read", "text", "broken", "close"]), c.pick(20000, 200000), c.pick(6000, 60000))
    # many calls open at once
    t = io_cfg(99, KINDS, ["str", "err", "none"], 1, ["call", "answer"], emit=True, view=False).replace("NEXT Next", "NEXT Crowd")
    c.deep(so, "rt", hc, "Io", t, c.pick(8, 40), 300, note="99 calls at once", shards=8)
    # many chunks: a body nobody reads is held back, then comes whole
    for nxt, n, kinds, ops, num in (("DeepN", 2, KINDS[:4], ["call", "answer", "chunk", "read"], 30),
                                    ("Deep", 1, KINDS[:4], ["call", "answer", "chunk", "read"], 40),
                                    ("DeepN", 6, KINDS, IOPS[:-1], 60), ("Deep", 6, KINDS, IOPS[:-2], 60)):
        t = io_cfg(n, kinds, ["str"] if n < 6 else HOW, 60, ops, emit=True, view=False).replace("NEXT Next", "NEXT " + nxt)
        c.deep(so, "rt", dict(hc, via="pool") if nxt == "Deep" else hc, "Io", t, c.pick(num, num * 10), 100,
               note=f"{n} calls, long" + (", pooled" if nxt == "Deep" else ""), shards=8)


REQ = SAY + r"""
const wu = [];
let ev, give, fail, ctl, request, nth = Math.floor(Math.random() * 6);
const E = new TextEncoder();
const kinds = [x => x, x => E.encode(x), x => E.encode(x).buffer, x => (b => new DataView(b.buffer, 1, b.length - 2))(E.encode('-' + x + '-'))];
const src = () => new ReadableStream({
  start(c) { ctl = c; c.signal.addEventListener('abort', () => say('abort')); },
  cancel(r) { say('cancel'); },
});
async function loop() {
  for (;;) {
    const c = await env.CTL.get('cmd');
    if (c.op === 'respond') {
      if (c.k === 'buf') give(new Response('B'));
      else if (c.k === 'none') give(new Response(null));
      else if (c.k === 'stream') give(new Response(src()));
      else if (c.k === 'forward') give(fetch('http://h/x/f'));
      else if (c.k === 'echo') give(new Response(request.body));
      else if (c.k === 'throw') fail(new Error('boom'));
      else give(BAD);
    } else if (c.op === 'wait') ev.waitUntil(new Promise((a, b) => wu.push([a, b])));
    else if (c.op === 'settle') wu[c.i - 1][c.how === 'ok' ? 0 : 1](new Error('w'));
    else if (c.op === 'enq') { try { ctl.enqueue(kinds[c.n % 4]('c' + c.n + ';')); } catch { say('enqfail'); } }
    else if (c.op === 'fin') ctl.close();
    else if (c.op === 'fail') ctl.error([undefined, '', null, 0, new Error(''), new Error('broken')][nth++ % 6]);
  }
}
const start = (e, r) => { ev = e; request = r; loop(); return new Promise((a, b) => { give = a; fail = b; }); };
"""
STYLES = {
    "respondWith": REQ + "const BAD = undefined; const half = Math.random() < 0.5; addEventListener('fetch', e => {"
    " e.respondWith(start(e, e.request)); return half ? Promise.resolve() : undefined; });",
    "a returned promise": REQ + "addEventListener('fetch', async e => await start(e, e.request)); const BAD = new Response('x', {status: 500});",
    "a module": REQ + "const BAD = null; globalThis.default = { async fetch(r, env, ctx) { return await start(ctx, r); } };",
}
REQOPS = ["respond", "answer", "wait", "settle", "enq", "fin", "fail", "chunk", "broken", "end", "recv", "hangup", "tick", "close"]


def req_cfg(kinds, w, chunks, out, ops, held=40, invs=(), props=(), emit=False, view=True):
    q = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"
    t = "INIT Init\nNEXT Next\n" + ("VIEW View\n" if view else "")
    t += (f"CONSTANTS\n  Kinds = {q(kinds)}\n  MaxW = {w}\n  MaxChunks = {chunks}\n  MaxOut = {out}\n  Held = {held}\n"
          f"  OpNames = {q(ops)}\n")
    if invs:
        t += "INVARIANTS " + " ".join(invs) + "\n"
    if props:
        t += "PROPERTIES " + " ".join(props) + "\n"
    if emit:
        t += "ACTION_CONSTRAINT Emit\n"
    return t


def E03(c):
    """A request, its answer, its body and its background work."""
    so = owlib.build("full")
    every = ["buf", "none", "throw", "bad", "stream", "forward", "echo"]

    def go(name, args, steps, style, pooled):
        hc = {"script": STYLES[style], "begin": [{"op": "exec", "method": "POST", "body": {"stream": 8}}], "keep": "req"}
        c.model("Req", req_cfg(*args, invs=["Waits", "Ends", "EndIsEnd", "InOrder"], props=["Once", "Honest"], view=False))
        t = c.model("Req", req_cfg(*args, emit=True), emit=True)
        g = owlib.Graph(t.edges)
        twice(c, so, hc, g, 40, steps, pooled, name + ", " + style)
    for style in STYLES:
        go("every answer", (every, 2, 2, 2, REQOPS), c.pick(6000, 100000), style, c.pick(3000, 60000))
    go("background work", (["buf", "stream", "forward"], 3, 1, 1, ["respond", "answer", "wait", "settle", "fin", "end", "hangup", "tick"]),
       c.pick(6000, 60000), "respondWith", c.pick(6000, 60000))
    for style in STYLES:
        hc = {"script": STYLES[style], "begin": [{"op": "exec", "method": "POST", "body": {"stream": 8}}], "keep": "req"}
        # more than anything holds, and the client goes
        t = req_cfg(["stream"], 2, 80, 60, REQOPS, emit=True, view=False).replace("NEXT Next", "NEXT Flood")
        c.deep(so, "rt", hc, "Req", t, c.pick(24, 400), 70, note="more than anything holds, " + style, shards=8)
        for ops, out, num in ((REQOPS, 7, 40), (["respond", "answer", "enq", "fin", "recv", "chunk", "end", "wait", "settle"], 60, 40)):
            t = req_cfg(["stream", "forward", "echo"], 6, 80, out, ops, emit=True, view=False).replace("NEXT Next", "NEXT DeepN")
            c.deep(so, "rt", hc, "Req", t, c.pick(num, num * 10), 120, note="long bodies, " + style, shards=8)
            c.deep(so, "rt", dict(hc, via="pool"), "Req", t, c.pick(num // 2, num * 5), 120, note=f"long bodies, {style}, pooled", shards=8)


# JSON values by name; the script's own values besides
VALUES = {"num": 7, "str": "text", "obj": {"a": [1]}, "list": [None, "x", {"success": False}], "true": True, "zero": 0, "empty": "",
          "odd": {"k": "\u00e9\u2028\"\\\u0000\U0001f600", "n": -0.5, "big": 9007199254740991, "e": [], "o": {}, "z": None, "": {"": [[[]]]}}}
TASK = SAY + """
const V = """ + owlib.json.dumps(VALUES, sort_keys=True) + r""";
const VAL = { ...V, undef: undefined, null: null, yes: { success: true, data: V.obj }, no: { success: false, error: 'E' },
  both: { success: false, data: 7, error: 'E' }, bare: { data: 'text' } };
const THROW = { error: () => new Error('T'), string: () => 'T', object: () => ({ message: 'T' }), null: () => null };
const name = x => x === undefined ? 'undef' : Object.keys(V).find(k => JSON.stringify(V[k]) === JSON.stringify(x)) ?? JSON.stringify(x);
const wu = [];
let ev, ctx, give, fail;
async function loop() {
  for (;;) {
    const c = await env.CTL.get('cmd');
    if (c.op === 'respond') ev.respondWith(VAL[c.v]);
    else if (c.op === 'return') give(VAL[c.v]);
    else if (c.op === 'throw') fail(THROW[c.how]());
    else if (c.op === 'wait') ctx.waitUntil(new Promise((a, b) => wu.push([a, b])));
    else if (c.op === 'settle') wu[c.i - 1][c.how === 'ok' ? 0 : 1](new Error('W' + c.i));
  }
}
const start = (e, x) => { ev = e; ctx = x; loop(); return new Promise((a, b) => { give = a; fail = b; }); };
const time = e => (e.scheduledTime ?? 0) / 1000;
const task = (e, x) => { say('event', e.taskId, e.attempt, name(e.payload), time(e)); return start(e, x); };
const scheduled = (e, x) => { say('event', '-', 0, 'undef', time(e)); return start(e, x); };
"""
TASKS = {
    "a task listener": ("task", TASK + "addEventListener('task', e => task(e, e));"),
    "a task listener, async": ("task", TASK + "addEventListener('scheduled', e => { throw 1; }); addEventListener('task', async e => await task(e, e));"),
    "a module": ("task", TASK + "globalThis.default = { task: (e, env, ctx) => task(e, ctx), scheduled() { throw 1; }, fetch() {} };"),
    "a module's event": ("task", TASK + "globalThis.default = { task: e => task(e, e) };"),
    "a scheduled listener": ("scheduled", TASK + "addEventListener('scheduled', e => scheduled(e, e));"),
    "a scheduled module": ("scheduled", TASK + "globalThis.default = { scheduled: (e, env, ctx) => scheduled(e, ctx) };"),
    "a fetch listener only": ("none", TASK + "addEventListener('fetch', e => {});"),
    "an empty module": ("none", TASK + "globalThis.default = {};"),
    "no handler": ("none", TASK),
}


def task_cfg(handler, values, payloads, w, resp, ops, checks=False):
    q = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"
    t = (f"INIT Init\nNEXT Next\nCONSTANTS\n  Handler = \"{handler}\"\n  Values = {q(values)}\n  Payloads = {q(payloads)}\n"
         f"  MaxW = {w}\n  MaxResp = {resp}\n  OpNames = {q(ops)}\n")
    return t + ("INVARIANTS Ends\nPROPERTIES Once NotHidden\n" if checks else "VIEW View\nACTION_CONSTRAINT Emit\n")


def E04(c):
    """A task and its result."""
    so = owlib.build("full")
    ops = ["exec", "respond", "return", "throw", "wait", "settle", "close"]
    for name, (handler, script) in TASKS.items():
        hc = {"script": script, "keep": "task", "values": {**VALUES, "bare": {"data": "text"}}}
        few, all_ = ["undef", "str", "no", "bare"], ["undef", "null", "yes", "no", "both", "bare", *VALUES]
        for what, args in (("order", (handler, few, ["num"], 2, 2, ops)),
                           ("values", (handler, all_, ["undef", *VALUES], 0, 1, ops[:4]))):
            if handler == "none" and what == "values":
                continue
            c.model("Task", task_cfg(*args, checks=True))
            t = c.model("Task", task_cfg(*args), emit=True)
            g = owlib.Graph(t.edges)
            c.replay(so, "rt", hc, g, 20, c.pick(3000, 60000), walks=0, walk_len=20, note=f"{name}: {what}", shards=8)
            if what == "order":
                c.replay(so, "rt", dict(hc, via="pool"), g, 20, c.pick(1500, 30000), walks=0, walk_len=20, note=f"{name}: {what}, pooled",
                         shards=8)


LIMIT = SAY + r"""
const FOREVER = {
  loop() { for (;;) {} },
  catch() { for (;;) { try { for (;;) {} } catch { say('caught'); } } },
  finally() { try { for (;;) {} } finally { say('finally'); } },
  micro() { const f = () => Promise.resolve().then(f); f(); },
  async chain() { for (;;) await null; },
  regexp() { /^(x+x+)+y$/.test('x'.repeat(50)); say('matched'); },
  sort() { Array.from({ length: 99 }, (_, i) => i).sort(() => { for (;;) {} }); },
  json() { JSON.stringify({ toJSON() { for (;;) {} } }); },
  pull() { new ReadableStream({ pull() { for (;;) {} } }).getReader().read().then(() => say('read')); },
  timer() { setTimeout(() => { for (;;) {} }, 5); },
  answer() { fetch('http://h/x/s').then(() => { for (;;) {} }); },
};
const HEAP = () => { const a = []; for (;;) a.push(new Array(5000).fill(1.5)); };
const ALLOC = {
  fits() { new Uint8Array(1 << 20); },
  churn() { for (let i = 0; i < 100; i++) new Uint8Array(1 << 20).fill(i); },
  much() { new Uint8Array(64 << 20); },
  heap: HEAP,
};
let ctl, settle, give, ev;
async function loop() {
  for (;;) {
    const c = await env.CTL.get('cmd');
    if (c.op === 'respond') give(new Response(c.k === 'buf' ? 'B' : new ReadableStream({ start(k) { ctl = k; k.enqueue('c0;'); } })));
    else if (c.op === 'fin') ctl.close();
    else if (c.op === 'wait') ev.waitUntil(new Promise(r => settle = r));
    else if (c.op === 'settle') settle();
    else if (c.op === 'call') fetch('http://h/x/f').then(() => say('answered'));
    else if (c.op === 'busy') setInterval(() => {}, 10);
    else if (c.op === 'work') { let n = 0; for (let i = 0; i < 1e5; i++) n += i; say(n === 4999950000 ? 'worked' : 'wrong'); }
    else if (c.op === 'spin') FOREVER[c.k]();
    else if (c.op === 'alloc') { try { ALLOC[c.k](); say('got'); } catch (e) { say(e.name); } }
  }
}
addEventListener('fetch', e => { ev = e; loop(); e.respondWith(new Promise(r => give = r)); });
"""
LOAD = {"loop": "for (;;) {}", "catch": "for (;;) { try { for (;;) {} } catch {} }", "regexp": "/^(x+x+)+y$/.test('x'.repeat(50));",
        "heap": "const a = []; for (;;) a.push(new Array(5000).fill(1.5));", "throw": "throw new Error('no');", "fine": ""}


def limit_cfg(pooled, cpu, wall, first, spins, ops, check=False):
    q = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"
    b = lambda x: str(bool(x)).upper()
    t = "INIT Init\nNEXT Next\nVIEW View\n" if not check else "INIT Init\nNEXT Next\n"
    t += (f"CONSTANTS\n  Pooled = {b(pooled)}\n  Cpu = {b(cpu)}\n  Wall = {b(wall)}\n  WallFirst = {b(first)}\n  Spins = {q(spins)}\n  OpNames = {q(ops)}\n")
    return t + ("INVARIANTS Honest\nPROPERTIES OnlyWhat Stops Once Kept\n" if check else "ACTION_CONSTRAINT Emit\n")


def E07(c):
    """What exceeds its limits is ended, at every stage."""
    so = owlib.build("full")
    spins = ["loop", "catch", "finally", "micro", "chain", "regexp", "sort", "json", "pull", "timer", "answer"]
    base = ["respond", "fin", "wait", "settle", "recv", "again", "work"]
    io = ["call", "answer", "close"]
    for pooled in (False, True):
        for name, cpu, wall, first, sp, ops, steps in (
                ("time on the wall", 0, 400, False, ["loop", "micro"], base + ["call", "spin", "wall", "busy"], 900),
                ("CPU time", 150, 0, False, spins, base + io + ["spin", "busy", "load"], 1500),
                ("both, the wall first", 20000, 400, True, spins[:5], base[:5] + ["spin", "load"], 300),
                ("buffers", 0, 0, False, [], base + io[:2] + ["alloc", "fits", "much"], 1500),
                ("the heap", 0, 0, False, [], ["respond", "fin", "wait", "call", "recv", "again", "alloc", "heap", "load"], 1500)):
            args = (pooled, cpu, wall, first, sp, ops)
            c.model("Limit", limit_cfg(*args, check=True))
            g = owlib.Graph(c.model("Limit", limit_cfg(*args), emit=True).edges)
            hc = {"script": LIMIT, "load": LOAD, "begin": [{"op": "exec"}], "keep": "limit",
                  "limits": {"heap_max_mb": 16, "cpu_ms": cpu, "wall_ms": wall}}
            if pooled:
                hc["via"] = "pool"
            c.replay(so, "rt", hc, g, 12, c.pick(steps, steps * 20), note=name + (", pooled" if pooled else ""), shards=16, confirm=2)
        # garbage that is collected in time is no memory taken
        ops = ["respond", "alloc", "churn"]
        g = owlib.Graph(c.model("Limit", limit_cfg(pooled, 0, 0, False, [], ops), emit=True).edges)
        c.replay(so, "rt", hc, g, 0, 0, note="garbage", paths=[[owlib.canon({"op": "alloc", "k": "churn"}), owlib.canon({"op": "respond", "k": "buf"})]])
