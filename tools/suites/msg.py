"""Messages across the boundary of a script and its host: spec/Msg.tla."""
import json

import owlib

BYTES = [0x68, 0xC3, 0xA9, 0x00, 0xFF]
LONG = 70000
HDRS = {"none": None, "empty": {}, "obj": {"X-A": "1", "x-b": "two, 2"}, "num": {"x-a": 5}, "type": {"content-type": "text/x"},
        "Type": {"Content-Type": "text/x"}, "odd": {"x-a": "\"'`${x}\\n"}}
PAIRS = {"headers": [["X-A", "1"], ["x-b", "two, 2"]], "pairs": [["x-a", "1"], ["X-B", "two, 2"]], "twice": [["x-a", "1"], ["X-A", "2"]],
         "cookies": [["Set-Cookie", "a=1"], ["x-a", "1"], ["set-cookie", "b=2, 3"]], "proto": [["constructor", "2"], ["__proto__", "1"]]}
VALUES = {"num": 7, "str": "text \u00e9", "obj": {"a": [1]}, "list": [None, "x", {"success": False}], "true": True, "zero": 0,
          "empty": "", "null": None, "odd": {"k": "\u00e9\u2028\"\\\u0000\U0001f600", "n": -0.5, "big": 9007199254740991, "e": [],
                                              "o": {}, "z": None, "": {"": [[[]]]}}}

SQL = {"null": [None], "true": [True, False], "num": [7, 0, -1], "float": [-0.5, 9007199254740991], "str": ["", "it's \u00e9"],
       "several": [1, "a", None, True], "array": [[1, "a", None]]}
COMMON = r"""
const say = (...a) => console.log('@' + JSON.stringify(a));
const pct = b => Array.from(b, x => x > 0x20 && x < 0x7f && x !== 0x25 ? String.fromCharCode(x) : '%' + x.toString(16).toUpperCase().padStart(2, '0')).join('');
const show = b => { b = new Uint8Array(b); return b.length === LONG && b.every((x, i) => x === i % 251) ? 'LONG' : pct(b); };
const U = () => new Uint8Array(BYTES);
const long = () => new Uint8Array(LONG).map((x, i) => i % 251);
const form = () => { const f = new FormData(); f.append('a', '1'); f.append('b', new Blob(['B'], { type: 'x/y' }), 'n.t'); return f; };
let keep = [];   // what the script changes once it has been given away
const given = x => { keep.push(x); return x; };
const change = () => { for (const x of keep.splice(0)) new Uint8Array(x.buffer ?? x).fill(1); };
const body = {
  none: () => undefined, null: () => null, str: U, empty: () => '', text: () => 'h\u00e9', num: () => 42, true: () => true,
  u8none: () => new Uint8Array(0),
  u8: () => given(U()), sub: () => { const b = given(new Uint8Array(9).fill(9)); b.set(BYTES, 2); return b.subarray(2, 7); },
  buf: () => given(U().buffer), view: () => { const b = given(new Uint8Array(9).fill(9)); b.set(BYTES, 2); return new DataView(b.buffer, 2, 5); },
  blob: () => new Blob([U().subarray(0, 2), U().subarray(2)]),
  stream: () => new ReadableStream({ start(c) { c.enqueue(U().subarray(0, 2)); c.enqueue(U().subarray(2)); c.close(); } }),
  streams: () => { let n = 0; return new ReadableStream({ async pull(c) { await null; c.enqueue(U().subarray(n, n + 1)); if (++n === 5) c.close(); } }); },
  usp: () => new URLSearchParams([['a', '1'], ['b', '&']]), form, long,
};
const hdr = {
  headers: () => new Headers(PAIRS.headers), pairs: () => PAIRS.pairs,
  twice: () => new Headers(PAIRS.twice), cookies: () => new Headers(PAIRS.cookies), proto: () => new Headers(PAIRS.proto),
};
const headers = h => h in HDRS ? HDRS[h] ?? undefined : hdr[h]();
const list = h => [h.get('content-type') ?? '', Array.from(h).filter(([k]) => k !== 'content-type').map(([k, v]) => k + ': ' + v).sort()];
"""
HEAD = "".join(f"const {k} = {json.dumps(v, sort_keys=True)};\n" for k, v in
               (("BYTES", BYTES), ("LONG", LONG), ("HDRS", HDRS), ("PAIRS", PAIRS), ("VALUES", VALUES)))

CALLS = HEAD + COMMON + r"""
const to = { fetch: (...a) => fetch(...a), assets: (...a) => env.ASSETS.fetch(...a), worker: (...a) => env.WORKER.fetch(...a) };
let n = 0;
function call(c) {
  const init = {};
  if (c.m !== 'none') init.method = c.m;
  if (c.h !== 'none') init.headers = headers(c.h);
  if (c.b !== 'none') init.body = body[c.b]();
  const url = 'http://h/x?q=a%20b&n=' + ++n + '/1';
  switch (c.input) {
    case 'str': return to[c.k](url, init);
    case 'url': return to[c.k](new URL(url), init);
    case 'req': {
      const r = new Request(url, init);
      // what is made of it besides is another request
      for (const d of [new Request(r, { method: 'POST', body: 'other' }), ...(c.b === 'none' ? [r.clone()] : [])]) {
        for (const [k] of Array.from(d.headers)) d.headers.set(k, 'changed');
        d.headers.append('x-added', '1');
      }
      return to[c.k](r);
    }
    case 'over': return to[c.k](new Request(url, { method: 'DELETE', headers: { 'x-old': '1' }, body: 'old' }), init);
  }
}
async function answered(p) {
  try {
    const r = await p;
    const copy = n % 2 ? null : r.clone();
    const b = show(await r.arrayBuffer());
    if (copy && show(new TextEncoder().encode(await copy.text())) !== show(new TextEncoder().encode(new TextDecoder().decode(await Promise.resolve(last))))) say('clone differs');
    say('resp', r.status, r.ok, ...list(r.headers), b);
  } catch (e) { say('refused', String(e && e.message || e)); }
}
let last;
addEventListener('fetch', e => e.respondWith((async () => {
  for (;;) {
    const c = await env.CTL.get('cmd');
    let p;
    try { p = call(c); } catch (e) { p = Promise.reject(e); }
    change();
    answered(p);
  }
})()));
"""
CALLS = CALLS.replace("""    if (copy && show(new TextEncoder().encode(await copy.text())) !== show(new TextEncoder().encode(new TextDecoder().decode(await Promise.resolve(last))))) say('clone differs');
""", """    if (copy && show(await copy.arrayBuffer()) !== b) say('the clone differs');
""").replace("let last;\n", "")

SERVE = HEAD + COMMON + r"""
let n = 0;
addEventListener('fetch', e => e.respondWith((async () => {
  const q = e.request, b = ++n % 2 ? await q.arrayBuffer() : await q.clone().arrayBuffer();
  say('request', q.method, ...list(q.headers), show(b));
  if (q.url !== URL0) say('url', q.url);
  const c = await env.CTL.get('cmd'), init = {};
  if (c.st !== 200) init.status = c.st;
  if (c.h !== 'none') init.headers = headers(c.h);
  const make = () => new Response(body[c.b](), init);
  let r;
  switch (c.form) {
    case 'new': r = make(); change(); break;
    case 'json': r = Response.json({ a: [1, null] }, init); break;
    case 'redirect': r = Response.redirect('http://h/x'); break;
    case 'original': r = make(); r.clone(); break;
    case 'copy': r = make().clone(); break;
    case 'copyread': r = make(); await r.clone().text(); break;
    case 'copy of copy': r = make().clone().clone(); break;
    case 'rebuilt': r = make(); r = new Response(r.body, r); break;
  }
  return r;
})()));
"""
URL0 = "http://w/p?q=\"'`${x}\\n%20\u00e9#f"

OPS = HEAD + "const SQL = " + json.dumps(SQL) + ";\n" + COMMON + r"""
const odd = { bigint: 1n, symbol: Symbol('s'), cyclic: (() => { const a = {}; a.a = a; return a; })(), deep: (() => { let a = []; for (let i = 0; i < 100000; i++) a = [a]; return a; })() };
const opt = { none: undefined, prefix: { prefix: 'p/' }, limit: { limit: 10 }, both: { prefix: 'p/', limit: 10 } };
const same = x => Object.keys(VALUES).find(k => JSON.stringify(VALUES[k]) === JSON.stringify(x)) ?? JSON.stringify(x);
const sql = { ...SQL, obj: [{ a: 1 }], cyclic: [odd.cyclic], deep: [odd.deep], bigint: [1n] };
const call = {
  kv: { get: () => env.KV.get('k/1'), delete: () => env.KV.delete('k/1'), list: v => env.KV.list(opt[v]),
    put: v => v === 'ttl' ? env.KV.put('k/1', 7, { expiresIn: 60 }) : env.KV.put('k/1', v in VALUES ? VALUES[v] : odd[v]) },
  storage: { get: () => env.ST.get('k/1'), head: () => env.ST.head('k/1'), delete: () => env.ST.delete('k/1'), list: v => env.ST.list(opt[v]),
    put: v => env.ST.put('k/1', body[v]()) },
  db: { query: v => sql[v] === undefined ? env.DB.query('select 1') : env.DB.query('select 1', sql[v]) },
};
const result = {
  get: (k, x) => same(x), put: (k, x) => x === undefined ? 'ok' : same(x), delete: (k, x) => x === undefined ? 'ok' : same(x),
  list: (k, x) => { const l = JSON.stringify(k === 'kv' ? x : x.keys); return l === '[]' && !x.truncated ? 'none' : l === '["p/1","\u00e9"]' && (k === 'kv' || x.truncated) ? 'some' : l; },
  head: (k, x) => x.size === 5 && x.etag === undefined ? 'size' : x.size === 2 ** 40 && x.etag === '"e"' ? 'etag' : JSON.stringify(x),
  query: (k, x) => JSON.stringify(x) === '[]' ? 'none' : JSON.stringify(x) === JSON.stringify([VALUES.odd, { a: 1 }]) ? 'rows' : JSON.stringify(x),
};
addEventListener('fetch', e => e.respondWith((async () => {
  for (;;) {
    const c = await env.CTL.get('cmd');
    let p;
    try { p = call[c.op][c.f](c.v); } catch (e) { p = Promise.reject(e); }
    change();
    p.then(x => say('got', c.f, result[c.f](c.op, x)), e => { const m = String(e && e.message || e); m === 'E' ? say('error', m) : say('refused'); });
  }
})()));
"""
BIND = [["ASSETS", "assets"], ["WORKER", "worker"], ["KV", "kv"], ["ST", "storage"], ["DB", "db"]]


def cfg(mode, kinds=(), inputs=(), methods=(), hdrs=(), bodies=(), status=(), forms=(), nxt="Next", ops=("call", "answer", "serve", "respond", "kv", "storage", "db", "reply"), check=False):
    q = lambda xs: "{" + ", ".join(f'"{x}"' if isinstance(x, str) else str(x) for x in xs) + "}"
    t = f"INIT Init\nNEXT {nxt}\n" + ("VIEW View\n" if nxt == "Next" else "")
    t += (f"CONSTANTS\n  Mode = \"{mode}\"\n  Kinds = {q(kinds)}\n  Inputs = {q(inputs)}\n  Methods = {q(methods)}\n  Hdrs = {q(hdrs)}\n"
          f"  Bodies = {q(bodies)}\n  Status = {q(status)}\n  Forms = {q(forms)}\n  OpNames = {q(ops)}\n")
    return t + "ACTION_CONSTRAINT Emit\n" + ("PROPERTIES Paired\n" if check else "")


H = ["none", "obj", "headers", "pairs", "twice", "num", "type", "Type", "odd"]
B = ["none", "null", "empty", "text", "num", "true", "u8none", "u8", "sub", "buf", "view", "blob", "stream", "streams", "usp", "form", "long"]
M = ["none", "GET", "HEAD", "POST", "put", "Delete", "PATCH", "OPTIONS"]


def E05(c):
    so = owlib.build("full")
    base = {"keep": "msg", "bindings": BIND, "values": VALUES, "bytes": BYTES, "long": LONG, "hdrs": {**{k: [[n, str(x)] for n, x in (v or {}).items()] for k, v in HDRS.items()}, **PAIRS},
            "url0": URL0, "sql": {**SQL, "none": []}}

    def go(name, script, args, steps, begin=True, via=None, **kw):
        hc = dict(base, script=script, **({"via": via} if via else {}))
        if begin:
            hc["begin"] = [{"op": "exec"}]
        t = c.model("Msg", cfg(*args, check=True), emit=True)
        c.replay(so, "rt", hc, owlib.Graph(t.edges), 60, steps, walks=10, walk_len=40, note=name, shards=8, **kw)
    kinds = ["fetch", "assets", "worker"]
    go("requests: forms of the body", CALLS, ("calls", kinds, ["str", "url", "req", "over"], ["POST", "none"], ["none", "type"], B, [200]), c.pick(30000, 200000))
    go("requests: methods, headers", CALLS, ("calls", kinds, ["str", "url", "req", "over"], M, H, ["none", "text"], [200]), c.pick(30000, 200000))
    go("answers", CALLS, ("calls", kinds, ["str"], ["POST"], ["none", "obj", "type", "cookies", "odd", "proto"], ["none", "empty", "str", "stream", "long"],
                          [200, 201, 204, 299, 300, 304, 404, 500, 599]), c.pick(30000, 200000))
    served = "const URL0 = " + json.dumps(URL0) + ";\n" + SERVE
    hs = ["none", "obj", "type", "odd", "proto"]
    bs = ["none", "empty", "str", "stream", "long"]
    forms = ["new", "json", "redirect", "original", "copy", "copyread", "copy of copy", "rebuilt"]
    bb = [b for b in B if b not in ("usp", "form")]
    go("requests served", served, ("serve", [], [], M, hs, bs, [200], ["new"]), c.pick(30000, 200000), begin=False, via="pool")
    go("responses", served, ("serve", [], [], ["POST"], H + ["cookies", "proto"], bb, [200, 404], forms), c.pick(30000, 200000), begin=False, via="pool")
    go("requests served by one-shot workers", served, ("once", [], [], M, hs, bs, [200], ["new"]), c.pick(30000, 200000), begin=False)
    go("responses of one-shot workers", served, ("once", [], [], ["POST"], ["none", "type", "cookies"], bb, [200], forms), c.pick(30000, 200000), begin=False)
    go("calls on bindings", OPS, ("ops",), c.pick(30000, 200000))


# E08: what is done to one message before it is sent
TOUCH = r"""
const fresh = {
  none: () => null, text: () => 'h\u00e9', str: U, u8: () => U(), stream: body.stream,
  two: () => { let n = 0; return new ReadableStream({ async pull(c) { await null; n++ ? (c.enqueue(U().subarray(1, 3)), c.close()) : c.enqueue(U().subarray(0, 1)); } }); },
};
let m = null, held = null, n = 0;
const url = () => 'http://h/x?q=a%20b&n=' + ++n + '/1';
const of = x => x instanceof ReadableStream ? x : x.body;
async function made(c) {
  held = null;
  switch (c.c) {
    case 'request': m = new Request(url(), { method: 'POST', body: fresh[c.b]() }); break;
    case 'response': m = new Response(fresh[c.b]()); break;
    case 'stream': m = fresh[c.b](); break;
    case 'fetched': m = await fetch(url()); break;
  }
  say('made');
}
const touch = {
  text: async () => say('read', show(new TextEncoder().encode(await m.text()))),
  buffer: async () => say('read', show(await m.arrayBuffer())),
  peek: async () => { const r = of(m).getReader(); const { value } = await r.read(); r.releaseLock(); say('read', show(value)); },
  lock: async () => { held = of(m).getReader(); say('ok'); },
  unlock: async () => { held.releaseLock(); held = null; say('ok'); },
  cancel: async () => { await of(m).cancel('enough'); say('ok'); },
  clone: async () => { if (m instanceof ReadableStream) m = m.tee()[1]; else m = m.clone(); say('ok'); },
  clonelock: async () => { m.clone().body.getReader(); say('ok'); },
  cloneread: async () => say('read', show(await m.clone().arrayBuffer())),
  wrap: async () => { m = m instanceof Request ? new Request(m) : new Response(m.body, m); say('ok'); },
  used: async () => say('used', m.bodyUsed),
};
const sent = async c => {
  if (c.k === 'storage') { await env.ST.put('k/1', of(m)); return say('answered'); }
  const to = { fetch: (...a) => fetch(...a), assets: (...a) => env.ASSETS.fetch(...a), worker: (...a) => env.WORKER.fetch(...a) }[c.k];
  await (m instanceof Request ? to(m) : to(url(), { method: 'POST', body: of(m) }));
  say('answered');
};
async function work() {
  for (;;) {
    const c = await env.CTL.get('cmd');
    if (c.op === 'respond') return m;
    const p = c.op === 'made' ? made(c) : c.op === 'touch' ? touch[c.f]() : sent(c);
    p.catch(() => say('refused'));
    if (c.op === 'touch' && c.f !== 'used') await p.catch(() => 0);
  }
}
const serve = () => { say('request'); m = null; return work(); };
"""
TOUCH_STYLES = {
    "respondWith": "addEventListener('fetch', e => e.respondWith(serve()));",
    "a listener that returns": "addEventListener('fetch', e => serve());",
    "a module": "globalThis.default = { fetch: () => serve() };",
}


def used_cfg(mode, makes, bodies, touches, ways):
    q = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"
    return (f"INIT Init\nNEXT Next\nVIEW View\nCONSTANTS\n  Mode = \"{mode}\"\n  Makes = {q(makes)}\n  Bodies = {q(bodies)}\n"
            f"  Touches = {q(touches)}\n  Ways = {q(ways)}\nACTION_CONSTRAINT Emit\nPROPERTIES NeverAgain\n")


def E08(c):
    so = owlib.build("full")
    touches = ["text", "buffer", "peek", "lock", "unlock", "cancel", "clone", "clonelock", "cloneread", "wrap", "used"]
    base = {"keep": "msg", "fails": "somehow", "bindings": BIND, "values": VALUES, "bytes": BYTES, "long": LONG, "hdrs": {k: [[n, str(x)] for n, x in (v or {}).items()] for k, v in HDRS.items()},
            "url0": URL0, "sql": {}}
    t = c.model("Used", used_cfg("sent", ["request", "response", "stream", "fetched"], ["none", "text", "u8", "str", "two", "stream"], touches, ["fetch", "assets", "worker", "storage"]), emit=True)
    hc = dict(base, script=HEAD + COMMON + TOUCH + "addEventListener('fetch', e => e.respondWith(work()));", begin=[{"op": "exec"}])
    c.replay(so, "rt", hc, owlib.Graph(t.edges), 50, c.pick(20000, 100000), walks=c.pick(100, 1000), walk_len=50, note="sent", shards=8)
    t = c.model("Used", used_cfg("served", ["response", "fetched"], ["none", "text", "u8", "str", "two", "stream"], touches, []), emit=True)
    g = owlib.Graph(t.edges)
    for style, text in TOUCH_STYLES.items():
        hc = dict(base, script=HEAD + COMMON + TOUCH + text, via="pool")
        c.replay(so, "rt", hc, g, 50, c.pick(8000, 50000), walks=c.pick(50, 500), walk_len=50, note="served: " + style, shards=8)
