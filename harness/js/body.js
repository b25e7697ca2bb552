// Driver of spec/Body.tla.
let names, m, sources, readers, teed, done, n = 0, turn = 0;
const bytes = (b) => [...new Uint8Array(b)];
const U = (...a) => new Uint8Array(a);
const CHUNK = {
  u8: () => U(1, 2), sub: () => U(9, 9, 3, 9).subarray(2, 3), buf: () => U(4, 5).buffer, dv: () => new DataView(U(9, 6, 9).buffer, 1, 1),
  u16: () => new Uint16Array([0, 7, 8, 0]).subarray(1, 3), str: () => "\u00e9", half: () => U(195), rest: () => U(169), open: () => "[1,",
  close: () => new TextEncoder().encode("2]"), num: () => 12, empty: () => U(), null: () => null,
};
const GIVEN = {
  none: () => [undefined, null][turn++ % 2], text: () => "h\u00e9", u8: () => U(1, 2), blob: () => new Blob([U(9)]), params: () => new URLSearchParams({ a: 1 }),
  empty: () => "", json: () => "[1,2]",
};
function make(t) { names = JSON.parse(t).names; m = {}; sources = []; readers = new Map(); teed = new Set(); n = 0; }
function source(op) {
  const src = {}, list = op.c.map((c) => CHUNK[c]());
  const end = (c) => { if (op.end === "closed") c.close(); else if (op.end === "err") c.error(new Error("boom")); };
  let how = turn++ % 3;
  if (op.end === "open") how = 0;
  const body = how === 0
    ? new ReadableStream({ start(c) { src.c = c; list.forEach((x) => c.enqueue(x)); end(c); } })
    : how === 1 ? new ReadableStream({ pull(c) { if (list.length) c.enqueue(list.shift()); else end(c); } })
    : new ReadableStream({ async pull(c) { await null; if (list.length) c.enqueue(list.shift()); if (!list.length) { await null; end(c); } } });
  sources.push(src);
  return body;
}
const build = (kind, body, like) => kind === "response" ? new Response(body, like) : new Request("http://a/", { method: "POST", body, headers: like?.headers });
function report(id, p, show) {
  p.then((v) => done.push({ id, e: "ok", b: show(v) }), (e) => done.push({ id, e: e && e.message === "boom" ? "boom" : e && e.name, b: [] }));
}
const enc = (t) => bytes(new TextEncoder().encode(t));
function toBytes(v) {
  if (v == null) return [];
  if (typeof v === "string" || typeof v === "number") return enc(String(v));
  return ArrayBuffer.isView(v) ? bytes(v.buffer.slice(v.byteOffset, v.byteOffset + v.byteLength)) : bytes(v);
}
// the source may have been cancelled
function late(f) { try { f(); } catch (e) { if (!(e instanceof TypeError)) throw e; } }
function step(t) {
  const op = JSON.parse(t), x = m[op.x];
  done = [];
  switch (op.op) {
    case "make": m[op.x] = build(op.kind, GIVEN[op.f]()); if (op.f !== "none") sources.push({}); break;
    case "stream": m[op.x] = build(op.kind, source(op)); break;
    case "feed": late(() => sources[op.i - 1].c.enqueue(CHUNK[op.c]())); break;
    case "close": late(() => sources[op.i - 1].c.close()); break;
    case "fail": late(() => sources[op.i - 1].c.error(new Error("boom"))); break;
    case "clone": {
      const was = x.body;
      try { m[op.y] = x.clone(); teed.add(was); } catch (e) { done.push({ id: ++n, e: e.name, b: [] }); }
      break;
    }
    case "share":
      m[op.y] = op.kind === "request" && x instanceof Request && turn++ % 2 ? new Request(x) : build(op.kind, x.body, x);
      break;
    case "consume": {
      const id = ++n;
      if (op.how === "text") report(id, x.text(), enc);
      if (op.how === "buffer") report(id, x.arrayBuffer(), (b) => { const all = b instanceof ArrayBuffer ? bytes(b) : ["no buffer"]; new Uint8Array(b).fill(99); return all; });
      if (op.how === "json") report(id, x.json(), (v) => enc(JSON.stringify(v)));
      if (!x.body) delete m[op.x];
      break;
    }
    case "read": {
      const id = ++n, r = x.body.getReader();
      r.read().then(({ done: d, value }) => {
        done.push(d ? { id, e: "done", b: [] } : { id, e: "ok", b: toBytes(value) });
        if (value && typeof value === "object") new Uint8Array(value.buffer ?? value).fill(99);
        r.releaseLock();
      }, (e) => { done.push({ id, e: String(e), b: [] }); r.releaseLock(); });
      break;
    }
    case "cancel": x.body.cancel("done").catch(() => {}); break;
    case "lock": readers.set(x.body, x.body.getReader()); break;
    case "unlock": readers.get(x.body).releaseLock(); break;
  }
}
function observe() {
  const g = {};
  for (const k of names) {
    const x = m[k];
    g[k] = x ? { kind: x instanceof Response ? "response" : x instanceof Request ? "request" : "other", body: x.body !== null, used: x.body !== null && !teed.has(x.body) && x.bodyUsed }
             : { kind: "no", body: false, used: false };
  }
  return JSON.stringify({ done: done.sort((a, b) => a.id - b.id), m: g });
}
