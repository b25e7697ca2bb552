// Driver of spec/Entries.tla.
let kind, objs, held, out, turn = 0;
const text = (t) => t.replace(/~e/g, "\u00e9").replace(/~s/g, "\u{1f600}").replace(/~r/g, "\ufffd");
const token = (t) => typeof t !== "string" ? { odd: String(t), type: typeof t }
  : t.replace(/\u00e9/g, "~e").replace(/\u{1f600}/gu, "~s").replace(/\ufffd/g, "~r");
// what a name or a value may be given as
function any(t) {
  if (turn++ % 2) return text(t);
  if (t === "1" || t === "0") return Number(t);
  if (t === "null") return null;
  if (t === "undefined") return undefined;
  if (t === "true") return true;
  return turn % 3 ? text(t) : { toString: () => text(t) };
}
const names = {
  headers: ["x-a", "set-cookie", "b", "www-authenticate", "proxy-authenticate", "x-1", "__proto__", "constructor"],
};
const BASE = "https://us%40er:pw@host.example:81/p/a%20th;x", HASH = "#frag?a=1";
let urls;
function make(t) {
  const cfg = JSON.parse(t);
  kind = cfg.kind;
  held = [];
  urls = {};
  const fresh = {
    headers: () => new Headers(), form: () => new FormData(), query: () => new URLSearchParams(),
    url: (x) => (urls[x] = new URL(BASE + HASH)).searchParams,
  }[kind];
  objs = { x: fresh("x"), y: fresh("y") };
}
function pairs(o) { return [...o.entries()]; }
function copy(x, how) {
  const o = objs[x];
  switch (how) {
    case "copy": return new o.constructor(o);
    case "pairs": { const a = pairs(o).map((p) => [...p]), n = new o.constructor(a); a.forEach((p) => { p[0] = p[1] = "changed"; }); return n; }
    case "object": { const a = Object.create(null); for (const [k, v] of o) Object.defineProperty(a, k, { value: v, enumerable: true, writable: true });
                     const n = new o.constructor(a); for (const k of Object.keys(a)) a[k] = "changed"; return n; }
    case "map": return new o.constructor(new Map(o));
    case "message": return turn++ % 2 ? new Request("https://a.example/", { headers: o }).headers : new Response(null, { headers: o }).headers;
    case "text": return new URLSearchParams(o.toString());
    case "text?": return new URLSearchParams("?" + o);
    case "append": { const n = new FormData(); o.forEach((v, k) => n.append(k, v)); return n; }
    case "form": { const n = new FormData(), q = new URLSearchParams(); for (const [k, v] of o) n.append(k, v); n.forEach((v, k) => q.append(k, v)); return q; }
    case "href": { urls.y = new URL(urls[x].href); return urls.y.searchParams; }
    case "relative": { urls.y = new URL(turn++ % 2 ? urls[x] : String(urls[x]), "https://other.example/z"); return urls.y.searchParams; }
  }
}
function step(t) {
  const op = JSON.parse(t), o = objs.x, n = Array.isArray(op.n) ? op.n[0] : op.n;
  out = null;
  switch (op.op) {
    case "append": o.append(any(n), any(op.v)); break;
    case "set": o.set(any(n), any(op.v)); break;
    case "delete": o.delete(any(n)); break;
    case "sort": o.sort(); break;
    case "clear": for (const k of [...o.keys()]) o.delete(k); break;
    case "make": objs.y = copy("x", op.how); break;
    case "swap": objs = { x: objs.y, y: objs.x }; urls = { x: urls.y, y: urls.x }; break;
    case "meddle":
      for (const p of pairs(o)) { p[0] = "meddled"; p[1] = "meddled"; }
      for (const k of [...o.keys()]) { const a = o.getAll ? o.getAll(k) : o.getSetCookie(); a.push("meddled"); a[0] = "meddled"; }
      break;
    case "parse": {
      const q = op.t.map((p) => text(p.n.join("")) + (p.eq ? "=" : "") + text(p.v.join(""))).join("&");
      let got;
      try { got = pairs(new URLSearchParams((op.mark ? "?" : "") + q)); } catch (e) { out = { list: String(e) }; break; }
      out = { list: got.map((p) => p.map(token)) };
      break;
    }
    default: throw new Error(op.op);
  }
}
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
// every way to look at an object says the same
function agree(x) {
  const o = objs[x], list = pairs(o), bad = [];
  const each = [];
  const self = {};
  o.forEach(function (v, k, of) { each.push([k, v]); if (of !== o || this !== self) bad.push("forEach"); }, self);
  if (!same(list, each)) bad.push("forEach");
  if (!same(list, [...o])) bad.push("iterator");
  if (!same(list.map((p) => p[0]), [...o.keys()])) bad.push("keys");
  if (!same(list.map((p) => p[1]), [...o.values()])) bad.push("values");
  if (kind === "query" || kind === "url") {
    if (o.size !== list.length) bad.push("size");
    if (!same(pairs(new URLSearchParams(o.toString())), list)) bad.push("toString");
  }
  if (kind === "url") {
    const u = urls[x], m = /^([^?#]*)(\?[^#]*)?(#.*)?$/.exec(u.href);
    if (m[1] !== BASE) bad.push("rest of the URL: " + m[1]);
    if ((m[3] || "") !== HASH) bad.push("hash: " + m[3]);
    if (u.search !== (m[2] || "")) bad.push("search " + u.search);
    if (String(u) !== u.href) bad.push("toString");
    if (!same(pairs(new URLSearchParams(m[2] || "")), list)) bad.push("text " + u.href);
  }
  return bad;
}
function told(o, written, key) {
  const list = pairs(o).filter((p) => p[0] === key);
  const joined = kind === "headers" && !["set-cookie", "www-authenticate", "proxy-authenticate"].includes(key);
  const all = joined ? list.flatMap((p) => p[1].split(", ")) : list.map((p) => p[1]);
  const get = o.get(written);
  if (kind !== "headers" && !same(o.getAll(written), all)) return { getAll: o.getAll(written) };
  if (key === "set-cookie" && kind === "headers" && !same(o.getSetCookie(), all)) return { getSetCookie: o.getSetCookie() };
  return { all: all.map(token), has: o.has(written), seen: list.length,
           get: get === null ? [] : (joined ? get.split(", ") : [get]).map(token) };
}
const ODD = ["", " ", "%41", "+", "1", "=", "?", "A&b=c#d", "B", "__proto__", "a", "aa", "null", "true", "undefined", "~e", "~s"];
function observe() {
  if (out) return JSON.stringify(out);
  const r = {}, bad = [];
  for (const x of ["x", "y"]) {
    const o = objs[x];
    bad.push(...agree(x));
    if (kind === "headers") {
      r[x] = { names: {} };
      for (const k of cfgKeys) r[x].names = { ...r[x].names, [k]: told(o, turn++ % 2 ? k : k.toUpperCase(), k) };
    } else {
      r[x] = { list: pairs(o).map((p) => p.map(token)), names: cfgKeys.map((k) => told(o, any(k), text(k))) };
    }
  }
  return JSON.stringify({ o: r, agree: bad.length ? bad : true });
}
let cfgKeys;
const make0 = make;
make = (t) => { make0(t); cfgKeys = JSON.parse(t).keys; };
