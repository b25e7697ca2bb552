// Driver of spec/Clone.tla.
let objs, ids, result;
class Point { static made = 0; constructor() { Point.made++; } method() {} get twice() { return 2; } }
const tokens = {
  undefined: undefined, null: null, true: true, one: 1, nan: NaN, minuszero: -0, text: "text \u00e9 \ud800", big: 123456789012345678901234567890n,
  symbol: Symbol.for("s"), hole: null,
};
const tokenOf = (v) => { for (const k of Object.keys(tokens)) if (k !== "hole" && Object.is(tokens[k], v)) return k; return "other " + String(v); };
const KEYS = { p: "__proto__", c: "constructor", e: "" };
const keyName = (k) => KEYS[k] ?? k;
const keyToken = (k) => Object.keys(KEYS).find((t) => KEYS[t] === k) ?? k;
const TIME = 1700000000000;
const VIEWS = {
  "u8": (b) => new Uint8Array(b), "u8 part": (b) => new Uint8Array(b, 1, 2), "u8 none": (b) => new Uint8Array(b, 16, 0),
  "u16": (b) => new Uint16Array(b, 2, 3), "f64": (b) => new Float64Array(b, 8, 1), "big": (b) => new BigInt64Array(b, 8),
  "clamped": (b) => new Uint8ClampedArray(b, 3, 4), "i8": (b) => new Int8Array(b, 4), "dv": (b) => new DataView(b), "dv part": (b) => new DataView(b, 5, 3),
};
const MAKE = {
  object: () => ({}), instance: () => new Point(), bare: () => Object.create(null), array: () => [], map: () => new Map(), set: () => new Set(),
  date: () => new Date(TIME), nodate: () => new Date(NaN), regexp: () => { const r = /a(?<n>.)\/"/gimsuy; r.lastIndex = 3; return r; },
  buffer: () => { const b = new ArrayBuffer(16); new Uint8Array(b).set([...b && Array(16).keys()].map((i) => i * 7)); new Uint8Array(b)[1] = 0; return b; },
  error: () => new Error("what \u00e9"), typeerror: () => new TypeError(""), 
  function: () => function f() {}, promise: () => Promise.resolve(1), weakmap: () => new WeakMap(),
  number: () => new Number(7), string: () => new String("str"), boolean: () => new Boolean(false),
};
function make() { objs = []; ids = new Map(); }
const know = (o) => { objs.push(o); ids.set(o, objs.length); };
const isObject = (v) => (typeof v === "object" && v !== null) || typeof v === "function";
const value = (v) => v.r ? objs[v.r - 1] : tokens[v.t];
const show = (v) => isObject(v) ? { r: ids.get(v) ?? 99, t: "" } : { r: 0, t: tokenOf(v) };
const prim = (t) => ({ r: 0, t });
const is = (o, C) => Object.getPrototypeOf(o) === C.prototype;
function kindOf(o) {
  if (typeof o === "function") return "function";
  if (Array.isArray(o)) return "array";
  if (ArrayBuffer.isView(o)) {
    for (const k of Object.keys(VIEWS)) {
      const like = VIEWS[k](new ArrayBuffer(16));
      if (is(o, like.constructor) && o.byteOffset === like.byteOffset && o.byteLength === like.byteLength) return k;
    }
    return "odd view";
  }
  if (is(o, Map)) return "map"; if (is(o, Set)) return "set"; if (is(o, ArrayBuffer)) return o.byteLength === 16 ? "buffer" : "odd buffer";
  if (is(o, Date)) return Number.isNaN(o.getTime()) ? "nodate" : "date";
  if (is(o, RegExp)) return o.source === 'a(?<n>.)\\/"' && o.flags === "gimsuy" ? "regexp" : "odd regexp";
  if (is(o, Error)) return o.name === "Error" && o.message === "what \u00e9" ? "error" : "odd error";
  if (is(o, TypeError)) return o.name === "TypeError" && o.message === "" ? "typeerror" : "odd error";
  if (is(o, Promise)) return "promise"; if (is(o, WeakMap)) return "weakmap"; if (is(o, Point)) return "instance";
  if (is(o, Number)) return +o === 7 ? "number" : "odd"; if (is(o, String)) return String(o) === "str" ? "string" : "odd";
  if (is(o, Boolean)) return o.valueOf() === false ? "boolean" : "odd";
  if (Object.getPrototypeOf(o) === null) return "bare";
  return is(o, Object) ? "object" : "odd object";
}
function entriesOf(o, k) {
  switch (k) {
    case "object": case "instance": case "bare": return Reflect.ownKeys(o).map((key) => {
      const d = Object.getOwnPropertyDescriptor(o, key);
      return [prim(keyToken(key) + (d.enumerable && d.writable && d.configurable ? "" : " odd")), d.value];
    });
    case "array": return Array.from({ length: o.length }, (_, i) => [prim("-"), Object.hasOwn(o, i) ? o[i] : HOLE])
      .concat(Object.keys(o).filter((x) => !/^\d+$/.test(x)).map((x) => [prim(x), o[x]]));
    case "map": return [...o]; case "set": return [...o].map((v) => [prim("-"), v]);
  }
  if (VIEWS[k]) return [[prim("buffer"), o.buffer]];
  return [];
}
const HOLE = Symbol("hole");
// the objects a clone is made of, in the order they are met
function meet(o) {
  const todo = [o];
  while (todo.length) {
    const x = todo.shift();
    if (ids.has(x)) continue;
    know(x);
    const k = kindOf(x), found = [];
    for (const [a, b] of entriesOf(x, k)) {
      if (k === "map" && isObject(a)) found.push(a);
      if (isObject(b)) found.push(b);
    }
    todo.unshift(...found);
  }
}
function dump(o) {
  const k = kindOf(o);
  const e = entriesOf(o, k).map(([a, b]) => ({ k: k === "map" ? show(a) : a, v: b === HOLE ? prim("hole") : show(b) }));
  let v = 0;
  if (k === "date") v = o.getTime() - TIME;
  if (k === "buffer") { v = new Uint8Array(o)[1]; for (let i = 0; i < 16; i++) if (i !== 1 && new Uint8Array(o)[i] !== i * 7) v = 100 + i; }
  return { k, v, e };
}
function step(t) {
  const op = JSON.parse(t), o = objs[op.i - 1];
  result = "ok";
  switch (op.op) {
    case "make": know(MAKE[op.k]()); break;
    case "view": know(VIEWS[op.k](o)); break;
    case "put": {
      const v = value(op.v);
      if (Array.isArray(o)) { if (op.v.t === "hole") o.length++; else o.push(v); }
      else if (o instanceof Map) o.set(value(op.k), v);
      else if (o instanceof Set) o.add(v);
      else Object.defineProperty(o, keyName(op.k.t), { value: v, enumerable: true, writable: true, configurable: true });
      break;
    }
    case "write": if (o instanceof Date) o.setTime(o.getTime() + 1); else new Uint8Array(o)[1]++; break;
    case "clone": {
      const made = Point.made;
      try { const c = structuredClone(o); if (ids.has(c)) result = "the same"; else meet(c); }
      catch (e) { result = e instanceof DOMException ? e.name : String(e); }
      if (Point.made !== made) result = "constructed";
      break;
    }
    case "clone value":
      try { result = tokenOf(structuredClone(value(op.v))); } catch (e) { result = e instanceof DOMException ? e.name : String(e); }
      break;
  }
}
function observe() { return JSON.stringify({ r: result, h: objs.map(dump) }); }
