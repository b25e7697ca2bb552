// Driver of spec/Text.tla.
let out;
function make() {}
const decoders = {};
function decoder(enc, opts) {
  const k = enc + JSON.stringify(opts);
  return decoders[k] || (decoders[k] = new TextDecoder(enc, opts));
}
const points = (t) => Array.from(t, (c) => c.codePointAt(0));
// the same bytes in every kind of view, at odd offsets of larger buffers
function views(bytes) {
  const n = bytes.length, all = [];
  const big = new ArrayBuffer(n + 32);
  new Uint8Array(big).fill(0xc3);
  for (const off of [0, 3, 8]) new Uint8Array(big, off, n).set(bytes), all.push([off, n]);
  const list = [() => Uint8Array.from(bytes), () => Uint8Array.from(bytes).buffer];
  for (const [off, len] of all) {
    const copy = () => { const b = big.slice(0); new Uint8Array(b).fill(0xc3); new Uint8Array(b, off, len).set(bytes); return b; };
    list.push(() => new Uint8Array(copy(), off, len), () => new DataView(copy(), off, len),
              () => new Int8Array(copy(), off, len), () => new Uint8ClampedArray(copy(), off, len));
    if (off === 8 && len % 2 === 0) list.push(() => new Uint16Array(copy(), off, len / 2));
    if (off === 8 && len % 4 === 0) list.push(() => new Float32Array(copy(), off, len / 4));
  }
  return list;
}
function same(list, f) {
  const all = list.map((v) => f(v()));
  return all.every((x) => x === all[0]) ? all[0] : "views differ: " + JSON.stringify(all);
}
function run(bytes, at, unit, n) {     // doubling: quick for long ones
  bytes.set(unit, at);
  for (let have = 1; have < n; have *= 2)
    bytes.copyWithin(at + have * unit.length, at, at + Math.min(have, n - have) * unit.length);
}
function equal(a, b) {
  if (a.length !== b.length) return false;
  for (let i = 0; i < a.length; i++) if (a[i] !== b[i]) return false;
  return true;
}
let turn = 0;
function step(text) {
  const op = JSON.parse(text);
  if (op.op === "decode") {
    const every = views(op.b), k = turn++ % every.length;
    const vs = op.b.length < 9 ? [every[0], every[k]] : every;
    const get = (opts) => same(vs, (v) => {
      try { return decoder(op.enc, opts).decode(v); } catch (e) { return e instanceof TypeError ? e : "other " + e; }
    });
    const fatal = (() => {
      const r = vs.map((v) => { try { return decoder(op.enc, { fatal: true }).decode(v()); } catch (e) { return e; } });
      if (r.every((e) => e instanceof TypeError)) return "TypeError";
      return r.every((t) => typeof t === "string" && t === decoder(op.enc, {}).decode(Uint8Array.from(op.b))) ? "ok"
        : "differs";
    })();
    out = { text: points(get({})), kept: points(get({ ignoreBOM: true })), fatal };
  } else if (op.op === "name") {
    const flag = (name, f) => f === "none" ? {} : { [name]: { true: true, 1: 1, text: "false", false: false, 0: 0, empty: "", null: null }[f] };
    const opts = { ...flag("fatal", op.fatal), ...flag("ignoreBOM", op.bom) };
    const d = new TextDecoder(op.l, op.fatal === "none" && op.bom === "none" ? turn++ % 2 ? null : undefined : opts);
    const valid = d.encoding === "x-user-defined" || d.encoding === "utf-16le" || d.encoding === "utf-16be" || d.decode(Uint8Array.of(0x41)) === "A";
    // the options count as they were when the decoder was made
    opts.fatal = !d.fatal;
    opts.ignoreBOM = !d.ignoreBOM;
    out = { name: valid ? d.encoding.replace(/-/g, "_") : "does not decode", fatal: d.fatal, bom: d.ignoreBOM };
  } else if (op.op === "label") {
    op.l = op.l.replace("~", "\u00a0");
    const get = (opts) => {
      let d;
      try { d = op.l === "default" && !opts ? new TextDecoder() : new TextDecoder(op.l === "default" ? undefined : op.l, opts); } catch (e) { return e instanceof RangeError ? "RangeError" : "other " + e; }
      try { return points(d.decode(Uint8Array.from(op.b))); } catch (e) { return e instanceof TypeError ? "TypeError" : "other " + e; }
    };
    const strict = get({ fatal: true });
    out = { text: get(), kept: get({ ignoreBOM: true }),
            fatal: typeof strict === "string" ? strict : "ok" };
  } else if (op.op === "bigdecode") {
    const k = op.unit.length, bytes = new Uint8Array(op.pre.length + k * op.n + op.post.length);
    bytes.set(op.pre);
    run(bytes, op.pre.length, op.unit, op.n);
    bytes.set(op.post, op.pre.length + k * op.n);
    const show = (t) => String.fromCodePoint(...t);
    const want = (pre, n) => show(pre) + show(op.want.unit).repeat(n) + show(op.want.post);
    const d = (opts) => { try { return decoder(op.enc, opts).decode(bytes); } catch (e) { return e instanceof TypeError ? "TypeError" : "other " + e; } };
    const text = d({}), strict = d({ fatal: true });
    const kept = d({ ignoreBOM: true });
    out = text === want(op.want.pre, op.want.n) && kept === want(op.want.keptpre, op.n) && strict === (op.want.fatal === "ok" ? text : "TypeError")
      ? op.want : { length: [text.length, kept.length], strict: strict.length < 50 ? strict : strict === text };
  } else if (op.op === "bigencode") {
    const one = String.fromCharCode(...op.unit), t = String.fromCharCode(...op.pre) + one.repeat(op.n);
    const enc = new TextEncoder(), bytes = enc.encode(t), w = op.want;
    const want = new Uint8Array(w.pre.length + w.unit.length * op.n);
    want.set(w.pre);
    run(want, w.pre.length, w.unit, op.n);
    const into = w.rooms.map((n) => {
      const room = new Uint8Array(n + 4).fill(0xaa), r = enc.encodeInto(t, room.subarray(2, 2 + n));
      return equal(room.subarray(2, 2 + r.written), want.subarray(0, r.written)) && room.subarray(2 + r.written).every((x) => x === 0xaa) && room[1] === 0xaa
        ? { read: r.read, written: r.written } : "wrong bytes";
    });
    out = { pre: w.pre, unit: w.unit, rooms: w.rooms, into };
    if (!equal(bytes, want)) out.length = bytes.length;
  } else if (op.op === "arg") {
    const a = { undefined: undefined, null: null, 5: 5, true: true, object: { toString: () => "o-" }, number: 1.5,
                string: "5", empty: "" }[op.a];
    const args = op.a === "none" ? [] : [a];
    let decoded = "any";
    if (op.a !== "null" && op.a !== "empty") {
      try { const t = new TextDecoder().decode(...args); decoded = t === "" ? "empty" : "text " + t; }
      catch (e) { decoded = e instanceof TypeError ? "TypeError" : "other " + e; }
    }
    out = { encoded: Array.from(new TextEncoder().encode(...args)), decoded };
    if (new TextEncoder().encoding !== "utf-8") out.encoding = "wrong";
  } else {
    const t = String.fromCharCode(...op.u), enc = new TextEncoder();
    const bytes = enc.encode(t);
    const into = [];
    for (let n = 0; n <= bytes.length + 1; n++) {
      const room = new Uint8Array(n + 4).fill(0xaa);
      const r = enc.encodeInto(t, room.subarray(2, 2 + n));
      const good = room.every((x, i) => x === (i >= 2 && i < 2 + r.written ? bytes[i - 2] : 0xaa));
      into.push(good ? { read: r.read, written: r.written } : { bad: Array.from(room) });
    }
    out = { bytes: bytes instanceof Uint8Array ? Array.from(bytes) : "not bytes", into };
  }
}
function observe() { return JSON.stringify(out); }
