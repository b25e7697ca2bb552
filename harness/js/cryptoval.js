// Driver of spec/CryptoValues.tla.
let out;
function make() {}
const bytesOf = (n, salt) => Uint8Array.from({ length: n }, (_, i) => ((i * 7 + n * 3 + salt) % 255) + 1);
const hexOf = (buf) => Array.from(new Uint8Array(buf), (b) => b.toString(16).padStart(2, "0")).join("");
function inView(bytes, view) {
  const n = bytes.length;
  if (view === "buffer") return bytes.slice().buffer;
  if (view === "u8") return bytes.slice();
  const big = new Uint8Array(n + 32).fill(0x5a);
  const off = view === "offset" ? 5 : 8;
  big.set(bytes, off);
  if (view === "offset") return new Uint8Array(big.buffer, off, n);
  if (view === "dataview") return new DataView(big.buffer, off, n);
  if (view === "i8") return new Int8Array(big.buffer, off, n);
  return n % 2 ? new Int8Array(big.buffer, off, n) : new Uint16Array(big.buffer, off, n / 2);
}
// what the caller does to its buffers afterwards must not matter
function scribble(v) { (ArrayBuffer.isView(v) ? new Uint8Array(v.buffer) : new Uint8Array(v)).fill(0xee); }
const named = (name, form) => (form === "string" ? name : { name });
const hash = (name, form) => (form === "string" ? name : { name });
const term = (buf) => (buf instanceof ArrayBuffer ? TABLE[hexOf(buf)] || "unknown " + hexOf(buf) : "not a buffer: " + String(buf));
function step(text) {
  const op = JSON.parse(text);
  out = "pending";
  let p;
  try { p = run(op); } catch (e) { out = "threw " + e; return; }
  if (typeof p === "string") { out = p; return; }
  if (!(p instanceof Promise)) { out = "not a promise: " + String(p); return; }
  const loose = ["dataview", "i8", "u16"].includes(op.view);
  p.then((v) => { out = v === op.want ? "right or rejected" : v; },
         (e) => { out = !(e instanceof Error) ? "rejected without an error" : loose && op.known ? "right or rejected" : "rejected"; });
}
const HASHES = ["SHA-1", "SHA-256", "SHA-384", "SHA-512"];
function run(op) {
  if (op.op === "digest") {
    const v = inView(bytesOf(op.m, 1), op.view);
    const p = crypto.subtle.digest(named(op.alg, op.form), v);
    scribble(v);
    loose(op, "D/" + op.alg.toUpperCase() + "/" + op.m);
    return p.then(term);
  }
  if (op.op === "hmac") {
    const k = inView(bytesOf(op.k, 2), op.view), m = () => inView(bytesOf(op.m, 1), op.view);
    loose(op, "H/" + op.alg.toUpperCase() + "/" + op.k + "/" + op.m);
    const imported = crypto.subtle.importKey("raw", k, { name: "HMAC", hash: hash(op.alg, op.form) }, false, ["sign", "verify"]);
    return (async () => {
      const key = await imported;
      scribble(k);
      const data = m(), p = crypto.subtle.sign(named("HMAC", op.form), key, data);
      scribble(data);
      const sig = await p, t = term(sig);
      const data2 = m(), ok = await crypto.subtle.verify(named("HMAC", op.form), key, sig, data2);
      return ok === true ? t : "does not verify: " + t;
    })();
  }
  if (op.op === "derive") {
    const k = inView(bytesOf(op.k, 2), op.view), salt = inView(bytesOf(op.m, 3), op.view);
    const imported = crypto.subtle.importKey("raw", k, named("PBKDF2", op.form), false, ["deriveBits"]);
    return (async () => {
      const key = await imported;
      scribble(k);
      const p = crypto.subtle.deriveBits({ name: "PBKDF2", salt, iterations: op.iter, hash: hash(op.alg, op.form) }, key, op.bits);
      scribble(salt);
      return term(await p);
    })();
  }
  if (op.op === "bad") return bad(op.what);
  if (op.op === "uuid") {
    for (let i = 0; i < op.n; i++) {
      const u = crypto.randomUUID();
      if (!/^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$/.test(u)) return "not a UUID: " + u;
      if (uuids.has(u)) return "twice: " + u;
      uuids.add(u);
    }
    return "distinct";
  }
  if (op.op === "norandom") {
    const a = { Float32Array: new Float32Array(8), Float64Array: new Float64Array(8), DataView: new DataView(new ArrayBuffer(8)),
                ArrayBuffer: new ArrayBuffer(8), array: [0, 0, 0], undefined: undefined, number: 8, string: "00000000", null: null }[op.arr];
    try { const r = op.arr === "none" ? crypto.getRandomValues() : crypto.getRandomValues(a); return "returned " + String(r); }
    catch (e) { return e instanceof Error ? "TypeError" : "threw something else"; }
  }
  const A = globalThis[op.arr], w = A.BYTES_PER_ELEMENT, n = op.n * w;
  // every byte of the view changes, sooner or later; nothing outside ever does
  const off = op.off * w;
  const buf = new ArrayBuffer(n || off ? off + n + 16 : 0), all = new Uint8Array(buf).fill(0x11);
  const view = new A(buf, off, op.n), mine = new Uint8Array(buf, off, n);
  const seen = Array.from({ length: Math.min(n, 600) }, () => new Set());
  const at = (i) => (n <= 600 ? i : Math.floor((i * (n - 1)) / 599));
  for (let round = 0; round < 8; round++) {
    const before = mine.slice();
    if (crypto.getRandomValues(view) !== view) return "returned something else";
    if (n >= 16 && before.every((b, i) => b === mine[i])) return "not filled";
    for (let i = 0; i < seen.length; i++) seen[i].add(mine[at(i)]);
  }
  if (n && seen.some((x) => x.size === 1)) return "some bytes are never written";
  if (n >= 64 && new Set(mine).size < 16) return "hardly random";
  for (let i = 0; i < all.length; i++) if ((i < off || i >= off + n) && all[i] !== 0x11) return "wrote outside at " + (i - off);
  return "filled";
}
const uuids = new Set();
function loose(op, want) {
  if (["dataview", "i8", "u16"].includes(op.view)) { op.want = want; op.known = HASHES.includes(op.alg.toUpperCase()); }
}
function bad(what) {
  const [fn, arg] = what.split(":"), s = crypto.subtle, d = bytesOf(8, 1);
  const hk = s.importKey("raw", d, { name: "HMAC", hash: "SHA-256" }, false, ["sign", "verify"]);
  const pk = s.importKey("raw", d, "PBKDF2", false, ["deriveBits"]);
  const notData = { none: undefined, null: null, string: "text", array: [1, 2], number: 5 };
  const H = { name: "HMAC", hash: "SHA-256" };
  if (fn === "digest") return s.digest("SHA-256", notData[arg]);
  if (fn === "import") {
    if (arg === "none") return s.importKey();
    if (arg === "jwk") return s.importKey("jwk", { kty: "oct", k: "AAAA" }, H, false, []);
    if (arg === "algorithm") return s.importKey("raw", d, "AES-GCM", false, []);
    return s.importKey("raw", notData[arg], H, false, []);
  }
  if (fn === "sign") return hk.then((k) => {
    if (arg === "nokey") return s.sign("HMAC", undefined, d);
    if (arg === "plainkey") return s.sign("HMAC", { type: "secret" }, d);
    return s.sign("HMAC", k, notData[arg]);
  });
  if (fn === "verify") return hk.then((k) => {
    if (arg === "nokey") return s.verify("HMAC", null, d, d);
    if (arg === "signature") return s.verify("HMAC", k, "sig", d);
    return s.verify("HMAC", k, d, notData[arg]);
  });
  if (fn === "generate") return s.generateKey(...({ HMAC: [H, true, ["sign"]], "P-384": [{ name: "ECDSA", namedCurve: "P-384" }, true, ["sign"]], none: [] }[arg]));
  return Promise.all([hk, pk]).then(([h, p]) => {
    const a = { name: "PBKDF2", salt: d, iterations: 2, hash: "SHA-256" };
    let key = p, len = 64;
    if (arg === "nolength") return s.deriveBits(a, key);
    if (arg === "huge") len = 2 ** 53;
    else if (arg === "large") len = 2 ** 52;
    else if (arg === "NaN") len = NaN;
    else if (arg === "text") len = "abc";
    else if (arg === "0 iterations") a.iterations = 0;
    else if (arg === "-1 iterations") a.iterations = -1;
    else if (arg === "no iterations") delete a.iterations;
    else if (arg === "no salt") delete a.salt;
    else if (arg === "no hash") delete a.hash;
    else if (arg === "MD5") a.hash = "MD5";
    else if (arg === "hmac key") key = h;
    else if (arg === "algorithm") a.name = "HKDF";
    else len = Number(arg);
    return s.deriveBits(a, key, len);
  });
}
function observe() { return JSON.stringify(out); }
