// Driver of spec/Crypto.tla. KEYS: keys.json; TABLE: bytes of a signature -> term.
let out, turn = 0;
const keys = {}, sigs = {};
function make() {}
const unhex = (h) => Uint8Array.from(h.match(/../g) || [], (x) => parseInt(x, 16));
const hexOf = (b) => Array.from(new Uint8Array(b), (x) => x.toString(16).padStart(2, "0")).join("");
const ascii = (t) => Uint8Array.from(t, (c) => c.charCodeAt(0));
const msg = (m) => ascii(KEYS.msgs[m]);

// ---- P-256 from its definition, to judge signatures without the crate
const P = 0xffffffff00000001000000000000000000000000ffffffffffffffffffffffffn;
const N = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551n;
const G = [0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296n,
           0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5n];
const mod = (a, n) => ((a % n) + n) % n;
function inv(a, n) { let [r, s, x, y] = [mod(a, n), n, 1n, 0n]; while (r) { const q = s / r; [s, r] = [r, s - q * r]; [y, x] = [x, y - q * x]; } return mod(y, n); }
function add(p, q) {
  if (!p) return q;
  if (!q) return p;
  let l;
  if (p[0] === q[0]) {
    if (p[1] !== q[1]) return null;
    l = mod(3n * (p[0] * p[0] - 1n) * inv(2n * p[1], P), P);
  } else l = mod((q[1] - p[1]) * inv(q[0] - p[0], P), P);
  const x = mod(l * l - p[0] - q[0], P);
  return [x, mod(l * (p[0] - x) - p[1], P)];
}
function mul(k, p) { let r = null; for (; k; k >>= 1n, p = add(p, p)) if (k & 1n) r = add(r, p); return r; }
const big = (bytes) => BigInt("0x" + (hexOf(bytes) || "0"));
function ecVerifies(n, m, sig) {
  if (sig.length !== 64) return false;
  const r = big(sig.slice(0, 32)), s = big(sig.slice(32)), raw = unhex(KEYS.ec[n].raw);
  if (r <= 0n || r >= N || s <= 0n || s >= N) return false;
  const w = inv(s, N), z = BigInt("0x" + KEYS.sha256[m]);
  const pt = add(mul(mod(z * w, N), G), mul(mod(r * w, N), [big(raw.slice(1, 33)), big(raw.slice(33))]));
  return pt !== null && mod(pt[0], N) === r;
}

// ---- containers: a buffer, a view, part of a larger buffer; destroyed after use
function wrap(bytes) {
  const n = bytes.length, k = turn++ % 3;
  if (k === 0) return bytes.slice().buffer;
  if (k === 1) return bytes.slice();
  const b = new Uint8Array(n + 20).fill(7);
  b.set(bytes, 9);
  return new Uint8Array(b.buffer, 9, n);
}
function destroy(v) {
  const buf = ArrayBuffer.isView(v) ? v.buffer : v;
  new Uint8Array(buf).fill(0x99);
  if (turn % 2) buf.transfer();
}
function after(p, then) {
  if (!(p instanceof Promise)) { out = "not a promise"; return; }
  p.then(then).then((v) => { out = v; }, (e) => { out = e instanceof Error ? "rejected" : "rejected without an error"; });
}
const RSA = "RSASSA-PKCS1-v1_5";
function algorithm(name) {
  const hash = turn % 3 === 0 ? "SHA-256" : turn % 3 === 1 ? { name: "SHA-256" } : "sha-256";
  if (name === "ECDSA/SHA-384") return { name: "ECDSA", hash: turn % 2 ? "SHA-384" : { name: "sha-384" } };
  if (name === "ECDSA") return turn % 4 ? { name, hash } : name;
  // the hash is the key's, whatever the caller says here
  if (turn % 5 === 0) return { name, hash: turn % 2 ? "SHA-1" : { name: "SHA-384" } };
  return turn % 2 ? { name } : name;
}
// ---- what a key says of itself
const facts = {};
const factsOf = (k) => JSON.stringify([k.type, k.extractable, k.algorithm.name, k.algorithm.hash && k.algorithm.hash.name, k.algorithm.namedCurve, k.usages]);
function keep(i, k, kind, ex, alg, hash, use) {
  keys[i] = k;
  facts[i] = factsOf(k);
  const want = JSON.stringify([kind, ex, alg, alg === "HMAC" || alg === RSA ? hash : undefined, alg === "ECDSA" ? "P-256" : undefined, use]);
  return k instanceof CryptoKey && facts[i] === want ? "ok" : "key " + facts[i] + " for " + want;
}
function material(spec) {
  const n = Number(spec.key.mat[1]);
  if (spec.key.alg === "HMAC" || spec.key.alg === "PBKDF2") return ascii(KEYS.secret[n]);
  if (spec.key.alg === "ECDSA") return unhex(KEYS.ec[n][spec.fmt]);
  const k = KEYS.rsa[n];
  return unhex({ spki: k.spki, "rsa-spki": k.rsapub, "rsa-raw": k.rsapub, pkcs8: k.pkcs8, "rsa-pkcs8": k.pkcs1 }[spec.fmt]);
}
function step(text) {
  const op = JSON.parse(text), s = crypto.subtle;
  out = "pending";
  try {
    if (op.op === "import") {
      const { alg, kind, hash } = op.spec.key, data = wrap(material(op.spec));
      const h = turn % 2 ? hash : { name: hash };
      const a = alg === "HMAC" || alg === RSA ? { name: alg, hash: h } : alg === "ECDSA" ? { name: alg, namedCurve: "P-256" } : turn % 2 ? alg : { name: alg };
      const full = kind === "public" ? ["verify"] : kind === "private" ? ["sign"] : alg === "PBKDF2" ? ["deriveBits"] : ["sign", "verify"];
      const ex = turn % 2 === 1, use = full.slice(0, 1 + (turn >> 1) % 2), given = use.slice();
      const p = s.importKey(op.spec.fmt.replace("rsa-", ""), data, a, ex, given);
      destroy(data);
      // nor does it matter what becomes of the other arguments
      given.push("wrapKey");
      if (typeof a === "object") { if (a.hash && a.hash.name) a.hash.name = "SHA-1"; a.hash = "MD5"; a.name = "other"; a.namedCurve = "P-521"; }
      after(p, (k) => keep(op.i, k, kind, ex, alg, hash, use));
    } else if (op.op === "generate") {
      const ex = turn % 2 === 1, alg = { name: "ECDSA", namedCurve: "P-256" };
      turn++;
      after(s.generateKey(alg, ex, ["sign", "verify"]), (pair) => {
        const a = keep(op.i, pair.privateKey, "private", ex, "ECDSA", "", ["sign"]);
        const b = keep(op.j, pair.publicKey, "public", true, "ECDSA", "", ["verify"]);
        return a === "ok" ? b : a;
      });
    } else if (op.op === "sign") {
      const data = wrap(msg(op.m)), p = s.sign(algorithm(op.alg), keys[op.i], data);
      destroy(data);
      after(p, (sig) => {
        if (!(sig instanceof ArrayBuffer)) return "not a buffer";
        const b = new Uint8Array(sig.slice(0));
        sigs[op.j] = b;
        if (TABLE[hexOf(b)]) return TABLE[hexOf(b)];
        for (const n of [1, 2]) if (ecVerifies(n, op.m, b)) return "E/e" + n + "/" + op.m;
        return b.length === 64 && op.alg === "ECDSA" ? "E/other" : "unknown " + hexOf(b);
      });
    } else if (op.op === "given") {
      const n = Number(op.g.mat[1]), at = { HMAC: () => KEYS.hmacsig[`${n}/${op.g.hash}/${op.g.m}`],
        ECDSA: () => { const all = KEYS.ecsig[`${n}/${op.g.m}`]; return all[turn % all.length]; },
        [RSA]: () => KEYS.rsasig[`${n}/${op.g.hash}/${op.g.m}`] };
      sigs[op.j] = unhex(at[op.g.alg]());
      out = "ok";
    } else if (op.op === "tamper") {
      const b = sigs[op.j], n = b.length;
      const how = {
        flip: () => { const c = b.slice(); const at = (turn++ * 37) % (8 * n); c[at >> 3] ^= 1 << (at & 7); return c; },
        short: () => b.slice(0, n - 1 - (turn % 5)),
        long: () => { const c = new Uint8Array(n + 1); c.set(b); return c; },
        front: () => { const c = new Uint8Array(n + 1); c.set(b, 1); return c; },
        zero: () => new Uint8Array(n),
        empty: () => new Uint8Array(0),
      };
      sigs[op.j] = how[op.how]();
      out = "ok";
    } else {
      const data = wrap(msg(op.m)), sig = wrap(sigs[op.j] || new Uint8Array(0));
      const p = s.verify(algorithm(op.alg), keys[op.i], sig, data);
      destroy(data);
      destroy(sig);
      after(p, (v) => (typeof v === "boolean" ? String(v) : "not a boolean: " + String(v)));
    }
  } catch (e) { out = "threw " + e; }
}
function observe() {
  for (const i in keys) if (factsOf(keys[i]) !== facts[i]) return JSON.stringify("key " + i + " is now " + factsOf(keys[i]));
  return JSON.stringify(out);
}
