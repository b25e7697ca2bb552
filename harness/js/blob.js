// Driver of spec/Blob.tla.
let names, blobs, buffer, read, seen, turn = 0;
const bytes = (b) => [...new Uint8Array(b)];
function make(t) { names = JSON.parse(t).names; blobs = {}; buffer = new Uint8Array([1, 7, 127, 0]).buffer; }
const TEXT = { a: () => "a", e2: () => "\u00e9", s1: () => "\ud83d", null: () => null, 12: () => 12, nothing: () => "" };
function part(p) {
  switch (p.k) {
    case "text": return TEXT[p.t]();
    case "buffer": return buffer;
    case "view": return new Uint8Array(buffer, 0, 2);
    case "dataview": return new DataView(buffer, 0, 2);
    case "tail": return new Uint8Array(buffer).subarray(2);
    case "wide": return new Uint16Array(buffer);
    case "blob": return blobs[p.y];
  }
}
const scribble = (b) => { new Uint8Array(b).fill(99); };
async function drain(stream) {
  const r = stream.getReader(), all = [];
  for (;;) {
    const { done, value } = await r.read();
    if (done) return all;
    if (!(value instanceof Uint8Array)) throw new TypeError("chunk");
    all.push(...value);
    value.fill(99);
  }
}
async function get(b, how) {
  switch (how) {
    case "buffer": { const r = await b.arrayBuffer(), all = bytes(r); scribble(r); return { bytes: all, type: "" }; }
    case "text": return { bytes: bytes(new TextEncoder().encode(await b.text())), type: "" };
    case "stream": return { bytes: await drain(b.stream()), type: "" };
    case "response": case "request": {
      const m = how === "response" ? new Response(b) : new Request("http://a/", { method: "POST", body: b });
      const r = await m.arrayBuffer(), all = bytes(r);
      scribble(r);
      return { bytes: all, type: m.headers.get("content-type") ?? "" };
    }
    case "bytes twice": {
      const one = b.stream(), two = b.stream(), x = await drain(one), y = await drain(two);
      return { bytes: String(x) === String(y) ? x : ["differ"], type: "" };
    }
  }
}
const end = (i) => i.n === 2 ? undefined : i.n === 1 ? -i.v : i.v;
function step(t) {
  const op = JSON.parse(t);
  read = { bytes: [], type: "" };
  seen = Object.fromEntries(names.map((n) => [n, { kind: "no", b: [], size: 0, type: "", name: "", at: 0 }]));
  const fail = (e) => { read = { bytes: ["error " + e], type: "" }; };
  switch (op.op) {
    case "make": {
      const parts = op.p.map(part), given = turn++ % 2 ? new Set(parts).size === parts.length ? new Set(parts) : parts : parts;
      const init = op.type || turn % 3 ? { type: op.type } : undefined;
      blobs[op.x] = op.kind === "file" ? new File(given, "n.t", { ...init, lastModified: op.p.length }) : new Blob(given, init);
      parts.length = 0;
      break;
    }
    case "slice": {
      const a = [end(op.from), end(op.to)];
      if (op.type) a.push(op.type);
      else if (op.to.n === 2) { a.pop(); if (op.from.n === 0 && op.from.v === 0 && turn++ % 2) a.pop(); }
      blobs[op.x] = blobs[op.y].slice(...a);
      break;
    }
    case "read": get(blobs[op.y], op.how).then((r) => { read = r; }, fail); break;
    case "write": new Uint8Array(buffer)[0]++; break;
  }
  for (const n of names) {
    const b = blobs[n];
    if (!b) continue;
    const file = b instanceof File;
    b.arrayBuffer().then((r) => {
      seen[n] = { kind: file ? "file" : b instanceof Blob ? "blob" : "other", b: bytes(r), size: b.size, type: b.type,
                  name: file ? b.name : "", at: file ? b.lastModified : 0 };
    }).catch(fail);
  }
}
function observe() { return JSON.stringify({ r: read, x: seen }); }
