// Driver of spec/Form.tla.
let form, out, turn = 0;
const B = "Bound'1";
const NAMES = { a: "a", b: "b", e: "\u00e9\u{1f600}", quote: 'q"q"', lines: "r\r\nn", semi: 'a; filename=x', name: "name", empty: "", slash: "c:\\d" };
const CONTENT = {
  plain: "text \u00e9", empty: "", line: "\r\n", after: "x\r\n", header: 'a\r\n\r\nContent-Disposition: form-data; name="z"', dashes: "--", delims: "\r\n--\r\n",
  inline: `x--${B}y`, longer: `x\r\n--${B}0\r\ny`, lf: `x\n--${B}\n\ny`, start: `--${B}x`, bom: "\ufeffx", equals: "a=b&c=d+e%41", bytes: null,
};
const enc = (t) => new TextEncoder().encode(t);
const content = (c) => c === "bytes" ? Uint8Array.from({ length: 256 }, (_, i) => 255 - i) : enc(CONTENT[c]);
const tokenOf = (map, v, what) => Object.keys(map).find((k) => map[k] === v) ?? what + JSON.stringify(v);
const same = (a, b) => a.length === b.length && a.every((x, i) => x === b[i]);
const contentToken = (b) => Object.keys(CONTENT).find((c) => same(content(c), b)) ?? "odd " + new TextDecoder("latin1").decode(b).slice(0, 80);
const FILES = { n: "n.t", quote: 'f"1', lines: "f\r\n", e: "\u00e9 .t", empty: "", other: "x; name=y", blob: "blob", "f.t": "f.t" };
const file = (c, t) => turn++ % 2 ? new Blob([content(c)], { type: t }) : new Blob([content(c).subarray(0, 1), content(c).subarray(1)], { type: t });
function make() { form = new FormData(); }
async function entries(f) {
  const all = [];
  if (!(f instanceof FormData)) throw new Error("no form");
  for (const [k, v] of f) {
    const n = tokenOf(NAMES, k, "name ");
    if (typeof v === "string") all.push({ n, k: "text", c: contentToken(enc(v)), f: "", t: "" });
    else if (!(v instanceof File)) all.push({ n, k: "odd" });
    else all.push({ n, k: "file", c: contentToken(new Uint8Array(await v.arrayBuffer())), f: tokenOf(FILES, v.name, "file "), t: v.type });
  }
  return all;
}
const req = (body, type) => new Request("http://a/", { method: "POST", body, headers: type ? { "content-type": type } : undefined });
const res = (body, type) => new Response(body, { headers: type ? { "content-type": type } : undefined });
async function trip(how, body) {
  switch (how) {
    case "request": return req(body).formData();
    case "response": return res(body).formData();
    case "clone": { const m = turn++ % 2 ? req(body) : res(body), c = m.clone(); if (turn++ % 2) await m.text(); return c.formData(); }
    case "copy": { const m = res(body); return req(await m.arrayBuffer(), m.headers.get("content-type")).formData(); }
    case "parts": {       // in small pieces
      const m = req(body), all = new Uint8Array(await m.arrayBuffer());
      let i = 0;
      const s = new ReadableStream({ pull(c) { if (i >= all.length) c.close(); else c.enqueue(all.subarray(i, i += 7)); } });
      return res(s, m.headers.get("content-type")).formData();
    }
  }
}
const esc = (t) => t.replace(/\r/g, "%0D").replace(/\n/g, "%0A").replace(/"/g, "%22");
function head(p) {
  const n = esc(NAMES[p.n]), d = `Content-Disposition: form-data; name="${n}"`;
  switch (p.h) {
    case "text": case "padded": return d;
    case "lower": return `Content-Type: text/plain; charset=utf-8\r\ncontent-disposition: form-data; name="${n}"`;
    case "unquoted": return `Content-Disposition: form-data; name=${n}`;
    case "other": return `X-Other: form-data; name="other"; filename="other"\r\n${d}\r\nContent-Length: 3`;
    case "file": return `${d}; filename="f.t"\r\nContent-Type: x/y`;
    case "file first": return `Content-Disposition: form-data; filename="f.t"; name="${n}"\r\nContent-Type:x/y`;
    case "no type": return `${d}; filename="f.t"`;
    case "no file": return `${d}; filename=""\r\ncontent-type: x/y`;
  }
}
function raw(op) {
  const parts = [];
  if (op.pre) parts.push(enc("This is a form.\r\n"));
  op.p.forEach((p, i) => {
    parts.push(enc(`--${B}${p.h === "padded" ? " \t" : ""}\r\n${head(p)}\r\n`));
    if (op.end === "cut head" && i === op.p.length - 1) return;
    parts.push(enc("\r\n"), content(p.c));
    if (op.end === "cut content" && i === op.p.length - 1) return;
    parts.push(enc("\r\n"));
  });
  if (op.end === "whole") parts.push(enc(`--${B}--${turn++ % 2 ? "" : "\r\n"}`));
  if (op.end === "epilogue") parts.push(enc(`--${B}--\r\nThe end.\r\n--${B}\r\n\r\n`));
  if (op.end === "no end") parts.push(enc(`--${B}\r\n`));
  return new Blob(parts);
}
const TYPE = { plain: `multipart/form-data; boundary=${B}`, quoted: `multipart/form-data; boundary="${B}"`, more: `multipart/form-data;charset=utf-8;boundary=${B};x=y`,
  case: `Multipart/Form-Data; Boundary=${B}`, none: null, other: "text/plain", "no boundary": "multipart/form-data" };
function step(t) {
  const op = JSON.parse(t), n = NAMES[op.n];
  out = { e: [], err: "no" };
  const report = (p) => p.then(entries).then((e) => { out = { e, err: "no" }; }, (e) => { out = { e: [], err: e && e.name }; });
  switch (op.op) {
    case "text": form.append(n, new TextDecoder('utf-8', { ignoreBOM: true }).decode(content(op.c))); break;
    case "file": form.append(n, new File([content(op.c)], FILES[op.f], { type: op.t })); break;
    case "blob": form.append(n, file(op.c, op.t)); break;
    case "renamed": form.append(n, turn++ % 2 ? file(op.c, "") : new File([content(op.c)], "was.t"), FILES[op.f]); break;
    case "send": report(trip(op.how, form)); break;
    case "params": { const q = new URLSearchParams(); for (const [k, v] of form) q.append(k, v); report(trip(op.how, q)); break; }
    case "raw": {
      const m = (op.how === "request" ? req : res)(raw(op), TYPE[op.ct]);
      report(m.formData().then((f) => {
        // a file without a type has any type
        const typed = new FormData();
        let i = 0;
        for (const [k, v] of f) typed.append(k, op.p[i++]?.h === "no type" && v instanceof File ? new File([v], v.name, { type: "any" }) : v);
        return typed;
      }));
      break;
    }
  }
}
function observe() { return JSON.stringify(out); }
