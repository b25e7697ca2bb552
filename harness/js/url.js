// Driver of spec/Url.tla.
let u = null, last = null, turn = 0;
const PARTS = ["protocol", "username", "password", "host", "hostname", "port", "pathname", "search", "hash", "origin", "href"];
const NOTHING = { protocol: ":", origin: "://", href: ":///", pathname: "/" };
function see(x) {
  const r = {};
  for (const p of PARTS) r[p] = x ? x[p] : NOTHING[p] ?? "";
  if (x && (String(x) !== x.href || `${x}` !== x.href)) r.href = "another text: " + x;
  r.href = r.href.replace(/^[^\/]*\/\/[^\/]*@/, (m) => m.replace("%3A", ":"));   // a colon in a password, either way
  r.a = x ? x.searchParams.get("a") ?? "none" : "none";
  return r;
}
function make() { u = last = null; turn = 0; }
function step(t) {
  const op = JSON.parse(t);
  turn++;
  const params = u?.searchParams;
  let e = "ok";
  try {
    switch (op.op) {
      case "new": u = turn % 3 === 0 ? new URL(op.v, undefined) : turn % 3 === 1 ? new URL(op.v) : new URL({ toString: () => op.v }); break;
      case "bad": u = new URL(op.v); break;
      case "based": u = new URL(op.v, op.o === "garbage" ? "http://other/x/" : new URL("http://other/?a=9#o")); break;
      case "ref": { const was = u.href; const v = new URL(op.v, op.how === "url" ? u : u.href); if (u.href !== was) e = "the base was changed"; u = v; break; }
      case "both": u = new URL(op.v, new URL("http://other/x/?a=9")); break;
      case "copy": { const v = new URL(u); v.hash = "away"; v.searchParams.append("a", "8"); u = new URL(u); break; }
      case "reparse": u = new URL(u.href); break;
      case "href": case "badhref": u.href = op.v; break;
      case "set": u[op.part] = op.part === "port" && op.v && turn % 2 ? Number(op.v) : op.v; break;
      case "add": u.searchParams.append("k", "v"); break;
    }
    if (["href", "badhref", "set", "add"].includes(op.op) && u.searchParams !== params) e = "other searchParams";
  } catch (x) { e = x instanceof TypeError ? "TypeError" : String(x); }
  last = { e, u: see(u) };
}
function observe() { return JSON.stringify(last); }
