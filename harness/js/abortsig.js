// Driver of spec/AbortSig.tla.
let signals = {}, controllers = {}, made, heard, odd, listeners, timers = [], now = 0, n = 0, names;
globalThis.setTimeout = (f, ms) => { timers.push({ f, at: now + ms / 100 }); return timers.length; };
const OBJECT = { why: 1 };
const value = { nothing: undefined, text: "text", zero: 0, empty: "", null: null, false: false, object: OBJECT };
function token(r) {
  if (r instanceof Error) return r instanceof DOMException ? r.name : String(r);
  for (const k of Object.keys(value)) if (Object.is(value[k], r) && k !== "nothing") return k;
  return r === undefined ? "undefined" : String(r);
}
function make(t) { names = JSON.parse(t).signals; listeners = {}; }
function listener(x, i, a) {
  const s = signals[x];
  return (e) => {
    if (e.type !== "abort" || e.target !== s || !s.aborted) odd.push("event of " + i);
    heard[x].push(i);
    if (a === "throw") throw new Error("thrown by a listener");
    if (a === "again" && controllers[x]) controllers[x].abort("again");
    if (a === "add") s.addEventListener("abort", () => heard[x].push("added"));
    if (a === "drop next") s.removeEventListener("abort", listeners[i + 1]);
    if (a === "drop last") s.removeEventListener("abort", listeners[i - 1]);
    if (a === "drop self") s.removeEventListener("abort", listeners[i]);
    if (a === "drop all") for (const l of Object.values(listeners)) s.removeEventListener("abort", l);
  };
}
function step(t) {
  const op = JSON.parse(t), x = op.x;
  heard = Object.fromEntries(names.map((k) => [k, []]));
  odd = [];
  switch (op.op) {
    case "controller": controllers[x] = new AbortController(); signals[x] = controllers[x].signal; break;
    case "aborted": signals[x] = op.r === "nothing" ? AbortSignal.abort() : AbortSignal.abort(value[op.r]); break;
    case "timeout": signals[x] = AbortSignal.timeout(op.d * 100); break;
    case "listen": n++; signals[x].addEventListener("abort", listeners[n] = listener(x, n, op.a)); break;
    case "unlisten": signals[x].removeEventListener("close", listeners[op.i]); signals[x].removeEventListener("abort", listeners[op.i]); break;
    case "other": signals[x].addEventListener("close", () => heard[x].push("other")); break;
    case "abort": op.r === "nothing" ? controllers[x].abort() : controllers[x].abort(value[op.r]); break;
    case "tick":
      now++;
      for (const t of timers.filter((t) => t.at <= now)) { timers.splice(timers.indexOf(t), 1); t.f(); }
      break;
  }
  for (const k of names) {
    const c = controllers[k];
    if (c && c.signal !== signals[k]) odd.push("another signal");
  }
}
function observe() {
  const g = {};
  for (const k of names) {
    const s = signals[k];
    if (!s) { g[k] = { aborted: false, reason: "none" }; continue; }
    let thrown = "none";
    try { s.throwIfAborted(); } catch (e) { thrown = token(e); }
    g[k] = { aborted: s.aborted, reason: s.aborted ? token(s.reason) : s.reason === undefined ? "none" : "early " + token(s.reason) };
    if (thrown !== g[k].reason) odd.push("throws " + thrown);
  }
  return JSON.stringify({ heard, g, odd });
}
