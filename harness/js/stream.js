// Driver of spec/ReadableStream.tla.
let stream, ctrl, readers, results, told, mode, srcMode, chunkNo, gone, K;
const chunks = [], pulls = [];
const E = { err: "error", throw: "pull threw", reject: "pull rejected", start: "start rejected",
            cthrow: "cancel threw", creject: "cancel rejected" };
const errors = {};
for (const k in E) errors[k] = new Error(E[k]);
const reasons = { why: { reason: 1 } };
const nameOf = (table, e) => {
  for (const k in table) if (Object.is(table[k], e)) return k;
  return e instanceof TypeError ? "TypeError" : "other";
};
function make(text) {
  const cfg = JSON.parse(text);
  // what streams carry: nothing about a chunk's value may matter
  const all = [undefined, new Uint8Array([1, 2, 3]), null, "", 0, false, { done: true }, "text",
              { type: "close" }, [], { then: 5 }, new Uint8Array(0)];
  // nor about an error's
  if (cfg.odd) Object.assign(errors, { err: 0, throw: null, reject: "", start: false, cthrow: NaN, creject: "text" });
  for (let i = 0; i < cfg.kinds; i++) chunks.push(all[(cfg.from + i) % all.length]);
  readers = {}; results = {}; told = []; gone = false; chunkNo = 0;
  globalThis.__responseStreamIsClosed = () => gone;
}
const nextChunk = () => chunks[chunkNo++ % chunks.length];
const nameChunk = (v) => {
  const i = chunks.findIndex((c) => Object.is(c, v));
  return i < 0 ? "other: " + String(v) : String(i + 1);
};
function guard(f) {
  try { f(); return "ok"; } catch (e) { return nameOf(errors, e); }
}
function pull(c) {
  switch (mode) {
    case "idle": return;
    case "later": return new Promise((ok, fail) => { pulls.push({ ok, fail }); });
    case "one": c.enqueue(nextChunk()); return;
    case "two": c.enqueue(nextChunk()); c.enqueue(nextChunk()); return;
    case "async": return Promise.resolve().then(() => c.enqueue(nextChunk()));
    case "close": c.close(); return;
    case "oneclose": c.enqueue(nextChunk()); c.close(); return;
    case "err": c.error(errors.err); return;
    case "throw": throw errors.throw;
    case "reject": return Promise.reject(errors.reject);
    case "onethrow": c.enqueue(nextChunk()); throw errors.throw;
  }
}
function construct(op) {
  const src = {};
  if (op.start !== "none") {
    src.start = (c) => {
      switch (op.start) {
        case "one": c.enqueue(nextChunk()); return;
        case "close": c.close(); return;
        case "reject": return Promise.reject(errors.start);
        case "async": return Promise.resolve().then(() => c.enqueue(nextChunk()));
      }
    };
  }
  if (op.pull) src.pull = pull;
  if (op.cancel) {
    src.cancel = (r) => {
      told.push(r === undefined ? "none" : nameOf(reasons, r));
      if (srcMode === "cthrow") throw errors.cthrow;
      if (srcMode === "creject") return Promise.reject(errors.creject);
      if (srcMode === "slow") return Promise.resolve().then(() => 1);
    };
  }
  const start = src.start;
  src.start = (c) => { ctrl = c; if (start) return start(c); };
  stream = new ReadableStream(src);
}
const track = (table, k, p) => {
  table[k] = "pending";
  p.then(() => { table[k] = "resolved"; }, (e) => { table[k] = nameOf(errors, e); });
};
let outcome, released = {}, closed = {}, settled = [];
function step(text) {
  const op = JSON.parse(text);
  outcome = "ok"; settled = [];
  const n = step.n = (step.n || 0) + 1;
  switch (op.op) {
    case "new": construct(op); break;
    case "reader":
      outcome = guard(() => {
        const rd = stream.getReader();
        readers[op.r] = rd;
        track(closed, op.r, rd.closed);
      });
      break;
    case "read": {
      mode = op.pull;
      const mine = settled;
      const put = (v) => settled.push({ n, v });
      readers[op.r].read().then(
        (x) => put(x.done === true ? (x.value === undefined ? "end" : "end with value")
                 : x.done === false ? nameChunk(x.value) : "neither"),
        (e) => put(nameOf(errors, e)));
      break;
    }
    case "release":
      outcome = guard(() => { readers[op.r].releaseLock(); released[op.r] = true; });
      break;
    case "cancel": {
      srcMode = op.src;
      const reason = op.why ? reasons.why : undefined;
      const o = outcome = { pending: true };
      try {
        const p = op.r === 0 ? stream.cancel(reason) : readers[op.r].cancel(reason);
        p.then(() => { o.s = "ok"; }, (e) => { o.s = nameOf(errors, e); });
      } catch (e) { o.s = nameOf(errors, e); }
      if (op.r !== 0) released[op.r] = true;
      break;
    }
    case "enqueue": outcome = guard(() => ctrl.enqueue(nextChunk())); break;
    case "close": outcome = guard(() => ctrl.close()); break;
    case "error": outcome = guard(() => ctrl.error(errors.err)); break;
    case "pulled": pulls.shift().ok(); break;
    case "pullfail": pulls.shift().fail(errors.reject); break;
    case "client": ctrl._responseStreamId = 7; break;
    case "gone": gone = true; break;
    default: throw new Error("op " + op.op);
  }
}
function observe() {
  const size = ctrl ? ctrl.desiredSize : 1;
  settled.sort((a, b) => a.n - b.n);
  return JSON.stringify({
    out: typeof outcome === "object" ? outcome.s || "pending" : outcome,
    reads: settled.map((x) => x.v),
    locked: stream.locked,
    size: size === null ? "none" : size > 0 ? "room" : size === 0 ? "full" : "other",
    aborted: ctrl.signal.aborted,
    why: ctrl.signal.aborted ? nameOf({ ...errors, ...reasons }, ctrl.signal.reason) : "no",
    told,
    closed: ["1", "2"].map((k) => !closed[k] || (released[k] && closed[k] === "pending") ? "none" : closed[k]),
  });
}
