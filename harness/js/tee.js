// Driver of spec/Tee.tla.
const errors = {}, chunks = [], expected = [];
for (const k of ["err", "throw", "reject"]) errors[k] = new Error(k);
const nameErr = (e) => Object.keys(errors).find((k) => errors[k] === e) || (e instanceof TypeError ? "TypeError" : "other");
let ctrl, mode, no = 0, kinds, from, told = [], reads, branch, reader;
const why = { why: 1 };
// chunk number i is a byte array, or another value
function chunk(i) {
  switch ((i + from) % 8) {
    case 0: return undefined;
    case 3: return "text " + i;
    case 5: return { i };
    case 6: return new Uint8Array(0);
    case 7: return new Uint8Array(new ArrayBuffer(64), 8, 5).fill(i + 1);
    default: return new Uint8Array(3 + i).fill(i + 1);
  }
}
const copies = [];
function nextChunk() {
  const i = no++ % kinds, c = chunk(i);
  copies[i] = copies[i] || [];
  copies[i].push(c);
  return c;
}
// which chunk a branch got, judged by contents; then that branch writes over it
function nameChunk(v) {
  for (let i = 0; i < kinds; i++) {
    const c = chunk(i);
    if (c instanceof Uint8Array) {
      if (v instanceof Uint8Array && v.length === c.length && v.every((x, k) => x === c[k])) {
        v.fill(255);
        return String(i + 1);
      }
    } else if (typeof c === "object") {
      if (v && v.i === i && copies[i].includes(v)) return String(i + 1);
    } else if (Object.is(c, v)) return String(i + 1);
  }
  return "other: " + String(v);
}
function make(text) { ({ kinds, from } = JSON.parse(text)); }
function pull(c) {
  switch (mode) {
    case "idle": return;
    case "one": c.enqueue(nextChunk()); return;
    case "two": c.enqueue(nextChunk()); c.enqueue(nextChunk()); return;
    case "async": return Promise.resolve().then(() => c.enqueue(nextChunk()));
    case "close": c.close(); return;
    case "oneclose": c.enqueue(nextChunk()); c.close(); return;
    case "err": c.error(errors.err); return;
    case "throw": throw errors.throw;
    case "reject": return Promise.reject(errors.reject);
  }
}
function step(text) {
  const op = JSON.parse(text);
  reads = [[], []];
  mode = "idle";
  switch (op.op) {
    case "new": {
      const src = { start(c) { ctrl = c; }, cancel(r) { told.push(r === undefined ? "none" : r === why ? "why" : "other"); } };
      if (op.pull) src.pull = pull;
      branch = new ReadableStream(src).tee();
      reader = branch.map((b) => b.getReader());
      break;
    }
    case "read": {
      mode = op.pull;
      const b = op.b - 1;
      reader[b].read().then(
        (x) => reads[b].push(x.done === true ? "end" : nameChunk(x.value)),
        (e) => reads[b].push(nameErr(e)));
      break;
    }
    case "cancel": {
      const p = branch[op.b - 1].cancel(op.why ? why : undefined);
      p.then(() => {}, () => {});
      break;
    }
    case "enqueue": ctrl.enqueue(nextChunk()); break;
    case "close": ctrl.close(); break;
    case "error": ctrl.error(errors.err); break;
  }
}
function observe() { return JSON.stringify({ reads, told, aborted: ctrl.signal.aborted }); }
