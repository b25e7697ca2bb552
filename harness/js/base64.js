// Driver of spec/Base64.tla.
let result, turn = 0;
function make() {}
function step(t) {
  const op = JSON.parse(t), f = op.op === "btoa" ? btoa : atob, text = String.fromCharCode(...op.t);
  // the same text, as what is made a text
  const given = turn++ % 2 ? text : text === "null" ? null : String(Number(text)) === text ? Number(text) : { toString: () => text };
  try {
    const r = f(given);
    result = typeof r === "string" ? [...Array(r.length).keys()].map((i) => r.charCodeAt(i)) : ["no text"];
  } catch (e) { result = e instanceof DOMException && e.name === "InvalidCharacterError" ? [-1] : [String(e)]; }
}
function observe() { return JSON.stringify({ r: result }); }
