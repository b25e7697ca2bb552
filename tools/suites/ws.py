"""WebSockets: spec/Ws.tla."""
import owlib
from suites.rt import js_driver, twice

WS = js_driver(r"""
    if (c.op === 'over') break;
    act[c.op](c);
""", r"""
const ws = {}, mk = [
  () => new WebSocket('ws://h/x/1'), () => new WebSocket('https://h/x/2', ['p', 'q']),
  () => new WebSocket(new URL('wss://h/x/3'), 'p'), () => new WebSocket('http://h/x/4', []),
];
const text = b => new TextDecoder().decode(b);
const plain = t => String(t).replace(/^.*refused$/, 'refused');   // whatever the words
const err = e => String(e && e.message || e);
function hear(i, e) {
  const w = ws[i], rest = e.type === 'message'
    ? (typeof e.data === 'string' ? ['text', e.data] : e.data instanceof ArrayBuffer ? ['bin', text(e.data)] : ['odd', String(e.data)])
    : e.type === 'close' ? [e.code, plain(e.reason), e.wasClean === true ? 'clean' : e.wasClean === false ? 'lost' : 'odd']
    : e.type === 'error' ? [plain(e.message)] : [];
  say('event', i, w.readyState, e.type, ...rest);
}
const TYPES = ['open', 'message', 'error', 'close'];
// odd sockets: handlers that throw, and a listener that must hear of each event as well;
// even ones: a listener given twice, and one taken away
function listen(i) {
  const w = ws[i];
  let n = 0;
  for (const t of TYPES) {
    if (i % 2) {
      w['on' + t] = e => { n++; throw new Error('boom'); };
      w.addEventListener(t, e => { if (n !== 1) say('handler', i, n); n = 0; hear(i, e); });
    } else {
      const f = e => hear(i, e), g = () => say('removed', i);
      w.addEventListener(t, f);
      w.addEventListener(t, g);
      w.addEventListener(t, f);
      w.removeEventListener(t, g);
    }
  }
}
const bytes = s => new TextEncoder().encode(s);
const data = (i, k, m) => { const t = 's' + i + '.' + m; switch (k) {
  case 'text': return t;
  case 'buf': return bytes(t).buffer;
  case 'view': { const b = bytes('--' + t + '--'); return new DataView(b.buffer, 2, t.length); }
  case 'sub': { const b = bytes('--' + t + '--'); return b.subarray(2, 2 + t.length); }
  case 'blob': return new Blob([t.slice(0, 1), bytes(t.slice(1))]);
  case 'num': return 70 + m;
} };
const closes = { none: [], code: [4999], both: [3000, 'why'], why: [undefined, 'why'], 'bad code': [1001, 'x'], long: [1000, '\u00e9'.repeat(62)] };
const bad = { 'no url': () => new WebSocket(), scheme: () => new WebSocket('ftp://h/x/1'), fragment: () => new WebSocket('ws://h/x/1#a') };
const attempt = (i, f) => { try { f(); } catch (e) { say('threw', i, e.name); } };
const act = {
  new({ i, v }) {
    if (v === 'ctor') { ws[i] = mk[i - 1](); listen(i); if (ws[i].readyState !== 0) say('state', i, ws[i].readyState); }
    else fetch('https://h/x/' + i, { headers: i % 2 ? { Upgrade: 'websocket', 'X-A': '1' } : new Headers([['upgrade', 'WebSocket'], ['x-a', '1']]) }).then(r => {
      ws[i] = r.webSocket; listen(i);
      say(r.status === 101 ? 'upgraded' : 'odd', i, r.webSocket.readyState);
    }, e => say('refused', i, plain(err(e))));
  },
  accept: ({ i }) => ws[i].accept(),
  state: ({ i }) => say('state', i, ws[i].readyState),
  send({ i, v, m }) {
    const d = data(i, v, m);
    attempt(i, () => ws[i].send(d));
    if (d.buffer || d.byteLength) new Uint8Array(d.buffer ?? d).fill(0x21);   // sent as it was
  },
  shut: ({ i, v }) => attempt(i, () => ws[i].close(...closes[v])),
  bad: ({ v }) => attempt(0, bad[v]),
};
""")

KINDS = ["text", "bin", "error"]
SENDS = ["text", "buf", "view", "sub", "blob", "num"]
CLOSES = ["none", "code", "both", "why", "bad code", "long"]
BADS = ["no url", "scheme", "fragment"]
OPS = ["new", "answer", "accept", "send", "shut", "state", "bad", "host", "over"]
VIAS = ["ctor", "up"]


def cfg(n, msgs, sends, vias, kinds, snd, closes, bads, ops, check=False, emit=False):
    q = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"
    t = "INIT Init\nNEXT Next\n" + ("" if check else "VIEW View\n")
    t += (f"CONSTANTS\n  N = {n}\n  MaxMsgs = {msgs}\n  MaxSends = {sends}\n  Vias = {q(vias)}\n  Kinds = {q(kinds)}\n"
          f"  Sends = {q(snd)}\n  Closes = {q(closes)}\n  Bads = {q(bads)}\n  OpNames = {q(ops)}\n")
    if check:
        t += "INVARIANTS NoHanging NoStuck\nPROPERTIES ClosesOnce OpensOnce CloseIsLast\n"
    if emit:
        t += "ACTION_CONSTRAINT Emit\n"
    return t


def E06(c):
    """WebSockets."""
    so = owlib.build("full")
    hc = {"script": WS, "begin": [{"op": "exec"}], "keep": "ws"}

    def go(name, args, steps, pooled):
        c.model("Ws", cfg(*args, check=True))
        t = c.model("Ws", cfg(*args, emit=True), emit=True)
        twice(c, so, hc, owlib.Graph(t.edges), 40, steps, pooled, name)
    go("one socket", (1, 2, 2, VIAS, KINDS, SENDS, CLOSES, BADS, OPS), c.pick(15000, 150000), c.pick(5000, 60000))
    go("two sockets", (2, 1, 1, VIAS, ["text"], ["text", "buf"], ["both"], [], [o for o in OPS if o not in ("bad", "state")]),
       c.pick(15000, 150000), c.pick(5000, 60000))
    for nxt, n, ops, num in (("DeepN", 4, OPS[:-1], 50), ("Deep", 4, OPS[:-1], 40), ("DeepN", 1, ["new", "answer", "send", "host"], 20)):
        t = cfg(n, 60, 60, VIAS, KINDS, SENDS, CLOSES, BADS, ops, emit=True).replace("VIEW View\n", "").replace("NEXT Next", "NEXT " + nxt)
        c.deep(so, "rt", dict(hc, via="pool") if nxt == "Deep" else hc, "Ws", t, c.pick(num, num * 10), 80,
               note=f"{n} sockets, long" + (", pooled" if nxt == "Deep" else ""), shards=8)
