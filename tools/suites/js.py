"""JavaScript the crate installs: spec/ReadableStream.tla, spec/Tee.tla."""
import hashlib
import hmac
import json
import os

import owlib

JS = os.path.join(owlib.HARNESS, "js")


def setof(xs):
    return "{" + ", ".join(f'"{x}"' if isinstance(x, str) else str(x).upper() for x in xs) + "}"


PULLS = ["idle", "later", "one", "two", "async", "close", "oneclose", "err", "throw", "reject", "onethrow"]


def rs_cfg(sources, pulls, cancels, queue, pend, kinds, ops, invs=(), props=(), nxt="Next", emit=False, max_in=0):
    t = f"INIT Init\nNEXT {nxt}\n"
    t += ("CONSTANTS\n  Starts = %s\n  CanPull = %s\n  CanCancel = %s\n  Pulls = %s\n  Cancels = %s\n  MaxQueue = %d\n  MaxPend = %d\n"
          "  Readers = {1, 2}\n  MaxIn = %d\n  Kinds = %d\n  OpNames = %s\n"
          % (*map(setof, sources), setof(pulls), setof(cancels), queue, pend, max_in, kinds, setof(ops)))
    if invs:
        t += "INVARIANTS " + " ".join(invs) + "\n"
    if props:
        t += "PROPERTIES " + " ".join(props) + "\n"
    if emit:
        t += "ACTION_CONSTRAINT Emit\n" + ("VIEW View\n" if nxt == "Next" else "")
    if max_in:
        t += "CONSTRAINT Bound\n"
    return t


def rs(c, so, name, args, invs, props, length, steps, kinds=4, walks=20, odd=False):
    c.model("ReadableStream", rs_cfg(*args[:5], kinds, args[5], invs=invs, props=props, max_in=c.pick(2, 4)))
    t = c.model("ReadableStream", rs_cfg(*args[:5], kinds, args[5], emit=True), emit=True)
    g = owlib.Graph(t.edges)
    c.replay(so, "js", rs_env(c, kinds, odd), g, length, steps, walks=walks, walk_len=length, note=name, shards=4)


def rs_env(c, kinds, odd=False):
    return {"setup": [os.path.join(JS, "abort.js"), "streams", os.path.join(JS, "stream.js")],
            "js": {"kinds": kinds, "from": c.rng.randrange(12) if kinds < 12 else 0, "odd": odd}}


def rs_long(c, so, name, args, num, depth, invs=("Order",)):
    for nxt in ("Deep", "DeepN"):
        c.deep(so, "js", rs_env(c, 12), "ReadableStream",
               rs_cfg(*args[:5], 12, args[5], invs=invs, nxt=nxt, emit=True), num, depth, note=name)


def R01(c):
    so = owlib.build("scoped")
    ops = ["new", "reader", "read", "release", "enqueue", "close"]
    rs(c, so, "push and pull", ((["none", "one", "async", "close"], [False, True], [True]),
       ["idle", "one", "two", "async", "close", "oneclose"], ["slow"], 3, 3, ops), ["Order", "NothingLost"], ["EndIsLast", "Final"],
       60, c.pick(30000, 300000))
    rs_long(c, so, "long queues", ((["none"], [False, True], [True]), ["idle", "one", "two", "async"], ["slow"], 30, 20, ops[:-1]),
            c.pick(4, 20), c.pick(250, 1000))


def R02(c):
    so = owlib.build("scoped")
    ops = ["new", "reader", "read", "release", "enqueue", "close", "error", "cancel", "pulled", "pullfail"]
    rs(c, so, "every way to end", ((["none", "one", "async", "close", "reject"], [False, True], [True]), PULLS, ["slow"], 2, 2, ops), ["NoStuckRead", "Order"], ["Final"],
       60, c.pick(120000, 300000), odd=True)
    rs_long(c, so, "many waiting reads", ((["none"], [True], [True]), ["idle", "later", "one"], ["slow"], 3, 20, ["new", "reader", "read", "release", "enqueue", "error", "cancel", "pullfail"]),
            c.pick(20, 60), c.pick(40, 60))


def R03(c):
    so = owlib.build("scoped")
    ops = ["new", "reader", "read", "release", "enqueue", "error", "cancel", "client", "gone"]
    rs(c, so, "locks, cancellation and signal",
       ((["none"], [False, True], [False, True]), ["idle", "one", "throw"], ["slow", "cthrow", "creject"], 1, 1, ops),
       ["OneLock", "ToldOnce", "AbortMeans", "ErrorAborts"], ["Exclusive", "Told", "Final"], 60, c.pick(100000, 300000), kinds=2)


def tee_cfg(args, kinds, max_in=0, invs=(), props=(), nxt="Next", emit=False):
    canpull, pulls, queue, pend, ops = args
    t = (f"INIT Init\nNEXT {nxt}\nCONSTANTS\n  CanPull = %s\n  Pulls = %s\n  MaxQueue = %d\n  MaxPend = %d\n  MaxIn = %d\n"
         "  Kinds = %d\n  OpNames = %s\n" % (setof(canpull), setof(pulls), queue, pend, max_in, kinds, setof(ops)))
    if invs:
        t += "INVARIANTS " + " ".join(invs) + "\n"
    if props:
        t += "PROPERTIES " + " ".join(props) + "\n"
    if emit:
        t += "ACTION_CONSTRAINT Emit\n" + ("VIEW View\n" if nxt == "Next" else "")
    if max_in:
        t += "CONSTRAINT Bound\n"
    return t


def R04(c):
    so = owlib.build("scoped")
    ops = ["new", "read", "enqueue", "close", "error", "cancel"]
    for name, args in (("push source", ([False], ["idle"], 3, 2, ops)),
                       ("pull source", ([True], ["idle", "one", "two", "async", "close", "oneclose", "err", "throw", "reject"], 2, 2, ops))):
        c.model("Tee", tee_cfg(args, 3, c.pick(2, 3), ["Same", "NoStuckRead", "ToldOnce"], ["Told"]))
        g = owlib.Graph(c.model("Tee", tee_cfg(args, 4, emit=True), emit=True).edges)
        c.replay(so, "js", tee_env(4, c), g, 60, c.pick(60000, 400000), walks=20, walk_len=60, note=name, shards=4)
    for nxt in ("Deep", "DeepN"):
        args = ([False, True], ["idle", "one", "two", "async"], 30, 20, ["new", "read", "enqueue"])
        c.deep(so, "js", tee_env(8, c), "Tee", tee_cfg(args, 8, invs=["Same"], nxt=nxt, emit=True), c.pick(6, 20), c.pick(200, 600))


def tee_env(kinds, c):
    return {"setup": [os.path.join(JS, "abort.js"), "streams", os.path.join(JS, "tee.js")],
            "js": {"kinds": kinds, "from": c.rng.randrange(8) if kinds < 8 else 0}}


BYTES = [0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbb, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed,
         0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xff]
UTF16 = [0x00, 0x41, 0xd7, 0xd8, 0xdb, 0xdc, 0xdf, 0xe0, 0xfe, 0xff]
UNITS = [0x00, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfeff, 0xfffd, 0xffff]


def text(c, so, name, names, by, un, mb, mu, props, deep=None, shards=4):
    def cfg(nxt, emit, props=()):
        t = ("INIT Init\nNEXT %s\nCONSTANTS\n  Bytes = %s\n  Units = %s\n  MaxBytes = %d\n  MaxUnits = %d\n"
             "  LongBytes = 40\n  LongUnits = 20\n  Names = %s\n" % (nxt, setof(by), setof(un), mb, mu, setof(names)))
        return t + ("ACTION_CONSTRAINT Emit\n" if emit else "") + ("VIEW View\n" if nxt == "Next" else "") + ("PROPERTIES " + " ".join(props) + "\n" if props else "")
    env = {"setup": ["text", os.path.join(JS, "text.js")], "js": {}}
    if deep:
        c.deep(so, "js", env, "Text", cfg("Deep", True), *deep, note=name)
        return
    t = c.model("Text", cfg("Next", True, props), emit=True)
    g = owlib.Graph(t.edges)
    ops = [l for l, _, _ in g.out[g.init]]
    paths = [ops[i:i + 400] for i in range(0, len(ops), 400)]
    c.replay(so, "js", env, g, 0, 0, paths=paths, note=name, shards=shards)


def X01(c):
    so = owlib.build("scoped")
    text(c, so, "UTF-8, every sequence of representative bytes", ["utf-8"], BYTES, [0], c.pick(3, 4), 0, ["Inverse"])
    bom = [0xef, 0xbb, 0xbf, 0x41, 0x80, 0xe2]
    text(c, so, "byte order marks", ["utf-8"], bom, [0], c.pick(5, 6), 0, ["Inverse"])
    text(c, so, "UTF-16", ["utf-16le"], UTF16, [0], c.pick(4, 5), 0, [])
    text(c, so, "labels", ["label"], [0x41, 0xc3, 0xa9, 0x80, 0x93, 0xfe, 0xff], [0], c.pick(2, 3), 0, [])
    text(c, so, "names and options", ["name"], [0x41], [0], 0, 0, [])
    text(c, so, "long texts", ["big"], [0], [0], 0, 0, [])
    text(c, so, "random longer ones", ["utf-8"], BYTES, UNITS, 0, 0, [], deep=(c.pick(8, 60), 100))


def X02(c):
    so = owlib.build("scoped")
    text(c, so, "long texts", ["bigencode"], [0], [0], 0, 0, [])
    text(c, so, "arguments", ["arg"], [0], [0], 0, 0, [])
    text(c, so, "random longer ones", ["utf-8"], BYTES, UNITS, 0, 0, [], deep=(c.pick(8, 60), 100))
    text(c, so, "every sequence of representative code units", ["encode"], [0], UNITS, 0, c.pick(3, 4), ["RoundTrip", "Whole"])


# ---------------------------------------------------------------- crypto
HASHES = {"SHA-1": "sha1", "SHA-256": "sha256", "SHA-384": "sha384", "SHA-512": "sha512"}


def fixed(n, salt):          # the bytes harness/js/cryptoval.js uses
    return bytes((i * 7 + n * 3 + salt) % 255 + 1 for i in range(n))


def crypto_table(edges):
    """bytes -> term, for every term the specification mentions"""
    table = {}
    for _, a, _ in edges:
        t = a["r"].split("/")
        if t[0] == "D":
            v = hashlib.new(HASHES[t[1]], fixed(int(t[2]), 1)).digest()
        elif t[0] == "H":
            v = hmac.new(fixed(int(t[2]), 2), fixed(int(t[3]), 1), HASHES[t[1]]).digest()
        elif t[0] == "P":
            v = hashlib.pbkdf2_hmac(HASHES[t[1]], fixed(int(t[2]), 2), fixed(int(t[3]), 3), int(t[4]), int(t[5]) // 8)
        else:
            continue
        assert table.setdefault(v.hex(), a["r"]) == a["r"], (a["r"], table[v.hex()])
    return script("const TABLE = " + json.dumps(table, sort_keys=True) + ";\n")


def script(text):
    """a script made for this run"""
    d = os.path.join(owlib.BUILD, "js")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, hashlib.sha256(text.encode()).hexdigest()[:16] + ".js")
    if not os.path.exists(p):
        with open(p + f".{os.getpid()}", "w") as f:
            f.write(text)
        os.rename(p + f".{os.getpid()}", p)
    return p


def crypto_values(c, so, names, lens, keys, sizes):
    t = c.model("CryptoValues", "INIT Init\nNEXT Next\nCONSTANTS\n  Names = %s\n  Lens = %s\n  KeyLens = %s\n  Sizes = %s\nVIEW View\n"
                "ACTION_CONSTRAINT Emit\nPROPERTIES SameValue NoUnknown\n" % tuple(map(setof, (names, lens, keys, sizes))), emit=True)
    g = owlib.Graph(t.edges)
    ops = [l for l, _, _ in g.out[g.init]]
    c.rng.shuffle(ops)
    paths = [ops[i:i + 100] for i in range(0, len(ops), 100)]
    env = {"setup": ["text", "crypto", crypto_table(t.edges), os.path.join(JS, "cryptoval.js")], "js": {}}
    c.replay(so, "js", env, g, 0, 0, paths=paths, note=", ".join(names), shards=4)


def C01(c):
    so = owlib.build("scoped")
    edge = sorted({0, 1, 3} | {b + d for b in (56, 64, 112, 128, 256) for d in (-1, 0, 1)} | {1000, 65536})
    crypto_values(c, so, ["digest"], c.pick(edge, list(range(0, 400)) + [1000, 65536]), [1], [1])
    crypto_values(c, so, ["hmac"], [0, 1, 55, 64, 127, 128, 1000], c.pick([1, 20, 63, 64, 65, 127, 128, 129, 200], range(1, 260)), [1])
    crypto_values(c, so, ["derive"], [1], [1], [1])
    crypto_values(c, so, ["bad"], [1], [1], [1])


def C04(c):
    so = owlib.build("scoped")
    crypto_values(c, so, ["random"], [1], [1], c.pick([0, 1, 2, 3, 7, 8, 16, 33, 255, 4096, 8193], list(range(0, 130)) + [255, 4096, 8192, 8193]))


RSA = "RSASSA-PKCS1-v1_5"


def crypto_keys():
    with open(os.path.join(JS, "keys.json")) as f:
        k = json.load(f)
    k["secret"] = {"1": "a secret of one", "2": "another secret that is longer than any block of a hash function, which is 64 or 128 bytes; this one has more than one hundred and forty"}
    k["sha256"] = [hashlib.sha256(m.encode()).hexdigest() for m in k["msgs"]]
    k["hmacsig"] = {f"{n}/{h}/{i}": hmac.new(s.encode(), m.encode(), HASHES[h]).hexdigest()
                    for n, s in k["secret"].items() for h in HASHES for i, m in enumerate(k["msgs"])}
    table = {}
    for kind, name in (("hmacsig", "H/%s/h%s/%s"), ("rsasig", "R/%s/r%s/%s")):
        for path, v in k[kind].items():
            n, h, i = path.split("/")
            table[v] = name % (h, n, i)
    return script("const KEYS = %s;\nconst TABLE = %s;\n" % (json.dumps(k, sort_keys=True), json.dumps(table, sort_keys=True)))


KEY_OPS = ["import", "generate", "sign", "given", "tamper", "verify"]


def crypto_cfg(algs, mats, hashes, msgs, nkeys, nsigs, ops, nxt="Next", emit=False):
    return ("INIT Init\nNEXT %s\nCONSTANTS\n  Algs = %s\n  Mats = %s\n  Hashes = %s\n  Msgs = %s\n  Keys = %s\n  Sigs = %s\n  OpNames = %s\n"
            % (nxt, setof(algs), setof(mats), setof(hashes), setof(msgs), setof(range(1, nkeys + 1)), setof(range(1, nsigs + 1)), setof(ops))
            + ("ACTION_CONSTRAINT Emit\n" if emit else "") + ("VIEW View\n" if emit and nxt == "Next" else "" if emit else "VIEW Seen\n")
            + "PROPERTIES Unforgeable Complete OnlySigners KeysStay\n")


def crypto(c, so, name, args, steps):
    g = owlib.Graph(c.model("Crypto", crypto_cfg(*args, emit=True), emit=True).edges)
    c.replay(so, "js", crypto_env(), g, 80, steps, note=name, shards=8)


def crypto_env():
    return {"setup": ["text", "crypto", crypto_keys(), os.path.join(JS, "crypto.js")], "js": {}}


def C02(c):
    so = owlib.build("scoped")
    # (the replayed graphs are checked too; here with the record of what was ever signed)
    for algs, mats, hashes in ((["HMAC"], ["h1", "h2"], ["SHA-256"]), (["ECDSA"], ["e1", "g1"], ["SHA-256"]), ([RSA], ["r1"], ["SHA-256"])):
        c.model("Crypto", crypto_cfg(algs, mats, hashes, c.pick([1], [1, 2]), 2, c.pick(1, 2), KEY_OPS))
    crypto(c, so, "HMAC", (["HMAC"], ["h1", "h2"], ["SHA-256", "SHA-512"], [0, 1], 2, 1, KEY_OPS), c.pick(15000, 200000))
    crypto(c, so, "ECDSA", (["ECDSA"], ["e1", "e2", "g1", "g2"], ["SHA-256"], [1, 2], 2, 1, KEY_OPS), c.pick(15000, 200000))
    crypto(c, so, "RSA", ([RSA], ["r1", "r2"], ["SHA-256", "SHA-384"], [1, 2], 2, 1, KEY_OPS), c.pick(15000, 200000))
    c.deep(so, "js", crypto_env(), "Crypto",
           crypto_cfg(["HMAC", "ECDSA", RSA], ["h1", "h2", "e1", "e2", "g1", "g2", "g3", "g4", "r1", "r2"], list(HASHES), [0, 1, 2], 5, 4, KEY_OPS, nxt="Deep", emit=True),
           c.pick(12, 100), c.pick(100, 300), note="everything, many keys", shards=8)


def C03(c):
    so = owlib.build("scoped")
    c.model("Crypto", crypto_cfg(["HMAC", RSA, "ECDSA", "PBKDF2"], ["h1", "r1", "e1"], ["SHA-256"], [1], 1, 1, KEY_OPS))
    crypto(c, so, "keys of one algorithm used with another", (["HMAC", RSA, "ECDSA", "PBKDF2"], ["h1", "r1", "e1"], ["SHA-256"], [1], 2, 1,
                                                              ["import", "sign", "given", "verify"]), c.pick(20000, 100000))
    crypto(c, so, "many keys of one algorithm", (["HMAC"], ["h1", "h2"], ["SHA-256", "SHA-512"], [1], 3, 1,
                                                 ["import", "sign", "verify"]), c.pick(20000, 100000))
    c.deep(so, "js", crypto_env(), "Crypto",
           crypto_cfg(["HMAC", "ECDSA", RSA, "PBKDF2"], ["h1", "h2", "e1", "e2", "g1", "g2", "r1", "r2"], ["SHA-256", "SHA-512"], [1, 2], 6, 3, KEY_OPS, nxt="Deep", emit=True),
           c.pick(12, 100), c.pick(150, 400), note="everything, many keys", shards=8)
