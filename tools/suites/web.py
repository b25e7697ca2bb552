"""Web APIs: spec/Entries.tla, AbortSig.tla, Clone.tla, Blob.tla, Body.tla, Form.tla."""
import os

import owlib
from suites.gc import q
from suites.sec import cfg

JS = os.path.join(owlib.HARNESS, "js")


def env(driver, **kw):
    return {"driver": os.path.join(JS, driver), **kw}


NAMES = {
    ("headers", False): ["x-a", "x-a", "set-cookie", "set-cookie", "b"],
    ("headers", True): ["www-authenticate", "proxy-authenticate", "set-cookie", "x-1", "__proto__", "constructor", "x-1"],
    True: ["", " ", "%41", "+", "1", "=", "?", "A&b=c#d", "B", "__proto__", "a", "aa", "null", "true", "undefined", "~e", "~s"],
    False: ["a", "b", "c"]}


def keys(kind, odd, width):
    if kind == "headers":
        return list(dict.fromkeys(NAMES[kind, odd][:width]))
    return NAMES[odd][:width]


def W01(c):
    so = owlib.build("full")
    every = ["append", "set", "delete", "sort", "make", "swap", "meddle", "clear"]

    def k(kind, odd, width, top, deepest):
        return {"Kind": f'"{kind}"', "Odd": str(odd).upper(), "Width": width, "Max": top, "Deepest": deepest, "OpNames": q(every)}

    for kind, width in (("headers", 5), ("form", 3), ("query", 3), ("url", 2)):
        t = c.model("Entries", cfg(k(kind, False, width, 3, c.pick(4, 5)), [], ["Apart", "Others", "SetIsOnly", "Stable"])
                    + "CONSTRAINT Within\n", emit=True)
        c.replay(so, "web", env("entries.js", kind=kind, keys=keys(kind, False, width)), owlib.Graph(t.edges), 30,
                 c.pick(6000, 60000), note=kind, shards=8)
        for nxt in ("Deep", "DeepN"):
            c.deep(so, "web", env("entries.js", kind=kind, keys=keys(kind, True, 99)), "Entries",
                   cfg(k(kind, True, 99, 40, 9)).replace("VIEW View\n", "").replace("NEXT Next", "NEXT " + nxt),
                   c.pick(3, 20), c.pick(250, 1000), note=kind + ", unusual", shards=8)
    t = c.model("Entries", cfg(k("query", False, 1, 0, 1)).replace("NEXT Next", "NEXT Parse"), emit=True)
    c.replay(so, "web", env("entries.js", kind="query", keys=[]), owlib.Graph(t.edges), 40, c.pick(8000, 80000), note="text of queries",
             shards=8)


ACTS = ["nothing", "throw", "again", "add", "drop next", "drop last", "drop self", "drop all"]


def W02(c):
    so = owlib.build("full")
    ops = ["controller", "aborted", "timeout", "listen", "unlisten", "other", "abort", "tick"]

    def k(xs, top, deepest):
        return {"Signals": q(xs), "Acts": q(ACTS), "MaxListeners": top, "Delays": "{1, 2}", "Deepest": deepest, "OpNames": q(ops)}

    t = c.model("AbortSig", cfg(k(["s1"], 3, c.pick(6, 7)), [], ["FirstReason", "Once", "InTurn"]) + "CONSTRAINT Within\n", emit=True)
    c.replay(so, "web", env("abortsig.js", signals=["s1"]), owlib.Graph(t.edges), 12, c.pick(12000, 120000), shards=8)
    xs = ["s%d" % i for i in range(5)]
    for nxt in ("Deep", "DeepN"):
        c.deep(so, "web", env("abortsig.js", signals=xs), "AbortSig",
               cfg(k(xs, 12, 9)).replace("VIEW View\n", "").replace("NEXT Next", "NEXT " + nxt),
               c.pick(40, 400), c.pick(60, 80), note="many", shards=8)


def W03(c):
    so = owlib.build("full")
    ops = ["make", "view", "put", "write", "clone", "clone value"]
    kinds = ["object", "instance", "bare", "array", "map", "set", "date", "nodate", "regexp", "buffer", "error", "typeerror", "function",
             "promise", "weakmap", "number", "string", "boolean"]
    views = ["u8", "u8 part", "u8 none", "u16", "f64", "big", "clamped", "i8", "dv", "dv part"]
    tokens = ["undefined", "null", "true", "one", "nan", "minuszero", "text", "big", "symbol", "hole"]

    def k(ks, vs, ts, keys, made, nodes, entries, deepest):
        return {"Kinds": q(ks), "Views": q(vs), "Tokens": q(ts), "Keys": q(keys), "MaxMade": made, "MaxNodes": nodes, "MaxEntries": entries,
                "Deepest": deepest, "OpNames": q(ops)}

    for note, ks, vs, ts, keys, made, depth in (
            ("links", ["object", "array", "map", "set"], [], ["one"], ["a"], 3, c.pick(5, 6)),
            ("kinds", kinds, [], ["one", "symbol"], ["a"], 2, 4),
            ("values", kinds[:6], [], tokens, ["a", "p"], 1, 4),
            ("views", ["buffer", "array"], views, ["one"], ["a"], 3, c.pick(5, 6))):
        t = c.model("Clone", cfg(k(ks, vs, ts, keys, made, 8, 2, depth), [], ["Apart", "OneByOne"]) + "CONSTRAINT Within\n", emit=True)
        c.replay(so, "web", env("clone.js"), owlib.Graph(t.edges), 10, c.pick(12000, 120000), note=note, shards=8)
    c.deep(so, "web", env("clone.js"), "Clone",
           cfg(k(kinds[:13] + kinds[15:], views, tokens[:8] + ["hole"], ["a", "b", "p", "c", "e"], 14, c.pick(24, 50), 6, 9))
           .replace("VIEW View\n", "").replace("NEXT Next", "NEXT Deep"), c.pick(80, 600), c.pick(50, 80), note="many", shards=8)


def W04(c):
    so = owlib.build("full")

    def k(xs, texts, starts, parts, top, deepest, ops):
        return {"Names": q(xs), "Texts": q(texts), "Starts": "{" + ", ".join(map(str, starts)) + "}", "Widths": "{}", "MaxParts": parts,
                "MaxBytes": top, "Deepest": deepest, "OpNames": q(ops)}

    one = env("blob.js", names=["x"])
    for note, texts, starts, parts, depth, ops in (
            ("parts", ["a", "e2", "s1", "null", "12", "nothing"], [], 2, c.pick(3, 4), ["make any", "read", "write"]),
            ("slices", ["e2"], [0, 1, 2, 3, 9], 1, 4, ["make any", "slice", "read", "write"])):
        t = c.model("Blob", cfg(k(["x"], texts, starts, parts, 9, depth, ops), [], ["Fixed"]) + "CONSTRAINT Within\n", emit=True)
        c.replay(so, "web", one, owlib.Graph(t.edges), 8, c.pick(9000, 90000), note=note, shards=8)
    xs = ["x", "y", "z"]
    c.deep(so, "web", env("blob.js", names=xs), "Blob",
           cfg(k(xs, ["a", "e2", "s1", "null", "12"], [0, 1, 2, 3, 5, 8, 20], 3, 60, 9, ["make", "slice some", "read", "write"]))
           .replace("VIEW View\n", "").replace("NEXT Next", "NEXT Deep"), c.pick(80, 800), c.pick(60, 80), note="many", shards=8)


def W05(c):
    so = owlib.build("full")

    def k(btoa, atob):
        return {"Units": "{0, 49, 63, 128, 255, 256, 55357}", "Chars": "{65, 122, 57, 43, 47, 45, 95, 61, 32, 10, 33, 160, 233, 321}", "MaxBtoa": btoa,
                "MaxAtob": atob, "Longest": 40}

    t = c.model("Base64", cfg(k(3, c.pick(3, 4)), [], ["Back", "Bytes"]), emit=True)
    c.replay(so, "web", env("base64.js"), owlib.Graph(t.edges), 100, c.pick(6000, 60000), shards=8)
    c.deep(so, "web", env("base64.js"), "Base64", cfg(k(0, 0)).replace("VIEW View\n", "").replace("NEXT Next", "NEXT Deep"),
           c.pick(40, 400), 100, note="long", shards=8)


def W06(c):
    so = owlib.build("full")
    every = ["make", "stream", "feed", "close", "fail", "clone", "share", "consume", "read", "cancel", "lock", "unlock"]
    chunks = ["u8", "sub", "buf", "dv", "u16", "str", "half", "rest", "open", "close", "num", "empty", "null"]

    ls = ["nothing", "split", "views", "texts", "few"]
    given = ["none", "text", "u8", "blob", "params", "empty", "json"]

    def k(xs, cs, given, ls, feed, made, deepest, ops=every):
        return {"Names": q(xs), "Chunks": q(cs), "Given": q(given), "Lists": q(ls), "MaxFeed": feed, "MaxMade": made, "Deepest": deepest,
                "OpNames": q(ops)}

    two = ["x", "y"]
    for note, cs, gs, lists, ops, depth in (
            ("forms", [], given, ls, ["make", "stream", "clone", "consume", "read", "lock"], 5),
            ("live", ["str", "dv"], [], ["nothing", "split"], [o for o in every if o != "make"], c.pick(5, 6))):
        t = c.model("Body", cfg(k(two, cs, gs, lists, 3, 1, depth, ops), ["Waits", "OnePending"], ["Once"]) + "CONSTRAINT Within\n", emit=True)
        c.replay(so, "web", env("body.js", names=two), owlib.Graph(t.edges), 12, c.pick(12000, 120000), note=note, shards=8)
    xs = ["x%d" % i for i in range(8)]
    for nxt in ("Deep", "DeepN"):
        c.deep(so, "web", env("body.js", names=xs), "Body", cfg(k(xs, chunks, given, ls, 6, 30, 9)).replace("VIEW View\n", "")
               .replace("NEXT Next", "NEXT " + nxt), c.pick(60, 600), c.pick(60, 80), note="many", shards=8)


def W07(c):
    so = owlib.build("full")
    names = ["a", "b", "e", "quote", "lines", "semi", "name", "empty", "slash"]
    texts = ["plain", "empty", "line", "after", "header", "dashes", "delims", "equals", "bom"]
    contents = texts + ["inline", "longer", "lf", "start", "bytes"]
    heads = ["text", "lower", "unquoted", "padded", "file", "file first", "no type", "no file", "other"]
    files = ["n", "quote", "lines", "e", "empty", "other"]

    def k(ns, ts, cs, fs, hs, entries, deepest):
        return {"FieldNames": q(ns), "Texts": q(ts), "Contents": q(cs), "FileNames": q(fs), "Types": '{"", "x/y"}', "Heads": q(hs),
                "MaxEntries": entries, "MaxParts": 5, "Deepest": deepest}

    def run(nxt, consts, note, props=(), steps=0):
        t = c.model("Form", cfg(consts, [], list(props)).replace("NEXT Next", "NEXT " + nxt), emit=True)
        c.replay(so, "web", env("form.js"), owlib.Graph(t.edges), 30, steps, note=note, shards=8)

    run("Trip", k(["a", "quote"], ["plain", "line"], ["bytes"], ["n", "quote"], heads, 2, 9), "forms", ["Sent"], c.pick(5000, 50000))
    run("Trip", k(names, texts, contents, files, heads, 1, 9), "names and contents", ["Sent"], c.pick(5000, 50000))
    run("Raw", k(["a", "quote", "name", "empty"], texts, ["plain", "empty", "after", "inline", "longer", "lf", "start", "delims"], files, heads, 0, 9),
        "texts", ["Cut"], c.pick(8000, 80000))
    for nxt in ("DeepTrip", "DeepRaw"):
        c.deep(so, "web", env("form.js"), "Form", cfg(k(names, texts, [x for x in contents if x != "bytes" or nxt == "DeepTrip"], files, heads, 12, 9))
               .replace("VIEW View\n", "").replace("NEXT Next", "NEXT " + nxt), c.pick(40, 400), c.pick(50, 80), note=nxt, shards=8)


def W08(c):
    so = owlib.build("full")
    bases = ["bare", "bareq", "baref", "root", "file", "dir", "port", "port80", "port443", "noport", "both", "user", "pass", "colons", "odd", "dots",
             "ip6", "ip6bare", "case", "db", "esc"]
    refs = ["empty", "query", "noquery", "frag", "root", "abs", "absq", "absdots", "rel", "reldir", "dot", "dotr", "up", "upr", "upup", "mid",
            "dotted", "relq", "colon", "later", "net", "netpath", "full"]
    parts = ["protocol", "host", "hostname", "port", "username", "password", "pathname", "search", "hash"]
    every = ["new", "bad", "based", "ref", "both", "copy", "reparse", "badhref", "href", "set", "add"]

    def k(bs, rs, ps, steps, path, ops=every):
        return {"Bases": q(bs), "Refs": q(rs), "Parts": q(ps), "MaxSteps": steps, "MaxPath": path, "OpNames": q(ops)}

    def go(name, args, steps):
        t = c.model("Url", cfg(k(*args), ["Rooted"], ["OnlyThat"]) + "CONSTRAINT Within\n", emit=True)
        c.replay(so, "web", env("url.js"), owlib.Graph(t.edges), 40, steps, note=name, shards=8)
    go("texts and references", (bases, refs, [], c.pick(1, 2), 5), c.pick(20000, 200000))
    go("parts changed", (["bare", "file", "both", "port443", "ip6", "db"], ["upr", "query"], parts, c.pick(2, 3), 5), c.pick(20000, 200000))
    c.deep(so, "web", env("url.js"), "Url", cfg(k(bases, refs, parts, 999, 99)).replace("VIEW View\n", "").replace("NEXT Next", "NEXT Deep"),
           c.pick(30, 300), 100, note="long", shards=8)
