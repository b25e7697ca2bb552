"""Limits: spec/Quota.tla, HeapLimit.tla, TimeoutGuard.tla, CpuEnforcer.tla."""
import owlib
from suites.gc import conc, q


def cfg(consts, invs=(), props=()):
    t = "INIT Init\nNEXT Next\nVIEW View\nACTION_CONSTRAINT Emit\nCONSTANTS\n"
    t += "".join(f"  {k} = {v}\n" for k, v in consts.items())
    if invs:
        t += "INVARIANTS " + " ".join(invs) + "\n"
    if props:
        t += "PROPERTIES " + " ".join(props) + "\n"
    return t


def quota(c, so, top, slots, amounts, unit, length, steps, note):
    t = c.model("Quota", cfg({"Top": top, "Slots": q(slots), "Amounts": q(amounts)},
                             ["Bounded"], ["Refused", "FlagOnly"]), emit=True)
    c.replay(so, "quota", {"max": top, "unit": unit}, owlib.Graph(t.edges), length, steps, walks=30,
             walk_len=length, note=note)


def M01(c):
    so = owlib.build("scoped")
    quota(c, so, 5, ["x1", "x2", "x3"], [0, 1, 2, 5, 6, 1999999998, 2000000000], 1, 60, c.pick(40000, 300000), "bytes")
    quota(c, so, 4, ["x1", "x2"], [1, 3, 4, 5], 3000001, 60, c.pick(600, 6000), "megabytes")
    quota(c, so, 0, ["x1", "x2"], [0, 1], 1, 60, 2000, "no quota")
    xs, ns = [f"x{i}" for i in range(30)], [0, 1, 7, 8, 9, 64, 100, 127, 128, 500, 1000, 1001, 4095, 4096, 4097, 9998, 10000, 10001]
    for nxt in ("Deep", "DeepN"):
        c.deep(so, "quota", {"max": 10000, "unit": 1}, "Quota",
               cfg({"Top": 10000, "Slots": q(xs), "Amounts": q(ns)}, ["Bounded"]).replace("VIEW View\n", "")
               .replace("NEXT Next", "NEXT " + nxt), c.pick(2, 20), c.pick(400, 2000), note="many buffers")
    A = lambda x, n, z=True: {"op": "alloc", "x": x, "n": n, "zero": z}
    F = lambda x: {"op": "free", "x": x}
    conc(c, so, "quota_conc", "LinQuota", [
        {"before": [A("x1", 4)], "threads": [[A("x2", 4)], [A("x3", 4, False)], [F("x1")]]},
        {"before": [], "threads": [[A("x1", 6)], [A("x2", 6)], [A("x3", 4)]]},
        {"before": [A("x4", 6)], "threads": [[A("x1", 7), A("x1", 4)], [F("x4"), A("x2", 4, False)]]},
        {"before": [A("x4", 2)], "threads": [[A("x1", 11), A("x1", 3)], [A("x2", 5), F("x2")]]},
    ], c.pick(4, 8), c.pick(3000, 40000), c.pick(300, 4000))


def M02(c):
    so = owlib.build("scoped")
    isos = ["A", "B"]
    t = c.model("HeapLimit", cfg({"Isolates": q(isos), "Limits": q([0, 1, 32, 64, 66, 4096]),
                                  "MaxCount": c.pick(3, 4)}, [], ["Safe", "Others"]), emit=True)
    c.replay(so, "near", {"isolates": isos}, owlib.Graph(t.edges), 60, c.pick(8000, 40000), walks=10, walk_len=8)


def T01(c):
    so = owlib.build("scoped")
    g, isos = ["g1", "g2"], ["A", "B"]
    t = c.model("TimeoutGuard", cfg({"Guards": q(g), "Isolates": q(isos), "Limits": q([0, 1, 2, 3, 99]),
                                     "MaxTime": 3}, [], ["Once", "OnlyLate"]), emit=True)
    c.replay(so, "wall", {"guards": g, "isolates": isos, "unit": 100}, owlib.Graph(t.edges), 30,
             c.pick(5000, 60000), shards=32, confirm=2)


def T02(c):
    so = owlib.build("scoped")
    e, th = ["e1", "e2"], ["t1", "t2"]
    ops = ["new", "drop", "reset", "burn", "burnall", "sleep"]
    t = c.model("CpuEnforcer", cfg({"Enforcers": q(e), "Threads": q(th), "Limits": q([0, 1, 2]),
                                    "MaxTime": 3, "OpNames": q(ops), "Own": "FALSE"}, [], ["OwnWork", "Once"]), emit=True)
    c.replay(so, "cpu", {"enforcers": e, "threads": th, "unit": 40}, owlib.Graph(t.edges), 30,
             c.pick(2500, 30000), shards=8, confirm=2)
    # many limits reached at the same time
    e = ["t%d" % i for i in range(40)]
    c.deep(so, "cpu", {"enforcers": e, "threads": e, "unit": 40, "all": 4}, "CpuEnforcer",
           cfg({"Enforcers": q(e), "Threads": q(e), "Limits": q([1]), "MaxTime": 999,
                "OpNames": q(["newall", "burnall", "dropall"]), "Own": "TRUE"}).replace("VIEW View\n", "").replace("NEXT Next", "NEXT Deep"),
           c.pick(1, 10), c.pick(20, 60), note="many at once", shards=1)
    # limits of more than a second
    e = ["t1", "t2", "t3", "t4"]
    t = c.model("CpuEnforcer", cfg({"Enforcers": q(e), "Threads": q(e), "Limits": q([1, 2]), "MaxTime": 3,
                                    "OpNames": q(["newall", "burnall", "reset"]), "Own": "TRUE"}), emit=True)
    na, b = owlib.canon({"op": "newall", "k": 2}), owlib.canon({"op": "burnall"})
    rs = lambda k, x="t1": owlib.canon({"op": "reset", "x": x, "t": x, "k": k})
    c.replay(so, "cpu", {"enforcers": e, "threads": e, "unit": 1300, "all": 1}, owlib.Graph(t.edges), 0, 0,
             paths=[[na, b, b], [na, b, rs(2), rs(2, "t3"), b, b]], note="limits of more than a second", shards=1, confirm=2)


def T03(c):
    so = owlib.build("scoped")
    ops = ["work", "wait", "now", "break", "mend", "start", "read"]
    k = lambda th, xs, secs, nanos, bound, names=ops: {
        "Threads": q(th), "Timers": q(xs), "Secs": q(secs), "Nanos": q(nanos), "Bound": bound, "OpNames": q(names)}
    t = c.model("CpuTime", cfg(k(["t1", "t2"], ["x1", "x2"], [0, 1], [0, 999999999], c.pick(6, 7)), ["Measured"],
                               ["Forward", "OwnWork"]) + "CONSTRAINT Within\n", emit=True)
    c.replay(so, "cputime", {"threads": ["t1", "t2"]}, owlib.Graph(t.edges), 30, c.pick(8000, 60000), walks=c.pick(100, 1000),
             walk_len=30)
    th, xs = ["t%d" % i for i in range(4)], ["x%d" % i for i in range(6)]
    for nxt in ("Deep", "DeepN"):
        c.deep(so, "cputime", {"threads": th}, "CpuTime",
               cfg(k(th, xs, [0, 1, 4, 59, 4294, 18446744], [0, 1, 294967295, 294967296, 500000000, 709551616, 999999999], 9))
               .replace("VIEW View\n", "").replace("NEXT Next", "NEXT " + nxt), c.pick(3, 20), c.pick(300, 1000), note="long times")


def V01(c):
    so = owlib.build("scoped")
    ops = ["make", "write", "move", "drop", "gc"]
    k = lambda xs, sizes, made: {"Names": q(xs), "Sizes": q(sizes), "MaxMade": made, "OpNames": q(ops)}
    t = c.model("Buffers", cfg(k(["b1", "b2"], [0, 1, 3, 1000], 3), ["Distinct"], ["Apart"]), emit=True)
    c.replay(so, "buffers", {"names": ["b1", "b2"]}, owlib.Graph(t.edges), 30, c.pick(4000, 40000), shards=4)
    xs = ["b%d" % i for i in range(6)]
    for nxt in ("Deep", "DeepN"):
        c.deep(so, "buffers", {"names": xs}, "Buffers",
               cfg(k(xs, [0, 1, 2, 7, 8, 64, 255, 256, 4095, 4096, 65535, 65536, 65537, 300001], 120))
               .replace("VIEW View\n", "").replace("NEXT Next", "NEXT " + nxt), c.pick(2, 10), c.pick(150, 300), note="sizes")
