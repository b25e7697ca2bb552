"""External memory, locks, deferred destruction: spec/ExternalMemory.tla, Deferred.tla, Traceable.tla."""
import owlib


def q(xs):
    return "{" + ", ".join(f'"{x}"' if isinstance(x, str) else str(x) for x in xs) + "}"


MEM = ["ext", "pend", "amt", "live"]
EM_OPS = ["lock", "unlock", "new", "adjust", "set", "drop"]


def em_cfg(isos, threads, guards, amounts, deltas, depth, ops, see, invs=(), props=(), emit=False, below=()):
    t = (f"INIT Init\nNEXT Next\nVIEW View\nCONSTANTS\n  Isolates = {q(isos)}\n  Threads = {q(threads)}\n"
         f"  Guards = {q(guards)}\n  Amounts = {q(amounts)}\n  Deltas = {q(deltas)}\n  Below = {q(below)}\n"
         f"  MaxDepth = {depth}\n  MaxPend = 6\n  OpNames = {q(ops)}\n  See = {q(see)}\n")
    if invs:
        t += "INVARIANTS " + " ".join(invs) + "\n"
    if props:
        t += "PROPERTIES " + " ".join(props) + "\n"
    if emit:
        t += "ACTION_CONSTRAINT Emit\n"
    return t


def em(c, so, isos, threads, guards, amounts, deltas, depth, ops, see, invs, props, length, steps, note=None, below=(), unit=1):
    a = (isos, threads, guards, amounts, deltas, depth, ops, see)
    t = c.model("ExternalMemory", em_cfg(*a, invs=invs, props=props, emit=True, below=below), emit=True)
    g = owlib.Graph(t.edges)
    c.replay(so, "em", {"isolates": isos, "threads": threads, "guards": guards, "see": see, "unit": unit}, g, length, steps,
             walks=40, walk_len=length, note=note)


LIN = "CONSTANT LState0 <- State0\nCONSTANT LSteps <- Steps0\nCONSTANT LEnd <- End0\n"


def conc(c, so, suite, module, programs, preempt, limit, random_runs):
    rc, lines, err = owlib.run_json(so, suite, {
        "seed": c.seed, "preempt": preempt, "limit": limit, "random": random_runs,
        "programs": programs}, timeout=600)
    hists = [x["h"] for x in lines if "h" in x]
    for x in lines:
        if "bad" in x:
            c.violation({"what": "threads", "detail": x["bad"]})
        if "hang" in x:
            c.violation({"what": "threads", "detail": "hang"})
    runs = [x for x in lines if "runs" in x]
    if not runs and not c.violations:
        c.violation({"what": "threads", "detail": f"the process ended ({rc})", "stderr": err[-800:]})
        return
    if runs:
        c.cov["schedules"] = {"executions": runs[0]["runs"], "exhaustive_within_bound": runs[0]["complete"],
                              "preemption_bound": preempt, "distinct_histories": len(hists)}
    c.histories(module, LIN, hists, what="concurrent history")


def G01(c):
    so = owlib.build("scoped")
    em(c, so, ["A", "B"], ["t1"], ["g1"], [0, 3, 5], [2, 3, 5], 2, EM_OPS, MEM, ["Balance"], ["Settled", "Direct"],
       60, c.pick(60000, 300000), "two isolates, nested locks")
    em(c, so, ["A"], ["t1", "t2"], ["g1", "g2"], [0, 3], [3], 1, EM_OPS, MEM, ["Balance"], ["Settled", "Direct"],
       60, c.pick(40000, 300000), "two threads, large amounts", unit=(1 << 31) + 11)
    em(c, so, ["A", "B"], ["t1"], ["g1"], [0, 3], [3, 4], 2, EM_OPS, MEM, ["Balance"], ["Settled", "Direct"],
       60, c.pick(20000, 100000), "amounts below zero", below=[1, 4], unit=1000000000007)
    L = {"op": "lock", "t": "t1", "i": "A"}
    U = {"op": "unlock", "t": "t1"}

    def before(*gs):
        return ([{"op": "lock", "t": "t0", "i": "A"}]
                + [{"op": "new", "t": "t0", "x": g, "n": n} for g, n in gs]
                + [{"op": "unlock", "t": "t0"}])
    drop = lambda t, x: {"op": "drop", "t": t, "x": x}
    adj = lambda t, x, d: {"op": "adjust", "t": t, "x": x, "d": d}
    conc(c, so, "em_conc", "LinExternalMemory", [
        {"before": before(("g1", 3), ("g2", 5)), "threads": [[L, U, L, U], [drop("t2", "g1")], [drop("t3", "g2")]]},
        {"before": before(("g1", 3), ("g2", 5)), "threads": [[L, U], [adj("t2", "g1", 4), drop("t2", "g1")], [adj("t3", "g2", -2)]]},
    ], c.pick(3, 5), c.pick(1500, 30000), c.pick(200, 3000))
    em_many(c, so)


def em_many(c, so):
    isos, th, gs = ["A", "B"], ["t1", "t2"], [f"g{i}" for i in range(16)]
    base = em_cfg(isos, th, gs, [0, 3, 8, 4096, 70000, 2000000], [3, 5, 4088, 65904, 1930000], 3, EM_OPS, MEM,
                  ["Balance"], emit=True).replace("VIEW View\n", "").replace("MaxPend = 6", "MaxPend = 900000000")
    for nxt in ("Deep", "DeepN"):
        c.deep(so, "em", {"isolates": isos, "threads": th, "guards": gs, "see": MEM}, "ExternalMemory",
               base.replace("NEXT Next", "NEXT " + nxt), c.pick(1, 10), c.pick(200, 1500), note="many guards")


def G02(c):
    so = owlib.build("scoped")
    em(c, so, ["A", "B", "C"], ["t1"], [], [0], [1], c.pick(4, 5), ["lock", "unlock"], ["cur"], [], ["Settled"],
       60, c.pick(30000, 200000), "nesting of three isolates' locks")
    em(c, so, ["A", "B"], ["t1", "t2"], [], [0], [1], 3, ["lock", "unlock"], ["cur"], [], ["Settled"],
       60, c.pick(30000, 200000), "two threads")
    em(c, so, ["A", "B"], ["t1", "t2"], ["g1"], [0, 3], [3], c.pick(1, 2), EM_OPS, ["cur", "ext", "pend"], ["Balance"],
       ["Settled", "Direct"], 60, c.pick(40000, 300000), "locking settles what other threads deferred")


def dq_cfg(queues, handles, threads, ops, props=(), emit=False):
    t = (f"INIT Init\nNEXT Next\nVIEW View\nCONSTANTS\n  Queues = {q(queues)}\n  Threads = {q(threads)}\n"
         f"  Handles = {q(handles)}\n  OpNames = {q(ops)}\n")
    if props:
        t += "PROPERTIES " + " ".join(props) + "\n"
    if emit:
        t += "ACTION_CONSTRAINT Emit\n"
    return t


def dq(c, so, queues, handles, threads, ops, length, steps, note=None, many=1):
    t = c.model("Deferred", dq_cfg(queues, handles, threads, ops,
                                   ["OnlyWhenProcessed", "Processed", "Others"], emit=True), emit=True)
    g = owlib.Graph(t.edges)
    c.replay(so, "dq", {"queues": queues, "handles": handles, "threads": threads, "many": many}, g, length, steps,
             walks=60 if many == 1 else 0, walk_len=length, note=note)


def G03(c):
    so = owlib.build("scoped")
    dq(c, so, ["q1", "q2"], ["h1", "h2", "h3"], ["t1", "t2"], ["defer", "process", "dropq", "newq"],
       80, c.pick(40000, 200000), "two queues, two threads")
    dq(c, so, ["q1"], [f"h{i}" for i in range(1, c.pick(10, 13))], ["t1"], ["defer", "process"],
       80, c.pick(40000, 300000), "many handles")
    hs = [f"h{i}" for i in range(150)]
    for nxt, n in (("Deep", 400), ("DeepN", 300)):
        c.deep(so, "dq", {"queues": ["q1", "q2"], "handles": hs, "threads": ["t1", "t2"]}, "Deferred",
               dq_cfg(["q1", "q2"], hs, ["t1", "t2"], ["defer", "process"], emit=True)
               .replace("VIEW View\n", "").replace("NEXT Next", "NEXT " + nxt), c.pick(1, 6), c.pick(n, 1200),
               note="150 handles")
    dq(c, so, ["q1"], ["h1", "h2", "h3"], ["t1"], ["defer", "process"], 80, 600, "thousands of handles", many=3001)
    D = lambda h: {"op": "defer", "h": h}
    P, N = {"op": "process"}, {"op": "len"}
    conc(c, so, "dq_conc", "LinDeferred", [
        {"handles": 3, "threads": [[D(1)], [D(2), D(3)], [P, P]]},
        {"handles": 2, "threads": [[D(1), N], [D(2)], [P, N]]},
        {"handles": 3, "threads": [[D(1), D(2)], [D(3)], [N, P, N, P]]},
    ], c.pick(4, 6), c.pick(3000, 40000), c.pick(400, 6000))


def tr(c, so, depth, sizes, ops, invs, props, length, steps, note=None):
    cfg = (f"INIT Init\nNEXT Next\nVIEW View\nCONSTANTS\n  Sizes = {q(sizes)}\n  Depth = {depth}\n"
           f"  OpNames = {q(ops)}\nACTION_CONSTRAINT Emit\n")
    if invs:
        cfg += "INVARIANTS " + " ".join(invs) + "\n"
    if props:
        cfg += "PROPERTIES " + " ".join(props) + "\n"
    t = c.model("Traceable", cfg, emit=True)
    g = owlib.Graph(t.edges)
    c.replay(so, "trace", {}, g, length, steps, walks=40 if len(ops) > 1 else 0, walk_len=length, note=note)


def G04(c):
    so = owlib.build("scoped")
    tr(c, so, 2, c.pick([0, 3], [0, 3, 16, 33]), ["size"], [], [], 400, c.pick(60000, 300000), "sizes of nested values")
    tr(c, so, 0, [0], ["track", "guard", "mutate", "update", "inner", "drop", "lock", "unlock"],
       ["Balance", "Nothing"], ["Measured"], 80, 40000, "a tracked value's life")
