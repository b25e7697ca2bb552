"""AsyncWaiter: spec/AsyncWaiter.tla."""
import owlib

BASE = """INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
CONSTANTS
  Clients = {%s}
  MaxQueue = %d
  Abandon = %s
  Spurious = %s
"""
PROPS = "INVARIANTS %s\n"


def cfg(n, q, invs, props, abandon=False, spurious=True, emit=False):
    t = BASE % (", ".join('"c%d"' % i for i in range(n)), q,
                str(abandon).upper(), str(spurious).upper())
    if invs:
        t += "INVARIANTS " + " ".join(invs) + "\n"
    if props:
        t += "PROPERTIES " + " ".join(props) + "\n"
    if emit:
        t += "ACTION_CONSTRAINT Emit\n"
    return t


def explore(c, so, programs, preempt, limit, random_runs):
    rc, lines, err = owlib.run_json(so, "aw_conc", {
        "seed": c.seed, "preempt": preempt, "limit": limit, "random": random_runs,
        "programs": programs}, timeout=600)
    hists = [x["h"] for x in lines if "h" in x]
    for x in lines:
        if "bad" in x:
            c.violation({"what": "threads", "detail": x["bad"]})
        if "hang" in x:
            c.violation({"what": "threads", "detail": "hang"})
    runs = [x for x in lines if "runs" in x]
    if not runs and not c.violations:
        c.violation({"what": "threads", "detail": f"the process ended ({rc})", "stderr": err[-800:]})
        return
    if runs:
        c.cov["schedules"] = {"executions": runs[0]["runs"], "exhaustive_within_bound": runs[0]["complete"],
                              "preemption_bound": preempt, "distinct_histories": len(hists)}
    c.histories("LinAsyncWaiter",
                "CONSTANT LState0 <- State0\nCONSTANT LSteps <- Steps0\nCONSTANT LEnd <- End0\n",
                hists, what="concurrent history")


def sequential(c, so, invs, props, n, q, steps, length):
    t = c.model("AsyncWaiter", cfg(n, q, invs, props, emit=True), emit=True)
    g = owlib.Graph(t.edges)
    c.replay(so, "aw", {}, g, length, steps, walks=c.pick(40, 1000), walk_len=c.pick(60, 200))


def many(c, so, invs, props, n):
    """Long random behaviours with many requests."""
    base = cfg(n, 100000, invs, props, spurious=False, emit=True).replace("VIEW View\nCONSTRAINT Bound\n", "")
    for nxt in ("Deep", "DeepN"):
        c.deep(so, "aw", {}, "AsyncWaiter", base.replace("NEXT Next", "NEXT " + nxt), c.pick(2, 20), c.pick(500, 2000),
               note=f"{n} requests")


def crowd(c, so):
    """Requests by the thousand."""
    t = c.model("TurnCrowd", "INIT Init\nNEXT Next\nVIEW View\nCONSTANTS\n  Sizes = {1, 2, 500, 3000}\n"
                f"  Max = {c.pick(7000, 20000)}\nINVARIANTS Accounted FreeMeansEmpty\nPROPERTIES InOrder\n"
                "CONSTRAINT Bound\nACTION_CONSTRAINT Emit\n", emit=True)
    c.replay(so, "aw_crowd", {}, owlib.Graph(t.edges), 12, c.pick(600, 4000), walks=c.pick(10, 100), walk_len=20,
             note="thousands of requests")


def A01(c):
    so = owlib.build("scoped")
    sequential(c, so, ["Mutex"], [], 3, 4, c.pick(20000, 200000), 60)
    explore(c, so, [[["a"], ["b"], ["c"]], [["a", "a"], ["b", "b"]]], c.pick(2, 4), c.pick(1500, 40000), c.pick(200, 5000))


def A02(c):
    so = owlib.build("scoped")
    sequential(c, so, [], ["FifoWake", "OnlyUnlockWakes"], 4, c.pick(3, 5), c.pick(30000, 400000), 80)
    many(c, so, [], ["FifoWake", "OnlyUnlockWakes"], 100)
    crowd(c, so)


def A03(c):
    so = owlib.build("scoped")
    c.model("AsyncWaiter", cfg(4, c.pick(4, 6), ["Registered", "NoLostWakeup"], [], spurious=True))
    sequential(c, so, ["Registered", "NoLostWakeup"], [], 3, 4, c.pick(20000, 200000), 60)
    explore(c, so, [[["a"], ["b"]], [["a"], ["b"], ["c"]], [["a", "a"], ["b"]]],
            c.pick(3, 5), c.pick(2000, 60000), c.pick(200, 5000))
    many(c, so, ["Registered", "NoLostWakeup"], [], 60)
