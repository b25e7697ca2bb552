"""StreamManager: spec/StreamManager.tla."""
import owlib

ALL = ["create", "try_write", "write", "poll_write", "cancel_write", "read", "poll_read",
       "cancel_read", "close", "clear", "take", "recv", "drop_taken"]


def cfg(max_id, cap, writers, readers, kinds, ops, writes, invs=(), props=(), emit=False, view=True):
    s = lambda xs: "{" + ", ".join(f'"{x}"' if isinstance(x, str) else str(x) for x in xs) + "}"
    t = "INIT Init\nNEXT Next\n"
    if view:
        t += "VIEW View\n"
    t += (f"CONSTANTS\n  MaxId = {max_id}\n  Cap = {cap}\n  Writers = {s(range(1, writers + 1))}\n"
          f"  Readers = {s(range(11, 11 + readers))}\n  Kinds = {s(kinds)}\n  OpNames = {s(ops)}\n"
          f"  MaxWrites = {writes}\n")
    if invs:
        t += "INVARIANTS " + " ".join(invs) + "\n"
    if props:
        t += "PROPERTIES " + " ".join(props) + "\n"
    if emit:
        t += "ACTION_CONSTRAINT Emit\n"
    return t


def go(c, so, name, args, invs, props, length, steps, walks=40):
    """Checks the properties on the specification, then replays its behaviours on the code."""
    if invs or props:
        c.model("StreamManager", cfg(*args, invs=invs, props=props, view=False))
    t = c.model("StreamManager", cfg(*args, emit=True), emit=True)
    g = owlib.Graph(t.edges)
    c.replay(so, "sm", {"cap": args[1], "max": args[0]}, g, length, steps, walks=walks,
             walk_len=length, note=name)



SIZES = [7, 0, 1, 30, 65537, 16385, 1048577]     # lengths of the chunks' payloads


def sized(o):
    """What the harness reports of a chunk whose payload is short: not which one it was."""
    r = o["r"]
    if r["k"] == "data" and SIZES[r["v"] % len(SIZES)] < 5:
        return {**o, "r": {"k": "data", "v": "%d bytes" % SIZES[r["v"] % len(SIZES)]}}
    return o


def long(c, so, name, args, num, depth, invs=()):
    base = cfg(*args, invs=invs, emit=True, view=False)
    for nxt in ("Deep", "DeepN"):
        c.deep(so, "sm", {"cap": args[1], "max": args[0], "sizes": SIZES}, "StreamManager",
               base.replace("NEXT Next", "NEXT " + nxt), num, depth, note=name, alter=sized)


NOTAKE = [o for o in ALL if o not in ("take", "recv", "drop_taken")]
ONE = [o for o in NOTAKE if o != "clear"]


def S01(c):
    """In order, without loss or repetition."""
    so = owlib.build("scoped")
    go(c, so, "manager reads", (1, 2, 2, 1, ["data", "done"], ONE, c.pick(4, 6)),
       ["Fifo", "NothingLost"], [], 60, c.pick(40000, 400000))
    go(c, so, "consumer took the receiver", (1, 2, 2, 1, ["data", "error"], [o for o in ALL if o != "clear"], c.pick(3, 5)),
       ["Fifo", "NothingLost"], [], 60, c.pick(40000, 400000))
    long(c, so, "payloads of several sizes", (1, 5, 3, 1, ["data"], ["create", "try_write", "write", "poll_write", "read", "poll_read"], 100000),
         c.pick(2, 20), c.pick(300, 1500))
    if c.thorough:
        go(c, so, "three writers", (1, 1, 3, 1, ["data"], ALL, 5), ["Fifo", "NothingLost"], [], 80, 400000)


def S02(c):
    """Backpressure."""
    so = owlib.build("scoped")
    ops = ["create", "try_write", "write", "poll_write", "cancel_write", "read", "poll_read", "take", "recv"]
    for cap in c.pick([1, 3], [1, 2, 3, 4]):
        go(c, so, f"capacity {cap}", (1, cap, 2, 1, ["data"], ops, cap + c.pick(4, 5)),
           ["Bounded", "WaitForRoom"], [], 60, c.pick(25000, 300000))
    go(c, so, "default capacity", (1, 16, 1, 1, ["data"], ["create", "try_write", "write", "poll_write", "read"], 22),
       ["Bounded", "WaitForRoom"], [], 120, c.pick(20000, 200000))
    go(c, so, "a buffer of hundreds", (1, 300, 1, 1, ["data"], ["create", "try_write"], 302), ["Bounded"], [], 400, 5000, walks=0)
    long(c, so, "large buffer, many writers", (1, 40, 9, 2, ["data"], ops + ["cancel_read"], 100000), c.pick(2, 20), c.pick(300, 1500))


def S03(c):
    """Terminal chunks end the stream."""
    so = owlib.build("scoped")
    go(c, so, "terminal chunks", (1, 3, 1, 2, ["data", "done", "error"], NOTAKE, c.pick(3, 5)),
       ["TerminalLast"], ["ReadAfterTerminal"], 60, c.pick(60000, 400000))


def S04(c):
    """Closing, a consumer that goes away, reads and writes dropped in flight."""
    so = owlib.build("scoped")
    go(c, so, "close", (1, 1, 2, 2, ["data", "done"], ALL, c.pick(3, 5)),
       ["ClosedIsDead"], ["NoticesGone"], 60, c.pick(60000, 400000))


def S05(c):
    """Two requests on one manager."""
    so = owlib.build("scoped")
    go(c, so, "two streams", (2, 1, 1, 1, ["data"], ["create", "try_write", "write", "poll_write", "read", "poll_read", "cancel_read", "close", "clear"], 2),
       ["Fifo", "ClosedIsDead"], ["FreshId"], 60, c.pick(60000, 400000))
    go(c, so, "thousands of streams in between", (2, 2, 1, 1, ["data"], ["create", "try_write", "read", "close", "burst"], 1),
       ["Fifo", "ClosedIsDead"], ["FreshId"], 60, c.pick(2000, 20000), walks=0)
    long(c, so, "many streams", (40, 2, 4, 4, ["data", "done"], ALL, 100000), c.pick(2, 10), c.pick(250, 800), ["ClosedIsDead"])
    if c.thorough:
        go(c, so, "three streams", (3, 1, 1, 1, ["data"], ["create", "try_write", "read", "poll_read", "close", "clear", "take", "recv"], 2),
           ["Fifo", "ClosedIsDead"], ["FreshId"], 60, 400000)


PUMP = ["pump", "send", "end", "read", "poll_read", "cancel_read", "close", "clear"]


def pump(c, so, n, cap, body_cap, sends, ops, steps, invs):
    def cfg(emit):
        t = "INIT Init\nNEXT Next\n"
        t += "VIEW View\nACTION_CONSTRAINT Emit\n" if emit else "INVARIANTS " + " ".join(invs) + "\n"
        return t + ("CONSTANTS\n  Bodies = {%s}\n  Cap = %d\n  BodyCap = %d\n  MaxSend = %d\n  Long = 0\n  OpNames = {%s}\n"
                    % (", ".join(str(i + 1) for i in range(n)), cap, body_cap, sends,
                       ", ".join(f'"{o}"' for o in ops)))
    c.model("Pump", cfg(False))
    t = c.model("Pump", cfg(True), emit=True)
    g = owlib.Graph(t.edges)
    c.replay(so, "pump", {"cap": cap, "max": n, "body_cap": body_cap}, g, 60, steps, walks=40, walk_len=60,
             note=f"{n} bodies, stream capacity {cap}")


def pump_long(c, so, cap, num, depth):
    """Long bodies whose chunks have payloads of several sizes."""
    for nxt in ("Deep", "DeepN"):
        t = ("INIT Init\nNEXT %s\nACTION_CONSTRAINT Emit\nCONSTANTS\n  Bodies = {1, 2}\n  Cap = %d\n  BodyCap = 3\n"
             "  MaxSend = 100000\n  Long = 30\n  OpNames = {\"pump\", \"send\", \"read\", \"poll_read\", \"end\"}\nINVARIANTS Fidelity DoneMeansAll OneTerminal\n" % (nxt, cap))
        c.deep(so, "pump", {"cap": cap, "max": 2, "body_cap": 3, "sizes": SIZES}, "Pump", t, num, depth,
               note="long bodies, several sizes", alter=sized)


PINV = ["Fidelity", "DoneMeansAll", "ErrorMeansError", "OneTerminal", "Stops"]


def S06(c):
    """A request body reaches the request completely and only its own."""
    so = owlib.build("scoped")
    pump(c, so, 1, 1, 2, c.pick(3, 5), PUMP, c.pick(30000, 200000), PINV)
    pump(c, so, 1, 2, 2, c.pick(4, 6), PUMP, c.pick(30000, 200000), PINV)
    if c.thorough:
        pump(c, so, 2, 1, 2, 2, PUMP, 600000, PINV)
    else:
        pump(c, so, 2, 1, 1, 1, PUMP, 60000, PINV)
    pump_long(c, so, 2, c.pick(6, 40), c.pick(160, 400))
    pump_long(c, so, 40, c.pick(2, 10), c.pick(300, 600))
