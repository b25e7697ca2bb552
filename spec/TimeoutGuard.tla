---------------------------- MODULE TimeoutGuard ----------------------------
(* Wall-clock limits (src/security/timeout_guard.rs). A guard made with a limit of k
   units terminates its isolate once, after k units, unless it is dropped before;
   0 is no limit. The clock is looked at between two units.                        *)
EXTENDS Naturals, Integers, FiniteSets, TLC, Json

CONSTANTS Guards, Isolates, Limits, MaxTime
VARIABLES s, act
vars == <<s, act>>
Off == -1

Init0 == [g |-> [x \in Guards |-> [live |-> FALSE, left |-> Off, hit |-> FALSE, i |-> "none"]], now |-> 0]

Ops(st) ==
  { op \in
    { [op |-> "new", x |-> x, i |-> i, k |-> k] : x \in Guards, i \in Isolates, k \in Limits }
    \union { [op |-> "drop", x |-> x] : x \in Guards }
    \union { [op |-> "tick"] }
    : /\ op.op = "new" => ~st.g[op.x].live
      /\ op.op = "drop" => st.g[op.x].live
      /\ op.op = "tick" => st.now < MaxTime }

Fires(st, op, x) == op.op = "tick" /\ st.g[x].live /\ st.g[x].left = 1
Do(st, op) ==
  CASE op.op = "new"  -> [st EXCEPT !.g[op.x] = [live |-> TRUE, left |-> IF op.k = 0 THEN Off ELSE op.k, hit |-> FALSE, i |-> op.i]]
    [] op.op = "drop" -> [st EXCEPT !.g[op.x] = [live |-> FALSE, left |-> Off, hit |-> FALSE, i |-> "none"]]
    [] op.op = "tick" -> [st EXCEPT !.now = @ + 1,
         !.g = [x \in Guards |-> IF st.g[x].live /\ st.g[x].left > 0
                                 THEN [st.g[x] EXCEPT !.left = IF @ = 1 THEN Off ELSE @ - 1, !.hit = (st.g[x].left = 1)]
                                 ELSE st.g[x]]]

Observe(st, t, op) ==
  [hit |-> [x \in Guards |-> t.g[x].hit],
   ended |-> [i \in Isolates |-> Cardinality({ x \in Guards : Fires(st, op, x) /\ st.g[x].i = i })]]
Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) ==
          LET t == Do(s, op) IN s' = t /\ act' = [op |-> op, r |-> Observe(s, t, op)]
Next == \E op \in Ops(s) : Act(op)
Deep == \E op \in {RandomElement(Ops(s))} : Act(op)    \* random walks (simulation)
DeepN == LET ops == Ops(s) IN
  \E n \in {RandomElement({ o.op : o \in ops })} : \E op \in {RandomElement({ o \in ops : o.op = n })} : Act(op)
Spec == Init /\ [][Next]_vars
View == s
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))
(* ---- properties *)
Once == [][ \A x \in Guards : (s.g[x].hit /\ s'.g[x].live) => s'.g[x].hit /\ ~Fires(s, act'.op, x) ]_vars
OnlyLate == [][ \A i \in Isolates : act'.r.ended[i] > 0 => act'.op.op = "tick" ]_vars
=============================================================================
