---------------------------- MODULE CpuEnforcer ----------------------------
(* CPU limits (src/security/cpu_enforcer.rs). An enforcer counts the CPU time of the
   thread that made it; after k units it terminates its isolate once. Waiting and
   other threads' work do not count. Reset starts a new budget.                    *)
EXTENDS Naturals, Integers, FiniteSets, TLC, Json

CONSTANTS Threads, Enforcers, Limits, MaxTime, OpNames,
          Own           \* whether each thread has an enforcer of its own (of the same name)
VARIABLES s, act
vars == <<s, act>>
Off == -1

Init0 == [e |-> [x \in Enforcers |-> [live |-> FALSE, left |-> Off, hit |-> FALSE, t |-> "none"]], now |-> 0]

Ops(st) ==
  { op \in
    { [op |-> "new", x |-> x, t |-> t, k |-> k] : x \in Enforcers, t \in Threads, k \in Limits }
    \union { [op |-> "drop", x |-> x, t |-> t] : x \in Enforcers, t \in Threads }
    \union { [op |-> "reset", x |-> x, t |-> t, k |-> k] : x \in Enforcers, t \in Threads, k \in Limits }
    \union { [op |-> o, t |-> t] : o \in {"burn", "sleep"}, t \in Threads }
    \union { [op |-> "burnall"] }                  \* every thread at the same time
    \union { [op |-> "newall", k |-> k] : k \in Limits \ {0} } \union { [op |-> "dropall"] }
    : /\ op.op \in OpNames
      /\ op.op = "newall" => \A x \in Enforcers : ~st.e[x].live
      /\ op.op = "dropall" => \A x \in Enforcers : st.e[x].live
      /\ (Own /\ op.op \in {"new", "drop", "reset"}) => op.t = op.x
      /\ op.op = "new" => ~st.e[op.x].live
      /\ op.op \in {"drop", "reset"} => st.e[op.x].live
      /\ op.op \in {"burn", "burnall", "sleep"} => st.now < MaxTime }

Burns(st, op, x) == op.op = "burnall" \/ (op.op = "burn" /\ st.e[x].t = op.t)
Fires(st, op, x) == Burns(st, op, x) /\ st.e[x].live /\ st.e[x].left = 1
Arm(k) == IF k = 0 THEN Off ELSE k
Do(st, op) ==
  CASE op.op = "newall" -> [st EXCEPT !.e = [x \in Enforcers |-> [live |-> TRUE, left |-> op.k, hit |-> FALSE, t |-> x]]]
    [] op.op = "dropall" -> Init0
    [] op.op = "new"   -> IF op.k = 0 THEN st       \* no limit, no enforcer
                          ELSE [st EXCEPT !.e[op.x] = [live |-> TRUE, left |-> op.k, hit |-> FALSE, t |-> op.t]]
    [] op.op = "drop"  -> [st EXCEPT !.e[op.x] = [live |-> FALSE, left |-> Off, hit |-> FALSE, t |-> "none"]]
    [] op.op = "reset" -> [st EXCEPT !.e[op.x].left = Arm(op.k), !.e[op.x].hit = FALSE]
    [] op.op = "sleep" -> [st EXCEPT !.now = @ + 1]
    [] op.op \in {"burn", "burnall"} -> [st EXCEPT !.now = @ + 1,
         !.e = [x \in Enforcers |-> IF st.e[x].live /\ Burns(st, op, x) /\ st.e[x].left > 0
                                    THEN [st.e[x] EXCEPT !.left = IF @ = 1 THEN Off ELSE @ - 1, !.hit = (st.e[x].left = 1) \/ @]
                                    ELSE st.e[x]]]

Observe(st, t, op) ==
  [live |-> [x \in Enforcers |-> t.e[x].live],
   hit |-> [x \in Enforcers |-> t.e[x].hit],
   ended |-> [x \in Enforcers |-> IF Fires(st, op, x) THEN 1 ELSE 0]]
Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) ==
          LET t == Do(s, op) IN s' = t /\ act' = [op |-> op, r |-> Observe(s, t, op)]
Next == \E op \in Ops(s) : Act(op)
Deep == \E op \in {RandomElement(Ops(s))} : Act(op)    \* random walks (simulation)
DeepN == LET ops == Ops(s) IN
  \E n \in {RandomElement({ o.op : o \in ops })} : \E op \in {RandomElement({ o \in ops : o.op = n })} : Act(op)
Spec == Init /\ [][Next]_vars
View == s
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))
(* ---- properties *)
OwnWork == [][ \A x \in Enforcers : (s'.e[x].hit /\ ~s.e[x].hit) => Burns(s, act'.op, x) ]_vars
Once == [][ \A x \in Enforcers : s.e[x].hit => act'.r.ended[x] = 0 ]_vars
=============================================================================
