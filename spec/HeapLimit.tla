----------------------------- MODULE HeapLimit -----------------------------
(* What happens when V8's heap comes near its limit (src/security/heap_limit.rs).

   Each protected isolate has a flag. Near its limit the isolate's execution is
   terminated, its flag is raised, and V8 is given room to unwind: a limit above
   the current one. Nothing happens to other isolates.                             *)
EXTENDS Naturals, FiniteSets, TLC, Json

CONSTANTS Isolates, Limits, MaxCount
VARIABLES s, act
vars == <<s, act>>

Init0 == [hit |-> [i \in Isolates |-> FALSE], n |-> [i \in Isolates |-> 0]]
Ops(st) ==
  { op \in { [op |-> "near", i |-> i, cur |-> c] : i \in Isolates, c \in Limits }
           \union { [op |-> "clear", i |-> i] : i \in Isolates }
    : /\ op.op = "near" => st.n[op.i] < MaxCount
      /\ op.op = "clear" => st.hit[op.i] }
Do(st, op) == IF op.op = "near" THEN [st EXCEPT !.hit[op.i] = TRUE, !.n[op.i] = @ + 1]
              ELSE [st EXCEPT !.hit[op.i] = FALSE]
Observe(st, t, op) ==
  [hit |-> t.hit, n |-> t.n,
   ended |-> [i \in Isolates |-> op.op = "near" /\ i = op.i],      \* terminated in this step
   room |-> op.op = "near"]                                        \* the new limit is above the current one
Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) ==
          LET t == Do(s, op) IN s' = t /\ act' = [op |-> op, r |-> Observe(s, t, op)]
Next == \E op \in Ops(s) : Act(op)
Deep == \E op \in {RandomElement(Ops(s))} : Act(op)    \* random walks (simulation)
DeepN == LET ops == Ops(s) IN
  \E n \in {RandomElement({ o.op : o \in ops })} : \E op \in {RandomElement({ o \in ops : o.op = n })} : Act(op)
Spec == Init /\ [][Next]_vars
View == s
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))
Safe == [][ act'.op.op = "near" => act'.r.room /\ act'.r.ended[act'.op.i] /\ s'.hit[act'.op.i] ]_vars
Others == [][ \A i \in Isolates : i # act'.op.i => s'.hit[i] = s.hit[i] /\ ~act'.r.ended[i] ]_vars
=============================================================================
