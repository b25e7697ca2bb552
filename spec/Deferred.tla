------------------------------ MODULE Deferred ------------------------------
(* Handles whose destruction is deferred (src/gc/deferred_destruction.rs).

   Any thread may hand a V8 handle to the queue of its isolate. The handle is
   destroyed when that queue is processed (or itself goes away), by the thread that
   does so, and at no other moment.                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Queues, Handles, Threads, OpNames
RECURSIVE SetAsSeq(_)
SetAsSeq(S) == IF S = {} THEN <<>>
               ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SetAsSeq(S \ {x})
VARIABLES s, act
vars == <<s, act>>
Free == "free"

Init0 == [at |-> [h \in Handles |-> Free],      \* the queue a handle waits in
          open |-> Queues]
In(st, q) == { h \in Handles : st.at[h] = q }

Ops(st) ==
  { op \in
    { [op |-> "defer", t |-> t, q |-> q, h |-> h] : t \in Threads, q \in Queues, h \in Handles }
    \union { [op |-> n, t |-> t, q |-> q] : n \in {"process", "dropq", "newq"}, t \in Threads, q \in Queues }
    : /\ op.op \in OpNames
      /\ (op.op = "newq") # (op.q \in st.open)
      /\ op.op = "defer" => st.at[op.h] = Free }

Do(st, op) ==
  CASE op.op = "defer"   -> [st EXCEPT !.at[op.h] = op.q]
    [] op.op = "newq"    -> [st EXCEPT !.open = @ \union {op.q}]
    [] op.op = "process" -> [st EXCEPT !.at = [h \in Handles |-> IF @[h] = op.q THEN Free ELSE @[h]]]
    [] op.op = "dropq"   -> [st EXCEPT !.at = [h \in Handles |-> IF @[h] = op.q THEN Free ELSE @[h]],
                                       !.open = @ \ {op.q}]

Observe(st, t, op) ==
  [gone |-> [h \in Handles |-> IF st.at[h] # Free /\ t.at[h] = Free THEN op.t ELSE "no"],
   len |-> [q \in Queues |-> IF q \in t.open THEN Cardinality(In(t, q)) ELSE 0],
   pending |-> [q \in Queues |-> In(t, q) # {}]]

Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) ==
          LET t == Do(s, op)
          IN s' = t /\ act' = [op |-> op, r |-> Observe(s, t, op)]
Next == \E op \in Ops(s) : Act(op)
Deep == \E op \in {RandomElement(Ops(s))} : Act(op)    \* random walks (simulation)
DeepN == LET ops == Ops(s) IN
  \E n \in {RandomElement({ o.op : o \in ops })} : \E op \in {RandomElement({ o \in ops : o.op = n })} : Act(op)
Spec == Init /\ [][Next]_vars
View == s
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))

(* ---- properties *)
OnlyWhenProcessed == [][ \A h \in Handles :
  (s.at[h] # Free /\ s'.at[h] # s.at[h]) => act'.op.op \in {"process", "dropq"} /\ act'.op.q = s.at[h] ]_vars
Processed == [][ act'.op.op = "process" => In(s', act'.op.q) = {} ]_vars
Others == [][ \A q \in Queues : (q # act'.op.q) => In(s', q) = In(s, q) ]_vars

(* ---- concurrent histories: one queue, one thread at a time processes it *)
LState0 == [q |-> {}, must |-> {}, gone |-> {}]
LSteps0(st, op, pc) ==
  CASE op.op = "defer" -> { [st |-> [st EXCEPT !.q = @ \union {op.h}], pc |-> "done", r |-> <<>>] }
    [] op.op = "len" ->     \* those being destroyed may still count
       { [st |-> st, pc |-> "done", r |-> n] : n \in Cardinality(st.q)..(Cardinality(st.q) + Cardinality(st.gone)) }
    [] op.op = "process" /\ pc = "start" ->
       { [st |-> [st EXCEPT !.must = st.q, !.gone = {}], pc |-> "run", r |-> "none"] }
    [] op.op = "process" /\ pc = "run" ->
       { [st |-> [st EXCEPT !.q = @ \ {h}, !.gone = @ \union {h}], pc |-> "run", r |-> "none"] : h \in st.q }
       \union (IF st.must \subseteq st.gone
               THEN { [st |-> [st EXCEPT !.must = {}, !.gone = {}], pc |-> "done", r |-> SetAsSeq(st.gone)] } ELSE {})
LEnd0(st, r) == r = SetAsSeq(st.q)
=============================================================================
