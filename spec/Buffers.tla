------------------------------ MODULE Buffers ------------------------------
(* Bytes handed to scripts (src/v8_helpers.rs): an ArrayBuffer made of a Rust vector
   has exactly its bytes, as its own, for as long as the script has it; the memory is
   given back once when it is gone.
   A buffer of n bytes made as the k-th has a pattern that tells n and k; first and last
   are what the script has written at its ends since.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, Sizes, MaxMade, OpNames
VARIABLES s, act
vars == <<s, act>>

Gone == [n |-> 0, k |-> 0, end |-> 0, live |-> FALSE]
Init0 == [b |-> [x \in Names |-> Gone], made |-> 0]

Ops(st) ==
  { op \in
    { [op |-> "make", x |-> x, n |-> n, room |-> r] : x \in Names, n \in Sizes, r \in {0, 1, 3000} }
    \union { [op |-> "write", x |-> x, v |-> 200 + st.b[x].end] : x \in Names }
    \union { [op |-> o, x |-> x] : o \in {"drop", "move"}, x \in Names }
    \union { [op |-> "gc"] }
    : /\ op.op \in OpNames
      /\ op.op = "make" => ~st.b[op.x].live /\ st.made < MaxMade
      /\ op.op = "write" => st.b[op.x].live /\ st.b[op.x].end < 2 /\ st.b[op.x].n > 0
      /\ op.op \in {"drop", "move"} => st.b[op.x].live }

Do(st, op) ==
  CASE op.op = "make" -> [st EXCEPT !.b[op.x] = [n |-> op.n, k |-> st.made + 1, end |-> 0, live |-> TRUE], !.made = @ + 1]
    [] op.op = "write" -> [st EXCEPT !.b[op.x].end = @ + 1]
    [] op.op = "drop" -> [st EXCEPT !.b[op.x] = Gone]
    [] OTHER -> st

See(b) == IF b.live THEN [n |-> b.n, k |-> IF b.n = 0 \/ (b.end > 0 /\ b.n <= 2) THEN 0 ELSE b.k,
                          end |-> IF b.end = 0 THEN 0 ELSE 199 + b.end]
          ELSE [n |-> 0, k |-> 0, end |-> 0]
Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) == LET t == Do(s, op) IN
  /\ s' = t
  /\ act' = [op |-> op, r |-> [b |-> [x \in Names |-> See(t.b[x])], leaked |-> 0]]
Next == \E op \in Ops(s) : Act(op)
Deep == \E op \in {RandomElement(Ops(s))} : Act(op)
DeepN == LET ops == Ops(s) IN
  \E n \in {RandomElement({ o.op : o \in ops })} : \E op \in {RandomElement({ o \in ops : o.op = n })} : Act(op)
View == s
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))

(* What is done to one buffer shows in no other. *)
Apart == [][ \A x \in Names : ("x" \notin DOMAIN act'.op \/ act'.op.x # x) => s'.b[x] = s.b[x] ]_vars
Distinct == \A x, y \in Names : (x # y /\ s.b[x].live /\ s.b[y].live) => s.b[x].k # s.b[y].k
=============================================================================
