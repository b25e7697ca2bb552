---------------------------- MODULE TurnCrowd ----------------------------
(* The turn queue (AsyncWaiter) under a crowd: requests arrive by the thousand and
   are numbered as they come; whoever is woken polls at once, so the queue is always
   a run of consecutive numbers. The order of service is the order of arrival, at
   any length of the queue.                                                        *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Sizes,     \* how many come, or are served, at a time
          Max        \* bound of the exploration on arrivals

VARIABLES s, act
vars == <<s, act>>

Init0 == [next |-> 1,         \* the number the next arrival gets
          taken |-> FALSE,
          first |-> 1,        \* the first in the queue (if any)
          n |-> 0]            \* how many queue

Come(st, k) ==
  LET got == IF st.taken THEN 0 ELSE 1
  IN [s |-> [next |-> st.next + k, taken |-> TRUE,
             first |-> IF st.n = 0 THEN st.next + got ELSE st.first,
             n |-> st.n + k - got],
      got |-> got, from |-> 0, upto |-> 0, woken |-> 0]

(* k times: the holder gives the turn back, whoever is woken polls. *)
Serve(st, k) ==
  LET m == IF k <= st.n THEN k ELSE st.n                      \* of them, that wake somebody
      st1 == [st EXCEPT !.first = @ + m, !.n = @ - m, !.taken = k <= st.n]
  IN [s |-> IF st1.n = 0 THEN [st1 EXCEPT !.first = 1] ELSE st1,
      got |-> m, woken |-> m, from |-> IF m = 0 THEN 0 ELSE st.first,
      upto |-> IF m = 0 THEN 0 ELSE st.first + m - 1]

Norm(o) == IF o.s.n = 0 THEN [o EXCEPT !.s.first = 1] ELSE o

Ops(st) == { [op |-> "come", k |-> k] : k \in { x \in Sizes : st.next + x <= Max } }
           \union { [op |-> "serve", k |-> k] : k \in { x \in Sizes : st.taken /\ x <= st.n + 1 } }
           \union (IF st.taken THEN {[op |-> "serve", k |-> st.n + 1]} ELSE {})
Do(st, op) == Norm(IF op.op = "come" THEN Come(st, op.k) ELSE Serve(st, op.k))

Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) == LET o == Do(s, op) IN
  /\ s' = o.s
  /\ act' = [op |-> op, r |-> [got |-> o.got, woken |-> o.woken, from |-> o.from, upto |-> o.upto,
                               free |-> ~o.s.taken, qlen |-> o.s.n]]
Next == \E op \in Ops(s) : Act(op)
View == s
Bound == TLCGet("level") <= 6
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))

(* Nobody is left behind, and nobody is served twice or before an earlier arrival. *)
Accounted == s.n > 0 => /\ s.taken /\ s.first + s.n = s.next
FreeMeansEmpty == ~s.taken => s.n = 0
InOrder == [][ (act'.op.op = "serve" /\ act'.r.woken > 0) => act'.r.from = s.first ]_vars
==========================================================================
