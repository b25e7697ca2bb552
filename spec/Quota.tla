------------------------------- MODULE Quota -------------------------------
(* The memory quota of array buffers (src/security/array_buffer_allocator.rs).

   An allocation succeeds exactly when it fits into what the live buffers leave of
   the quota; a refused one takes nothing and raises the flag the host looks at.   *)
EXTENDS Naturals, FiniteSets, TLC, Json

CONSTANTS Top, Slots, Amounts
VARIABLES s, act
vars == <<s, act>>
None == 99999999

Init0 == [buf |-> [x \in Slots |-> None], hit |-> FALSE]

RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0
               ELSE LET x == CHOOSE y \in S : TRUE
                    IN (IF f[x] = None THEN 0 ELSE f[x]) + Total(f, S \ {x})
Used(st) == Total(st.buf, DOMAIN st.buf)

Ops(st) ==
  { op \in
    { [op |-> "alloc", x |-> x, n |-> n, zero |-> z] : x \in Slots, n \in Amounts, z \in BOOLEAN }
    \union { [op |-> "free", x |-> x] : x \in Slots }
    \union { [op |-> "clear"] }
    : /\ op.op = "alloc" => st.buf[op.x] = None
      /\ op.op = "free" => st.buf[op.x] # None
      /\ op.op = "clear" => st.hit }

Do(st, op) ==
  CASE op.op = "alloc" -> IF Used(st) + op.n <= Top
                          THEN [st |-> [st EXCEPT !.buf[op.x] = op.n], r |-> "ok"]
                          ELSE [st |-> [st EXCEPT !.hit = TRUE], r |-> "refused"]
    [] op.op = "free"  -> [st |-> [st EXCEPT !.buf[op.x] = None], r |-> "ok"]
    [] op.op = "clear" -> [st |-> [st EXCEPT !.hit = FALSE], r |-> "ok"]

Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) ==
          LET o == Do(s, op)
          IN s' = o.st /\ act' = [op |-> op, r |-> [res |-> o.r, used |-> Used(o.st), hit |-> o.st.hit]]
Next == \E op \in Ops(s) : Act(op)
Deep == \E op \in {RandomElement(Ops(s))} : Act(op)    \* random walks (simulation)
DeepN == LET ops == Ops(s) IN
  \E n \in {RandomElement({ o.op : o \in ops })} : \E op \in {RandomElement({ o \in ops : o.op = n })} : Act(op)
Spec == Init /\ [][Next]_vars
View == s
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))

(* ---- properties *)
Bounded == Used(s) <= Top
Refused == [][ act'.r.res = "refused" => s'.buf = s.buf /\ s'.hit ]_vars
FlagOnly == [][ (s'.hit /\ ~s.hit) => act'.r.res = "refused" ]_vars

(* ---- concurrent histories *)
LSteps0(st, op, pc) == LET o == Do(st, op) IN { [st |-> o.st, pc |-> "done", r |-> o.r] }
LEnd0(st, r) == r.used = Used(st) /\ r.hit = st.hit
=============================================================================
