--------------------------- MODULE ExternalMemory ---------------------------
(* Memory outside V8's heap, reported to the isolate it belongs to (src/gc).

   A guard stands for some bytes. Created, changed or dropped by a thread that has
   the lock of an isolate, it reports to that isolate; once it belongs to an isolate
   every later change goes there, deferred if that isolate is not the one the thread
   works on; deferred changes are applied when the isolate is locked the next time.
   A guard made without any lock belongs to no isolate until it is first changed
   under one.                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Isolates, Threads, Guards, Amounts, Deltas,
          Below,      \* how far below zero amounts go
          MaxDepth, OpNames,
          MaxPend,    \* bound of the exploration on what is deferred
          See         \* what a check looks at

VARIABLES s, act
vars == <<s, act>>
None == "none"

Init0 == [ext  |-> [i \in Isolates |-> 0],           \* reported to V8
          pend |-> [i \in Isolates |-> 0],           \* deferred
          locks |-> [t \in Threads |-> <<>>],        \* isolates locked, innermost last
          g |-> [x \in Guards |-> [live |-> FALSE, amt |-> 0, iso |-> None]]]

Cur(st, t) == IF st.locks[t] = <<>> THEN None ELSE st.locks[t][Len(st.locks[t])]
Has(st, t, i) == \E k \in 1..Len(st.locks[t]) : st.locks[t][k] = i

(* The guard's isolate i learns of d more bytes, from thread t: at once if t works on i. *)
Report(st, t, i, d) ==
  IF d = 0 \/ i = None THEN { st }
  ELSE IF Cur(st, t) = i THEN { [st EXCEPT !.ext[i] = @ + d] }
  ELSE { [st EXCEPT !.pend[i] = @ + d] }
       \union (IF Has(st, t, i) THEN { [st EXCEPT !.ext[i] = @ + d] } ELSE {})

New(st, t, x, n) ==
  Report([st EXCEPT !.g[x] = [live |-> TRUE, amt |-> n, iso |-> Cur(st, t)]], t, Cur(st, t), n)

Adjust(st, t, x, d) ==
  LET c == Cur(st, t)
      g == st.g[x]
  IN IF d = 0 THEN { st }
     ELSE IF g.iso = None
     THEN Report([st EXCEPT !.g[x].amt = @ + d, !.g[x].iso = c], t, c, g.amt + d)
     ELSE Report([st EXCEPT !.g[x].amt = @ + d], t, g.iso, d)

Drop(st, t, x) ==
  Report([st EXCEPT !.g[x] = [live |-> FALSE, amt |-> 0, iso |-> None]], t, st.g[x].iso, -(st.g[x].amt))

Lock(st, t, i) ==
  { [st EXCEPT !.ext[i] = @ + st.pend[i], !.pend[i] = 0, !.locks[t] = Append(@, i)] }
Unlock(st, t) == { [st EXCEPT !.locks[t] = SubSeq(@, 1, Len(@) - 1)] }

All == Amounts \union { -b : b \in Below }
Free(st, t, i) == \A u \in Threads \ {t} : ~Has(st, u, i)

Ops(st) ==
  { op \in
    { [op |-> "lock", t |-> t, i |-> i] : t \in Threads, i \in Isolates }
    \union { [op |-> "unlock", t |-> t] : t \in Threads }
    \union { [op |-> "new", t |-> t, x |-> x, n |-> n] : t \in Threads, x \in Guards, n \in All }
    \union { [op |-> "adjust", t |-> t, x |-> x, d |-> d] : t \in Threads, x \in Guards, d \in Deltas \union { -e : e \in Deltas } }
    \union { [op |-> "set", t |-> t, x |-> x, n |-> n] : t \in Threads, x \in Guards, n \in All }
    \union { [op |-> "drop", t |-> t, x |-> x] : t \in Threads, x \in Guards }
    : /\ op.op \in OpNames
      /\ op.op = "lock" => Len(st.locks[op.t]) < MaxDepth /\ Free(st, op.t, op.i)
      /\ op.op = "unlock" => st.locks[op.t] # <<>>
      /\ op.op = "new" => ~st.g[op.x].live
      /\ op.op \in {"adjust", "set", "drop"} => st.g[op.x].live
      /\ op.op = "adjust" => st.g[op.x].amt + op.d \in All }

Do(st, op) ==
  CASE op.op = "lock"   -> Lock(st, op.t, op.i)
    [] op.op = "unlock" -> Unlock(st, op.t)
    [] op.op = "new"    -> New(st, op.t, op.x, op.n)
    [] op.op = "adjust" -> Adjust(st, op.t, op.x, op.d)
    [] op.op = "set"    -> Adjust(st, op.t, op.x, op.n - st.g[op.x].amt)
    [] op.op = "drop"   -> Drop(st, op.t, op.x)

Observe(st) == [f \in See |->
  CASE f = "ext"  -> st.ext
    [] f = "pend" -> st.pend
    [] f = "live" -> [x \in Guards |-> st.g[x].live]
    [] f = "amt"  -> [x \in Guards |-> st.g[x].amt]
    [] f = "cur"  -> [t \in Threads |-> Cur(st, t)]]

Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Bound(st) == \A i \in Isolates : st.pend[i] <= MaxPend /\ -(st.pend[i]) <= MaxPend
Can(st) == { o \in Ops(st) : \A t \in Do(st, o) : Bound(t) }
Act(op) == \E t \in Do(s, op) : s' = t /\ act' = [op |-> op, r |-> Observe(t)]
Next == \E op \in Can(s) : Act(op)
Deep == \E op \in {RandomElement(Can(s))} : Act(op)    \* random walks (simulation)
DeepN == LET ops == Can(s) IN
  \E n \in {RandomElement({ o.op : o \in ops })} : \E op \in {RandomElement({ o \in ops : o.op = n })} : Act(op)
Spec == Init /\ [][Next]_vars
View == s
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))

(* ---- properties *)
RECURSIVE Sum(_, _)
Sum(S, i) == IF S = {} THEN 0
             ELSE LET x == CHOOSE y \in S : TRUE
                  IN (IF s.g[x].live /\ s.g[x].iso = i THEN s.g[x].amt ELSE 0) + Sum(S \ {x}, i)
(* What an isolate has been told or will be told is what its guards stand for. *)
Balance == \A i \in Isolates : s.ext[i] + s.pend[i] = Sum(Guards, i)
(* Taking the lock settles what was deferred. *)
Settled == [][ act'.op.op = "lock" => s'.pend[act'.op.i] = 0 ]_vars
(* Nothing is deferred by a thread that works on the guard's isolate. *)
Direct == [][ \A i \in Isolates : (act'.op.op # "lock" /\ Cur(s, act'.op.t) = i) => s'.pend[i] = s.pend[i] ]_vars

(* ---- concurrent histories: a call takes effect in one step *)
LSteps0(st, op, pc) == { [st |-> x, pc |-> "done", r |-> "ok"] : x \in Do(st, op) }
LEnd0(st, r) == r.ext = st.ext /\ r.pend = st.pend
=============================================================================
