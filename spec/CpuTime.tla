------------------------------ MODULE CpuTime ------------------------------
(* How much CPU time a piece of work took (src/security/cpu_timer.rs). Each thread has
   a clock of its own that advances while the thread works, not while it waits and
   not while others work. A timer tells how far the clock of its thread has come since
   it was started. Times are <<seconds, nanoseconds>>.                            *)
EXTENDS Integers, FiniteSets, TLC, Json

CONSTANTS Threads, Timers, Secs, Nanos, Bound, OpNames
VARIABLES s, act
vars == <<s, act>>

G == 1000000000
Zero == <<0, 0>>
Plus(a, b) == IF a[2] + b[2] >= G THEN <<a[1] + b[1] + 1, a[2] + b[2] - G>> ELSE <<a[1] + b[1], a[2] + b[2]>>
Minus(a, b) == IF a[2] < b[2] THEN <<a[1] - b[1] - 1, a[2] - b[2] + G>> ELSE <<a[1] - b[1], a[2] - b[2]>>
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

None == "none"
Init0 == [cpu |-> [t \in Threads |-> Zero], idle |-> Zero,
          dead |-> [t \in Threads |-> FALSE],              \* the clock cannot be read
          x |-> [i \in Timers |-> [t |-> None, at |-> Zero]]]

Steps == { <<a, b>> : a \in Secs, b \in Nanos } \ {Zero}
Ops(st) ==
  { op \in
    { [op |-> "work", t |-> t, d |-> d] : t \in Threads, d \in Steps }
    \union { [op |-> "wait", d |-> d] : d \in Steps }
    \union { [op |-> o, t |-> t] : o \in {"now", "break", "mend"}, t \in Threads }
    \union { [op |-> "start", t |-> t, x |-> x] : t \in Threads, x \in Timers }
    \union { [op |-> "read", t |-> st.x[x].t, x |-> x] : x \in { y \in Timers : st.x[y].t # None } }
    : /\ op.op \in OpNames
      /\ op.op = "start" => ~st.dead[op.t]
      /\ op.op = "break" => ~st.dead[op.t]
      /\ op.op = "mend" => st.dead[op.t] }

Do(st, op) ==
  CASE op.op = "work" -> [st EXCEPT !.cpu[op.t] = Plus(@, op.d)]
    [] op.op = "wait" -> [st EXCEPT !.idle = Plus(@, op.d)]
    [] op.op = "break" -> [st EXCEPT !.dead[op.t] = TRUE]
    [] op.op = "mend" -> [st EXCEPT !.dead[op.t] = FALSE]
    [] op.op = "start" -> [st EXCEPT !.x[op.x] = [t |-> op.t, at |-> st.cpu[op.t]]]
    [] OTHER -> st

(* A clock that cannot be read: no time is known, and a timer has measured none. *)
Tell(st, op) ==
  CASE op.op = "now" -> [time |-> IF st.dead[op.t] THEN <<>> ELSE st.cpu[op.t]]
    [] op.op = "read" -> [time |-> IF st.dead[op.t] THEN Zero ELSE Minus(st.cpu[op.t], st.x[op.x].at)]
    [] OTHER -> [time |-> <<>>]

Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) == s' = Do(s, op) /\ act' = [op |-> op, r |-> Tell(s, op)]
Next == \E op \in Ops(s) : Act(op)
Deep == \E op \in {RandomElement(Ops(s))} : Act(op)
DeepN == LET ops == Ops(s) IN
  \E n \in {RandomElement({ o.op : o \in ops })} : \E op \in {RandomElement({ o \in ops : o.op = n })} : Act(op)
View == s
Within == TLCGet("level") <= Bound
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))

(* A timer never goes back and counts only its own thread's work. *)
OwnWork == [][ act'.op.op \in {"wait"} => s'.cpu = s.cpu ]_vars
Forward == [][ \A t \in Threads : ~Less(s'.cpu[t], s.cpu[t]) ]_vars
Measured == \A i \in Timers : s.x[i].t # None => ~Less(s.cpu[s.x[i].t], s.x[i].at)
=============================================================================
