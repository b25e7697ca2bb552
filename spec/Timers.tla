------------------------------ MODULE Timers ------------------------------
(* setTimeout, setInterval, clearTimeout, clearInterval of a worker
   (src/runtime/bindings/timers.rs, src/runtime/scheduler.rs).

   One step is a call of the script, or the passing of time; every step ends when nothing
   is left to do. A callback may itself throw, clear a timer, or set one. The result of a
   step is the sequence of callbacks that ran.                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxT,      \* timers 1..MaxT, set in this order
          Delays,    \* what the script passes, as positions in Table
          Ticks,     \* by how many ms the clock moves in a step
          Cbs,       \* what callbacks do: "plain", "throw", "clear", "self", "set"
          OpNames

VARIABLES s, act
vars == <<s, act>>

Never == 2000000000
(* What a script may pass for the delay, and the ms it means *)
Table == << [v |-> "0", ms |-> 0],      [v |-> "1", ms |-> 1],        [v |-> "2", ms |-> 2],
            [v |-> "3", ms |-> 3],      [v |-> "'2'", ms |-> 2],      [v |-> "1.9", ms |-> 1],
            [v |-> "-5", ms |-> 0],     [v |-> "NaN", ms |-> 0],      [v |-> "undefined", ms |-> 0],
            [v |-> "64", ms |-> 64],    [v |-> "100", ms |-> 100],    [v |-> "5000", ms |-> 5000],
            [v |-> "4097", ms |-> 4097], [v |-> "7", ms |-> 7],       [v |-> "20", ms |-> 20],
            [v |-> "Infinity", ms |-> 0], [v |-> "null", ms |-> 0],   [v |-> "65", ms |-> 65],
            \* beyond an int32, a uint32, what a float holds exactly, a u64; TLC's own integers end at 2^31
            [v |-> "2147483648", ms |-> Never], [v |-> "4294967297", ms |-> Never],
            [v |-> "9007199254740993", ms |-> Never], [v |-> "1e20", ms |-> Never], [v |-> "Number.MAX_VALUE", ms |-> Never] >>
Ms(d) == Table[d].ms
(* a repeating timer lets time pass between two runs *)
Period(d) == IF Ms(d) = 0 THEN 1 ELSE Ms(d)

(* A pending timer: its label, the time left, its period (0: one-shot), whether it has run
   before, and what its callback does. pend is in the order of scheduling. *)
Init0 == [pend |-> <<>>, next |-> 1]
Without(q, t) == SelectSeq(q, LAMBDA x : x.t # t)
Ids(q) == { q[i].t : i \in 1..Len(q) }

(* what a callback does to the timers; a callback that sets one uses the next label *)
Effect(st, x) ==
  CASE x.cb.k = "clear" -> [st EXCEPT !.pend = Without(@, x.cb.t)]
    [] x.cb.k = "self"  -> [st EXCEPT !.pend = Without(@, x.t)]
    [] x.cb.k = "set"   ->
         IF st.next > MaxT THEN st
         ELSE [st EXCEPT !.pend = Append(@, [t |-> st.next, left |-> x.cb.ms, p |-> 0, re |-> FALSE, cb |-> [k |-> "plain"]]),
                         !.next = @ + 1]
    [] OTHER -> st

Due(q) == { i \in 1..Len(q) : q[i].left = 0 }
(* Which of the timers that are due (by `late` ms of time passed) runs next: the one due first; at the
   same time the one set first. A repeating timer's next run has no place among the others
   of the same time. *)
Before(q, late, i, j) ==
  \/ late[q[i].t] > late[q[j].t]
  \/ late[q[i].t] = late[q[j].t] /\ i < j /\ ~q[i].re /\ ~q[j].re
First(q, late) == { i \in Due(q) : \A j \in Due(q) \ {i} : ~Before(q, late, j, i) }

(* All outcomes of running what is due. late: how long ago a due timer was due. *)
RECURSIVE Run(_, _, _)
Run(st, late, log) ==
  IF Due(st.pend) = {} THEN { [s |-> st, log |-> log] }
  ELSE UNION {
    LET x == st.pend[i]
        rest == Without(st.pend, x.t)
        st1 == [st EXCEPT !.pend = IF x.p = 0 THEN rest
                                   ELSE Append(rest, [x EXCEPT !.left = x.p, !.re = TRUE])]
    IN Run(Effect(st1, x), late, Append(log, x.t))
    : i \in First(st.pend, late) }

NoLate == [t \in 1..MaxT |-> 0]
Pass(st, n) ==
  LET late == [t \in 1..MaxT |-> IF \E i \in 1..Len(st.pend) : st.pend[i].t = t /\ st.pend[i].left < n
                                 THEN n - (CHOOSE x \in { st.pend[i] : i \in 1..Len(st.pend) } : x.t = t).left ELSE 0]
      st1 == [st EXCEPT !.pend = [i \in 1..Len(@) |-> [@[i] EXCEPT !.left = IF @ = Never THEN @ ELSE IF @ > n THEN @ - n ELSE 0]]]
  IN Run(st1, late, <<>>)

Timer(st, op) == [t |-> st.next, left |-> IF op.rep THEN Period(op.d) ELSE Ms(op.d),
                  p |-> IF op.rep THEN Period(op.d) ELSE 0, re |-> FALSE, cb |-> op.cb]
Do(st, op) ==
  CASE op.op = "set"   -> Run([st EXCEPT !.pend = Append(@, Timer(st, op)), !.next = @ + 1], NoLate, <<>>)
    [] op.op = "clear" -> Run([st EXCEPT !.pend = Without(@, op.t)], NoLate, <<>>)
    [] op.op = "bogus" -> Run(st, NoLate, <<>>)
    [] op.op = "tick"  -> Pass(st, op.n)

CbSet(st) ==
  { [k |-> k] : k \in Cbs \cap {"plain", "throw", "self"} }
  \union { [k |-> "clear", t |-> t] : t \in { u \in 1..MaxT : "clear" \in Cbs /\ u < st.next + 2 /\ u # st.next } }
  \union { [k |-> "set", ms |-> m] : m \in { n \in {0, 1, 2} : "set" \in Cbs } }
Ops(st) ==
  { op \in
    { [op |-> "set", t |-> st.next, rep |-> r, d |-> d, cb |-> c] :
        r \in { b \in BOOLEAN : st.next <= MaxT /\ (b => "interval" \in OpNames) }, d \in Delays, c \in CbSet(st) }
    \union { [op |-> "clear", t |-> t, as |-> a] : t \in { u \in 1..MaxT : u < st.next },
             a \in {"clearTimeout", "clearInterval"} }
    \union { [op |-> "bogus", v |-> v] : v \in {"0", "-1", "undefined", "NaN", "1.5", "'x'", "9999", "null"} }
    \union { [op |-> "tick", n |-> n] : n \in Ticks }
    : /\ op.op \in OpNames
      \* a repeating timer's callback that sets timers runs out of labels: keep those one-shot
      /\ (op.op = "set" /\ op.rep => op.cb.k # "set") }

(* act names what a driver needs to know: the labels callbacks will use are told by it *)
Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) == \E o \in Do(s, op) :
             /\ s' = o.s
             /\ act' = [op |-> op, r |-> o.log]
Next == \E op \in Ops(s) : Act(op)
Deep == \E op \in {RandomElement(Ops(s))} : Act(op)
DeepN == LET ops == Ops(s) IN
  \E n \in {RandomElement({ o.op : o \in ops })} : \E op \in {RandomElement({ o \in ops : o.op = n })} : Act(op)
Spec == Init /\ [][Next]_vars
View == s
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))

(* ---- properties *)
(* Nothing that is due is left behind. *)
NoneDue == Due(s.pend) = {}
(* What runs was set and neither cleared nor done; a one-shot runs once in its life. *)
OnlyLive == [][ \A i \in 1..Len(act'.r) :
     \/ act'.r[i] \in Ids(s.pend)
     \/ act'.r[i] >= s.next ]_vars
ClearedIsDead == [][ act'.op.op = "clear" =>
     /\ act'.op.t \notin Ids(s'.pend)
     /\ \A i \in 1..Len(act'.r) : act'.r[i] # act'.op.t ]_vars
OneShotOnce == [][ \A i \in 1..Len(s.pend) : s.pend[i].p = 0 =>
     LET runs == { k \in 1..Len(act'.r) : act'.r[k] = s.pend[i].t }
     IN /\ Cardinality(runs) <= 1
        /\ (runs # {} => s.pend[i].t \notin Ids(s'.pend)) ]_vars
(* No timer runs early; an interval runs at most once per step and goes on. *)
NotEarly == [][ \A i \in 1..Len(s.pend) : \A k \in 1..Len(act'.r) :
     act'.r[k] = s.pend[i].t => act'.op.op = "tick" /\ s.pend[i].left <= act'.op.n ]_vars
(* Of two one-shot timers that run in a step, the one due first runs first. *)
InOrder == [][ \A i, j \in 1..Len(s.pend) : \A k, l \in 1..Len(act'.r) :
     (act'.r[k] = s.pend[i].t /\ act'.r[l] = s.pend[j].t /\ s.pend[i].left < s.pend[j].left) => k < l ]_vars
=============================================================================
