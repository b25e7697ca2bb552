---------------------------- MODULE AsyncWaiter ----------------------------
(* The turn queue that serialises requests on one isolate (src/async_waiter.rs).

   A request polls for the turn; it either gets it or is queued. Releasing the
   turn wakes the request that has been queued longest. A woken request has to
   poll again: it does not own the turn yet, and a request that polls in between
   takes it (the implementation allows that overtaking; see NoOvertaking).       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Clients,     \* requests
          MaxQueue,    \* bound of the exploration
          Abandon,     \* TRUE: a queued request may be dropped
          Spurious     \* TRUE: a queued request may poll without having been woken

VARIABLES s, act
vars == <<s, act>>

None == "none"
Init0 == [locked  |-> FALSE,    \* is the turn taken
          holder  |-> None,     \* by whom
          queue   |-> <<>>,     \* registered wakers, oldest first
          woken   |-> {},       \* woken requests that have not polled since
          waiting |-> {}]       \* requests that want the turn

Without(q, c) == SelectSeq(q, LAMBDA x : x # c)
Range(q) == { q[i] : i \in 1..Len(q) }

(* What a request's poll may do. *)
TryLock(st, c) ==
  IF ~st.locked
  THEN { [s |-> [st EXCEPT !.locked = TRUE, !.holder = c, !.queue = Without(@, c),
                           !.woken = @ \ {c}, !.waiting = @ \ {c}],
          ok |-> TRUE, wakes |-> <<>>] }
  ELSE { [s |-> [st EXCEPT !.queue = Append(@, c), !.woken = @ \ {c}, !.waiting = @ \union {c}],
          ok |-> FALSE, wakes |-> <<>>] }

Unlock(st) ==
  LET st1 == [st EXCEPT !.locked = FALSE, !.holder = None] IN
  IF st.queue = <<>>
  THEN { [s |-> st1, ok |-> TRUE, wakes |-> <<>>] }
  ELSE { [s |-> [st1 EXCEPT !.queue = Tail(@), !.woken = @ \union {Head(st.queue)}],
          ok |-> TRUE, wakes |-> <<Head(st.queue)>>] }

Ops(st) ==
  { [op |-> "try_lock", c |-> c] : c \in
      { x \in Clients : /\ x # st.holder
                        /\ (x \in st.waiting /\ ~Spurious) => x \in st.woken } }
  \union (IF st.holder # None THEN { [op |-> "unlock", c |-> st.holder] } ELSE {})
  \union (IF Abandon THEN { [op |-> "abandon", c |-> c] : c \in st.waiting } ELSE {})

Do(st, op) ==
  CASE op.op = "try_lock" -> TryLock(st, op.c)
    [] op.op = "unlock"   -> Unlock(st)
    [] op.op = "abandon"  -> { [s |-> [st EXCEPT !.waiting = @ \ {op.c}, !.woken = @ \ {op.c}],
                                ok |-> TRUE, wakes |-> <<>>] }

Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) == \E o \in Do(s, op) :
          /\ s' = o.s
          /\ act' = [op |-> op,
                     r  |-> [ok |-> o.ok, wakes |-> o.wakes, free |-> ~o.s.locked,
                             qlen |-> Len(o.s.queue)]]
Next == \E op \in Ops(s) : Act(op)
Deep == \E op \in {RandomElement(Ops(s))} : Act(op)    \* random walks (simulation)
DeepN == LET ops == Ops(s) IN
  \E n \in {RandomElement({ o.op : o \in ops })} : \E op \in {RandomElement({ o \in ops : o.op = n })} : Act(op)
Spec == Init /\ [][Next]_vars
View == s
Bound == Len(s.queue) <= MaxQueue
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))

(* ---- properties *)
Mutex == /\ s.locked <=> s.holder # None
         /\ s.holder \notin s.waiting
(* A request that waits is registered, or has been told to poll again. *)
Registered == \A c \in s.waiting : c \in s.woken \/ c \in Range(s.queue)
(* If the turn is free and requests wait, one of them knows. *)
NoLostWakeup == (~s.locked /\ s.waiting # {}) => \E c \in s.waiting : c \in s.woken
(* Releasing wakes exactly the request that was registered longest. *)
FifoWake == [][ act'.op.op = "unlock" =>
                  IF s.queue = <<>> THEN act'.r.wakes = <<>> ELSE act'.r.wakes = <<Head(s.queue)>> ]_vars
OnlyUnlockWakes == [][ act'.r.wakes # <<>> => act'.op.op = "unlock" ]_vars
(* Nobody overtakes a request that has been woken (the implementation does not ensure it). *)
NoOvertaking == [][ (act'.op.op = "try_lock" /\ act'.r.ok /\ s.woken # {}) => act'.op.c \in s.woken ]_vars

(* ---- one call as a step of a concurrent history (Lin) *)
LSteps0(st, op, pc) ==
  { [st |-> o.s, pc |-> "done", r |-> [ok |-> o.ok, wakes |-> o.wakes]] : o \in Do(st, op) }
LEnd0(st, r) == r.free = ~st.locked /\ r.qlen = Len(st.queue)
=============================================================================
