-------------------------------- MODULE Lin --------------------------------
(* Is each recorded history of calls and returns a behaviour of a specification?
   A history is a sequence of events
       [k |-> "call", t |-> thread, op |-> operation]
       [k |-> "ret",  t |-> thread, r  |-> result]
       [k |-> "end",  r |-> what was observed when all calls had returned]
   An operation takes effect in one or more steps of the specification between
   its call and its return. The extending module supplies
       LState0            the initial state
       LSteps(st, op, pc) set of [st, pc, r]: one internal step of op at pc;
                          pc "start" is the first, pc "done" the last, r its result
       LEnd(st, r)        is r what the specification shows in st at rest          *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS LState0, LSteps(_, _, _), LEnd(_, _)

H == ndJsonDeserialize("hist.ndjson")

VARIABLES h,      \* which history
          l,      \* events consumed
          ls,     \* state of the specification
          pend    \* calls that have not returned: thread -> [op, pc, r]

LInit == /\ h \in 1..Len(H)
         /\ TLCSet(h, "no")
         /\ l = 0
         /\ ls = LState0
         /\ pend = <<>>

Ev == H[h][l + 1]
More == l < Len(H[h])

Call == /\ More /\ Ev.k = "call"
        /\ l' = l + 1
        /\ pend' = (Ev.t :> [op |-> Ev.op, pc |-> "start", r |-> "none"]) @@ pend
        /\ UNCHANGED <<h, ls>>

(* Steps can wait until the next return needs them. *)
Inner == /\ More /\ Ev.k # "call"
         /\ \E t \in DOMAIN pend :
              /\ pend[t].pc # "done"
              /\ \E o \in LSteps(ls, pend[t].op, pend[t].pc) :
                   /\ ls' = o.st
                   /\ pend' = [pend EXCEPT ![t].pc = o.pc, ![t].r = o.r]
         /\ UNCHANGED <<h, l>>

Ret == /\ More /\ Ev.k = "ret"
       /\ Ev.t \in DOMAIN pend
       /\ pend[Ev.t].pc = "done"
       /\ pend[Ev.t].r = Ev.r
       /\ l' = l + 1
       /\ pend' = [t \in DOMAIN pend \ {Ev.t} |-> pend[t]]
       /\ UNCHANGED <<h, ls>>

End == /\ More /\ Ev.k = "end"
       /\ \A t \in DOMAIN pend : pend[t].pc = "done"
       /\ LEnd(ls, Ev.r)
       /\ l' = l + 1
       /\ UNCHANGED <<h, ls, pend>>

LNext == Call \/ Inner \/ Ret \/ End

(* Registers: one per history, set when it has been explained to its end. *)
LMark == (l = Len(H[h])) => TLCSet(h, "ok")
LDone == LET bad == { i \in 1..Len(H) : TLCGet(i) # "ok" }
         IN PrintT(ToJson([rejected |-> SetToSeq(bad)]))
=============================================================================
