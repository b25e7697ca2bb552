-------------------------------- MODULE Tee --------------------------------
(* A stream split in two (ReadableStream.tee in src/runtime/streams.rs).

   The split reads its source when a branch is read and has nothing left, one read at
   a time, and hands each chunk to the branches that still want it. A branch is a
   stream of its own; the source is cancelled when both branches are.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS CanPull, Pulls, MaxQueue, MaxPend, MaxIn, Kinds, OpNames
VARIABLES s, act
vars == <<s, act>>

End == 0
B == 1..2
Branch == [st |-> "readable", q |-> <<>>, pend |-> 0, err |-> "", cancelled |-> FALSE, out |-> <<>>]
Init0 == [new |-> FALSE, pull |-> FALSE, st |-> "readable", err |-> "", q |-> <<>>, closing |-> FALSE,
          busy |-> FALSE,                       \* the split's own read is waiting
          over |-> FALSE,                       \* the split has seen the source end
          br |-> [b \in B |-> Branch], told |-> <<>>, abort |-> FALSE, next |-> 1, in |-> <<>>]

None == [b \in B |-> <<>>]
Res(st) == [s |-> st, reads |-> None]

(* ---- one branch: a waiting read takes the head of its queue *)
RECURSIVE Serve(_, _, _)
Serve(st, b, reads) ==
  LET x == st.br[b] IN
  IF x.pend = 0 \/ x.q = <<>> THEN [s |-> st, reads |-> reads]
  ELSE IF Head(x.q) = End
  THEN [s |-> [st EXCEPT !.br[b] = [x EXCEPT !.q = <<>>, !.pend = 0, !.st = "closed"]],
        reads |-> [reads EXCEPT ![b] = @ \o [i \in 1..x.pend |-> "end"]]]
  ELSE Serve([st EXCEPT !.br[b] = [x EXCEPT !.q = Tail(@), !.pend = @ - 1, !.out = Append(@, Head(x.q))]], b,
             [reads EXCEPT ![b] = Append(@, ToString(Head(x.q)))])
Both(st, reads) == LET a == Serve(st, 1, reads) IN Serve(a.s, 2, a.reads)
Give(st, v, reads) ==
  Both([st EXCEPT !.br = [b \in B |-> IF st.br[b].st = "readable" /\ ~st.br[b].cancelled
                                      THEN [st.br[b] EXCEPT !.q = Append(@, v)] ELSE st.br[b]]], reads)
FailBoth(st, reads) ==
  [s |-> [st EXCEPT !.br = [b \in B |-> IF st.br[b].st = "readable"
            THEN [st.br[b] EXCEPT !.st = "errored", !.err = st.err, !.q = <<>>, !.pend = 0] ELSE st.br[b]]],
   reads |-> [b \in B |-> IF st.br[b].st = "readable" THEN reads[b] \o [i \in 1..st.br[b].pend |-> st.err] ELSE reads[b]]]

(* ---- the source *)
Enq(st) == LET n == [st EXCEPT !.next = (@ % Kinds) + 1]
           IN IF st.closing \/ st.st # "readable" THEN n
              ELSE [n EXCEPT !.q = Append(@, st.next), !.in = Append(@, st.next)]
Cls(st) == IF st.closing \/ st.st # "readable" THEN st ELSE [st EXCEPT !.q = Append(@, End), !.closing = TRUE]
Err(st, e) == IF st.st # "readable" THEN st ELSE [st EXCEPT !.st = "errored", !.err = e, !.q = <<>>, !.abort = TRUE]
Pull(st, m) == CASE m = "idle" -> st
                 [] m \in {"one", "async"} -> Enq(st)
                 [] m = "two" -> Enq(Enq(st))
                 [] m = "close" -> Cls(st)
                 [] m = "oneclose" -> Cls(Enq(st))
                 [] OTHER -> Err(st, m)

(* ---- the split, until nothing moves *)
Wanted(st) == \E b \in B : st.br[b].st = "readable" /\ st.br[b].pend > 0
RECURSIVE Run(_, _, _)
Run(st, m, reads) ==
  IF st.over THEN [s |-> st, reads |-> reads]
  ELSE IF st.busy
  THEN IF st.st = "errored" THEN FailBoth([st EXCEPT !.busy = FALSE, !.over = TRUE], reads)
       ELSE IF st.q = <<>> THEN [s |-> st, reads |-> reads]
       ELSE IF Head(st.q) = End
       THEN Give([st EXCEPT !.q = <<>>, !.st = "closed", !.busy = FALSE, !.over = TRUE], End, reads)
       ELSE LET o == Give([st EXCEPT !.q = Tail(@), !.busy = FALSE], Head(st.q), reads) IN Run(o.s, m, o.reads)
  ELSE IF ~Wanted(st) THEN [s |-> st, reads |-> reads]
  ELSE LET n == [st EXCEPT !.busy = TRUE]
       IN Run(IF st.pull /\ st.q = <<>> /\ st.st = "readable" THEN Pull(n, m) ELSE n, m, reads)

Read(st, b, m) ==
  LET x == st.br[b] IN
  IF x.st = "errored" THEN [s |-> st, reads |-> [None EXCEPT ![b] = <<x.err>>]]
  ELSE IF x.st = "closed" THEN [s |-> st, reads |-> [None EXCEPT ![b] = <<"end">>]]
  ELSE LET o == Serve([st EXCEPT !.br[b].pend = @ + 1], b, None) IN Run(o.s, m, o.reads)

Cancel(st, b, why) ==
  LET x == st.br[b]
      n == [st EXCEPT !.br[b] = [x EXCEPT !.st = "closed", !.cancelled = TRUE, !.q = <<>>, !.pend = 0]]
      r == [None EXCEPT ![b] = [i \in 1..x.pend |-> "end"]]
  IN IF x.st # "readable" THEN Res(st)
     ELSE IF st.br[3 - b].cancelled /\ st.st = "readable"
     THEN [s |-> [n EXCEPT !.st = "closed", !.q = <<>>, !.abort = TRUE, !.busy = FALSE, !.over = TRUE,
                           !.told = Append(@, IF why THEN "why" ELSE "none")], reads |-> r]
     ELSE [s |-> n, reads |-> r]

Ops(st) ==
  IF ~st.new THEN { [op |-> "new", pull |-> p] : p \in CanPull }
  ELSE { op \in
    { [op |-> "read", b |-> b, pull |-> m] : b \in B, m \in Pulls }
    \union { [op |-> "cancel", b |-> b, why |-> w] : b \in B, w \in BOOLEAN }
    \union { [op |-> "enqueue"], [op |-> "close"], [op |-> "error"] }
    : /\ op.op \in OpNames
      /\ op.op = "read" => st.br[op.b].pend < MaxPend
      /\ op.op = "read" => (op.pull = "idle" \/ (st.pull /\ st.q = <<>> /\ st.st = "readable" /\ ~st.busy
                                                  /\ st.br[op.b].st = "readable" /\ st.br[op.b].q = <<>>))
      /\ op.op = "enqueue" => Len(st.q) < MaxQueue /\ ~st.closing /\ st.st = "readable"
      /\ op.op = "close" => ~st.closing /\ st.st = "readable"
      \* what one branch has not read is bounded too
      /\ op.op = "read" => \A b \in B : b # op.b => Len(st.br[b].q) < MaxQueue + 1
    }

Do(st, op) ==
  CASE op.op = "new"     -> Res([st EXCEPT !.new = TRUE, !.pull = op.pull])
    [] op.op = "read"    -> Read(st, op.b, op.pull)
    [] op.op = "cancel"  -> Cancel(st, op.b, op.why)
    [] op.op = "enqueue" -> Run(Enq(st), "idle", None)
    [] op.op = "close"   -> Run(Cls(st), "idle", None)
    [] op.op = "error"   -> Run(Err(st, "err"), "idle", None)

Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) == LET o == Do(s, op)
           IN s' = o.s /\ act' = [op |-> op, r |-> [reads |-> o.reads, told |-> o.s.told, aborted |-> o.s.abort]]
Next == \E op \in Ops(s) : Act(op)
Deep == \E op \in {RandomElement(Ops(s))} : Act(op)    \* random walks (simulation)
DeepN == LET ops == Ops(s) IN
  \E n \in {RandomElement({ o.op : o \in ops })} : \E op \in {RandomElement({ o \in ops : o.op = n })} : Act(op)
Spec == Init /\ [][Next]_vars
Hide(x) == [x EXCEPT !.in = <<>>, !.br = [b \in B |-> [x.br[b] EXCEPT !.out = <<>>]]]
View == Hide(s)
Emit == PrintT(ToJson([s |-> Hide(s), a |-> act', t |-> Hide(s')]))
Bound == Len(s.in) <= MaxIn

(* ---- properties *)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
(* each branch gets what the source gave, in order, whatever the other does *)
Same == \A b \in B : IsPrefixOf(s.br[b].out, s.in)
(* a branch's read waits only while there is nothing for it *)
NoStuckRead == \A b \in B : s.br[b].pend > 0 =>
                 s.br[b].st = "readable" /\ s.br[b].q = <<>> /\ s.q = <<>> /\ s.st = "readable" /\ ~s.closing
ToldOnce == Len(s.told) <= 1 /\ (Len(s.told) = 1 => \A b \in B : s.br[b].cancelled)
Told == [][ (s.st = "readable" /\ \A b \in B : s'.br[b].cancelled) => Len(s'.told) = 1 ]_vars
=============================================================================
