--------------------------- MODULE ReadableStream ---------------------------
(* Streams between a source and its reader in JavaScript (src/runtime/streams.rs).

   A source enqueues chunks, closes or fails; a consumer locks the stream with a
   reader and reads, releases the lock or cancels. A read that finds nothing asks the
   source (pull) and waits. One step is one call, with everything it sets off.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Starts,     \* what the source's start does
          CanPull,    \* whether it has a pull: subset of BOOLEAN
          CanCancel,  \* whether it has a cancel
          Pulls,      \* what pull does, per read that asks for it
          Cancels,    \* what the source's cancel does
          MaxQueue, MaxPend, MaxIn, Readers, Kinds, OpNames

VARIABLES s, act
vars == <<s, act>>

End == 0
Init0 == [st |-> "none", err |-> "", q |-> <<>>, closing |-> FALSE, lock |-> 0, pend |-> 0,
          rd |-> [r \in Readers |-> "none"],          \* "none", "held", "released"
          cl |-> [r \in Readers |-> "none"],          \* its `closed`
          abort |-> "no", told |-> <<>>, src |-> [start |-> "none", pull |-> FALSE, cancel |-> FALSE],
          next |-> 1, client |-> FALSE, gone |-> FALSE, pulls |-> 0,     \* pulls not finished yet
          in |-> <<>>, out |-> <<>>]

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Reject(st, e) == [s |-> st, r |-> e, reads |-> <<>>]
Res(st, reads) == [s |-> st, r |-> "ok", reads |-> reads]

SetClosed(st, v) == IF st.lock = 0 THEN st
                    ELSE [st EXCEPT !.cl[st.lock] = IF @ = "pending" THEN v ELSE @]
Abort(st, why) == IF st.abort = "no" THEN [st EXCEPT !.abort = why] ELSE st

(* waiting reads take what is in the queue, oldest first *)
RECURSIVE Serve(_, _)
Serve(st, reads) ==
  IF st.pend = 0 \/ st.q = <<>> THEN Res(st, reads)
  ELSE LET x == Head(st.q)
           y == [st EXCEPT !.q = Tail(@), !.pend = @ - 1]
       IN IF x = End
          THEN Res(SetClosed([y EXCEPT !.st = "closed", !.pend = 0], "resolved"),
                   reads \o [i \in 1..st.pend |-> "end"])
          ELSE Serve([y EXCEPT !.out = Append(@, x)], Append(reads, ToString(x)))

Enqueue(st) ==
  LET v == st.next
      n == [st EXCEPT !.next = (v % Kinds) + 1]     \* the source made the chunk even if it is refused
  IN IF st.closing \/ st.st # "readable" THEN Reject(n, "TypeError")
     ELSE IF st.client /\ st.gone THEN Reject(Abort(n, "other"), "TypeError")
     ELSE Serve([n EXCEPT !.q = Append(@, v), !.in = Append(@, v)], <<>>)
CloseS(st) ==
  IF st.closing \/ st.st # "readable" THEN Reject(st, "TypeError")
  ELSE Serve([st EXCEPT !.q = Append(@, End), !.closing = TRUE], <<>>)
Fail(st, e) ==
  IF st.st # "readable" THEN Res(st, <<>>)
  ELSE Res([SetClosed(Abort(st, e), e) EXCEPT !.st = "errored", !.err = e, !.q = <<>>, !.pend = 0],
           [i \in 1..st.pend |-> e])

(* o followed by f; a refusal on the way rejects with TypeError, which fails the stream *)
Then(o, F(_)) == LET p == F(o.s) IN [s |-> p.s, r |-> "ok", reads |-> o.reads \o p.reads]
Refused(o) == IF o.r = "ok" THEN o ELSE Then(o, LAMBDA x : Fail(x, o.r))

Pull(st, m) ==
  CASE m = "idle" -> Res(st, <<>>)
    [] m = "later" -> Res([st EXCEPT !.pulls = @ + 1], <<>>)
    [] m = "one" \/ m = "async" -> Refused(Enqueue(st))
    [] m = "two" -> LET a == Enqueue(st) IN IF a.r # "ok" THEN Refused(a)
                    ELSE LET b == Enqueue(a.s) IN Refused([b EXCEPT !.reads = a.reads \o b.reads])
    [] m = "close" -> CloseS(st)
    [] m = "oneclose" -> LET a == Enqueue(st) IN IF a.r # "ok" THEN Refused(a) ELSE Then(a, CloseS)
    [] m = "err" -> Fail(st, "err")
    [] m = "throw" -> Fail(st, "throw")
    [] m = "reject" -> Fail(st, "reject")
    [] m = "onethrow" -> LET a == Enqueue(st) IN IF a.r # "ok" THEN Refused(a)
                         ELSE Then(a, LAMBDA x : Fail(x, "throw"))

New(st, src) ==
  LET n == [st EXCEPT !.st = "readable", !.src = src]
  IN CASE src.start = "none" -> Res(n, <<>>)
       [] src.start = "one" \/ src.start = "async" -> Enqueue(n)
       [] src.start = "close" -> CloseS(n)
       [] src.start = "reject" -> Fail(n, "start")

Reader(st, r) ==
  IF st.lock # 0 THEN Reject(st, "TypeError")
  ELSE Res([st EXCEPT !.lock = r, !.rd[r] = "held",
                      !.cl[r] = IF st.st = "closed" THEN "resolved" ELSE IF st.st = "errored" THEN st.err
                                ELSE "pending"], <<>>)

Read(st, r, m) ==
  IF st.rd[r] = "released" THEN Res(st, <<"TypeError">>)
  ELSE IF st.st = "errored" THEN Res(st, <<st.err>>)
  ELSE IF st.st = "closed" THEN Res(st, <<"end">>)
  ELSE IF st.q # <<>> THEN Serve([st EXCEPT !.pend = 1], <<>>)
  ELSE LET n == [st EXCEPT !.pend = @ + 1]
       IN IF st.src.pull THEN [Pull(n, m) EXCEPT !.r = "ok"] ELSE Res(n, <<>>)

Release(st, r) ==
  IF st.rd[r] = "released" THEN Res(st, <<>>)
  ELSE IF st.lock = r /\ st.pend > 0 THEN Reject(st, "TypeError")
  ELSE Res([st EXCEPT !.rd[r] = "released", !.lock = IF @ = r THEN 0 ELSE @,
                      !.cl[r] = IF @ = "pending" THEN "none" ELSE @], <<>>)

(* by the stream (r = 0: it gives up the lock) or by a reader (which releases it) *)
Cancel(st, r, why, how) ==
  IF r # 0 /\ st.rd[r] = "released" THEN Reject(st, "TypeError")
  ELSE LET done == IF r = 0 THEN st ELSE Release([st EXCEPT !.pend = 0], r).s
       IN IF st.st = "closed" THEN Res(done, <<>>)
          ELSE IF st.st = "errored" THEN Reject(done, st.err)
          ELSE LET n == SetClosed(Abort(st, IF why THEN "why" ELSE "other"), "resolved")
                   m == [n EXCEPT !.st = "closed", !.q = <<>>, !.pend = 0, !.lock = 0,
                                  !.told = IF st.src.cancel THEN Append(@, IF why THEN "why" ELSE "none") ELSE @]
                   e == [s |-> m, r |-> IF st.src.cancel /\ how \in {"cthrow", "creject"} THEN how ELSE "ok",
                         reads |-> [i \in 1..st.pend |-> "end"]]
               IN IF r = 0 THEN e ELSE [e EXCEPT !.s = Release(m, r).s]

Ops(st) ==
  IF st.st = "none" THEN { [op |-> "new", start |-> a, pull |-> p, cancel |-> k] : a \in Starts, p \in CanPull, k \in CanCancel }
  ELSE { op \in
    { [op |-> "reader", r |-> r] : r \in { x \in Readers : st.rd[x] = "none" } }
    \union { [op |-> "read", r |-> r, pull |-> m] : r \in { x \in Readers : st.rd[x] # "none" }, m \in Pulls }
    \union { [op |-> "release", r |-> r] : r \in { x \in Readers : st.rd[x] # "none" } }
    \union { [op |-> "cancel", r |-> r, why |-> w, src |-> h] :
               r \in { x \in Readers : st.rd[x] # "none" } \union {0}, w \in BOOLEAN, h \in Cancels }
    \union { [op |-> "enqueue"], [op |-> "close"], [op |-> "error"], [op |-> "client"], [op |-> "gone"],
             [op |-> "pulled"], [op |-> "pullfail"] }
    : /\ op.op \in OpNames
      /\ op.op = "read" => st.pend < MaxPend
      \* what pull would do matters only if it is called
      /\ op.op = "read" => (op.pull = "idle" \/ (st.src.pull /\ st.st = "readable" /\ st.q = <<>>
                                                  /\ st.rd[op.r] = "held"))
      \* a throwing cancel leaves the reader in place; that is left open
      /\ op.op = "cancel" => (op.src = "slow" \/ (st.src.cancel /\ st.st = "readable" /\ ~(op.src = "cthrow" /\ op.r # 0)))
      /\ op.op = "reader" => \A x \in Readers : st.rd[x] = "none" => op.r <= x
      /\ op.op = "enqueue" => Len(st.q) < MaxQueue
      /\ op.op \in {"pulled", "pullfail"} => st.pulls > 0
      /\ op.op = "read" => (op.pull = "later" => st.pulls < MaxPend)
      /\ op.op = "client" => ~st.client
      /\ op.op = "gone" => ~st.gone }

Do(st, op) ==
  CASE op.op = "new"     -> New(st, [start |-> op.start, pull |-> op.pull, cancel |-> op.cancel])
    [] op.op = "reader"  -> Reader(st, op.r)
    [] op.op = "read"    -> Read(st, op.r, op.pull)
    [] op.op = "release" -> Release(st, op.r)
    [] op.op = "cancel"  -> Cancel(st, op.r, op.why, op.src)
    [] op.op = "enqueue" -> Enqueue(st)
    [] op.op = "close"   -> CloseS(st)
    [] op.op = "error"   -> Fail(st, "err")
    [] op.op = "pulled"  -> Res([st EXCEPT !.pulls = @ - 1], <<>>)
    [] op.op = "pullfail" -> Fail([st EXCEPT !.pulls = @ - 1], "reject")
    [] op.op = "client"  -> Res([st EXCEPT !.client = TRUE], <<>>)
    [] op.op = "gone"    -> Res([st EXCEPT !.gone = TRUE], <<>>)

Observe(o) ==
  LET st == o.s IN
  [out |-> o.r, reads |-> o.reads, locked |-> st.lock # 0,
   size |-> IF st.st = "errored" THEN "none" ELSE IF st.st = "closed" \/ st.q # <<>> THEN "full" ELSE "room",
   aborted |-> st.abort # "no", why |-> st.abort, told |-> st.told,
   closed |-> [r \in Readers |-> st.cl[r]]]

Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) == LET o == Do(s, op) IN s' = o.s /\ act' = [op |-> op, r |-> Observe(o)]
Next == \E op \in Ops(s) : Act(op)
Deep == \E op \in {RandomElement(Ops(s))} : Act(op)    \* random walks (simulation)
DeepN == LET ops == Ops(s) IN
  \E n \in {RandomElement({ o.op : o \in ops })} : \E op \in {RandomElement({ o \in ops : o.op = n })} : Act(op)
Spec == Init /\ [][Next]_vars
Hide(x) == [x EXCEPT !.in = <<>>, !.out = <<>>]
View == Hide(s)
Emit == PrintT(ToJson([s |-> Hide(s), a |-> act', t |-> Hide(s')]))
Bound == Len(s.in) <= MaxIn

(* ---- properties *)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Data(q) == SelectSeq(q, LAMBDA x : x # End)
(* what the readers got and what waits is what the source enqueued, in order *)
Order == IsPrefixOf(s.out, s.in)
NothingLost == (s.st = "readable") => s.out \o Data(s.q) = s.in
(* a read waits only while there is nothing to give it and the stream is open *)
NoStuckRead == s.pend > 0 => s.st = "readable" /\ s.q = <<>> /\ s.lock # 0
(* the end is told only after everything *)
EndIsLast == [][ s.st = "readable" /\ s'.st = "closed" /\ s'.told = s.told /\ act'.op.op # "cancel" => s'.out = s'.in ]_vars
Final == [][ s.st \in {"closed", "errored"} => s'.st = s.st /\ s'.q = <<>> /\ s'.out = s.out ]_vars
(* locks *)
OneLock == Cardinality({ r \in Readers : s.lock = r }) <= 1 /\ (s.lock # 0 => s.rd[s.lock] = "held")
Exclusive == [][ act'.op.op = "reader" /\ s.lock # 0 => act'.r.out = "TypeError" /\ s'.lock = s.lock ]_vars
(* the source is told of a cancellation, once *)
ToldOnce == Len(s.told) <= 1
Told == [][ (act'.op.op = "cancel" /\ s.st = "readable" /\ s'.st = "closed") =>
              s'.abort # "no" /\ (s.src.cancel => Len(s'.told) = 1) ]_vars
AbortMeans == s.abort # "no" => s.st \in {"errored", "closed"} \/ (s.client /\ s.gone)
ErrorAborts == s.st = "errored" => s.abort # "no"
=============================================================================
