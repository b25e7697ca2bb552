--------------------------- MODULE StreamManager ---------------------------
(* The streams between the host and JavaScript (src/runtime/stream_manager.rs).

   A stream is a bounded buffer with a sender (kept until the stream is closed, or
   a write finds the consumer gone) and a receiver, which is in the manager, lent
   to one read in flight, taken by a consumer, or gone. Writes and reads are
   futures: an action starts one (its first poll), polls it again, or drops it, so
   that every interleaving of their steps with the other calls is explored.
   A writer that waits for room gets it in the order of arrival, and the room is
   reserved for it from then on.                                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxId,      \* streams created at most
          Cap,        \* capacity of a buffer
          Writers,    \* slots for writes in flight
          Readers,    \* slots for reads in flight
          Kinds,      \* chunk kinds written: subset of {"data", "done", "error"}
          OpNames,    \* operations explored
          MaxWrites   \* writes per stream explored

VARIABLES s, act
vars == <<s, act>>

Ids == 1..MaxId
Slots == Writers \union Readers
NoStream == [snd |-> FALSE, rcv |-> "gone", buf |-> <<>>, wq |-> <<>>, meta |-> FALSE,
             n |-> 0, in |-> <<>>, out |-> <<>>]
Fresh == [NoStream EXCEPT !.snd = TRUE, !.rcv = "map", !.meta = TRUE]

Init0 == [next |-> 1,
          str  |-> [i \in Ids |-> NoStream],
          slot |-> [f \in Slots |-> 0]]       \* the stream a future in flight works on

(* ---- one stream *)
Granted(x) == Cardinality({ i \in 1..Len(x.wq) : x.wq[i].g })
Room(x) == Len(x.buf) + Granted(x) < Cap
Senders(x) == x.snd \/ x.wq # <<>>

(* Room that has become free goes to the writer that has waited longest. *)
Grant(x) ==
  IF ~Room(x) \/ \A i \in 1..Len(x.wq) : x.wq[i].g THEN x
  ELSE LET i == CHOOSE j \in 1..Len(x.wq) : ~x.wq[j].g /\ \A k \in 1..(j-1) : x.wq[k].g
       IN [x EXCEPT !.wq[i].g = TRUE]

Gone(x) == [x EXCEPT !.rcv = "gone", !.buf = <<>>]
Push(x, c) == [x EXCEPT !.buf = Append(@, c)]
DropWriter(x, f) == [x EXCEPT !.wq = SelectSeq(@, LAMBDA w : w.f # f)]
Terminal(c) == c.k # "data"

(* The receiver of x takes one step of a read: [x, r]; r.k is "pending" if it has to wait. *)
ReadStep(x) ==
  IF x.buf # <<>>
  THEN LET c == Head(x.buf)
           y == Grant([x EXCEPT !.buf = Tail(@)])
       IN [x |-> IF Terminal(c) \/ ~x.meta THEN Gone(y) ELSE [y EXCEPT !.rcv = "map"], r |-> c]
  ELSE IF Senders(x) THEN [x |-> [x EXCEPT !.rcv = "read"], r |-> [k |-> "pending", v |-> 0]]
  ELSE [x |-> Gone(x), r |-> [k |-> "broken", v |-> 0]]

(* ---- operations: each gives the next state and a result *)
NotFound == [k |-> "notfound", v |-> 0]
Closed   == [k |-> "closed", v |-> 0]
Full     == [k |-> "full", v |-> 0]
Pending  == [k |-> "pending", v |-> 0]
Okay     == [k |-> "ok", v |-> 0]
Out(st, r) == [s |-> st, r |-> r]

Create(st) == Out([st EXCEPT !.next = @ + 1, !.str[st.next] = Fresh], [k |-> "id", v |-> st.next])

TryWrite(st, i, c) ==
  LET x == st.str[i] IN
  IF ~x.snd THEN Out(st, NotFound)
  ELSE IF x.rcv = "gone" THEN Out([st EXCEPT !.str[i].snd = FALSE], Closed)
  ELSE IF Room(x) THEN Out([st EXCEPT !.str[i] = Push([x EXCEPT !.n = @ + 1], c)], Okay)
  ELSE Out(st, Full)

Write(st, f, i, c) ==
  LET x == st.str[i] IN
  IF ~x.snd THEN Out(st, NotFound)
  ELSE IF x.rcv = "gone" THEN Out([st EXCEPT !.str[i].snd = FALSE], Closed)
  ELSE IF Room(x) THEN Out([st EXCEPT !.str[i] = Push([x EXCEPT !.n = @ + 1], c)], Okay)
  ELSE Out([st EXCEPT !.str[i].wq = Append(@, [f |-> f, c |-> c, g |-> FALSE]),
                      !.str[i].n = @ + 1, !.slot[f] = i], Pending)

PollWrite(st, f) ==
  LET i == st.slot[f]
      x == st.str[i]
      w == CHOOSE w \in { x.wq[j] : j \in 1..Len(x.wq) } : w.f = f
      free == [st EXCEPT !.slot[f] = 0]
  IN IF x.rcv = "gone" THEN Out([free EXCEPT !.str[i] = [DropWriter(x, f) EXCEPT !.snd = FALSE]], Closed)
     ELSE IF w.g THEN Out([free EXCEPT !.str[i] = Push(DropWriter(x, f), w.c)], Okay)
     ELSE Out(st, Pending)

CancelWrite(st, f) ==
  LET i == st.slot[f]
  IN Out([st EXCEPT !.slot[f] = 0, !.str[i] = Grant(DropWriter(st.str[i], f))], Okay)

Read(st, f, i) ==
  LET x == st.str[i]
      o == ReadStep(x)
  IN IF x.rcv # "map" THEN Out(st, NotFound)
     ELSE Out([st EXCEPT !.str[i] = o.x, !.slot[f] = IF o.r.k = "pending" THEN i ELSE 0], o.r)

PollRead(st, f) ==
  LET i == st.slot[f]
      o == ReadStep(st.str[i])
  IN Out([st EXCEPT !.str[i] = o.x, !.slot[f] = IF o.r.k = "pending" THEN i ELSE 0], o.r)

(* A read that is dropped takes the receiver with it. *)
CancelRead(st, f) ==
  Out([st EXCEPT !.slot[f] = 0, !.str[st.slot[f]] = Gone(@)], Okay)

CloseStr(x) == LET y == [x EXCEPT !.snd = FALSE, !.meta = FALSE]
               IN IF x.rcv = "map" THEN Gone(y) ELSE y
Close(st, i) == Out([st EXCEPT !.str[i] = CloseStr(@)], Okay)
(* Everything of the previous request is let go; identifiers are not reused. *)
Clear(st) == Out([st EXCEPT !.str = [i \in Ids |-> CloseStr(st.str[i])]], Okay)

(* Many streams of other requests come and go: nothing that they do concerns these. *)
Burst(st) == Out(st, Okay)

Take(st, i) ==
  IF st.str[i].rcv = "map" THEN Out([st EXCEPT !.str[i].rcv = "taken"], [k |-> "taken", v |-> 0])
  ELSE Out(st, NotFound)
Recv(st, i) ==
  LET x == st.str[i] IN
  IF x.buf # <<>> THEN Out([st EXCEPT !.str[i] = Grant([x EXCEPT !.buf = Tail(@)])], Head(x.buf))
  ELSE IF Senders(x) THEN Out(st, [k |-> "empty", v |-> 0])
  ELSE Out(st, [k |-> "broken", v |-> 0])
DropTaken(st, i) == Out([st EXCEPT !.str[i] = Gone(@)], Okay)

Values(st, i) == { [k |-> k, v |-> IF k = "data" THEN (st.str[i].n % 4) + 1 ELSE 0] : k \in Kinds }

Ops(st) ==
  { op \in
    (IF st.next <= MaxId THEN { [op |-> "create"] } ELSE {})
    \union { [op |-> "try_write", i |-> i, c |-> c] : i \in { j \in Ids : st.str[j].n < MaxWrites }, c \in UNION { Values(st, j) : j \in Ids } }
    \union { [op |-> "write", f |-> f, i |-> i, c |-> c] :
               f \in { g \in Writers : st.slot[g] = 0 }, i \in { j \in Ids : st.str[j].n < MaxWrites },
               c \in UNION { Values(st, j) : j \in Ids } }
    \union { [op |-> "poll_write", f |-> f] : f \in { g \in Writers : st.slot[g] # 0 } }
    \union { [op |-> "cancel_write", f |-> f] : f \in { g \in Writers : st.slot[g] # 0 } }
    \union { [op |-> "read", f |-> f, i |-> i] : f \in { g \in Readers : st.slot[g] = 0 }, i \in Ids }
    \union { [op |-> "poll_read", f |-> f] : f \in { g \in Readers : st.slot[g] # 0 } }
    \union { [op |-> "cancel_read", f |-> f] : f \in { g \in Readers : st.slot[g] # 0 } }
    \union { [op |-> "close", i |-> i] : i \in Ids }
    \union { [op |-> "clear"] }
    \union { [op |-> "burst", n |-> 70000] }
    \union { [op |-> "take", i |-> i] : i \in Ids }
    \union { [op |-> "recv", i |-> i] : i \in { j \in Ids : st.str[j].rcv = "taken" } }
    \union { [op |-> "drop_taken", i |-> i] : i \in { j \in Ids : st.str[j].rcv = "taken" } }
    : /\ op.op \in OpNames
      /\ (op.op \in {"try_write", "write"}) => op.c \in Values(st, op.i)
      \* slots are interchangeable: use the first free one
      /\ (op.op = "write") => \A g \in Writers : st.slot[g] = 0 => op.f <= g
      /\ (op.op = "read") => \A g \in Readers : st.slot[g] = 0 => op.f <= g }

Do(st, op) ==
  CASE op.op = "create"       -> Create(st)
    [] op.op = "try_write"    -> TryWrite(st, op.i, op.c)
    [] op.op = "write"        -> Write(st, op.f, op.i, op.c)
    [] op.op = "poll_write"   -> PollWrite(st, op.f)
    [] op.op = "cancel_write" -> CancelWrite(st, op.f)
    [] op.op = "read"         -> Read(st, op.f, op.i)
    [] op.op = "poll_read"    -> PollRead(st, op.f)
    [] op.op = "cancel_read"  -> CancelRead(st, op.f)
    [] op.op = "close"        -> Close(st, op.i)
    [] op.op = "clear"        -> Clear(st)
    [] op.op = "burst"        -> Burst(st)
    [] op.op = "take"         -> Take(st, op.i)
    [] op.op = "recv"         -> Recv(st, op.i)
    [] op.op = "drop_taken"   -> DropTaken(st, op.i)

Observe(st) == [active  |-> Cardinality({ i \in Ids : st.str[i].snd }),
                senders |-> [i \in Ids |-> st.str[i].snd],
                info    |-> [i \in Ids |-> st.str[i].meta]]

(* History of a stream, for the properties only (hidden by View): chunks accepted
   for it and chunks its consumer got, in order. *)
Accepts(op, r) == r.k = "ok" /\ op.op \in {"try_write", "write", "poll_write"}
Track(st, op, o) ==
  LET w == IF op.op \in {"try_write", "write"} THEN op.i
           ELSE IF op.op = "poll_write" THEN st.slot[op.f] ELSE 0
      c == IF op.op \in {"try_write", "write"} THEN op.c
           ELSE IF op.op = "poll_write"
                THEN (CHOOSE x \in { st.str[w].wq[j] : j \in 1..Len(st.str[w].wq) } : x.f = op.f).c
                ELSE NotFound
      q == IF op.op \in {"read", "recv"} THEN op.i
           ELSE IF op.op = "poll_read" THEN st.slot[op.f] ELSE 0
      got == o.r.k \in {"data", "done", "error"}
      s1 == IF w # 0 /\ Accepts(op, o.r) THEN [o.s EXCEPT !.str[w].in = Append(@, c)] ELSE o.s
  IN IF q # 0 /\ got THEN [s1 EXCEPT !.str[q].out = Append(@, o.r)] ELSE s1

Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) ==
          LET o == Do(s, op)
          IN /\ s' = Track(s, op, o)
             /\ act' = [op |-> op, r |-> [r |-> o.r, lost |-> FALSE, obs |-> Observe(s')]]
Next == \E op \in Ops(s) : Act(op)
Deep == \E op \in {RandomElement(Ops(s))} : Act(op)    \* random walks (simulation)
DeepN == LET ops == Ops(s) IN
  \E n \in {RandomElement({ o.op : o \in ops })} : \E op \in {RandomElement({ o \in ops : o.op = n })} : Act(op)
Spec == Init /\ [][Next]_vars
Hide(x) == [x EXCEPT !.str = [i \in Ids |-> [x.str[i] EXCEPT !.in = <<>>, !.out = <<>>]]]
View == Hide(s)
Emit == PrintT(ToJson([s |-> Hide(s), a |-> act', t |-> Hide(s')]))

(* ---- properties *)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
(* The consumer gets what was accepted, in order, without loss or repetition. *)
Fifo == \A i \in Ids : IsPrefixOf(s.str[i].out, s.str[i].in)
NothingLost == \A i \in Ids : s.str[i].rcv \in {"map", "read", "taken"} =>
                  s.str[i].out \o s.str[i].buf = s.str[i].in
(* The buffer never holds more than its capacity, and a writer waits only for room. *)
Bounded == \A i \in Ids : Len(s.str[i].buf) + Granted(s.str[i]) <= Cap
WaitForRoom == \A i \in Ids : (\E j \in 1..Len(s.str[i].wq) : ~s.str[i].wq[j].g)
                  => (~Room(s.str[i]) \/ s.str[i].rcv = "gone")
(* After a terminal chunk the read side ends: nothing is delivered by reads. *)
TerminalLast == \A i \in Ids : \A j \in 1..Len(s.str[i].out) :
                  (Terminal(s.str[i].out[j]) /\ j < Len(s.str[i].out)) => s.str[i].rcv \in {"taken", "gone"}
ReadAfterTerminal == [][ act'.op.op = "read" /\ s.str[act'.op.i].out # <<>>
                           /\ Terminal(s.str[act'.op.i].out[Len(s.str[act'.op.i].out)])
                         => act'.r.r.k = "notfound" ]_vars
(* A closed stream accepts and delivers nothing through the manager. *)
ClosedIsDead == \A i \in Ids : ~s.str[i].meta => ~s.str[i].snd /\ s.str[i].rcv # "map"
(* Identifiers are handed out once. *)
FreshId == [][ act'.op.op = "create" =>
                 /\ s.str[act'.r.r.v] = NoStream
                 /\ s'.next > s.next ]_vars
(* A consumer that is gone is noticed by the next write. *)
NoticesGone == [][ (act'.op.op \in {"try_write", "write"} /\ s.str[act'.op.i].rcv = "gone")
                     => act'.r.r.k \in {"closed", "notfound"} /\ ~s'.str[act'.op.i].snd ]_vars
=============================================================================
