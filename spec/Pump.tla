------------------------------- MODULE Pump -------------------------------
(* Request bodies: pump_request_body forwards the chunks of a body to a stream of the
   manager (src/runtime/stream_manager.rs), from where a request reads them.

   The host sends the chunks of body b and ends it; one pump task per body works
   whenever it can (each step of this specification ends with all pumps waiting);
   the consumer reads, drops a read, closes the stream or clears the manager, which
   begins the next request.                                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Bodies,    \* 1..n: body b is given stream b
          Cap,       \* capacity of a stream
          BodyCap,   \* capacity of a body's channel
          MaxSend,   \* chunks per body explored
          Long,      \* the least number of chunks of a body
          OpNames

VARIABLES s, act
vars == <<s, act>>

SM == INSTANCE StreamManager WITH MaxId <- Cardinality(Bodies), Writers <- Bodies, Readers <- {11},
          Kinds <- {"data", "done", "error"}, MaxWrites <- 100

NoBody == [st |-> "none", q |-> <<>>, open |-> FALSE, n |-> 0, sent |-> <<>>]
Init0 == [sm |-> SM!Init0, b |-> [b \in Bodies |-> NoBody], old |-> {}]

Data(v) == [k |-> "data", v |-> v]
Fail == [k |-> "error", v |-> 0]
Done == [k |-> "done", v |-> 0]

(* The pump of body b runs until it has to wait. st: recv, data (a write of data waits),
   last (the write of the terminal chunk waits), over. *)
RECURSIVE Settle(_, _), Put(_, _, _, _)
Put(st, b, c, then) ==
  LET o == SM!Write(st.sm, b, b, c)
      st1 == [st EXCEPT !.sm = o.s]
  IN IF o.r.k = "pending" THEN [st1 EXCEPT !.b[b].st = then]
     ELSE IF then = "last" THEN [st1 EXCEPT !.b[b].st = "over", !.b[b].q = <<>>]
     ELSE IF o.r.k = "ok" THEN Settle(st1, b)
     ELSE Put(st1, b, Done, "last")
Settle(st, b) ==
  LET x == st.b[b] IN
  CASE x.st \in {"none", "over"} -> st
    [] x.st = "recv" ->
         IF x.q # <<>>
         THEN Put([st EXCEPT !.b[b].q = Tail(@)], b, Head(x.q), IF Head(x.q).k = "data" THEN "data" ELSE "last")
         ELSE IF x.open THEN st
         ELSE Put(st, b, Done, "last")
    [] x.st \in {"data", "last"} ->
         LET o == SM!PollWrite(st.sm, b)
             st1 == [st EXCEPT !.sm = o.s]
         IN IF o.r.k = "pending" THEN st
            ELSE IF x.st = "last" THEN [st1 EXCEPT !.b[b].st = "over", !.b[b].q = <<>>]
            ELSE IF o.r.k = "ok" THEN Settle([st1 EXCEPT !.b[b].st = "recv"], b)
            ELSE Put([st1 EXCEPT !.b[b].st = "recv"], b, Done, "last")
SettleAll(st) ==
  LET F[n \in 0..Cardinality(Bodies)] == IF n = 0 THEN st ELSE Settle(F[n - 1], n)
  IN F[Cardinality(Bodies)]

R(k) == [k |-> k, v |-> 0]
Out(st, r) == [s |-> st, r |-> r]
Via(st, o) == Out([st EXCEPT !.sm = o.s], o.r)

Send(st, b, c) ==
  IF st.b[b].st = "over" THEN Out(st, R("closed"))
  ELSE IF Len(st.b[b].q) >= BodyCap THEN Out(st, R("full"))
  ELSE Out([st EXCEPT !.b[b].q = Append(@, c), !.b[b].n = @ + 1, !.b[b].sent = Append(@, c)], R("ok"))

Step(st, op) ==
  CASE op.op = "pump" ->
         LET o == SM!Create(st.sm)
         IN Out([st EXCEPT !.sm = o.s, !.b[op.b].st = "recv", !.b[op.b].open = TRUE], o.r)
    [] op.op = "send"        -> Send(st, op.b, op.c)
    [] op.op = "end"         -> Out([st EXCEPT !.b[op.b].open = FALSE], R("ok"))
    [] op.op = "read"        -> Via(st, SM!Read(st.sm, op.f, op.i))
    [] op.op = "poll_read"   -> Via(st, SM!PollRead(st.sm, op.f))
    [] op.op = "cancel_read" -> Via(st, SM!CancelRead(st.sm, op.f))
    [] op.op = "close"       -> Via(st, SM!Close(st.sm, op.i))
    [] op.op = "clear"       -> LET v == Via(st, SM!Clear(st.sm))
                                IN [v EXCEPT !.s.old = Bodies \ { b \in Bodies : st.b[b].st = "none" }]
Do(st, op) == LET o == Step(st, op) IN Out(SettleAll(o.s), o.r)

Ops(st) ==
  { op \in
    { [op |-> "pump", b |-> b] : b \in { x \in Bodies : x = st.sm.next } }
    \union { [op |-> "send", b |-> b, c |-> c] :
               b \in { x \in Bodies : st.b[x].open /\ st.b[x].n < MaxSend },
               c \in UNION { { Data(1000 * x + st.b[x].n), Fail } : x \in Bodies } }
    \union { [op |-> "end", b |-> b] : b \in { x \in Bodies : st.b[x].open } }
    \union { [op |-> "read", f |-> 11, i |-> i] : i \in { j \in Bodies : st.sm.slot[11] = 0 /\ st.b[j].st # "none" } }
    \union { [op |-> "poll_read", f |-> f] : f \in { g \in {11} : st.sm.slot[g] # 0 } }
    \union { [op |-> "cancel_read", f |-> f] : f \in { g \in {11} : st.sm.slot[g] # 0 } }
    \union { [op |-> "close", i |-> i] : i \in { j \in Bodies : st.b[j].st # "none" } }
    \union { [op |-> "clear"] }
    : /\ op.op \in OpNames
      /\ (op.op = "send" => op.c \in { Data(1000 * op.b + st.b[op.b].n), Fail })
      /\ ((op.op = "end" \/ (op.op = "send" /\ op.c = Fail)) => st.b[op.b].n >= Long) }

(* history for the properties: what the consumer of each stream got *)
Track(st, op, o) ==
  LET q == IF op.op = "read" THEN op.i ELSE IF op.op = "poll_read" THEN st.sm.slot[op.f] ELSE 0
  IN IF q # 0 /\ o.r.k \in {"data", "done", "error"}
     THEN [o.s EXCEPT !.sm.str[q].out = Append(@, o.r)] ELSE o.s

Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) ==
          LET o == Do(s, op)
          IN /\ s' = Track(s, op, o)
             /\ act' = [op |-> op, r |-> [r |-> o.r, lost |-> FALSE, obs |-> SM!Observe(s'.sm)]]
Next == \E op \in Ops(s) : Act(op)
Deep == \E op \in {RandomElement(Ops(s))} : Act(op)    \* random walks (simulation)
DeepN == LET ops == Ops(s) IN
  \E n \in {RandomElement({ o.op : o \in ops })} : \E op \in {RandomElement({ o \in ops : o.op = n })} : Act(op)
Spec == Init /\ [][Next]_vars
Hide(x) == [x EXCEPT !.b = [b \in Bodies |-> [x.b[b] EXCEPT !.sent = <<>>]],
                     !.sm.str = [i \in Bodies |-> [x.sm.str[i] EXCEPT !.out = <<>>]]]
View == Hide(s)
Emit == PrintT(ToJson([s |-> Hide(s), a |-> act', t |-> Hide(s')]))

(* ---- properties *)
Got(b) == s.sm.str[b].out
Ends(b) == Got(b) # <<>> /\ Got(b)[Len(Got(b))].k # "data"
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
(* What a request reads is what its own body sent, in order and without gaps; ... *)
Fidelity == \A b \in Bodies :
  Prefix(IF Ends(b) THEN SubSeq(Got(b), 1, Len(Got(b)) - 1) ELSE Got(b), s.b[b].sent)
(* ... it ends only when the body has been delivered: Done after all of a complete body, ... *)
DoneMeansAll == \A b \in Bodies : (Ends(b) /\ Got(b)[Len(Got(b))].k = "done") =>
  ~s.b[b].open /\ SubSeq(Got(b), 1, Len(Got(b)) - 1) = s.b[b].sent
(* ... an error where the body failed. *)
ErrorMeansError == \A b \in Bodies : (Ends(b) /\ Got(b)[Len(Got(b))].k = "error") =>
  s.b[b].sent[Len(Got(b))] = Fail
(* Nothing is buffered or waits for room behind a terminal chunk: exactly one is written. *)
OneTerminal == \A b \in Bodies :
  LET all == s.sm.str[b].buf \o [i \in 1..Len(s.sm.str[b].wq) |-> s.sm.str[b].wq[i].c]
  IN \A i \in 1..Len(all) : all[i].k # "data" => i = Len(all)
(* When the consumer is gone the pump stops: the next chunk is the last it takes. *)
Stops == \A b \in Bodies : (s.sm.str[b].rcv = "gone" /\ s.b[b].st # "none") => s.b[b].st \in {"recv", "over"}
=============================================================================
