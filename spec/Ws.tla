-------------------------------- MODULE Ws --------------------------------
(* WebSockets of a script, made by `new WebSocket(url)` ("ctor") or by a fetch that asks for
   an upgrade ("up"). One step is an act of the script, an act of the host (the far end), or
   the end of the request; every step ends when nothing is left to do.

   What the far end sends arrives in order, once, while the socket is open, and waits for
   accept() where the script is to call it; what the script sends arrives in order, until it
   closes. A socket opens at most once and closes at most once, whoever ends it, and nothing
   is heard of it afterwards.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N,        \* sockets 1..N
          MaxMsgs,  \* messages of the far end per socket
          MaxSends, \* messages of the script per socket
          Vias, Kinds, Sends, Closes, Bads, OpNames

VARIABLES s, act
vars == <<s, act>>

Socks == 1..N
None == [via |-> "none", st |-> "none", acc |-> FALSE, q |-> <<>>, host |-> "no", n |-> 0, m |-> 0]
Init0 == [c |-> [i \in Socks |-> None], up |-> TRUE]

(* readyState *)
State(x) == CASE x.st = "connecting" -> 0 [] x.st = "open" -> 1 [] x.st \in {"closing", "early"} -> 2 [] OTHER -> 3

(* What the script hears: every event with the readyState of its moment. *)
Ev(i, x, e) == <<"event", i, State(x)>> \o e
Opened(i, x) == Ev(i, x, <<"open">>)
Closed(i, x, code, why) == Ev(i, x, <<"close", code, why, IF code = 1006 THEN "lost" ELSE "clean">>)

(* Takes in what waits; gives the socket and what the script heard. *)
RECURSIVE Take(_, _, _)
Take(x, i, log) ==
  IF ~x.acc \/ x.q = <<>> \/ x.st \notin {"open", "closing"} THEN [x |-> x, log |-> log]
  ELSE LET h == Head(x.q)
           y == [x EXCEPT !.q = Tail(@)]
       IN CASE h.k \in {"text", "bin"} ->
                 Take(y, i, IF x.st = "open" THEN Append(log, Ev(i, x, <<"message", h.k, h.v>>)) ELSE log)
            [] h.k = "error" -> Take(y, i, Append(log, Ev(i, x, <<"error", h.v>>)))
            [] h.k = "close" -> LET z == [y EXCEPT !.st = "closed", !.q = <<>>] IN [x |-> z, log |-> Append(log, Closed(i, z, 3000 + i, "bye"))]
            [] h.k = "gone" -> LET z == [y EXCEPT !.st = "closed", !.q = <<>>] IN [x |-> z, log |-> Append(log, Closed(i, z, 1006, ""))]

R(st, i, t, asked, out) == [s |-> [st EXCEPT !.c[i] = t.x], r |-> [r |-> "ok", log |-> t.log, asked |-> asked, ws |-> out]]
Just(x, log) == [x |-> x, log |-> log]

New(st, op) ==
  R(st, op.i, Just([None EXCEPT !.via = op.v, !.st = "connecting"], <<>>), << <<op.v, op.i>> >>, <<>>)

(* the host's answer to the handshake *)
Answer(st, op) ==
  LET x == st.c[op.i] IN
  CASE op.how = "ok" /\ x.st = "early" ->      \* closed while it was connecting
         LET y == [x EXCEPT !.st = "closed", !.host = "closed"]
         IN R(st, op.i, Just(y, << Closed(op.i, y, 1006, "") >>), <<>>, << <<op.i, "close", 1000, "">> >>)
    [] op.how = "ok" /\ x.via = "ctor" ->
         LET y == [x EXCEPT !.st = "open", !.acc = TRUE, !.host = "open"] IN R(st, op.i, Just(y, << Opened(op.i, y) >>), <<>>, <<>>)
    [] op.how = "ok" ->
         R(st, op.i, Just([x EXCEPT !.st = "open", !.host = "open"], << <<"upgraded", op.i, 1>> >>), <<>>, <<>>)
    [] x.via = "ctor" ->
         LET y == [x EXCEPT !.st = "closed"]
         IN R(st, op.i, Just(y, << Ev(op.i, y, <<"error", "refused">>), Closed(op.i, y, 1006, "refused") >>), <<>>, <<>>)
    [] OTHER -> R(st, op.i, Just([x EXCEPT !.st = "refused"], << <<"refused", op.i, "refused">> >>), <<>>, <<>>)

Accept(st, op) ==
  LET x == st.c[op.i] IN
  R(st, op.i, IF x.st = "open" THEN Take([x EXCEPT !.acc = TRUE], op.i, <<>>) ELSE Just(x, <<>>), <<>>, <<>>)

(* the script sends: thrown back before the socket is open, nothing once it closes *)
Sent(op) == IF op.v \in {"text", "num"} THEN "text" ELSE "bin"
Send(st, op) ==
  LET x == st.c[op.i]
      y == [x EXCEPT !.m = @ + 1]
  IN CASE x.st = "connecting" -> R(st, op.i, Just(y, << <<"threw", op.i, "InvalidStateError">> >>), <<>>, <<>>)
       [] x.st = "open" -> R(st, op.i, Just(y, <<>>), <<>>,
            << <<op.i, Sent(op), IF op.v = "num" THEN ToString(70 + x.m) ELSE "s" \o ToString(op.i) \o "." \o ToString(x.m)>> >>)
       [] OTHER -> R(st, op.i, Just(y, <<>>), <<>>, <<>>)

(* the script closes *)
Code(v) == CASE v = "none" -> <<1000, "">> [] v = "code" -> <<4999, "">> [] v = "both" -> <<3000, "why">> [] v = "why" -> <<1000, "why">>
Close(st, op) ==
  LET x == st.c[op.i] IN
  CASE op.v = "bad code" -> R(st, op.i, Just(x, << <<"threw", op.i, "InvalidAccessError">> >>), <<>>, <<>>)
    [] op.v = "long" -> R(st, op.i, Just(x, << <<"threw", op.i, "SyntaxError">> >>), <<>>, <<>>)
    [] x.st = "connecting" -> R(st, op.i, Just([x EXCEPT !.st = "early"], <<>>), <<>>, <<>>)
    [] x.st = "open" -> R(st, op.i, Take([x EXCEPT !.st = "closing", !.acc = TRUE], op.i, <<>>), <<>>,
                          << <<op.i, "close">> \o Code(op.v) >>)
    [] OTHER -> R(st, op.i, Just(x, <<>>), <<>>, <<>>)

Look(st, op) == R(st, op.i, Just(st.c[op.i], << <<"state", op.i, State(st.c[op.i])>> >>), <<>>, <<>>)
Bad(st, op) == [s |-> st, r |-> [r |-> "ok", log |-> << <<"threw", 0, IF op.v = "no url" THEN "TypeError" ELSE "SyntaxError">> >>, asked |-> <<>>, ws |-> <<>>]]

(* the far end *)
Host(st, op) ==
  LET x == st.c[op.i]
      e == [k |-> op.k, v |-> "h" \o ToString(op.i) \o "." \o ToString(x.n)]
      y == [x EXCEPT !.q = Append(@, e), !.n = IF op.k \in {"text", "bin", "error"} THEN @ + 1 ELSE @,
                     !.host = CASE op.k = "close" -> "done" [] op.k = "gone" -> "gone" [] OTHER -> @]
  IN R(st, op.i, IF x.st = "closed" THEN Just([y EXCEPT !.q = <<>>], <<>>) ELSE Take(y, op.i, <<>>), <<>>, <<>>)

(* the request ends: handshakes are given up, the far ends are let go *)
RECURSIVE Gone(_, _)
Gone(st, i) == IF i > N THEN <<>> ELSE (IF st.c[i].st \in {"connecting", "early"} THEN << <<"gone", i>> >> ELSE <<>>) \o Gone(st, i + 1)
Over(st) == [s |-> [c |-> [i \in Socks |-> [None EXCEPT !.st = "over"]], up |-> FALSE],
             r |-> [r |-> <<>>, log |-> <<>>, asked |-> Gone(st, 1), ws |-> <<>>]]

Do(st, op) ==
  CASE op.op = "new"    -> New(st, op)
    [] op.op = "answer" -> Answer(st, op)
    [] op.op = "accept" -> Accept(st, op)
    [] op.op = "send"   -> Send(st, op)
    [] op.op = "shut"   -> Close(st, op)
    [] op.op = "state"  -> Look(st, op)
    [] op.op = "bad"    -> Bad(st, op)
    [] op.op = "host"   -> Host(st, op)
    [] op.op = "over"   -> Over(st)

Has(st, i) == st.up /\ (st.c[i].via = "ctor" \/ (st.c[i].via = "up" /\ st.c[i].st \notin {"none", "connecting", "refused"}))
Ops(st) ==
  { op \in
    { [op |-> "new", i |-> i, v |-> v] :
        i \in { j \in Socks : st.up /\ st.c[j].st = "none" /\ (j > 1 => st.c[j - 1].st # "none") }, v \in Vias }
    \union { [op |-> "answer", i |-> i, how |-> h] : i \in { j \in Socks : st.up /\ st.c[j].st \in {"connecting", "early"} }, h \in {"ok", "err"} }
    \union { [op |-> o, i |-> i] : i \in { j \in Socks : Has(st, j) }, o \in {"accept", "state"} }
    \union { [op |-> "send", i |-> i, v |-> v, m |-> st.c[i].m] : i \in { j \in Socks : Has(st, j) /\ st.c[j].m < MaxSends }, v \in Sends }
    \union { [op |-> "shut", i |-> i, v |-> v] : i \in { j \in Socks : Has(st, j) }, v \in Closes }
    \union { [op |-> "bad", v |-> v] : v \in { b \in Bads : st.up } }
    \union { [op |-> "host", i |-> i, k |-> k, n |-> st.c[i].n] :
               i \in { j \in Socks : st.c[j].host = "open" }, k \in Kinds \cup {"close", "gone"} }
    \union { [op |-> "host", i |-> i, k |-> "gone", n |-> st.c[i].n] : i \in { j \in Socks : st.c[j].host = "done" } }
    \union { [op |-> "over"] : x \in { u \in {TRUE} : st.up } }
    : /\ op.op \in OpNames
      /\ (op.op = "host" /\ op.k \in {"text", "bin", "error"} => st.c[op.i].n < MaxMsgs) }

Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) == LET o == Do(s, op) IN s' = o.s /\ act' = [op |-> op, r |-> o.r]
Next == \E op \in Ops(s) : Act(op)
Deep == \E op \in {RandomElement(Ops(s))} : Act(op)
DeepN == LET ops == Ops(s) IN
  \E n \in {RandomElement({ o.op : o \in ops })} : \E op \in {RandomElement({ o \in ops : o.op = n })} : Act(op)
Spec == Init /\ [][Next]_vars
View == s
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))

(* ---- properties *)
Heard(log, i, k) == { j \in 1..Len(log) : log[j][1] = "event" /\ log[j][2] = i /\ log[j][4] = k }
AnyOf(log, i) == { j \in 1..Len(log) : log[j][1] = "event" /\ log[j][2] = i }
(* A socket closes in one step, with one event, and says so; nothing is heard after it. *)
ClosesOnce == [][ \A i \in Socks :
     /\ Cardinality(Heard(act'.r.log, i, "close")) = IF s.up /\ s'.up /\ s.c[i].st # "closed" /\ s'.c[i].st = "closed" THEN 1 ELSE 0
     /\ s.c[i].st \in {"closed", "refused", "over"} => AnyOf(act'.r.log, i) = {} ]_vars
(* It opens once, and messages come only while it is open. *)
OpensOnce == [][ \A i \in Socks : \A j \in AnyOf(act'.r.log, i) :
     /\ (act'.r.log[j][4] = "open" => s.c[i].st = "connecting" /\ s'.c[i].st = "open")
     /\ (act'.r.log[j][4] = "message" => s.c[i].st = "open" /\ act'.r.log[j][3] = 1) ]_vars
(* Once the far end is gone, a socket that takes its messages in is closed. *)
NoHanging == \A i \in Socks : s.c[i].host \in {"done", "gone"} /\ s.c[i].acc => s.c[i].st \in {"closed", "over"}
(* What waits is taken in at once when it can be. *)
NoStuck == \A i \in Socks : s.c[i].acc /\ s.c[i].st \in {"open", "closing"} => s.c[i].q = <<>>
(* The far end hears nothing after the script's close. *)
CloseIsLast == [][ \A j \in 1..Len(act'.r.ws) : s.c[act'.r.ws[j][1]].st \in {"open", "early"} ]_vars
=============================================================================
