-------------------------------- MODULE Req --------------------------------
(* One request through a worker: the handler answers (with bytes, a stream of its own, a
   stream of the host's passed on, the request's body sent back, or by failing), promises
   are passed to waitUntil, the client reads the body or goes away, the worker may end.
   A step ends when nothing is left to do.

   The client gets the answer once, its body in order and whole, and learns of the end only
   if the body ended; exec() ends when the answer is sent, the body complete and every
   promise passed to waitUntil settled - or, once the client has gone and the promises are
   settled, after a grace of 100 ms.                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, MaxW, MaxChunks, MaxOut, OpNames,
          Held    \* as many chunks may wait anywhere between the source and the client

VARIABLES s, act
vars == <<s, act>>

Native == {"forward", "echo"}
Grace == 100
Init0 == [ph |-> "run", kind |-> "no", sent |-> FALSE, wu |-> <<>>, src |-> "no", n |-> 0, q |-> <<>>,
          cl |-> "no", active |-> FALSE, blk |-> "no", sig |-> FALSE, g |-> 0, up |-> TRUE]

Text(n) == "c" \o ToString(n) \o ";"
R(st, r, log, asked, host) == [s |-> st, r |-> [r |-> r, log |-> log, asked |-> asked, host |-> host]]

Due(st) == /\ st.up /\ st.ph = "run" /\ st.sent /\ \A i \in 1..Len(st.wu) : st.wu[i] # "p"
           /\ (~st.active \/ (st.sig /\ st.g > Grace))
(* exec() ends in the step in which nothing is left to wait for *)
Fin(st, r, log, asked, host) ==
  IF Due(st) THEN R([st EXCEPT !.ph = "over"], r, log, asked, host \o <<"exec ok">>)
  ELSE R(st, r, log, asked, host)
Plain(st, r, log) == Fin(st, r, log, <<>>, <<>>)

Whole(st, k) == [st EXCEPT !.kind = k, !.sent = TRUE]
Open(st, k) == [st EXCEPT !.kind = k, !.sent = TRUE, !.src = "open", !.active = TRUE, !.cl = "open"]
Respond(st, op) ==
  CASE op.k = "buf" -> Fin(Whole(st, op.k), "ok", <<>>, <<>>, <<"resp 200 B">>)
    [] op.k = "none" -> Fin(Whole(st, op.k), "ok", <<>>, <<>>, <<"resp 200 ">>)
    [] op.k \in {"throw", "bad"} -> Fin(Whole(st, op.k), "ok", <<>>, <<>>, <<"resp 500">>)
    [] op.k = "stream" -> Fin(Open(st, op.k), "ok", <<>>, <<>>, <<"resp 200 stream">>)
    [] op.k = "echo" -> Fin(Open(st, op.k), "ok", <<>>, <<>>, <<"resp 200 stream">>)
    [] op.k = "forward" -> R([st EXCEPT !.kind = "forward"], "ok", <<>>, <<"f">>, <<>>)
(* the host answers the request whose answer is passed on *)
Answer(st, op) ==
  IF op.how = "str" THEN Fin(Open(st, "forward"), "ok", <<>>, <<>>, <<"resp 201 stream">>)
  ELSE Fin(Whole(st, "failed"), "ok", <<>>, <<>>, <<"resp 500">>)

Wait(st) == Plain([st EXCEPT !.wu = Append(@, "p")], "ok", <<>>)
Settle(st, op) == Plain([st EXCEPT !.wu[op.i] = op.how], "ok", <<>>)

Outstanding(st) == Cardinality({ j \in 1..Len(st.q) : st.q[j] # "end" /\ st.q[j] # "err" })
(* the body is written out, unless too much of it waits *)
Out(st) == IF st.src \in {"ended", "failed"} THEN [st EXCEPT !.active = FALSE] ELSE st
Outs(st, r, log) ==
  (IF st.kind # "stream" \/ Outstanding(st) < Held THEN { Plain(Out(st), r, log) } ELSE {})
  \union (IF st.kind = "stream" /\ Outstanding(st) >= 16 THEN { Plain(st, r, log) } ELSE {})
Put(st, x) == [st EXCEPT !.q = Append(@, x)]

(* the script's own stream *)
Enq(st, op) ==
  IF st.cl = "gone" THEN { Plain([st EXCEPT !.n = @ + 1], "ok", <<"enqfail">>) }
  ELSE { Plain(Put([st EXCEPT !.n = @ + 1], Text(op.n)), "ok", <<>>) }
EndIt(st, op) ==
  LET how == IF op.op = "fin" THEN "ended" ELSE "failed"
      x == IF op.op = "fin" THEN "end" ELSE "err"
      log == IF op.op = "fin" \/ st.sig THEN <<>> ELSE <<"abort">>
  IN IF st.cl = "gone" THEN { Plain([st EXCEPT !.src = how, !.active = FALSE], "ok", log) }
     ELSE Outs(Put([st EXCEPT !.src = how], x), "ok", log)

(* a stream of the host's, or the request's body *)
Chunk(st, op) ==
  CASE st.src = "open" /\ op.how = "data" ->
         { Plain(Put([st EXCEPT !.n = @ + 1], Text(op.n)), "ok", <<>>) : x \in { y \in {TRUE} : Outstanding(st) < Held } }
         \* what nobody reads is held back
         \union { Plain(st, "full", <<>>) : x \in { y \in {TRUE} : Outstanding(st) >= 8 } }
    [] st.src = "open" -> { Plain(Out(Put([st EXCEPT !.src = "failed", !.n = @ + 1], "err")), "ok", <<>>) }
    [] st.src = "late" -> { Plain([st EXCEPT !.src = "cut", !.n = @ + 1], r, <<>>) : r \in {"ok", "closed"} }
    [] OTHER -> { Plain([st EXCEPT !.n = @ + 1], "closed", <<>>) }
End(st) == IF st.src = "open" THEN { Plain(Out(Put([st EXCEPT !.src = "ended"], "end")), "ok", <<>>) }
           ELSE { Plain([st EXCEPT !.src = "over"], "ok", <<>>) }

(* the client reads, or goes away *)
Recv(st) ==
  IF st.q = <<>> THEN { Plain(st, "empty", <<>>) }
  ELSE LET h == Head(st.q)
           t == [st EXCEPT !.q = IF h = "end" THEN @ ELSE IF h = "err" THEN <<"end">> ELSE Tail(@)]
       IN IF st.active /\ st.src \in {"ended", "failed"} THEN Outs(t, h, <<>>) ELSE { Plain(t, h, <<>>) }
Hangup(st) ==
  LET t == [st EXCEPT !.cl = "gone", !.q = <<>>] IN
  CASE st.kind \in Native -> { Plain([t EXCEPT !.active = FALSE, !.src = IF @ = "open" THEN "late" ELSE @], "ok", <<>>) }
    [] st.active /\ st.ph = "run" /\ st.src = "open" -> { Plain([t EXCEPT !.sig = TRUE,
           \* whoever waits for room learns of it, and tells the source
           !.blk = CASE st.kind # "stream" \/ Outstanding(st) < 16 -> "no" [] Outstanding(st) < Held -> "may" [] OTHER -> "must"],
         "ok", <<"abort">>) }
    [] OTHER -> { Plain([t EXCEPT !.active = FALSE], "ok", <<>>) }
Tick(st, op) ==
  LET t == [st EXCEPT !.g = IF st.sig /\ @ <= Grace THEN @ + op.n ELSE @, !.blk = "no"] IN
  { Plain(t, "ok", <<>>) : x \in { y \in {TRUE} : st.blk # "must" } }
  \union { Plain([t EXCEPT !.src = "cut", !.active = FALSE], "ok", <<"cancel">>) : x \in { y \in {TRUE} : st.blk # "no" } }

(* the worker ends: a body that has not ended is cut short, and the client told so *)
Close(st) ==
  LET t == [st EXCEPT !.up = FALSE, !.active = FALSE,
                      !.src = CASE @ = "open" /\ st.kind \in Native -> "late" [] @ = "open" -> "cut" [] OTHER -> @]
  IN { R(IF st.src = "open" /\ st.cl = "open" THEN Put(t, "err") ELSE t, "ok", <<>>,
         IF st.kind = "forward" /\ ~st.sent THEN <<"gone f">> ELSE <<>>,
         IF ~st.sent THEN <<"resp none">> ELSE <<>>) }

Do(st, op) ==
  CASE op.op = "respond" -> { Respond(st, op) }
    [] op.op = "answer" -> { Answer(st, op) }
    [] op.op = "wait" -> { Wait(st) }
    [] op.op = "settle" -> { Settle(st, op) }
    [] op.op = "enq" -> Enq(st, op)
    [] op.op \in {"fin", "fail"} -> EndIt(st, op)
    [] op.op = "chunk" -> Chunk(st, op)
    [] op.op = "end" -> End(st)
    [] op.op = "recv" -> Recv(st)
    [] op.op = "hangup" -> Hangup(st)
    [] op.op = "tick" -> Tick(st, op)
    [] op.op = "close" -> Close(st)

(* Once the answer is there and every promise settled, it is too late to pass another one *)
Extends(st) == ~st.sent \/ \E i \in 1..Len(st.wu) : st.wu[i] = "p"
If(b) == { x \in {TRUE} : b }
Ops(st) ==
  LET live == st.up /\ st.ph = "run" IN
  { op \in
    { [op |-> "respond", k |-> k] : k \in { j \in Kinds : live /\ st.kind = "no" } }
    \union { [op |-> "answer", how |-> h] : h \in { j \in {"str", "err"} : live /\ st.kind = "forward" /\ ~st.sent } }
    \union { [op |-> "wait"] : x \in If(live /\ Len(st.wu) < MaxW /\ Extends(st)) }
    \union { [op |-> "settle", i |-> i, how |-> h] : i \in { j \in 1..Len(st.wu) : live /\ st.wu[j] = "p" }, h \in {"ok", "fail"} }
    \union { [op |-> "enq", n |-> st.n] : x \in If(live /\ st.kind = "stream" /\ st.src = "open" /\ st.n < MaxChunks /\ Outstanding(st) < MaxOut) }
    \union { [op |-> o] : o \in { j \in {"fin", "fail"} : live /\ st.kind = "stream" /\ st.src = "open" /\ st.blk = "no" } }
    \union { [op |-> "chunk", n |-> st.n, how |-> h, k |-> st.kind] :
               h \in { j \in {"data", "broken"} : st.kind \in Native /\ st.src \in {"open", "late", "cut", "failed"} /\ st.n < MaxChunks
                        /\ Outstanding(st) < MaxOut /\ (st.src # "open" => j = "data")
                        /\ (j = "broken" => "broken" \in OpNames) } }
    \union { [op |-> "end", k |-> st.kind] : x \in If(st.kind \in Native /\ st.src \in {"open", "late"}) }
    \union { [op |-> "recv"] : x \in If(st.cl = "open") }
    \union { [op |-> "hangup"] : x \in If(st.cl = "open" /\ ~(st.active /\ st.src \in {"ended", "failed"} /\ Outstanding(st) >= 16)) }
    \union { [op |-> "tick", n |-> n] : n \in { j \in {40, 150} : st.up } }
    \union { [op |-> "close"] : x \in If(st.up) }
    : op.op \in OpNames }

Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) == \E o \in Do(s, op) : s' = o.s /\ act' = [op |-> op, r |-> o.r]
Next == \E op \in Ops(s) : Act(op)
Deep == \E op \in {RandomElement(Ops(s))} : Act(op)
DeepN == LET ops == Ops(s) IN
  \E n \in {RandomElement({ o.op : o \in ops })} : \E op \in {RandomElement({ o \in ops : o.op = n })} : Act(op)
(* more than anything holds *)
Flood == LET ops == Ops(s)
             enq == { o \in ops : o.op = "enq" }
             some == { o \in ops : o.op \notin {"fin", "fail", "close"} } IN
  IF s.kind = "no" THEN \E op \in { o \in ops : o.op = "respond" } : Act(op)
  ELSE IF enq # {} /\ RandomElement(1..(IF s.n < 46 THEN 15 ELSE 2)) # 1 THEN \E op \in enq : Act(op)
  ELSE \E n \in {RandomElement({ o.op : o \in some })} : \E op \in {RandomElement({ o \in some : o.op = n })} : Act(op)
Spec == Init /\ [][Next]_vars
View == s
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))

(* ---- properties *)
Count(seq, x) == Cardinality({ i \in 1..Len(seq) : seq[i] = x })
Answers(h) == Cardinality({ i \in 1..Len(h) : h[i] \notin {"exec ok", "resp none"} })
(* One answer; exec() ends once, never before the answer. *)
Once == [][ /\ Answers(act'.r.host) <= 1 /\ (s.sent => Answers(act'.r.host) = 0)
            /\ (Count(act'.r.host, "exec ok") = 1) = (s.ph = "run" /\ s'.ph = "over")
            /\ (s'.ph = "over" => s'.sent) ]_vars
(* exec() waits for every promise; for the body, unless the client has gone. *)
Waits == s.ph = "over" => /\ \A i \in 1..Len(s.wu) : s.wu[i] # "p"
                          /\ s.active => (s.cl = "gone" /\ s.g > Grace)
(* and for nothing else *)
Ends == s.up => (~Due(s))
(* The client sees the end of a body only if its source ended it. *)
Honest == [][ act'.op.op = "recv" /\ act'.r.r = "end" => s.src = "ended" \/ s.q = <<"end">> ]_vars
EndIsEnd == \A i \in 1..Len(s.q) : s.q[i] = "end" => i = Len(s.q) /\ (s.src = "ended" \/ i = 1)
(* What was sent is read in order, nothing missing. *)
InOrder == \A i \in 1..Outstanding(s) : s.q[i] \in { Text(j) : j \in 0..MaxChunks }
           /\ (i > 1 => \E j \in 0..MaxChunks : s.q[i] = Text(j + 1) /\ s.q[i - 1] = Text(j))
=============================================================================
