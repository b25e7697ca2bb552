-------------------------------- MODULE Limit --------------------------------
(* A request against its limits: wall-clock time, CPU time, memory. Its script, at any stage -
   while it is loaded, in the handler, while the body streams, in its background work - runs
   without end, waits without end, or takes too much memory.

   What exceeds a limit is ended, with the limit as the reason, and nothing of the script runs
   any more; what was answered before stays answered, a body that had not ended is cut short.
   What keeps within the limits is not touched.                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Pooled,           \* through the pool, where the next request meets the same isolate
          Cpu, Wall,        \* which limits of time there are
          WallFirst,        \* of both, the time on the wall ends first
          Spins,            \* the ways to run without end
          OpNames

VARIABLES s, act
vars == <<s, act>>

Init0 == [ph |-> "run", src |-> "no", cl |-> "no", q |-> <<>>, wu |-> "no", io |-> "no", busy |-> FALSE, mem |-> FALSE, up |-> TRUE]
R(st, r, log, asked, host) == [s |-> st, r |-> [r |-> r, log |-> log, asked |-> asked, host |-> host]]

(* in the pool, answered and streamed is done with; the background work has its own time *)
Background(st) == Pooled /\ st.ph = "sent" /\ st.src # "open"
Over(st) ==
  [st EXCEPT !.ph = "over", !.io = IF Pooled /\ @ = "p" THEN "gone" ELSE @, !.busy = FALSE,
             !.q = IF Pooled /\ st.src = "open" THEN Append(@, "err") ELSE @, !.src = IF Pooled /\ @ = "open" THEN "cut" ELSE @]
Fin(st, was, log, asked, host) ==
  IF st.ph = "sent" /\ st.src # "open" /\ (st.wu # "p" \/ (Pooled /\ st.mem /\ ~Background(was)))
  THEN R(Over(st), "ok", log, asked,
         host \o << IF st.mem /\ ~Background(was) THEN "exec mem" ELSE "exec ok" >>)
  ELSE R(st, "ok", log, asked, host)

(* ended by a limit *)
Ended(st, why, log) ==
  R(Over(st), "ok", log, IF Pooled /\ st.io = "p" THEN <<"gone f">> ELSE <<>>,
    (IF st.ph = "run" THEN <<"resp none">> ELSE <<>>) \o << IF Background(st) THEN "exec ok" ELSE "exec " \o why >>)
Time == IF Cpu /\ ~(Wall /\ WallFirst) THEN "cpu" ELSE "wall"

Respond(st, op) ==
  IF op.k = "buf" THEN Fin([st EXCEPT !.ph = "sent", !.cl = "whole"], st, <<>>, <<>>, <<"resp 200 B">>)
  ELSE Fin([st EXCEPT !.ph = "sent", !.cl = "open", !.src = "open", !.q = <<"c0;">>], st, <<>>, <<>>, <<"resp 200 stream">>)
Recv(st) == IF st.q = <<>> THEN R(st, "empty", <<>>, <<>>, <<>>)
            ELSE LET h == Head(st.q)
                 IN R([st EXCEPT !.q = IF h = "end" THEN @ ELSE IF h = "err" THEN <<"end">> ELSE Tail(@)], h, <<>>, <<>>, <<>>)
(* the script asks for memory: within the limit, or not, or again and again *)
Alloc(st, op) ==
  CASE op.k = "fits" -> R(st, "ok", <<"got">>, <<>>, <<>>)
    [] op.k = "churn" -> R(st, "ok", <<"got">>, <<>>, <<>>)
    [] op.k = "much" -> R([st EXCEPT !.mem = TRUE], "ok", <<"RangeError">>, <<>>, <<>>)
    [] op.k = "heap" -> Ended(st, "mem", <<>>)
Close(st) ==
  R([st EXCEPT !.up = FALSE, !.ph = "over", !.src = IF @ = "open" THEN "cut" ELSE @, !.io = "gone",
               !.q = IF st.src = "open" THEN Append(@, "err") ELSE @], "ok", <<>>,
    IF st.io = "p" THEN <<"gone f">> ELSE <<>>, IF st.ph = "run" THEN <<"resp none">> ELSE <<>>)

Do(st, op) ==
  CASE op.op = "respond" -> Respond(st, op)
    [] op.op = "fin" -> Fin([st EXCEPT !.src = "ended", !.q = Append(@, "end")], st, <<>>, <<>>, <<>>)
    [] op.op = "wait" -> R([st EXCEPT !.wu = "p"], "ok", <<>>, <<>>, <<>>)
    [] op.op = "settle" -> Fin([st EXCEPT !.wu = "done"], st, <<>>, <<>>, <<>>)
    [] op.op = "call" -> R([st EXCEPT !.io = "p"], "ok", <<>>, <<"f">>, <<>>)
    [] op.op = "answer" -> R([st EXCEPT !.io = "done"], "ok", <<"answered">>, <<>>, <<>>)
    [] op.op = "busy" -> R([st EXCEPT !.busy = TRUE], "ok", <<>>, <<>>, <<>>)
    [] op.op = "work" -> R(st, "ok", <<"worked">>, <<>>, <<>>)
    [] op.op = "spin" -> Ended(st, Time, <<>>)
    [] op.op = "wall" -> Ended(st, "wall", <<>>)
    [] op.op = "alloc" -> Alloc(st, op)
    [] op.op = "recv" -> Recv(st)
    [] op.op = "close" -> Close(st)
    \* another request: the isolate works as before
    [] op.op = "again" -> R(st, "ok", <<>>, <<>>, <<"resp 200 B", "exec ok">>)
    \* a script that never finishes loading
    [] op.op = "load" -> R(st, "ok", <<>>, <<>>, (IF Pooled THEN <<"resp none">> ELSE <<>>) \o
         << "exec " \o CASE op.k = "heap" -> "mem" [] op.k = "throw" -> "exception" [] op.k = "fine" -> "ok" [] OTHER -> Time >>)

If(b) == { x \in {TRUE} : b }
Ops(st) ==
  LET live == st.up /\ st.ph # "over" IN
  { op \in
    { [op |-> "respond", k |-> k] : k \in { j \in {"buf", "stream"} : live /\ st.ph = "run" /\ st.io # "p" } }
    \union { [op |-> "fin"] : x \in If(live /\ st.src = "open" /\ st.io # "p") }
    \union { [op |-> "wait"] : x \in If(live /\ st.ph = "run" /\ st.wu = "no") }
    \union { [op |-> "settle"] : x \in If(live /\ st.wu = "p" /\ st.io # "p") }
    \union { [op |-> "call"] : x \in If(live /\ st.io = "no") }
    \union { [op |-> "answer"] : x \in If(live /\ st.io = "p") }
    \union { [op |-> "busy"] : x \in If(live /\ ~st.busy) }
    \union { [op |-> "work"] : x \in If(live) }
    \union { [op |-> "spin", k |-> k] : k \in { j \in Spins : live /\ (Cpu \/ Wall) } }
    \union { [op |-> "wall"] : x \in If(live /\ Wall) }
    \union { [op |-> "alloc", k |-> k] : k \in { j \in {"fits", "churn", "much", "heap"} : live /\ (j = "heap" => ~Cpu /\ ~Wall) /\ (j = "much" => ~st.mem) /\ j \in OpNames } }
    \union { [op |-> "recv"] : x \in If(st.cl = "open") }
    \union { [op |-> "again"] : x \in If(Pooled /\ st.up /\ st.ph = "over") }
    \union { [op |-> "load", k |-> k] : k \in { j \in {"loop", "catch", "regexp", "heap", "throw", "fine"} : st.up /\ st.ph = "over"
               /\ (j = "heap" => ~Cpu /\ ~Wall) /\ (j \in {"loop", "catch", "regexp"} => Cpu \/ Wall) /\ (j = "fine" => ~Pooled) } }
    \union { [op |-> "close"] : x \in If(st.up) }
    : op.op \in OpNames }

Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) == LET o == Do(s, op) IN s' = o.s /\ act' = [op |-> op, r |-> o.r]
Next == \E op \in Ops(s) : Act(op)
Spec == Init /\ [][Next]_vars
View == s
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))

(* ---- properties *)
Has(seq, x) == \E i \in 1..Len(seq) : seq[i] = x
(* Only what exceeds a limit is ended by one. *)
OnlyWhat == [][ LET h == act'.r.host IN
  (Has(h, "exec cpu") \/ Has(h, "exec wall")) => act'.op.op \in {"spin", "wall", "load"} ]_vars
(* Whatever exceeds a time limit is over then and there. *)
Stops == [][ act'.op.op \in {"spin", "wall"} => s'.ph = "over" ]_vars
(* An end is told once, and an answer that was given stays. *)
Once == [][ s.ph = "over" => (s'.ph = "over" /\ act'.op.op \in {"recv", "close", "again", "load"}) ]_vars
Kept == [][ s.ph = "sent" => ~Has(act'.r.host, "resp none") ]_vars
(* The client never takes a body that was cut for a whole one. *)
Honest == \A i \in 1..Len(s.q) : s.q[i] = "end" => s.src = "ended" \/ (i = 1 /\ s.src = "cut")
=============================================================================
