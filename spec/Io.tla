-------------------------------- MODULE Io --------------------------------
(* What a script asks the host for: fetch, and the bindings (assets, worker, storage, KV,
   database). One step is a call or a read of the script, an answer of the host, a chunk of
   a body it sends, or the end of the worker; every step ends when nothing is left to do.

   Each call is answered on its own: whatever the order of the answers, the promise of call
   i settles once, with the answer to call i, and the body read is the body sent to i.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N,         \* calls 1..N
          KindOf,    \* kinds of the calls explored
          How,       \* kinds of answers explored: "buf", "none", "str", "err"
          MaxChunks, \* chunks per body explored
          OpNames

VARIABLES s, act
vars == <<s, act>>

Calls == 1..N
Http == {"fetch", "assets", "worker", "sfetch"}
None == [k |-> "none", st |-> "none", q |-> <<>>, n |-> 0, rd |-> "no", acc |-> "", over |-> "no", host |-> "no", used |-> FALSE, slack |-> 0]
Init0 == [c |-> [i \in Calls |-> None], up |-> TRUE]

Text(i, n) == "c" \o ToString(i) \o "." \o ToString(n) \o ";"
Chunk(v) == [k |-> "data", v |-> v]
End == [k |-> "end", v |-> ""]
Fail == [k |-> "fail", v |-> ""]

(* The script takes what has come of a body it waits for. Gives the new call and the log. *)
RECURSIVE Take(_, _)
Take(x, i) ==
  IF x.rd = "no" \/ x.q = <<>> THEN [x |-> x, log |-> <<>>]
  ELSE LET h == Head(x.q) IN
    IF x.rd = "read"
    THEN IF h.k = "data" THEN [x |-> [x EXCEPT !.q = Tail(@), !.rd = "no"], log |-> << <<"chunk", i, h.v>> >>]
         ELSE [x |-> [x EXCEPT !.q = <<>>, !.rd = "no", !.over = h.k],
               log |-> << <<IF h.k = "end" THEN "done" ELSE "fail", i, "">> >>]
    ELSE IF h.k = "data" THEN Take([x EXCEPT !.q = Tail(@), !.acc = @ \o h.v], i)
         ELSE [x |-> [x EXCEPT !.q = <<>>, !.rd = "no", !.over = h.k, !.acc = ""],
               log |-> << IF h.k = "end" THEN <<"text", i, x.acc>> ELSE <<"fail", i, "">> >>]

R(st, r, log, asked) == [s |-> st, r |-> [r |-> r, log |-> log, asked |-> asked]]
Set(st, i, t, r, asked) == R([st EXCEPT !.c[i] = t.x], r, t.log, asked)
Plain(x) == [x |-> x, log |-> <<>>]

Call(st, op) == Set(st, op.i, Plain([None EXCEPT !.k = op.k, !.st = "asked"]), "ok", << <<op.k, op.i>> >>)

(* the settled promise, as the script reports it *)
Told(i, k, how) ==
  IF how = "err" THEN << <<"err", i, "e" \o ToString(i)>> >>
  ELSE IF k \in Http THEN << <<"http", i, ToString(200 + i)>> >>
  ELSE << <<"value", i, IF how = "none" THEN "null" ELSE "B" \o ToString(i)>> >>
Answer(st, op) ==
  LET x == st.c[op.i]
      body == CASE op.how = "buf" -> << Chunk("B" \o ToString(op.i)), End >>
                [] op.how = "none" -> << End >>
                [] OTHER -> <<>>
      y == [x EXCEPT !.st = IF op.how = "err" THEN "err" ELSE "ok",
                     !.q = IF x.k \in Http THEN body ELSE <<>>,
                     !.host = IF op.how = "str" THEN "open" ELSE "no"]
  IN Set(st, op.i, [x |-> y, log |-> Told(op.i, x.k, op.how)], "ok", <<>>)

(* the host sends a chunk, ends the body or fails it *)
Outstanding(x) == Cardinality({ j \in 1..Len(x.q) : x.q[j].k = "data" })
Send(st, op) ==
  LET x == st.c[op.i] IN
  CASE x.host = "open" ->
         { Set(st, op.i, Take([x EXCEPT !.q = Append(@, IF op.how = "data" THEN Chunk(Text(op.i, x.n)) ELSE Fail),
                                        !.n = @ + 1, !.host = IF op.how = "data" THEN @ ELSE "failed"], op.i), "ok", <<>>) }
         \* a body nobody reads is held back once enough of it waits
         \union { Set(st, op.i, Plain(x), "full", <<>>) : z \in { 0 : w \in { 1 } \cap (IF Outstanding(x) >= 8 THEN {1} ELSE {}) } }
    [] x.host = "late" -> { Set(st, op.i, Plain([x EXCEPT !.host = "closed"]), r, <<>>) : r \in {"ok", "closed"} }
    [] OTHER -> { Set(st, op.i, Plain(x), "closed", <<>>) }
(* at most this much waits anywhere between host and script *)
Bound == 40
SendB(st, op) == IF st.c[op.i].host = "open" /\ Outstanding(st.c[op.i]) >= Bound
                 THEN { o \in Send(st, op) : o.r.r = "full" } ELSE Send(st, op)
EndBody(st, op) ==
  LET x == st.c[op.i] IN
  IF x.host = "open" THEN Set(st, op.i, Take([x EXCEPT !.q = Append(@, End), !.host = "ended"], op.i), "ok", <<>>)
  ELSE Set(st, op.i, Plain([x EXCEPT !.host = "ended"]), "ok", <<>>)

(* the script reads *)
Read(st, op) ==
  LET x == st.c[op.i] IN
  CASE x.over = "end" -> Set(st, op.i, [x |-> x, log |-> << <<"done", op.i, "">> >>], "ok", <<>>)
    [] x.over = "cancel" -> Set(st, op.i, [x |-> x, log |-> << <<"done", op.i, "">> >>], "ok", <<>>)
    [] x.over = "fail" -> Set(st, op.i, [x |-> x, log |-> << <<"fail", op.i, "">> >>], "ok", <<>>)
    [] OTHER -> Set(st, op.i, Take([x EXCEPT !.rd = "read", !.used = TRUE], op.i), "ok", <<>>)
ReadAll(st, op) == Set(st, op.i, Take([st.c[op.i] EXCEPT !.rd = "text", !.used = TRUE], op.i), "ok", <<>>)
Cancel(st, op) ==
  LET x == st.c[op.i]
      y == [x EXCEPT !.q = <<>>, !.rd = "no", !.used = TRUE, !.over = IF @ = "no" THEN "cancel" ELSE @,
                     !.host = IF x.over = "no" /\ @ = "open" THEN "late" ELSE @]
      log == CASE x.over = "fail" -> << <<"cfail", op.i, "">> >>
               [] x.rd = "read" -> << <<"done", op.i, "">>, <<"cancelled", op.i, "">> >>
               [] OTHER -> << <<"cancelled", op.i, "">> >>
  IN Set(st, op.i, [x |-> y, log |-> log], "ok", <<>>)
(* the worker ends: what was asked is given up, bodies have no reader any more *)
RECURSIVE Gone(_, _)
Gone(st, i) == IF i > N THEN <<>>
               ELSE (IF st.c[i].st = "asked" THEN << <<"gone", i>> >> ELSE <<>>) \o Gone(st, i + 1)
Close(st) ==
  R([up |-> FALSE, c |-> [i \in Calls |-> [None EXCEPT !.k = st.c[i].k, !.st = "over",
       !.n = st.c[i].n,
       \* the host learns of it by the next chunk at the latest
       !.host = IF st.c[i].host \in {"open", "late"} THEN "late" ELSE st.c[i].host]]],
    "ok", <<>>, Gone(st, 1))

Do(st, op) ==
  CASE op.op = "call"   -> { Call(st, op) }
    [] op.op = "answer" -> { Answer(st, op) }
    [] op.op = "chunk"  -> SendB(st, op)
    [] op.op = "end"    -> { EndBody(st, op) }
    [] op.op = "read"   -> { Read(st, op) }
    [] op.op = "text"   -> { ReadAll(st, op) }
    [] op.op = "stop"   -> { Cancel(st, op) }
    [] op.op = "close"  -> { Close(st) }

HowOf(k) == IF k \in Http THEN How ELSE How \ {"str"}
Body(st, i) == st.c[i].st = "ok" /\ st.c[i].k \in Http
Ops(st) ==
  { op \in
    { [op |-> "call", i |-> i, k |-> k] :
        i \in { j \in Calls : st.up /\ st.c[j].st = "none" /\ (j > 1 => st.c[j - 1].st # "none") }, k \in KindOf }
    \union { [op |-> "answer", i |-> i, k |-> st.c[i].k, how |-> h] : i \in { j \in Calls : st.c[j].st = "asked" }, h \in How }
    \union { [op |-> "chunk", i |-> i, how |-> h, n |-> st.c[i].n] :
               i \in { j \in Calls : st.c[j].host \in {"open", "failed", "late", "closed"} /\ st.c[j].n < MaxChunks }, h \in {"data", "fail"} \cap (IF "broken" \in OpNames THEN {"data", "fail"} ELSE {"data"}) }
    \union { [op |-> "end", i |-> i] : i \in { j \in Calls : st.c[j].host \in {"open"} } }
    \union { [op |-> "read", i |-> i] : i \in { j \in Calls : Body(st, j) /\ st.c[j].rd = "no" } }
    \union { [op |-> "text", i |-> i] : i \in { j \in Calls : Body(st, j) /\ ~st.c[j].used } }
    \union { [op |-> "stop", i |-> i] : i \in { j \in Calls : Body(st, j) /\ st.c[j].rd # "text" } }
    \union { [op |-> "close"] : x \in { u \in {TRUE} : st.up } }
    : /\ op.op \in OpNames
      /\ (op.op = "answer" => op.how \in HowOf(op.k)) }

Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) == \E o \in Do(s, op) : s' = o.s /\ act' = [op |-> op, r |-> o.r]
Next == \E op \in Ops(s) : Act(op)
Deep == \E op \in {RandomElement(Ops(s))} : Act(op)
DeepN == LET ops == Ops(s) IN
  \E n \in {RandomElement({ o.op : o \in ops })} : \E op \in {RandomElement({ o \in ops : o.op = n })} : Act(op)
(* all are asked before one is answered *)
Crowd == LET ops == Ops(s) calls == { o \in ops : o.op = "call" } IN
  \E op \in {RandomElement(IF calls # {} THEN calls ELSE ops)} : Act(op)
Spec == Init /\ [][Next]_vars
View == s
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))

(* ---- properties *)
Settles(log, i) == { k \in 1..Len(log) : log[k][2] = i /\ log[k][1] \in {"http", "value", "err"} }
(* A call settles in the step that answers it, once; no other call settles then. *)
Own == [][ \A i \in Calls : Settles(act'.r.log, i) # {} =>
     /\ act'.op.op = "answer" /\ act'.op.i = i /\ s.c[i].st = "asked" /\ s'.c[i].st # "asked"
     /\ Cardinality(Settles(act'.r.log, i)) = 1 ]_vars
Answered == [][ act'.op.op = "answer" => Settles(act'.r.log, act'.op.i) # {} ]_vars
(* Nothing is heard once the worker is over. *)
Quiet == [][ ~s.up => act'.r.log = <<>> ]_vars
(* A body ends as the host ended it: complete only after its end, never after a failure. *)
Honest == [][ \A k \in 1..Len(act'.r.log) :
     LET l == act'.r.log[k]
         x == s'.c[l[2]]
     IN /\ (l[1] = "text" => x.host \in {"ended", "no"})
        /\ (l[1] = "done" => x.host \in {"ended", "no"} \/ x.over = "cancel" \/ act'.op.op = "stop") ]_vars
(* A read that waits has nothing to take. *)
NoStuck == \A i \in Calls : s.c[i].rd # "no" => s.c[i].q = <<>>
=============================================================================
