-------------------------------- MODULE Task --------------------------------
(* One task through a worker: the host hands it in (invoked, or due by its schedule), the
   handler answers with respondWith, by returning or by throwing, and may pass promises to
   waitUntil. A step ends when nothing is left to do.

   The host gets one result, when the handler has ended and every promise is settled:
   what the handler answered, or a failure if it threw, if one of the promises was
   rejected, or if there is no handler.                                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Handler,    \* "task", "scheduled" or "none": what the script can handle
          Values, Payloads, MaxW, MaxResp, OpNames

VARIABLES s, act
vars == <<s, act>>

None == "none"
Ok(d) == [success |-> TRUE, data |-> d, error |-> None]
Failed(e) == [success |-> FALSE, data |-> None, error |-> e]

Init0 == [ph |-> "idle", h |-> "no", res |-> Ok(None), responded |-> 0, wu |-> <<>>, bad |-> None, up |-> TRUE]

R(st, r, log, host) == [s |-> st, r |-> [r |-> r, log |-> log, host |-> host]]

(* What a value that is answered says. "yes", "no", "data" and "both" are results: objects
   that say whether the task succeeded, the data, the error. *)
Result(v) ==
  CASE v = "yes"  -> Ok("obj")                                              \* {success: true, data: {a: [1]}}
    [] v = "no"   -> Failed("E")                                            \* {success: false, error: 'E'}
    [] v = "both" -> [success |-> FALSE, data |-> "num", error |-> "E"]     \* {success: false, data: 7, error: 'E'}
    [] v \in {"undef", "null"} -> Ok(None)
    [] OTHER -> Ok(v)
Tells == {"yes", "no", "both"}
(* respondWith takes a result, or data that is no object: other objects are not specified. *)
Objects == {"obj", "list", "odd"}
Responds(v) == IF v = "bare" THEN Ok("str") ELSE Result(v)                  \* {data: 'text'}

Due(st) == st.h # "no" /\ \A i \in 1..Len(st.wu) : st.wu[i] # "p"
Final(st) == IF st.bad # None THEN Failed(st.bad) ELSE st.res
Fin(st, r, log) ==
  IF st.ph = "run" /\ Due(st)
  THEN R([st EXCEPT !.ph = "over"], r, log, << [result |-> Final(st)], "exec ok" >>)
  ELSE R(st, r, log, <<>>)

(* What the handler is told. *)
Event(op) ==
  LET time == IF op.kind = "schedule" THEN op.time ELSE 0 IN
  IF Handler = "scheduled" THEN << "event", "-", 0, "undef", time >>
  ELSE << "event", op.id, op.attempt, IF op.kind = "schedule" THEN "undef" ELSE op.payload, time >>

Exec(st, op) ==
  IF Handler = "none"
  THEN R([st EXCEPT !.ph = "over"], "ok", <<>>, << [result |-> Failed("missing")], "exec ok" >>)
  ELSE R([st EXCEPT !.ph = "run"], "ok", << Event(op) >>, <<>>)
Respond(st, op) ==
  R([st EXCEPT !.res = IF st.bad = None THEN Responds(op.v) ELSE @, !.responded = @ + 1], "ok", <<>>, <<>>)
Return(st, op) ==
  LET t == [st EXCEPT !.h = "ended"] IN
  IF Handler = "scheduled" \/ op.v = "undef" \/ st.responded > 0 THEN Fin(t, "ok", <<>>)
  ELSE Fin([t EXCEPT !.res = IF op.v = "bare" THEN Ok("bare") ELSE Result(op.v)], "ok", <<>>)
Throw(st, op) == Fin([st EXCEPT !.h = "ended", !.bad = "T"], "ok", <<>>)
Wait(st) == R([st EXCEPT !.wu = Append(@, "p")], "ok", <<>>, <<>>)
(* The failure told is that of the handler or, else, of a promise that is rejected. *)
Settle(st, op) ==
  LET t == [st EXCEPT !.wu[op.i] = op.how] IN Fin(t, "ok", <<>>)
Rejections(st) == { i \in 1..Len(st.wu) : st.wu[i] = "fail" }

(* The result names one of the promises that were rejected. *)
Name(i) == "W" \o ToString(i)
Blame(o) ==
  IF o.r.host = <<>> \/ ~o.s.up \/ o.s.bad # None \/ Rejections(o.s) = {} THEN {o}
  ELSE { [o EXCEPT !.r.host = << [result |-> Failed(Name(i))], "exec ok" >>] : i \in Rejections(o.s) }

Close(st) == R([st EXCEPT !.up = FALSE], "ok", <<>>, IF st.ph = "run" THEN << [result |-> "none"] >> ELSE <<>>)

Do(st, op) ==
  Blame(CASE op.op = "exec" -> Exec(st, op)
          [] op.op = "respond" -> Respond(st, op)
          [] op.op = "return" -> Return(st, op)
          [] op.op = "throw" -> Throw(st, op)
          [] op.op = "wait" -> Wait(st)
          [] op.op = "settle" -> Settle(st, op)
          [] op.op = "close" -> Close(st))

If(b) == { x \in {TRUE} : b }
Ops(st) ==
  LET live == st.up /\ st.ph = "run"
      running == live /\ st.h = "no" IN
  { op \in
    { [op |-> "exec", kind |-> "task", id |-> i, attempt |-> a, payload |-> p] :
        i \in { j \in {"id-1"} : st.ph = "idle" /\ st.up }, a \in {1, 3}, p \in Payloads }
    \union { [op |-> "exec", kind |-> "schedule", id |-> "id-2", attempt |-> 1, time |-> t] :
        t \in { j \in {5, 1700000000} : st.ph = "idle" /\ st.up } }
    \union { [op |-> "respond", v |-> v] : v \in { x \in Values \ Objects : running /\ Handler = "task" /\ st.responded < MaxResp } }
    \union { [op |-> "return", v |-> v] : v \in { x \in Values : running } }
    \union { [op |-> "throw", how |-> h] : h \in { x \in {"error", "string", "object"} : running } }
    \union { [op |-> "wait"] : x \in If(live /\ Len(st.wu) < MaxW /\ ~Due(st)) }
    \union { [op |-> "settle", i |-> i, how |-> h] : i \in { j \in 1..Len(st.wu) : live /\ st.wu[j] = "p" }, h \in {"ok", "fail"} }
    \union { [op |-> "close"] : x \in If(st.up /\ st.ph # "over") }
    : op.op \in OpNames }

Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) == \E o \in Do(s, op) : s' = o.s /\ act' = [op |-> op, r |-> o.r]
Next == \E op \in Ops(s) : Act(op)
DeepN == LET ops == Ops(s) IN
  \E n \in {RandomElement({ o.op : o \in ops })} : \E op \in {RandomElement({ o \in ops : o.op = n })} : Act(op)
Spec == Init /\ [][Next]_vars
View == s
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))

(* ---- properties *)
(* One result, when the handler has ended and every promise is settled. *)
Once == [][ (act'.r.host # <<>> /\ act'.op.op # "close") =>
              /\ s.ph # "over" /\ s'.ph = "over" /\ Len(act'.r.host) = 2
              /\ (Handler # "none" => Due(s')) ]_vars
Ends == (s.ph = "run" /\ s.up) => ~Due(s)
(* A failure is told as one. *)
NotHidden == [][ (act'.r.host # <<>> /\ act'.op.op # "close" /\ (s'.bad # None \/ Rejections(s') # {}))
                   => ~act'.r.host[1].result.success ]_vars
=============================================================================
