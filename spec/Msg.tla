--------------------------------- MODULE Msg ---------------------------------
(* What crosses the boundary between a script and its host: requests the script makes and
   their answers, calls on bindings, the request the script serves and its response. A
   message arrives as it was made, whatever the form it was given in; a call whose
   arguments cannot be a message is refused. Bodies and headers are named: what each of
   them is, in every form, is one text (bytes other than printable ones as %XX).         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode,                            \* "calls", "ops", "serve" or "once"
          Kinds, Inputs, Methods, Hdrs, Bodies, Status, Forms, OpNames

VARIABLES s, act
vars == <<s, act>>

Init == s = [open |-> "no", h |-> "none", k |-> "no"] /\ act = [op |-> [op |-> "init"]]

(* bodies, by the name of the form they are given in *)
BodyText(b) ==
  CASE b \in {"none", "null", "empty", "u8none"} -> ""
    [] b \in {"str", "u8", "sub", "buf", "view", "blob", "stream", "streams", "string"} -> "h%C3%A9%00%FF"
    [] b = "text" -> "h%C3%A9"
    [] b = "num" -> "42"
    [] b = "true" -> "true"
    [] b = "usp" -> "a=1&b=%2526"
    [] b = "form" -> "FORM"
    [] b = "json" -> "{\"a\":[1,null]}"
    [] b = "long" -> "LONG"
    [] OTHER -> "?"
TypeOf(b) == CASE b = "usp" -> "application/x-www-form-urlencoded;charset=UTF-8"
               [] b = "form" -> "multipart/form-data; boundary=BOUNDARY"
               [] OTHER -> ""
(* headers, by name *)
HdrList(h) ==
  CASE h \in {"none", "empty"} -> <<>>
    [] h \in {"obj", "headers", "pairs"} -> <<"x-a: 1", "x-b: two, 2">>
    [] h = "twice" -> <<"x-a: 1, 2">>
    [] h = "num" -> <<"x-a: 5">>
    [] h \in {"type", "Type"} -> <<>>
    [] h = "cookies" -> <<"set-cookie: a=1", "set-cookie: b=2, 3", "x-a: 1">>
    [] h = "odd" -> <<"x-a: \"'`${x}\\n">>
    [] h = "proto" -> <<"__proto__: 1", "constructor: 2">>
Type(h, b) == IF h \in {"type", "Type"} THEN "text/x" ELSE TypeOf(b)
Upper(m) == CASE m = "none" -> "GET" [] m = "put" -> "PUT" [] m = "Delete" -> "DELETE" [] OTHER -> m
Say(op, r, t) == s' = t /\ act' = [op |-> op, r |-> r]
Quiet(op, t) == Say(op, [asked |-> <<>>, log |-> <<>>, host |-> <<>>], t)

(* ---- the script makes a request, the host answers it *)
Call(op) ==
  LET over == op.input = "over"
      m == IF over /\ op.m = "none" THEN "DELETE" ELSE Upper(op.m)
      h == IF over /\ op.h = "none" THEN <<"x-old: 1">> ELSE HdrList(op.h)
      b == IF over /\ op.b = "none" THEN "old" ELSE BodyText(op.b)
  IN Say(op, [asked |-> << <<op.k, m, Type(op.h, op.b), h, b>> >>, log |-> <<>>, host |-> <<>>], [s EXCEPT !.open = "call", !.k = op.k])
Answer(op) ==
  Say(op, [asked |-> <<>>, log |-> << <<"resp", op.st, op.st >= 200 /\ op.st < 300, Type(op.h, "none"), HdrList(op.h), BodyText(op.b)>> >>, host |-> <<>>],
      [s EXCEPT !.open = "no", !.k = "no"])
Calls ==
  {[op |-> "call", k |-> k, input |-> i, m |-> m, h |-> h, b |-> b] :
     k \in {x \in Kinds : s.open = "no"}, i \in Inputs, m \in Methods, h \in Hdrs, b \in Bodies}
  \union {[op |-> "answer", k |-> s.k, st |-> st, h |-> h, b |-> b] :
     st \in {x \in Status : s.open = "call"}, h \in Hdrs \ {"twice", "num", "pairs", "headers", "empty"}, b \in Bodies \cap {"none", "empty", "str", "stream", "long"}}
CallOk(op) ==
  \/ op.op = "answer"
  \/ /\ (op.b = "none" \/ op.m \in {"POST", "put", "PATCH", "Delete"} \/ (op.input = "over" /\ op.m = "none"))
     /\ op.h \notin {"cookies"}
     /\ ~(op.input = "over" /\ op.b = "null")

(* ---- the script serves a request *)
Serve(op) ==
  Say(op, [asked |-> <<>>, log |-> << <<"request", op.m, Type(op.h, "none"), HdrList(op.h), BodyText(op.b)>> >>, host |-> <<>>], [s EXCEPT !.open = "serve"])
Respond(op) ==
  LET t == IF op.form = "json" /\ op.h \notin {"type", "Type"} THEN "application/json" ELSE Type(op.h, "none")
      h == IF op.form = "redirect" THEN <<"location: http://h/x">> ELSE HdrList(op.h)
      b == CASE op.form = "json" -> "{\"a\":[1,null]}" [] op.form = "redirect" -> "" [] OTHER -> BodyText(op.b)
      st == IF op.form = "redirect" THEN 302 ELSE op.st
  IN Say(op, [asked |-> <<>>, log |-> <<>>, host |-> << <<"response", st, t, h, b>>, "ok" >>], [s EXCEPT !.open = IF Mode = "once" THEN "over" ELSE "no"])
Serves ==
  {[op |-> "serve", m |-> m, h |-> h, b |-> b] :
     m \in {x \in Methods \ {"none", "put", "Delete"} : s.open = "no"}, h \in Hdrs \cap {"none", "obj", "type", "odd", "proto"}, b \in Bodies \cap {"none", "empty", "str", "stream", "long"}}
  \union {[op |-> "respond", form |-> f, st |-> st, h |-> h, b |-> b] :
     f \in {x \in Forms : s.open = "serve"}, st \in Status, h \in Hdrs, b \in Bodies}
ServeOk(op) == op.op = "serve" \/ (op.form \in {"json", "redirect"} => op.b = "none" /\ (op.form = "redirect" => op.h = "none" /\ op.st = 200))

(* ---- calls on bindings: what the host is asked, or that the script is refused *)
OpCases ==
  {[op |-> "kv", f |-> "get", v |-> v] : v \in {"key"}}
  \union {[op |-> "kv", f |-> "put", v |-> v] : v \in {"num", "str", "obj", "list", "true", "zero", "empty", "null", "odd", "ttl", "bigint", "cyclic", "symbol", "deep"}}
  \union {[op |-> "kv", f |-> "list", v |-> v] : v \in {"none", "prefix", "limit", "both"}}
  \union {[op |-> "kv", f |-> "delete", v |-> v] : v \in {"key"}}
  \union {[op |-> "storage", f |-> "put", v |-> v] : v \in {"text", "empty", "u8none", "u8", "sub", "buf", "view", "blob", "stream", "streams", "usp", "long"}}
  \union {[op |-> "storage", f |-> f, v |-> "key"] : f \in {"get", "head", "delete"}}
  \union {[op |-> "storage", f |-> "list", v |-> v] : v \in {"none", "prefix", "limit", "both"}}
  \union {[op |-> "db", f |-> "query", v |-> v] : v \in {"none", "null", "true", "num", "float", "str", "several", "array", "obj", "cyclic", "deep", "bigint"}}
Refused(op) == op.v \in {"bigint", "cyclic", "symbol", "deep", "badlimit", "obj"} /\ ~(op.op = "kv" /\ op.v = "obj")
               /\ ~(op.op = "storage" /\ op.v = "obj")
BindingCall(op) ==
  IF Refused(op) THEN Say(op, [asked |-> <<>>, log |-> << <<"refused">> >>, host |-> <<>>], s)
  ELSE Say(op, [asked |-> << <<op.op, op.f, IF op.op = "storage" /\ op.f = "put" THEN BodyText(op.v) ELSE op.v>> >>, log |-> <<>>, host |-> <<>>], [s EXCEPT !.open = op.f, !.k = op.op])
(* what the host answers *)
ReplyCases ==
  CASE s.k = "kv" /\ s.open = "get" -> {"num", "str", "obj", "list", "true", "zero", "empty", "null", "odd", "err"}
    [] s.open = "get" -> {"str", "empty", "null", "err"}
    [] s.open \in {"put", "delete"} -> {"ok", "err"}
    [] s.open = "list" -> {"none", "some", "err"}
    [] s.open = "head" -> {"size", "etag", "err"}
    [] s.open = "query" -> {"rows", "none", "err"}
    [] OTHER -> {}
Reply(op) == Say(op, [asked |-> <<>>, log |-> << IF op.v = "err" THEN <<"error", "E">> ELSE <<"got", op.f, op.v>> >>, host |-> <<>>],
                 [s EXCEPT !.open = "no", !.k = "no"])

Ops == { op \in
  CASE Mode = "calls" -> {x \in Calls : CallOk(x)}
    [] Mode \in {"serve", "once"} -> {x \in Serves : ServeOk(x)}
    [] Mode = "ops" -> {x \in OpCases : s.open = "no"} \union {[op |-> "reply", k |-> s.k, f |-> s.open, v |-> v] : v \in ReplyCases}
  : op.op \in OpNames }
Do(op) ==
  CASE op.op = "call" -> Call(op)
    [] op.op = "answer" -> Answer(op)
    [] op.op = "serve" -> Serve(op)
    [] op.op = "respond" -> Respond(op)
    [] op.op = "reply" -> Reply(op)
    [] OTHER -> BindingCall(op)
Next == \E op \in Ops : Do(op)
Deep == \E op \in {RandomElement(Ops)} : Do(op)

(* Nothing asked for is without an answer of its own; what is refused is not asked. *)
Paired == [][ /\ (Len(act'.r.asked) = 1) = (s.open = "no" /\ s'.open # "no" /\ s'.open # "serve")
              /\ Len(act'.r.asked) + Len(act'.r.log) + Len(act'.r.host) > 0 ]_vars
View == s
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))
=============================================================================
