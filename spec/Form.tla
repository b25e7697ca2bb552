------------------------------- MODULE Form -------------------------------
(* Forms as bodies. Trip: a form built by a script, sent and read. Raw: a multipart text
   as other clients write them, read. An entry is its name, and a text or the bytes, name
   and type of a file.                                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS FieldNames, Texts, Contents, FileNames, Types, Heads, MaxEntries, MaxParts, Deepest
VARIABLES s, act
vars == <<s, act>>

Init == s = <<>> /\ act = [op |-> [op |-> "init"]]
Text(n, c) == [n |-> n, k |-> "text", c |-> c, f |-> "", t |-> ""]
File(n, c, f, t) == [n |-> n, k |-> "file", c |-> c, f |-> f, t |-> IF t = "" THEN "application/octet-stream" ELSE t]

(* ---- Trip *)
Ways == {"request", "response", "clone", "copy", "parts"}
Add ==
  { [op |-> "text", n |-> n, c |-> c] : n \in FieldNames, c \in Texts }
  \union { [op |-> "file", n |-> n, c |-> c, f |-> f, t |-> t] : n \in FieldNames, c \in Contents, f \in FileNames, t \in Types }
  \union { [op |-> "blob", n |-> n, c |-> c, t |-> t] : n \in FieldNames, c \in Contents, t \in Types }
  \union { [op |-> "renamed", n |-> n, c |-> c, f |-> f] : n \in FieldNames, c \in Contents, f \in FileNames }
Entry(op) == CASE op.op = "text" -> Text(op.n, op.c)
               [] op.op = "file" -> File(op.n, op.c, op.f, op.t)
               [] op.op = "blob" -> File(op.n, op.c, "blob", op.t)
               [] op.op = "renamed" -> File(op.n, op.c, op.f, "")
AllText(q) == \A i \in 1..Len(q) : q[i].k = "text"
TripOps(q) == (IF Len(q) < MaxEntries THEN Add ELSE {})
              \union { [op |-> "send", how |-> h] : h \in Ways }
              \union (IF AllText(q) THEN { [op |-> "params", how |-> h] : h \in {"request", "response"} } ELSE {})
TripAct(op) ==
  /\ s' = IF op.op \in {"send", "params"} THEN s ELSE Append(s, Entry(op))
  /\ act' = [op |-> op, r |-> [e |-> IF op.op \in {"send", "params"} THEN s ELSE <<>>, err |-> "no"]]
Trip == \E op \in TripOps(s) : TripAct(op)
DeepTrip == \E a \in {RandomElement({"add", "add", "send"})} :
  \E op \in {RandomElement(IF a = "add" /\ Len(s) < MaxEntries THEN Add ELSE { o \in TripOps(s) : o.op \in {"send", "params"} })} : TripAct(op)

(* ---- Raw *)
CTs == {"plain", "quoted", "more", "case"}
Ends == {"whole", "epilogue", "cut content", "cut head", "no end"}
Part == { [h |-> h, n |-> n, c |-> c] : h \in Heads, n \in FieldNames, c \in Contents }
Of(p) == CASE p.h \in {"text", "lower", "unquoted", "padded"} -> <<Text(p.n, p.c)>>
           [] p.h \in {"file", "file first"} -> <<File(p.n, p.c, "f.t", "x/y")>>
           [] p.h = "no type" -> <<File(p.n, p.c, "f.t", "any")>>
           [] p.h = "no file" -> <<File(p.n, p.c, "empty", "x/y")>>
           [] p.h = "other" -> <<Text(p.n, p.c)>>
RECURSIVE All(_)
All(ps) == IF ps = <<>> THEN <<>> ELSE Of(Head(ps)) \o All(Tail(ps))
RawOp(ct, pre, ps, end, how) == [op |-> "raw", ct |-> ct, pre |-> pre, p |-> ps, end |-> end, how |-> how]
RawAct(op) ==
  /\ s' = s
  /\ act' = [op |-> op, r |-> IF op.end \in {"whole", "epilogue"} THEN [e |-> All(op.p), err |-> "no"]
                              ELSE [e |-> <<>>, err |-> "TypeError"]]
Fine(p) == p.h = "unquoted" => p.n \in {"a", "b"}
Raw == \/ \E ct \in CTs, pre \in BOOLEAN, p \in { p \in Part : Fine(p) }, end \in Ends, how \in {"request", "response"} :
            RawAct(RawOp(ct, pre, <<p>>, end, how))
       \/ \E ct \in CTs, pre \in BOOLEAN, how \in {"request", "response"}, end \in {"whole", "epilogue"} : RawAct(RawOp(ct, pre, <<>>, end, how))
       \/ \E ct \in {"none", "other", "no boundary"}, how \in {"request", "response"} :
            /\ s' = s
            /\ act' = [op |-> RawOp(ct, FALSE, <<>>, "whole", how), r |-> [e |-> <<>>, err |-> "TypeError"]]
P1 == RandomElement({ p \in Part : Fine(p) })
DeepRaw == \E ct \in {RandomElement(CTs)}, pre \in {RandomElement(BOOLEAN)}, end \in {RandomElement(Ends)}, how \in {RandomElement({"request", "response"})} :
  \E ps \in { RandomElement({ <<P1>>, <<P1, P1>>, <<P1, P1, P1>>, <<P1, P1, P1, P1, P1>> }) } : RawAct(RawOp(ct, pre, ps, end, how))

View == s
Within == TLCGet("level") <= Deepest
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))
(* What is sent is what was put in; nothing that is cut off is taken for a form. *)
Sent == [][ act'.op.op \in {"send", "params"} => act'.r.e = s /\ s' = s ]_vars
Cut == [][ act'.op.op = "raw" /\ act'.op.end \notin {"whole", "epilogue"} => act'.r.e = <<>> ]_vars
=============================================================================
