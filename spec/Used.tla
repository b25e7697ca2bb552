------------------------------- MODULE Used -------------------------------
(* A body that was read, or that someone is reading, is not sent: neither with a request
   of the script nor as its response. What is sent is whole. There is one message (or
   bare stream) at a time; what is done to it comes before it is sent.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode,                            \* "sent" or "served"
          Makes, Bodies, Touches, Ways
VARIABLES s, act
vars == <<s, act>>

None == [c |-> "no", b |-> "none", used |-> FALSE, locked |-> FALSE, gone |-> FALSE, wait |-> "no", open |-> FALSE]
Init == s = None /\ act = [op |-> [op |-> "init"]]

Text(b) == CASE b = "none" -> "" [] b \in {"text", "two"} -> "h%C3%A9" [] b \in {"str", "u8", "stream"} -> "h%C3%A9%00%FF"
(* as a text: what is no UTF-8 is replaced *)
AsText(b) == CASE b \in {"str", "u8", "stream"} -> "h%C3%A9%00%EF%BF%BD" [] OTHER -> Text(b)
First(b) == CASE b = "two" -> "h" [] b = "stream" -> "h%C3" [] OTHER -> Text(b)
Null == s.b = "none"
Spent == s.used \/ s.locked
Say(op, r, t) == s' = t /\ act' = [op |-> op, r |-> r]
Log(op, l, t) == Say(op, [asked |-> <<>>, log |-> << l >>, host |-> <<>>], t)
Refused(op) == Log(op, <<"refused">>, s)

(* the script makes a message, or is given one *)
Made(op) ==
  LET t == [s EXCEPT !.c = op.c, !.b = op.b, !.used = FALSE, !.locked = FALSE, !.gone = FALSE]
  IN IF op.c = "fetched" THEN Say(op, [asked |-> << <<"fetch", "GET", "", <<>>, "">> >>, log |-> <<>>, host |-> <<>>], [t EXCEPT !.wait = "made"])
     ELSE Log(op, <<"made">>, t)
(* it does something with it *)
Touch(op) ==
  CASE op.f \in {"text", "buffer"} -> IF Spent THEN Refused(op) ELSE Log(op, <<"read", IF op.f = "text" THEN AsText(s.b) ELSE Text(s.b)>>, [s EXCEPT !.used = TRUE])
    [] op.f = "peek" -> IF Spent THEN Refused(op) ELSE Log(op, <<"read", First(s.b)>>, [s EXCEPT !.used = TRUE])
    [] op.f = "lock" -> IF s.locked THEN Refused(op) ELSE Log(op, <<"ok">>, [s EXCEPT !.locked = TRUE])
    [] op.f = "unlock" -> Log(op, <<"ok">>, [s EXCEPT !.locked = FALSE])
    [] op.f = "cancel" -> Log(op, <<"ok">>, [s EXCEPT !.used = TRUE])
    [] op.f \in {"clone", "clonelock"} -> IF Spent THEN Refused(op) ELSE Log(op, <<"ok">>, s)
    [] op.f = "cloneread" -> IF Spent THEN Refused(op) ELSE Log(op, <<"read", Text(s.b)>>, s)
    [] op.f = "wrap" -> IF Spent THEN Refused(op) ELSE Log(op, <<"ok">>, s)
    [] op.f = "used" -> Log(op, <<"used", s.used>>, s)
Can(f) ==
  /\ f = "unlock" => s.locked /\ ~s.gone
  /\ f = "peek" => s.locked \/ ~s.used
  /\ f = "cancel" => ~s.locked            \* cancelling what someone reads is left open
  /\ f \in {"peek", "lock", "cancel"} => ~s.gone
  /\ s.gone => f \in {"text", "buffer", "clone", "wrap", "used"}
  /\ Null => f \in {"clone", "wrap"}
  /\ s.c = "stream" => f \in {"peek", "lock", "unlock", "cancel", "clone"}
  /\ s.c = "stream" /\ Spent => f # "clone"
  /\ s.c \in {"response", "fetched"} /\ Spent => f # "wrap"
  /\ f = "used" => s.c # "stream"
(* it sends it *)
Sent(op) ==
  IF Spent THEN Refused(op)
  ELSE LET t == [s EXCEPT !.used = ~Null, !.gone = ~Null, !.wait = op.k]
       IN IF op.k = "storage" THEN Say(op, [asked |-> << <<"storage", "put", Text(s.b)>> >>, log |-> <<>>, host |-> <<>>], t)
          ELSE Say(op, [asked |-> << <<op.k, "POST", "", <<>>, Text(s.b)>> >>, log |-> <<>>, host |-> <<>>], t)
Answered(op) == Log(op, IF s.wait = "made" THEN <<"made">> ELSE <<"answered">>, [s EXCEPT !.wait = "no"])
(* it is asked, and answers with it *)
Serve(op) == Say(op, [asked |-> <<>>, log |-> << <<"request">> >>, host |-> <<>>], [s EXCEPT !.open = TRUE])
Respond(op) == Say(op, [asked |-> <<>>, log |-> <<>>,
                        host |-> << IF Spent THEN <<"response", 500, "", <<>>, "">> ELSE <<"response", 200, "", <<>>, Text(s.b)>>, "ok" >>], None)

Ops ==
  IF Mode = "served" /\ ~s.open THEN {[op |-> "serve", m |-> "POST", h |-> "none", b |-> "none"]}
  ELSE IF s.wait = "made" THEN {[op |-> "answer", st |-> 200, h |-> "none", b |-> s.b]}
  ELSE IF s.wait = "storage" THEN {[op |-> "reply", k |-> "storage", f |-> "put", v |-> "ok"]}
  ELSE IF s.wait # "no" THEN {[op |-> "answer", st |-> 200, h |-> "none", b |-> "none"]}
  ELSE {x \in {[op |-> "made", c |-> c, b |-> b] : c \in Makes, b \in Bodies} :
          /\ (x.c = "stream" => x.b \notin {"none", "text", "u8", "str"}) /\ (x.c = "fetched") = (x.b \in {"str", "stream"})
          /\ (Mode = "served" => s.c = "no")}
       \union (IF s.c = "no" THEN {}
               ELSE {[op |-> "touch", f |-> f] : f \in {x \in Touches : Can(x)}}
                    \union (IF Mode = "served" THEN {x \in {[op |-> "respond"]} : ~s.gone}
                            ELSE {x \in {[op |-> "sent", k |-> k] : k \in Ways} : ~(Null /\ x.k = "storage")}))
Do(op) ==
  CASE op.op = "made" -> Made(op)
    [] op.op = "touch" -> Touch(op)
    [] op.op = "sent" -> Sent(op)
    [] op.op = "serve" -> Serve(op)
    [] op.op = "respond" -> Respond(op)
    [] OTHER -> Answered(op)
Next == \E op \in Ops : Do(op)

(* What was read or is being read is never sent; and nothing is refused for no reason. *)
NeverAgain == [][ /\ (s.used \/ s.locked) /\ act'.op.op = "sent" => act'.r.asked = <<>>
                  /\ (act'.r.log = << <<"refused">> >>) => (s.used \/ s.locked)
                  /\ act'.op.op = "respond" => (act'.r.host[1][2] = 200) = ~(s.used \/ s.locked) ]_vars
View == s
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))
=============================================================================
