------------------------------- MODULE Body -------------------------------
(* The bodies of requests and responses. A body is a branch of a source of chunks: it
   is given whole, once; a clone is another branch from the same place. Two messages
   may share one body (one made of the other). What was read in any way, or is being
   read, is refused to others.                                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, Chunks, Given, Lists, MaxFeed, MaxMade, Deepest, OpNames
VARIABLES s, act
vars == <<s, act>>

Bytes(c) == CASE c = "u8" -> <<1, 2>> [] c = "sub" -> <<3>> [] c = "buf" -> <<4, 5>> [] c = "dv" -> <<6>>
              [] c = "u16" -> <<7, 0, 8, 0>> [] c = "str" -> <<195, 169>> [] c = "half" -> <<195>> [] c = "rest" -> <<169>>
              [] c = "open" -> <<91, 49, 44>> [] c = "close" -> <<50, 93>> [] c = "num" -> <<49, 50>>
              [] c \in {"empty", "null"} -> <<>>
Whole(f) == CASE f = "text" -> <<104, 195, 169>> [] f = "u8" -> <<1, 2>> [] f = "blob" -> <<9>>
              [] f = "params" -> <<97, 61, 49>> [] f = "empty" -> <<>> [] f = "json" -> <<91, 49, 44, 50, 93>>
List(l) == CASE l = "nothing" -> <<>> [] l = "split" -> <<"half", "rest">> [] l = "views" -> <<"buf", "dv", "u16", "sub">>
             [] l = "texts" -> <<"open", "null", "num", "close">> [] l = "few" -> <<"u8", "empty", "str">>
Digits(b) == \A i \in 1..Len(b) : b[i] \in 48..57
IsJson(b) == IF Len(b) >= 5 /\ b[1] = 91
             THEN SubSeq(b, 1, 3) = <<91, 49, 44>> /\ SubSeq(b, Len(b) - 1, Len(b)) = <<50, 93>> /\ Digits(SubSeq(b, 4, Len(b) - 2))
             ELSE b # <<>> /\ Digits(b)
RECURSIVE Join(_)
Join(cs) == IF cs = <<>> THEN <<>> ELSE Bytes(Head(cs)) \o Join(Tail(cs))
RECURSIVE Valid(_)
Valid(b) ==
  IF b = <<>> THEN <<>>
  ELSE IF Len(b) > 1 /\ b[1] = 195 /\ b[2] = 169 THEN <<195, 169>> \o Valid(SubSeq(b, 3, Len(b)))
  ELSE IF b[1] > 127 THEN <<239, 191, 189>> \o Valid(Tail(b))
  ELSE <<b[1]>> \o Valid(Tail(b))

None == [kind |-> "no", br |-> 0]
Init0 == [m |-> [x \in Names |-> None], b |-> <<>>, src |-> <<>>, pend |-> <<>>, n |-> 0, made |-> 0]

(* ---- what a consumer gets of the rest of a branch *)
Src(st, br) == st.src[st.b[br].src]
Rest(st, br) == LET q == Src(st, br) IN
  IF q.f # "stream" THEN q.w
  ELSE Join(SubSeq(q.c, st.b[br].pos + 1, Len(q.c)))
Result(st, p) ==
  LET b == Rest(st, p.br) IN
  IF Src(st, p.br).end = "err" THEN [id |-> p.id, e |-> "boom", b |-> <<>>]
  ELSE CASE p.how = "text" -> [id |-> p.id, e |-> "ok", b |-> Valid(b)]
         [] p.how = "buffer" -> [id |-> p.id, e |-> "ok", b |-> b]
         [] p.how = "json" -> IF IsJson(b) THEN [id |-> p.id, e |-> "ok", b |-> b]
                              ELSE [id |-> p.id, e |-> "SyntaxError", b |-> <<>>]
Ended(st, p) == Src(st, p.br).end # "open"
(* every consumer whose source has ended gets its result *)
RECURSIVE Results(_, _)
Results(st, ps) == IF ps = <<>> THEN <<>> ELSE <<Result(st, Head(ps))>> \o Results(st, Tail(ps))
Settle(st, done) ==
  LET ready == SelectSeq(st.pend, LAMBDA p : Ended(st, p))
  IN [st |-> [st EXCEPT !.pend = SelectSeq(st.pend, LAMBDA p : ~Ended(st, p)),
                        !.b = [i \in 1..Len(st.b) |->
                                 IF \E k \in 1..Len(ready) : ready[k].br = i THEN [st.b[i] EXCEPT !.lock = "no", !.pos = Len(Src(st, i).c)]
                                 ELSE st.b[i]]],
      done |-> done \o Results(st, ready)]

Has(st, x) == st.m[x].br # 0
Free(st, x) == LET b == st.b[st.m[x].br] IN ~b.dist /\ b.lock = "no"
Branch(src, pos) == [src |-> src, pos |-> pos, dist |-> FALSE, lock |-> "no"]
Refusal(st) == <<[id |-> st.n + 1, e |-> "TypeError", b |-> <<>>]>>
Fine(st, b) == <<[id |-> st.n + 1, e |-> "ok", b |-> b]>>
Count(st) == [st EXCEPT !.n = @ + 1]

Ops(st) ==
  { op \in
    { [op |-> "make", x |-> x, kind |-> k, f |-> f] : x \in Names, k \in {"request", "response"}, f \in Given }
    \union { [op |-> "stream", x |-> x, kind |-> k, c |-> List(c), end |-> e] :
               x \in Names, k \in {"request", "response"}, c \in Lists, e \in {"open", "closed", "err"} }
    \union { [op |-> "feed", i |-> i, c |-> c] : i \in 1..Len(st.src), c \in Chunks }
    \union { [op |-> o, i |-> i] : o \in {"close", "fail"}, i \in 1..Len(st.src) }
    \union { [op |-> "clone", x |-> x, y |-> y] : x, y \in Names }
    \union { [op |-> "share", x |-> x, y |-> y, kind |-> k] : x, y \in Names, k \in {"request", "response"} }
    \union { [op |-> "consume", x |-> x, how |-> h] : x \in Names, h \in {"text", "buffer", "json"} }
    \union { [op |-> o, x |-> x] : o \in {"read", "cancel", "lock", "unlock"}, x \in Names }
    : /\ op.op \in OpNames
      /\ op.op \in {"make", "stream"} => st.made < MaxMade /\ st.m[op.x].kind = "no"
      /\ op.op \in {"feed", "close", "fail"} => st.src[op.i].end = "open"
      /\ op.op = "feed" => Len(st.src[op.i].c) < MaxFeed
      /\ op.op = "clone" => st.m[op.x].kind # "no" /\ st.m[op.y].kind = "no" /\ Has(st, op.x)
      /\ op.op = "share" => st.m[op.x].kind # "no" /\ st.m[op.y].kind = "no" /\ Has(st, op.x) /\ Free(st, op.x)
      /\ op.op = "consume" => st.m[op.x].kind # "no"
      /\ op.op \in {"read", "cancel", "lock", "unlock"} => Has(st, op.x)
      /\ op.op \in {"read", "cancel", "lock"} => st.b[st.m[op.x].br].lock = "no"
      /\ op.op \in {"read", "cancel"} => Src(st, st.m[op.x].br).f = "stream"
      /\ op.op = "read" => LET b == st.b[st.m[op.x].br]
                           IN st.src[b.src].end # "err" /\ (st.src[b.src].end = "closed" \/ b.pos < Len(st.src[b.src].c))
      /\ op.op = "unlock" => st.b[st.m[op.x].br].lock = "reader" }

Do(st, op) ==
  CASE op.op = "make" ->
       IF op.f = "none" THEN [st |-> [st EXCEPT !.m[op.x] = [kind |-> op.kind, br |-> 0], !.made = @ + 1], done |-> <<>>]
       ELSE [st |-> [st EXCEPT !.m[op.x] = [kind |-> op.kind, br |-> Len(st.b) + 1], !.made = @ + 1,
                               !.b = Append(@, Branch(Len(st.src) + 1, 0)),
                               !.src = Append(@, [f |-> op.f, w |-> Whole(op.f), c |-> <<>>, end |-> "closed"])], done |-> <<>>]
    [] op.op = "stream" ->
       [st |-> [st EXCEPT !.m[op.x] = [kind |-> op.kind, br |-> Len(st.b) + 1], !.made = @ + 1,
                          !.b = Append(@, Branch(Len(st.src) + 1, 0)),
                          !.src = Append(@, [f |-> "stream", w |-> <<>>, c |-> op.c, end |-> op.end])], done |-> <<>>]
    [] op.op = "feed" -> [st |-> [st EXCEPT !.src[op.i].c = Append(@, op.c)], done |-> <<>>]
    [] op.op = "close" -> Settle([st EXCEPT !.src[op.i].end = "closed"], <<>>)
    [] op.op = "fail" -> Settle([st EXCEPT !.src[op.i].end = "err"], <<>>)
    [] op.op = "clone" ->
       IF ~Free(st, op.x) THEN [st |-> Count(st), done |-> Refusal(st)]
       ELSE LET b == st.b[st.m[op.x].br] IN
            [st |-> [st EXCEPT !.m[op.y] = [kind |-> st.m[op.x].kind, br |-> Len(st.b) + 2], !.m[op.x].br = Len(st.b) + 1,
                               !.b = Append(Append([st.b EXCEPT ![st.m[op.x].br].lock = "teed"], Branch(b.src, b.pos)), Branch(b.src, b.pos))],
             done |-> <<>>]
    [] op.op = "share" -> [st |-> [st EXCEPT !.m[op.y] = [kind |-> op.kind, br |-> st.m[op.x].br]], done |-> <<>>]
    [] op.op = "consume" ->
       IF ~Has(st, op.x)
       THEN [st |-> Count([st EXCEPT !.m[op.x] = None]),        \* (whether it can be asked again is not said)
             done |-> <<[id |-> st.n + 1, e |-> IF op.how = "json" THEN "SyntaxError" ELSE "ok", b |-> <<>>]>>]
       ELSE IF ~Free(st, op.x) THEN [st |-> Count(st), done |-> Refusal(st)]
       ELSE Settle([Count(st) EXCEPT !.b[st.m[op.x].br] = [@ EXCEPT !.dist = TRUE, !.lock = "busy"],
                                     !.pend = Append(@, [id |-> st.n + 1, br |-> st.m[op.x].br, how |-> op.how])], <<>>)
    [] op.op = "read" ->
       LET i == st.m[op.x].br
           b == st.b[i]
           more == b.pos < Len(st.src[b.src].c) /\ b.lock # "over"
       IN [st |-> Count([st EXCEPT !.b[i].dist = TRUE, !.b[i].pos = IF more THEN @ + 1 ELSE @]),
           done |-> IF more THEN Fine(st, Bytes(st.src[b.src].c[b.pos + 1])) ELSE <<[id |-> st.n + 1, e |-> "done", b |-> <<>>]>>]
    [] op.op = "cancel" -> LET i == st.m[op.x].br IN [st |-> [st EXCEPT !.b[i].dist = TRUE, !.b[i].lock = "over"], done |-> <<>>]
    [] op.op = "lock" -> [st |-> [st EXCEPT !.b[st.m[op.x].br].lock = "reader"], done |-> <<>>]
    [] op.op = "unlock" -> [st |-> [st EXCEPT !.b[st.m[op.x].br].lock = "no"], done |-> <<>>]

See(st, x) ==
  IF ~Has(st, x) THEN [kind |-> st.m[x].kind, body |-> FALSE, used |-> FALSE]
  ELSE LET b == st.b[st.m[x].br] IN [kind |-> st.m[x].kind, body |-> TRUE, used |-> b.dist]
Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) == LET o == Do(s, op) IN
  s' = o.st /\ act' = [op |-> op, r |-> [done |-> o.done, m |-> [x \in Names |-> See(o.st, x)]]]
Next == \E op \in Ops(s) : Act(op)
Deep == \E op \in {RandomElement(Ops(s))} : Act(op)
DeepN == LET ops == Ops(s) IN
  \E n \in {RandomElement({ o.op : o \in ops })} : \E op \in {RandomElement({ o \in ops : o.op = n })} : Act(op)
View == s
Within == TLCGet("level") <= Deepest
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))

(* A body is consumed by at most one, and nobody waits for what has ended. *)
Waits == \A i \in 1..Len(s.pend) : s.src[s.b[s.pend[i].br].src].end = "open"
OnePending == \A i, j \in 1..Len(s.pend) : i # j => s.pend[i].br # s.pend[j].br
Once == [][ \A i \in 1..Len(s.b) : s.b[i].dist => s'.b[i].dist ]_vars
=============================================================================
