------------------------------ MODULE Entries ------------------------------
(* Names with values: Headers, FormData and URLSearchParams. Each is a sequence of
   entries; names of headers are compared without regard to case and the values of one
   name are one entry, joined, except where values cannot be joined. A copy is one's own.
   A query can belong to a URL, whose text then follows it.

   In names and values ~e stands for an e with an accent, ~s for a character beyond the
   basic plane, ~r for the replacement character.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kind,        \* "headers", "form", "query", "url"
          Odd,         \* whether names and values are unusual ones
          Width,       \* how many names and values
          Max, Deepest, OpNames
VARIABLES s, act
vars == <<s, act>>

(* In the order in which they are sorted. *)
AllNames ==
  CASE Kind = "headers" /\ Odd -> << <<"www-authenticate", "www-authenticate">>, <<"Proxy-Authenticate", "proxy-authenticate">>,
                                     <<"SET-COOKIE", "set-cookie">>, <<"X-1", "x-1">>, <<"__proto__", "__proto__">>,
                                     <<"constructor", "constructor">>, <<"x-1", "x-1">> >>
    [] Kind = "headers" -> << <<"x-a", "x-a">>, <<"X-A", "x-a">>, <<"Set-Cookie", "set-cookie">>, <<"set-cookie", "set-cookie">>, <<"B", "b">> >>
    [] Odd -> << "", " ", "%41", "+", "1", "=", "?", "A&b=c#d", "B", "__proto__", "a", "aa", "null", "true", "undefined", "~e", "~s" >>
    [] OTHER -> <<"a", "b", "c">>
AllValues ==
  CASE Odd /\ Kind = "headers" -> << "p", "", "~e" >>
    [] Odd -> <<"1", "", "a=b", "x&y", "p+q r", "100%", "#?", "~e~s", "null", "0", "%20">>
    [] OTHER -> <<"p", "q">>
Take(q) == SubSeq(q, 1, IF Width < Len(q) THEN Width ELSE Len(q))
Names == Take(AllNames)
Values == { Take(AllValues)[i] : i \in 1..Len(Take(AllValues)) }

Objs == {"x", "y"}
None == "none"
Init0 == [o |-> [x \in Objs |-> <<>>]]

(* ---- headers: a name is <<how it is written, which it is>> *)
Key(n) == IF Kind = "headers" THEN n[2] ELSE n
Alone(k) == k \in {"set-cookie", "www-authenticate", "proxy-authenticate"}   \* values that cannot be joined

At(q, n) == SelectSeq(q, LAMBDA e : e.n = Key(n))
Without(q, n) == SelectSeq(q, LAMBDA e : e.n # Key(n))
First(q, n) == CHOOSE i \in 1..Len(q) : q[i].n = Key(n) /\ \A j \in 1..(i-1) : q[j].n # Key(n)

Append1(q, n, v) == Append(q, [n |-> Key(n), v |-> v])
Set1(q, n, v) ==
  IF At(q, n) = <<>> THEN Append1(q, n, v)
  ELSE LET i == First(q, n)
       IN SubSeq(q, 1, i - 1) \o <<[n |-> Key(n), v |-> v]>> \o Without(SubSeq(q, i + 1, Len(q)), n)

RECURSIVE AppendAll(_, _)
AppendAll(q, init) == IF init = <<>> THEN q ELSE AppendAll(Append1(q, Head(init).n, Head(init).v), Tail(init))

RECURSIVE Sorted(_)
Rank(n) == CHOOSE i \in 1..Len(AllNames) : AllNames[i] = n
Least(q) == CHOOSE i \in 1..Len(q) : /\ \A j \in 1..Len(q) : Rank(q[i].n) <= Rank(q[j].n)
                                     /\ \A j \in 1..(i-1) : Rank(q[j].n) > Rank(q[i].n)
Sorted(q) == IF q = <<>> THEN <<>>
             ELSE LET i == Least(q) IN <<q[i]>> \o Sorted(SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q)))

N == { Names[i] : i \in 1..Len(Names) }
Hows == CASE Kind = "headers" -> {"copy", "pairs", "object", "map", "message"}
          [] Kind = "form" -> {"append"}
          [] Kind = "query" -> {"copy", "pairs", "object", "map", "text", "text?", "form"}
          [] Kind = "url" -> {"href", "relative"}
(* ---- the text of a query: its pieces, and how its parts are written *)
Signs == { <<"a", "a">>, <<"+", " ">>, <<"%2B", "+">>, <<"%41", "A">>, <<"%zz", "%zz">>, <<"%C3%A9", "~e">>, <<"%C3", "~r">>,
           <<" ", " ">>, <<"~e", "~e">>, <<"%26", "&">>, <<"%3d", "=">>, <<"?", "?">>, <<"%", "%">> }
InValue == Signs \union { <<"=", "=">> }
Few == { <<"a", "a">>, <<"+", " ">>, <<"%3d", "=">> }
Piece(ns, vs, eqs) == [n : ns, v : vs, eq : eqs]
None0 == { <<>> }
One(S) == { <<x>> : x \in S }
Two(S, T) == { <<x, y>> : x \in S, y \in T } \ { <<x, y>> \in (S \X T) : x[1] = "%" }
Empty == Piece(None0, None0, {FALSE})
Any1 == Piece(None0 \union One(Signs), None0 \union One(InValue), {TRUE}) \union Piece(One(Signs), None0, {FALSE}) \union Empty
Small == Piece(None0 \union One(Few), None0 \union One(Few \union {<<"=", "=">>}), {TRUE}) \union Piece(One(Few), None0, {FALSE}) \union Empty
Texts == { <<>> } \union One(Any1)
         \union One(Piece(One({<<"a", "a">>}), Two(InValue, InValue), {TRUE}) \union Piece(Two(Signs, Signs), One({<<"a", "a">>}), {TRUE}))
         \union (Small \X Small) \union { <<x, y, z>> : x, y, z \in { p \in Small : p \in Empty \/ (p.n # <<>> /\ p.v = <<>>) } }
RECURSIVE Meant(_)
Meant(q) == IF q = <<>> THEN "" ELSE Head(q)[2] \o Meant(Tail(q))
Written(q) == [i \in 1..Len(q) |-> q[i][1]]
RECURSIVE Parsed(_)
Parsed(t) == IF t = <<>> THEN <<>>
             ELSE (IF Head(t) \in Empty THEN <<>> ELSE <<<<Meant(Head(t).n), Meant(Head(t).v)>>>>) \o Parsed(Tail(t))
ParseOps ==
  { [op |-> "parse", mark |-> m, t |-> [i \in 1..Len(t) |-> [n |-> Written(t[i].n), v |-> Written(t[i].v), eq |-> t[i].eq]],
     want |-> Parsed(t)] : m \in BOOLEAN,
       t \in { x \in Texts : x = <<>> \/ x[1].n = <<>> \/ x[1].n[1][1] # "?" } }

Ops(st) ==
  { op \in
    { [op |-> o, n |-> n, v |-> v] : o \in {"append", "set"}, n \in N, v \in Values }
    \union { [op |-> "delete", n |-> n] : n \in N }
    \union { [op |-> o] : o \in {"sort", "clear", "meddle"} }
    \union { [op |-> "make", how |-> h] : h \in Hows }      \* y from what x holds
    \union { [op |-> "swap"] }                             \* y is x from now on, and x y
    : /\ op.op \in OpNames
      /\ op.op \in {"append", "set"} => (Len(st.o["x"]) < Max \/ (op.op = "set" /\ At(st.o["x"], op.n) # <<>>))
      /\ op.op = "sort" => Kind \in {"query", "url"}
      /\ (op.op = "make" /\ op.how \in {"object", "map"}) =>
           \A i, j \in 1..Len(st.o["x"]) : i # j => st.o["x"][i].n # st.o["x"][j].n }

Do(st, op) ==
  CASE op.op = "append" -> [st EXCEPT !.o["x"] = Append1(@, op.n, op.v)]
    [] op.op = "set" -> [st EXCEPT !.o["x"] = Set1(@, op.n, op.v)]
    [] op.op = "delete" -> [st EXCEPT !.o["x"] = Without(@, op.n)]
    [] op.op = "sort" -> [st EXCEPT !.o["x"] = Sorted(@)]
    [] op.op = "clear" -> [st EXCEPT !.o["x"] = <<>>]
    [] op.op = "make" -> [st EXCEPT !.o["y"] = st.o["x"]]
    [] op.op = "swap" -> [st EXCEPT !.o = [x |-> st.o["y"], y |-> st.o["x"]]]
    [] op.op = "meddle" -> st                  \* with what it has been given by the object

Vals(q) == [i \in 1..Len(q) |-> q[i].v]
(* A name's values, and the number of entries seen when all are gone through. *)
Told(q, k) ==
  LET vs == Vals(SelectSeq(q, LAMBDA e : e.n = k))
  IN [all |-> vs, has |-> vs # <<>>,
      get |-> IF vs = <<>> THEN <<>> ELSE IF Kind = "headers" /\ ~Alone(k) THEN vs ELSE <<vs[1]>>,
      seen |-> IF Kind # "headers" \/ Alone(k) THEN Len(vs) ELSE IF vs = <<>> THEN 0 ELSE 1]
Keys == { Key(n) : n \in N }
See(q) == IF Kind = "headers" THEN [names |-> [k \in Keys |-> Told(q, k)]]
          ELSE [list |-> [i \in 1..Len(q) |-> <<q[i].n, q[i].v>>],
                names |-> [i \in 1..Len(Names) |-> Told(q, Names[i])]]

Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Parse == \E op \in ParseOps :
  /\ s' = s
  /\ act' = [op |-> [op |-> op.op, mark |-> op.mark, t |-> op.t], r |-> [list |-> op.want]]
Act(op) == LET t == Do(s, op) IN
  /\ s' = t
  /\ act' = [op |-> op, r |-> [o |-> [x \in Objs |-> See(t.o[x])], agree |-> TRUE]]
Next == \E op \in Ops(s) : Act(op)
Deep == \E op \in {RandomElement(Ops(s))} : Act(op)
DeepN == LET ops == Ops(s) IN
  \E n \in {RandomElement({ o.op : o \in ops })} : \E op \in {RandomElement({ o \in ops : o.op = n })} : Act(op)
View == s
Within == TLCGet("level") <= Deepest
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))

(* What is done to one object shows in no other; other names are left as they are, in their order. *)
Apart == [][ act'.op.op \in {"append", "set", "delete", "sort", "clear"} => s'.o["y"] = s.o["y"] ]_vars
Others == [][ act'.op.op \in {"append", "set", "delete"} =>
                Without(s'.o["x"], act'.op.n) = Without(s.o["x"], act'.op.n) ]_vars
SetIsOnly == [][ act'.op.op = "set" => Vals(At(s'.o["x"], act'.op.n)) = <<act'.op.v>> ]_vars
Stable == [][ act'.op.op = "sort" => \A n \in N : At(s'.o["x"], n) = At(s.o["x"], n) ]_vars
=============================================================================
