------------------------------- MODULE Clone -------------------------------
(* structuredClone: a heap of objects that refer to each other. A clone of a value is
   made of new objects only, one for each object it reaches, of the same kind and
   content, and referring to each other just as those do (shared stays shared, a cycle
   a cycle). What cannot be cloned is refused whole.
   A value is [r |-> 0, t |-> token] or [r |-> number of an object, t |-> ""].
   An object is its kind, its own data, and the entries (key and value) it has.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, Views, Tokens, Keys, MaxMade, MaxNodes, MaxEntries, Deepest, OpNames
VARIABLES s, act
vars == <<s, act>>

Prim(t) == [r |-> 0, t |-> t]
Ref(i) == [r |-> i, t |-> ""]
Node(k, v, e) == [k |-> k, v |-> v, e |-> e]
Init0 == [h |-> <<>>, made |-> 0]

Holders == {"object", "instance", "bare", "array", "map", "set"}
Refused == {"function", "promise", "weakmap"}
Fresh(k) == Node(k, 0, <<>>)

(* ---- what is reached from a value, in the order it is met *)
Refs(n) == SelectSeq([i \in 1..(2 * Len(n.e)) |-> LET e == n.e[(i + 1) \div 2] IN IF i % 2 = 1 THEN e.k.r ELSE e.v.r], LAMBDA r : r # 0)
In(x, q) == \E i \in 1..Len(q) : q[i] = x
RECURSIVE Reach(_, _, _)
Reach(h, todo, seen) ==
  IF todo = <<>> THEN seen
  ELSE IF In(Head(todo), seen) THEN Reach(h, Tail(todo), seen)
       ELSE Reach(h, Refs(h[Head(todo)]) \o Tail(todo), Append(seen, Head(todo)))

Place(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
Copied(h, q, n) ==
  LET c(v) == IF v.r = 0 THEN v ELSE Ref(Len(h) + Place(q, v.r))
  IN [k |-> IF n.k \in {"instance", "bare"} THEN "object" ELSE n.k, v |-> n.v,
      e |-> [i \in 1..Len(n.e) |-> [k |-> c(n.e[i].k), v |-> c(n.e[i].v)]]]
Clonable(h, q) == \A i \in 1..Len(q) :
  /\ h[q[i]].k \notin Refused
  /\ \A j \in 1..Len(h[q[i]].e) : h[q[i]].e[j].v.t # "symbol" /\ h[q[i]].e[j].k.t # "symbol"
Clone(st, i) ==
  LET q == Reach(st.h, <<i>>, <<>>)
  IN [st EXCEPT !.h = st.h \o [j \in 1..Len(q) |-> Copied(st.h, q, st.h[q[j]])]]

(* ---- entries *)
Find(n, k) == { i \in 1..Len(n.e) : n.e[i].k = k }
Set(n, k, v) ==
  IF Find(n, k) = {} THEN [n EXCEPT !.e = Append(@, [k |-> k, v |-> v])]
  ELSE [n EXCEPT !.e[CHOOSE i \in Find(n, k) : TRUE].v = v]
Put(n, k, v) ==
  CASE n.k = "array" -> [n EXCEPT !.e = Append(@, [k |-> Prim("-"), v |-> v])]
    [] n.k = "set" -> IF \E i \in 1..Len(n.e) : n.e[i].v = v THEN n
                      ELSE [n EXCEPT !.e = Append(@, [k |-> Prim("-"), v |-> v])]
    [] OTHER -> Set(n, k, v)

Values(st) == { Prim(t) : t \in Tokens } \union { Ref(i) : i \in 1..Len(st.h) }
MapKeys(st) == { Prim(t) : t \in Tokens \ {"hole", "minuszero"} } \union { Ref(i) : i \in 1..Len(st.h) }
Puts(st, i) ==
  { [op |-> "put", i |-> i, k |-> k, v |-> v] :
      k \in CASE st.h[i].k = "map" -> MapKeys(st)
              [] st.h[i].k \in {"array", "set"} -> {Prim("-")}
              [] OTHER -> { Prim(k) : k \in Keys },
      v \in { v \in Values(st) : (v.t = "hole" => st.h[i].k = "array") /\ (v.t = "minuszero" => st.h[i].k # "set") } }
Holding(st) == { i \in 1..Len(st.h) : st.h[i].k \in Holders /\ Len(st.h[i].e) < MaxEntries }
Part(st, n) ==
  LET N == 1..Len(st.h) IN
  CASE n = "make" -> IF st.made < MaxMade THEN { [op |-> n, k |-> k] : k \in Kinds } ELSE {}
    [] n = "view" -> IF st.made < MaxMade THEN { [op |-> n, k |-> k, i |-> i] : k \in Views, i \in { i \in N : st.h[i].k = "buffer" } } ELSE {}
    [] n = "put" -> UNION { Puts(st, i) : i \in Holding(st) }
    [] n = "write" -> { [op |-> n, i |-> i] : i \in { i \in N : st.h[i].k \in {"buffer", "date"} /\ st.h[i].v < 9 } }
    [] n = "clone" -> { [op |-> n, i |-> i] : i \in { i \in N : Len(st.h) + Len(Reach(st.h, <<i>>, <<>>)) <= MaxNodes } }
    [] n = "clone value" -> { [op |-> n, v |-> Prim(t)] : t \in Tokens \ {"hole"} }
Ops(st) == UNION { Part(st, n) : n \in OpNames }

Do(st, op) ==
  CASE op.op = "make" -> [st |-> [h |-> Append(st.h, Fresh(op.k)), made |-> st.made + 1], r |-> "ok"]
    [] op.op = "view" -> [st |-> [h |-> Append(st.h, Node(op.k, 0, << [k |-> Prim("buffer"), v |-> Ref(op.i)] >>)), made |-> st.made + 1], r |-> "ok"]
    [] op.op = "put" -> [st |-> [st EXCEPT !.h[op.i] = Put(@, op.k, op.v)], r |-> "ok"]
    [] op.op = "write" -> [st |-> [st EXCEPT !.h[op.i].v = @ + 1], r |-> "ok"]
    [] op.op = "clone" -> IF Clonable(st.h, Reach(st.h, <<op.i>>, <<>>)) THEN [st |-> Clone(st, op.i), r |-> "ok"]
                          ELSE [st |-> st, r |-> "DataCloneError"]
    [] op.op = "clone value" -> [st |-> st, r |-> IF op.v.t = "symbol" THEN "DataCloneError" ELSE op.v.t]

Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) == LET o == Do(s, op) IN s' = o.st /\ act' = [op |-> op, r |-> [r |-> o.r, h |-> o.st.h]]
Next == \E op \in Ops(s) : Act(op)
Deep == \E n \in {RandomElement({ n \in OpNames : IF n = "put" THEN Holding(s) # {} ELSE Part(s, n) # {} })} :
  IF n = "put" THEN \E i \in {RandomElement(Holding(s))} : \E op \in {RandomElement(Puts(s, i))} : Act(op)
  ELSE \E op \in {RandomElement(Part(s, n))} : Act(op)
View == s
Within == TLCGet("level") <= Deepest
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))

(* What is cloned stays as it was, and the clone refers to nothing that was there before. *)
Apart == [][ act'.op.op = "clone" =>
  /\ SubSeq(s'.h, 1, Len(s.h)) = s.h
  /\ \A i \in (Len(s.h) + 1)..Len(s'.h) : \A j \in 1..Len(s'.h[i].e) :
       \A v \in { s'.h[i].e[j].k, s'.h[i].e[j].v } : v.r = 0 \/ v.r > Len(s.h) ]_vars
OneByOne == [][ act'.op.op \in {"put", "write"} => \A i \in 1..Len(s.h) : i # act'.op.i => s'.h[i] = s.h[i] ]_vars
=============================================================================
