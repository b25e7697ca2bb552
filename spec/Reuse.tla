------------------------------- MODULE Reuse --------------------------------
(* Requests served by the same isolate and the same kept contexts, one after the other or
   side by side. Each makes calls, sets timers and reads bodies, and may end with some of
   them open: what comes for those later concerns nobody.                                *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS MaxReq, MaxCall, MaxConc, Kinds, OpNames

VARIABLES s, act
vars == <<s, act>>

(* s: next: the number of the next request; live: the requests being served; made: how many
   calls each of them has made; open: what has not come yet (also of requests that ended) *)
Init == s = [next |-> 1, live |-> {}, made |-> <<>>, open |-> {}] /\ act = [op |-> [op |-> "init"]]

Live(r) == r \in s.live
Got(x) == <<"got", x.r, x.n, x.i, x.r, x.n>>
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a.r < b.r \/ (a.r = b.r /\ a.n < b.n))
Due == {x \in s.open : x.k \in {"tmo", "ivl"}}

Ops == {o \in
     (IF s.next <= MaxReq /\ Cardinality(s.live) < MaxConc
        THEN {[op |-> "begin", r |-> s.next, o |-> "o1", k |-> "a.1"]} ELSE {})
     \union {[op |-> "call", r |-> r, n |-> s.made[r] + 1, k |-> k] : r \in {r \in s.live : s.made[r] < MaxCall}, k \in Kinds}
     \* the host answers: a call, or with a chunk of a body the script has begun to read
     \union {[op |-> IF x.i = 0 THEN "answer" ELSE "chunk", r |-> x.r, n |-> x.n, k |-> x.k, i |-> x.i] : x \in s.open \ Due}
     \* ten milliseconds: every timer is due
     \union (IF Due = {} THEN {} ELSE {[op |-> "tick", n |-> 10]})
     \union {[op |-> o, r |-> r] : o \in {"ok", "drop"}, r \in s.live}
   : o.op \in OpNames}

Say(op, out, t) == s' = t /\ act' = [op |-> op, r |-> [out |-> out]]
Do(op) ==
  CASE op.op = "begin" -> Say(op, <<>>, [s EXCEPT !.next = @ + 1, !.live = @ \union {op.r}, !.made = Append(@, 0)])
    [] op.op = "call" -> Say(op, <<>>, [s EXCEPT !.made[op.r] = op.n, !.open = @ \union {[r |-> op.r, n |-> op.n, k |-> op.k, i |-> 0]}])
    [] op.op \in {"answer", "chunk"} ->
         LET x == [r |-> op.r, n |-> op.n, k |-> op.k, i |-> op.i]
         IN Say(op, IF Live(x.r) THEN << Got(x) >> ELSE <<>>,
                [s EXCEPT !.open = (@ \ {x}) \union (IF x.k = "read" /\ x.i < 2 THEN {[x EXCEPT !.i = @ + 1]} ELSE {})])
    [] op.op = "tick" ->
         LET q == Sorted({x \in Due : Live(x.r)})
         IN Say(op, [i \in DOMAIN q |-> Got(q[i])],
                [s EXCEPT !.open = {x \in @ : x.k # "tmo" /\ (x.k = "ivl" => Live(x.r))}])
    [] op.op = "ok" -> Say(op, << [resp |-> op.r], [exec |-> op.r, v |-> "ok"] >>, [s EXCEPT !.live = @ \ {op.r}])
    [] op.op = "drop" -> Say(op, << [resp |-> "none"] >>, [s EXCEPT !.live = @ \ {op.r}, !.open = {x \in @ : x.r # op.r}])
Next == \E op \in Ops : Do(op)

(* What is told is told to a request being served, and is its own. *)
Mine == [][act'.op.op \in {"answer", "chunk", "tick"} => \A i \in DOMAIN act'.r.out :
             LET y == act'.r.out[i] IN y[2] \in s.live /\ y[2] = y[5] /\ y[3] = y[6]]_vars

View == s
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))
Deep == \E n \in {RandomElement({op.op : op \in Ops})} : \E op \in {RandomElement({op \in Ops : op.op = n})} : Do(op)
=============================================================================
