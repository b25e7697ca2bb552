-------------------------------- MODULE Pool --------------------------------
(* The isolate pool of one thread: requests of owners come and go, isolates are created,
   reused, evicted; the contexts of finished requests are kept for the next request to the
   same worker, version and environment. A step ends when nothing is left to do.          *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Reqs, Owners, Keys,
          Bad,          \* the keys whose script throws when it is loaded
          MaxIso, PerOwner, MaxConc, MaxCached, MaxReuse, OpNames

VARIABLES s, act
vars == <<s, act>>

(* s: the isolates, the one a request was given to the longest ago first:
   [o: its owner, run: the requests in it, ctx: the contexts kept, the oldest first]      *)
Ctx(k, n) == [k |-> k, n |-> n]

Init == s = <<>> /\ act = [op |-> [op |-> "init"]]

Busy(st, r) == \E i \in DOMAIN st : \E x \in st[i].run : x.r = r
Where(st, r) == CHOOSE i \in DOMAIN st : \E x \in st[i].run : x.r = r
Of(st, r) == CHOOSE x \in st[Where(st, r)].run : x.r = r
Free(x) == x.run = {}
Stats(st) == [total |-> Len(st), inuse |-> Cardinality({i \in DOMAIN st : ~Free(st[i])})]
Say(op, out, hit, t) == /\ s' = t
                        /\ act' = [op |-> op, r |-> [out |-> out, hit |-> hit, total |-> Stats(t).total, inuse |-> Stats(t).inuse]]
Drop1(q, i) == RemoveAt(q, i)

(* An isolate beyond the limit goes when it is free. *)
Trim(t, i) == IF Len(t) > MaxIso /\ Free(t[i]) THEN Drop1(t, i) ELSE t
Keep(q, c) == IF Len(q) >= MaxCached /\ q # <<>> THEN Append(Tail(q), c) ELSE Append(q, c)

(* Request r runs in isolate x, which goes to the end. *)
Started(op, x, rest, hit) ==
  LET warm == {j \in DOMAIN x.ctx : x.ctx[j].k = op.k /\ x.ctx[j].n < MaxReuse}
      put(n, ctx) == Append(rest, [x EXCEPT !.run = @ \union {[r |-> op.r, k |-> op.k, n |-> n, late |-> FALSE]}, !.ctx = ctx])
      say(n, w) == << [start |-> op.r, k |-> op.k, n |-> n, warm |-> w] >>
  IN IF op.k \in Bad THEN
       LET t == Append(rest, x) IN Say(op, << [exec |-> op.r, v |-> "exc"] >>, hit, Trim(t, Len(t)))
     ELSE IF warm = {} THEN Say(op, say(1, FALSE), hit, put(1, x.ctx))
     ELSE \E j \in warm : LET n == x.ctx[j].n + 1 IN Say(op, say(n, TRUE), hit, put(n, Drop1(x.ctx, j)))

New(o) == [o |-> o, run |-> {}, ctx |-> <<>>]
Begin(op) ==
  LET mine == {i \in DOMAIN s : s[i].o = op.o}
      room == {i \in mine : Cardinality(s[i].run) < MaxConc}
      free == {i \in DOMAIN s : Free(s[i])}
      lru == CHOOSE i \in free : \A j \in free : i <= j
  IN IF room # {} THEN \E i \in room : Started(op, s[i], Drop1(s, i), "hit")
     ELSE IF PerOwner > 0 /\ Cardinality(mine) >= PerOwner
       THEN Say(op, << [exec |-> op.r, v |-> "full"] >>, "none", s)
     ELSE IF Len(s) < MaxIso \/ free = {} THEN Started(op, New(op.o), s, "miss")
     ELSE Started(op, New(op.o), Drop1(s, lru), "miss")

Leave(op, out, cache) ==
  LET i == Where(s, op.r) x == Of(s, op.r)
      t == [s EXCEPT ![i].run = @ \ {x}, ![i].ctx = IF cache THEN Keep(@, Ctx(x.k, x.n)) ELSE @]
  IN Say(op, out, "none", Trim(t, i))
Late(op) ==
  LET i == Where(s, op.r) x == Of(s, op.r)
  IN Say(op, << [resp |-> op.r] >>, "none", [s EXCEPT ![i].run = (@ \ {x}) \union {[x EXCEPT !.late = TRUE]}])
Exec(r, v) == [exec |-> r, v |-> v]

Do(op) ==
  CASE op.op = "begin" -> ~Busy(s, op.r) /\ Begin(op)
    [] op.op = "ok"    -> Busy(s, op.r) /\ Leave(op, IF Of(s, op.r).late THEN << Exec(op.r, "ok") >> ELSE << [resp |-> op.r], Exec(op.r, "ok") >>, TRUE)
    [] op.op = "late"  -> Busy(s, op.r) /\ ~Of(s, op.r).late /\ Late(op)
    \* ended for what it did: its response may be out, its context is not kept
    [] op.op = "mem"   -> Busy(s, op.r) /\ Leave(op, IF Of(s, op.r).late THEN << Exec(op.r, "ok") >> ELSE << [resp |-> op.r], Exec(op.r, "mem") >>, FALSE)
    [] op.op = "spin"  -> Busy(s, op.r) /\ Leave(op, IF Of(s, op.r).late THEN << Exec(op.r, "ok") >> ELSE << [resp |-> "none"], Exec(op.r, "cpu") >>, FALSE)
    \* its time passes
    [] op.op = "wall"  -> Busy(s, op.r) /\ Leave(op, IF Of(s, op.r).late THEN << Exec(op.r, "ok") >> ELSE << [resp |-> "none"], Exec(op.r, "wall") >>, FALSE)
    \* the host gives it up
    [] op.op = "drop"  -> Busy(s, op.r) /\ Leave(op, IF Of(s, op.r).late THEN <<>> ELSE << [resp |-> "none"] >>, FALSE)

Ops == {[op |-> "begin", r |-> r, o |-> o, k |-> k] : r \in Reqs, o \in Owners, k \in Keys}
       \union {[op |-> x, r |-> r] : x \in {"ok", "late", "mem", "spin", "wall", "drop"}, r \in Reqs}
Next == \E op \in Ops : op.op \in OpNames /\ Do(op)

(* A request of every owner with room is served; nobody has more than their share. *)
Share == PerOwner > 0 => \A o \in Owners : Cardinality({i \in DOMAIN s : s[i].o = o}) <= PerOwner
(* Beyond the limit only while everything is in use. *)
Limit == Len(s) > MaxIso => \A i \in DOMAIN s : ~Free(s[i])
Own == \A i \in DOMAIN s : /\ Cardinality(s[i].run) <= MaxConc
                           /\ Len(s[i].ctx) <= (IF MaxCached > 0 THEN MaxCached ELSE 1)
                           /\ \A j \in DOMAIN s[i].ctx : s[i].ctx[j].n <= MaxReuse
(* A context serves one request at a time, all for one worker, and at most MaxReuse of them. *)
Used == [][act'.op.op = "begin" /\ act'.r.out # <<>> /\ "start" \in DOMAIN act'.r.out[1] =>
            act'.r.out[1].n <= MaxReuse /\ act'.r.out[1].k = act'.op.k]_vars
(* Refused only when the owner's isolates are as many as allowed and all are full. *)
Refused == [][act'.op.op = "begin" /\ act'.r.out = << Exec(act'.op.r, "full") >> =>
               /\ PerOwner > 0 /\ s' = s
               /\ \A i \in DOMAIN s : s[i].o = act'.op.o => Cardinality(s[i].run) = MaxConc]_vars

View == s
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))
Able == {op \in Ops : /\ op.op \in OpNames
                      /\ Busy(s, op.r) = (op.op # "begin")
                      /\ op.op = "late" => ~Of(s, op.r).late
                      \* a key once at a time, so that there is no choice of contexts
                      /\ op.op = "begin" => \A i \in DOMAIN s : s[i].o = op.o => \A x \in s[i].run : x.k # op.k}
Deep == \E n \in {RandomElement({op.op : op \in Able})} :
        \E op \in {RandomElement({op \in Able : op.op = n})} : Do(op)
=============================================================================
