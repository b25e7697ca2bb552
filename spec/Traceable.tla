----------------------------- MODULE Traceable -----------------------------
(* How much memory outside V8's heap a Rust value stands for (GcTraceable and its
   derive macro), and what V8 is told of a value wrapped in Tracked.

   A value is a term [k |-> kind, ..]:
     vec8, str     a byte vector or a string with capacity n
     bytes         a shared byte slice of n bytes; cbytes: with a clone of it kept,
                   sbytes: static, wbytes: the whole of its buffer
     none, some    an Option; box, rc, arc: a pointer to a value of width w;
                   rc and arc can be shared (another strong or weak reference)
     lot           a vector of c times the same
     vec           a vector with room for n elements of width w
     struct        the fields of a derived struct, of which some are tracked       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sizes, Depth, OpNames
VARIABLES s, act
vars == <<s, act>>

RECURSIVE Size(_), SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
Size(t) ==
  CASE t.k \in {"vec8", "str", "bytes", "cbytes", "sbytes", "wbytes"} -> t.n
    [] t.k \in {"none", "unit"} -> 0
    [] t.k = "some" -> Size(t.v)
    [] t.k = "box" -> t.w + Size(t.v)
    [] t.k \in {"rc", "arc"} -> IF t.share \in {"strong", "three", "both"} THEN 0 ELSE t.w + Size(t.v)
    [] t.k = "vec" -> t.n * t.w + SumSeq([i \in 1..Len(t.v) |-> Size(t.v[i])])
    [] t.k = "lot" -> t.c * (8 + Size(t.v))
    [] t.k = "struct" -> SumSeq([i \in 1..Len(t.v) |-> IF t.track[i] THEN Size(t.v[i]) ELSE 0])

Widths == {8, 40}
Leaf == [k : {"vec8", "str", "bytes", "cbytes", "sbytes", "wbytes"}, n : Sizes] \union [k : {"none", "unit"}]
Few == { [k |-> "vec8", n |-> 7], [k |-> "str", n |-> 5], [k |-> "none"] }
(* shape: the struct of the harness with these tracked fields *)
Shapes == { [shape |-> "none3", track |-> <<FALSE, FALSE, FALSE>>], [shape |-> "first", track |-> <<TRUE, FALSE, FALSE>>],
            [shape |-> "outer", track |-> <<TRUE, FALSE, TRUE>>],   [shape |-> "all3", track |-> <<TRUE, TRUE, TRUE>>],
            [shape |-> "tuple2", track |-> <<FALSE, TRUE>>],        [shape |-> "tupleall", track |-> <<TRUE, TRUE>>],
            [shape |-> "generic", track |-> <<TRUE, FALSE>>],
            [shape |-> "attrs", track |-> <<TRUE, FALSE, TRUE>>],   [shape |-> "path", track |-> <<FALSE, TRUE>>],
            [shape |-> "tuple12", track |-> <<TRUE, TRUE, TRUE>>] }
Wrap(S, E) ==
  [k : {"some", "box"}, v : S, w : Widths]
  \union [k : {"lot"}, v : E, c : {1, 1500, 70001}]
  \union [k : {"rc", "arc"}, v : S, w : Widths, share : {"no", "strong", "weak", "three", "both"}]
  \union UNION { { [k |-> "vec", n |-> n, w |-> w, v |-> v] : w \in Widths, n \in {Len(v), Len(v) + 2} }
                 : v \in { <<>> } \union { <<a>> : a \in S } \union { <<a, b>> : a, b \in E } }
  \union UNION { { [k |-> "struct", shape |-> sh.shape, track |-> sh.track, v |-> v]
                   : v \in IF Len(sh.track) = 2 THEN { <<a, b>> : a, b \in E } ELSE { <<a, b, c>> : a, b, c \in E } }
                 : sh \in Shapes }
T1 == Wrap(Leaf, Few)
Mixed == { [k |-> "vec8", n |-> 3], [k |-> "box", w |-> 40, v |-> [k |-> "str", n |-> 5]],
           [k |-> "rc", w |-> 8, share |-> "no", v |-> [k |-> "vec8", n |-> 7]],
           [k |-> "arc", w |-> 40, share |-> "strong", v |-> [k |-> "vec8", n |-> 7]] }
Terms == CASE Depth = 0 -> Leaf
           [] Depth = 1 -> Leaf \union T1
           [] Depth = 2 -> Leaf \union T1 \union Wrap(T1, Mixed)
(* values a tracked object goes through *)
Values == { [k |-> "none"], [k |-> "vec8", n |-> 3], [k |-> "box", w |-> 8, v |-> [k |-> "str", n |-> 5]],
            [k |-> "vec", n |-> 2, w |-> 8, v |-> <<[k |-> "str", n |-> 5]>>] }
NoVal == [k |-> "unit"]

(* ---- a tracked value: amt is what its guard stands for, told says if the isolate knows *)
Init0 == [locked |-> FALSE, live |-> "no", val |-> NoVal, amt |-> 0, mine |-> FALSE, ext |-> 0, pend |-> 0]

Tell(st, d) == IF st.locked THEN [st EXCEPT !.ext = @ + d] ELSE [st EXCEPT !.pend = @ + d]
SetAmt(st, n) ==
  IF n = st.amt THEN st
  ELSE IF st.mine THEN Tell([st EXCEPT !.amt = n], n - st.amt)
  ELSE IF st.locked THEN Tell([st EXCEPT !.amt = n, !.mine = TRUE], n)
  ELSE [st EXCEPT !.amt = n]
Make(st, how, t) ==
  LET n == Size(t)
      st1 == [st EXCEPT !.live = how, !.val = t, !.amt = n, !.mine = st.locked]
  IN IF st.locked THEN Tell(st1, n) ELSE st1
Gone(st) ==
  LET st1 == [st EXCEPT !.live = "no", !.val = NoVal, !.amt = 0, !.mine = FALSE]
  IN IF st.mine THEN Tell(st1, -(st.amt)) ELSE st1

Ops(st) ==
  { op \in
    { [op |-> "size", v |-> t] : t \in Terms }
    \union { [op |-> o, v |-> t] : o \in {"track", "guard", "mutate"}, t \in Values }
    \union { [op |-> o] : o \in {"update", "inner", "drop", "lock", "unlock"} }
    : /\ op.op \in OpNames
      /\ op.op = "lock" => ~st.locked
      /\ op.op = "unlock" => st.locked
      /\ op.op \in {"track", "guard"} => st.live = "no"
      /\ op.op \in {"mutate", "update", "inner"} => st.live = "track"
      /\ op.op = "drop" => st.live # "no"
      /\ op.op = "mutate" => op.v # st.val }

Do(st, op) ==
  CASE op.op = "size"   -> st
    [] op.op \in {"track", "guard"} -> Make(st, op.op, op.v)
    [] op.op = "mutate" -> [st EXCEPT !.val = op.v]
    [] op.op = "update" -> SetAmt(st, Size(st.val))
    [] op.op \in {"inner", "drop"} -> Gone(st)
    [] op.op = "lock"   -> [st EXCEPT !.locked = TRUE, !.ext = @ + st.pend, !.pend = 0]
    [] op.op = "unlock" -> [st EXCEPT !.locked = FALSE]

Observe(st, t, op) ==
  IF op.op = "size" THEN [size |-> Size(op.v)] ELSE [ext |-> t.ext, pend |-> t.pend]

Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) ==
          LET t == Do(s, op)
          IN s' = t /\ act' = [op |-> op, r |-> Observe(s, t, op)]
Next == \E op \in Ops(s) : Act(op)
Deep == \E op \in {RandomElement(Ops(s))} : Act(op)    \* random walks (simulation)
DeepN == LET ops == Ops(s) IN
  \E n \in {RandomElement({ o.op : o \in ops })} : \E op \in {RandomElement({ o \in ops : o.op = n })} : Act(op)
Spec == Init /\ [][Next]_vars
View == s
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))

(* ---- properties *)
(* What V8 was or will be told is what the value was worth when it was last measured. *)
Balance == s.ext + s.pend = (IF s.mine THEN s.amt ELSE 0)
Measured == [][ act'.op.op = "update" => s'.amt = Size(s'.val) ]_vars
Nothing == s.live = "no" => s.ext + s.pend = 0
=============================================================================
