------------------------------- MODULE Blob -------------------------------
(* Blobs and files: bytes taken when they are made, which nothing changes afterwards. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, Texts, Starts, Widths, MaxParts, MaxBytes, Deepest, OpNames
VARIABLES s, act
vars == <<s, act>>

(* what a text is in UTF-8; e2 a letter of two bytes, s1 half of a pair (so no letter) *)
Utf8(t) == CASE t = "a" -> <<97>>
             [] t = "e2" -> <<195, 169>>
             [] t = "s1" -> <<239, 191, 189>>
             [] t = "null" -> <<110, 117, 108, 108>>
             [] t = "12" -> <<49, 50>>
             [] t = "nothing" -> <<>>
(* an array buffer of the script: its bytes, of which the first counts writes *)
Buffer(w) == <<w, 7, 127, 0>>
None == [kind |-> "no", b |-> <<>>, type |-> "", name |-> "", at |-> 0]
Init0 == [x |-> [n \in Names |-> None], w |-> 1]

Part(st, p) ==
  CASE p.k = "text" -> Utf8(p.t)
    [] p.k = "buffer" -> Buffer(st.w)
    [] p.k \in {"view", "dataview"} -> SubSeq(Buffer(st.w), 1, 2)
    [] p.k = "tail" -> SubSeq(Buffer(st.w), 3, 4)
    [] p.k = "wide" -> Buffer(st.w)
    [] p.k = "blob" -> st.x[p.y].b
RECURSIVE Bytes(_, _)
Bytes(st, ps) == IF ps = <<>> THEN <<>> ELSE Part(st, Head(ps)) \o Bytes(st, Tail(ps))

(* Blob.slice: from the end if negative, within the blob *)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Place(n, i) == IF i < 0 THEN Max(n + i, 0) ELSE Min(i, n)
At(n, i) == IF i.n = 1 THEN Place(n, 0 - i.v) ELSE Place(n, i.v)
Slice(b, from, to) ==
  LET n == Len(b)
      f == At(n, from)
      t == IF to.n = 2 THEN n ELSE At(n, to)
  IN SubSeq(b, f + 1, t)

(* text: what is no letter is the replacement character *)
RECURSIVE Valid(_)
Valid(b) ==
  IF b = <<>> THEN <<>>
  ELSE IF Len(b) > 1 /\ b[1] = 195 /\ b[2] = 169 THEN <<195, 169>> \o Valid(SubSeq(b, 3, Len(b)))
  ELSE IF Len(b) > 2 /\ b[1] = 239 /\ b[2] = 191 /\ b[3] = 189 THEN <<239, 191, 189>> \o Valid(SubSeq(b, 4, Len(b)))
  ELSE IF Len(b) > 1 /\ b[1] = 239 /\ b[2] = 191 THEN <<239, 191, 189>> \o Valid(SubSeq(b, 3, Len(b)))
  ELSE IF b[1] > 127 THEN <<239, 191, 189>> \o Valid(Tail(b))
  ELSE <<b[1]>> \o Valid(Tail(b))

Parts(st) == { [k |-> "text", t |-> t] : t \in Texts }
             \union { [k |-> k] : k \in {"buffer", "view", "dataview", "tail", "wide"} }
             \union { [k |-> "blob", y |-> y] : y \in { y \in Names : st.x[y].kind # "no" } }
RECURSIVE Lists(_, _)
Lists(st, n) == IF n = 0 THEN { <<>> } ELSE LET l == Lists(st, n - 1) IN l \union { Append(q, p) : q \in l, p \in Parts(st) }
Some(st) == LET P == Parts(st) IN
  { <<RandomElement(P)>>, <<RandomElement(P), RandomElement(P)>>, <<RandomElement(P), RandomElement(P), RandomElement(P)>>,
    <<RandomElement(P), RandomElement(P), RandomElement(P), RandomElement(P)>> }
Ends == { [n |-> n, v |-> v] : n \in {0, 1}, v \in Starts }          \* n = 1: from the end
Open == [n |-> 2, v |-> 0]                                            \* not given
How == {"buffer", "text", "stream", "response", "request", "bytes twice"}

PartOf(st, n) ==
  CASE n = "make" -> { [op |-> n, x |-> x, kind |-> k, p |-> p, type |-> t] :
                         x \in Names, k \in {"blob", "file"}, p \in Some(st), t \in {"", "a/b"} }
    [] n = "make any" -> { [op |-> "make", x |-> x, kind |-> k, p |-> p, type |-> ""] :
                             x \in Names, k \in {"blob", "file"}, p \in Lists(st, MaxParts) }
    [] n = "slice" -> { [op |-> n, x |-> x, y |-> y, from |-> f, to |-> t, type |-> ty] :
                          x \in Names, y \in { y \in Names : st.x[y].kind # "no" }, f \in Ends, t \in Ends \union {Open}, ty \in {"", "c/d"} }
    [] n = "slice some" -> { [op |-> "slice", x |-> x, y |-> y, from |-> RandomElement(Ends), to |-> RandomElement(Ends \union {Open}), type |-> ty] :
                               x \in Names, y \in { y \in Names : st.x[y].kind # "no" }, ty \in {"", "c/d"} }
    [] n = "read" -> { [op |-> n, y |-> y, how |-> h] : y \in { y \in Names : st.x[y].kind # "no" }, h \in How }
    [] n = "write" -> IF st.w < 100 THEN { [op |-> n] } ELSE {}
Ops(st) == { op \in UNION { PartOf(st, n) : n \in OpNames } :
              op.op = "make" => Len(Bytes(st, op.p)) <= MaxBytes }

Nothing == [bytes |-> <<>>, type |-> ""]
Do(st, op) ==
  CASE op.op = "make" -> [st |-> [st EXCEPT !.x[op.x] = [kind |-> op.kind, b |-> Bytes(st, op.p), type |-> op.type,
                                                          name |-> IF op.kind = "file" THEN "n.t" ELSE "",
                                                          at |-> IF op.kind = "file" THEN Len(op.p) ELSE 0]], r |-> Nothing]
    [] op.op = "slice" -> [st |-> [st EXCEPT !.x[op.x] = [None EXCEPT !.kind = "blob", !.b = Slice(st.x[op.y].b, op.from, op.to), !.type = op.type]],
                           r |-> Nothing]
    [] op.op = "read" -> [st |-> st, r |-> [bytes |-> IF op.how = "text" THEN Valid(st.x[op.y].b) ELSE st.x[op.y].b,
                                            type |-> IF op.how \in {"response", "request"} THEN st.x[op.y].type ELSE ""]]
    [] op.op = "write" -> [st |-> [st EXCEPT !.w = @ + 1], r |-> Nothing]

See(b) == [kind |-> b.kind, b |-> b.b, size |-> Len(b.b), type |-> b.type, name |-> b.name, at |-> b.at]
Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) == LET o == Do(s, op) IN
  s' = o.st /\ act' = [op |-> op, r |-> [r |-> o.r, x |-> [n \in Names |-> See(o.st.x[n])]]]
Next == \E op \in Ops(s) : Act(op)
Fit(st, n) == { op \in PartOf(st, n) : op.op = "make" => Len(Bytes(st, op.p)) <= MaxBytes }
Deep == \E n \in {RandomElement(OpNames)} :
          \E op \in {RandomElement(LET f == Fit(s, n) IN IF f = {} THEN PartOf(s, "write") ELSE f)} : Act(op)
View == s
Within == TLCGet("level") <= Deepest
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))

(* Nothing changes a blob. *)
Fixed == [][ \A n \in Names : ("x" \notin DOMAIN act'.op \/ act'.op.x # n) => s'.x[n] = s.x[n] ]_vars
=============================================================================
