------------------------------ MODULE Base64 ------------------------------
(* btoa and atob: texts as sequences of code units. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Units, Chars, MaxBtoa, MaxAtob, Longest
VARIABLES s, act
vars == <<s, act>>

Refuse == <<0 - 1>>
Digit(i) == IF i < 26 THEN 65 + i ELSE IF i < 52 THEN 71 + i ELSE IF i < 62 THEN i - 4 ELSE IF i = 62 THEN 43 ELSE 47
Of(c) == CASE c >= 65 /\ c <= 90 -> c - 65 [] c >= 97 /\ c <= 122 -> c - 71 [] c >= 48 /\ c <= 57 -> c + 4
           [] c \in {43, 45} -> 62 [] c \in {47, 95} -> 63 [] OTHER -> 0 - 1      \* - and _ too: base64url

RECURSIVE Enc(_)
Enc(b) ==
  IF b = <<>> THEN <<>>
  ELSE IF Len(b) = 1 THEN << Digit(b[1] \div 4), Digit((b[1] % 4) * 16), 61, 61 >>
  ELSE IF Len(b) = 2 THEN << Digit(b[1] \div 4), Digit((b[1] % 4) * 16 + b[2] \div 16), Digit((b[2] % 16) * 4), 61 >>
  ELSE << Digit(b[1] \div 4), Digit((b[1] % 4) * 16 + b[2] \div 16), Digit((b[2] % 16) * 4 + b[3] \div 64), Digit(b[3] % 64) >>
       \o Enc(SubSeq(b, 4, Len(b)))
Btoa(b) == IF \E i \in 1..Len(b) : b[i] > 255 THEN Refuse ELSE Enc(b)

RECURSIVE Dec(_)
Dec(d) ==
  IF d = <<>> THEN <<>>
  ELSE IF Len(d) = 2 THEN << d[1] * 4 + d[2] \div 16 >>
  ELSE IF Len(d) = 3 THEN << d[1] * 4 + d[2] \div 16, (d[2] % 16) * 16 + d[3] \div 4 >>
  ELSE << d[1] * 4 + d[2] \div 16, (d[2] % 16) * 16 + d[3] \div 4, (d[3] % 4) * 64 + d[4] >> \o Dec(SubSeq(d, 5, Len(d)))
Space == {9, 10, 12, 13, 32}
Bare(t) ==
  LET n == Len(t)
  IN IF n % 4 # 0 \/ n = 0 THEN t
     ELSE IF t[n] # 61 THEN t
     ELSE IF t[n - 1] # 61 THEN SubSeq(t, 1, n - 1) ELSE SubSeq(t, 1, n - 2)
Atob(text) ==
  LET t == Bare(SelectSeq(text, LAMBDA c : c \notin Space))
  IN IF Len(t) % 4 = 1 \/ \E i \in 1..Len(t) : Of(t[i]) = 0 - 1 THEN Refuse
     ELSE Dec([i \in 1..Len(t) |-> Of(t[i])])

Seqs(A, n) == UNION { [1..k -> A] : k \in 0..n }
Do(op) == IF op.op = "btoa" THEN Btoa(op.t) ELSE Atob(op.t)
Ops == { [op |-> "btoa", t |-> t] : t \in Seqs(Units, MaxBtoa) } \union { [op |-> "atob", t |-> t] : t \in Seqs(Chars, MaxAtob) }
Init == s = 0 /\ act = [op |-> [op |-> "init"]]
Act(op) == s' = 0 /\ act' = [op |-> op, r |-> [r |-> Do(op)]]
Next == \E op \in Ops : Act(op)
RECURSIVE Rnd(_, _)
Rnd(A, n) == IF n = 0 THEN <<>> ELSE Append(Rnd(A, n - 1), RandomElement(A))
(* long ones: any bytes, what they are encoded as, and that with one character changed *)
Deep == \E o \in {RandomElement({"btoa", "atob", "spoilt", "noise"})} : \E n \in {RandomElement(0..Longest)} :
  \E b \in { Rnd(0..255, n) } : \E k \in {RandomElement(1..(n + 3))} : \E c \in {RandomElement(Chars)} :
  \E x \in { Rnd(Chars, n) } :
    LET e == Enc(b)
    IN Act(CASE o = "btoa" -> [op |-> "btoa", t |-> b]
             [] o = "atob" -> [op |-> "atob", t |-> e]
             [] o = "spoilt" -> [op |-> "atob", t |-> IF k <= Len(e) THEN [e EXCEPT ![k] = c] ELSE Append(e, c)]
             [] o = "noise" -> [op |-> "atob", t |-> x])
View == s
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))

(* What is encoded is decoded to itself, whatever is at its end. *)
Back == [][ act'.op.op = "btoa" /\ act'.r.r # Refuse => Atob(act'.r.r) = act'.op.t /\ Len(act'.r.r) % 4 = 0 ]_vars
Bytes == [][ \A i \in 1..Len(act'.r.r) : act'.r.r = Refuse \/ act'.r.r[i] \in 0..255 ]_vars
=============================================================================
