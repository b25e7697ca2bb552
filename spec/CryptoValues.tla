---------------------------- MODULE CryptoValues ----------------------------
(* The stateless part of crypto (src/runtime/crypto): digests, HMAC, PBKDF2, random
   values. Hash functions are symbolic: a value is the term that names it, and the
   driver translates bytes to terms by a table made with another implementation.
   A message, key or salt is named by its length (its bytes are fixed).            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names,      \* families of operations
          Lens,       \* message lengths
          KeyLens, Sizes

VARIABLES s, act
vars == <<s, act>>

Canon(a) == CASE a \in {"SHA-1", "sha-1", "Sha-1"} -> "SHA-1" [] a \in {"SHA-256", "sha-256", "Sha-256"} -> "SHA-256"
              [] a \in {"SHA-384", "sha-384", "Sha-384"} -> "SHA-384" [] a \in {"SHA-512", "sha-512", "Sha-512"} -> "SHA-512"
              [] OTHER -> "none"
Hashes == {"SHA-1", "SHA-256", "SHA-384", "SHA-512"}
AnyCase == {"sha-1", "Sha-1", "sha-256", "Sha-256", "sha-384", "Sha-384", "sha-512", "Sha-512"}
NoHash == {"", "MD5", "SHA", "SHA256", "SHA-224", "SHA-512/256", "SHA3-256", "SHA-2560", " SHA-256"}
Forms == {"string", "object"}
Views == {"buffer", "u8", "offset"}     \* the same bytes: a buffer, a whole view, part of a larger one
Other == {"dataview", "i8", "u16"}      \* other views: the right value, or turned away
T(seq) == IF Len(seq) = 2 THEN seq[1] \o "/" \o ToString(seq[2])
          ELSE IF Len(seq) = 4 THEN seq[1] \o "/" \o seq[2] \o "/" \o ToString(seq[3]) \o "/" \o ToString(seq[4])
          ELSE seq[1] \o "/" \o seq[2] \o "/" \o ToString(seq[3]) \o "/" \o ToString(seq[4]) \o "/" \o ToString(seq[5]) \o "/" \o ToString(seq[6])

(* what is not an algorithm, not data, not a key, not a length: a rejected promise, never an exception,
   never an answer *)
Bad == {"digest:none", "digest:null", "digest:string", "digest:array", "digest:number",
        "import:none", "import:jwk", "import:algorithm", "import:string", "import:array",
        "sign:nokey", "sign:plainkey", "sign:string", "sign:array", "verify:nokey", "verify:string", "verify:signature", "verify:array",
        "derive:nolength", "derive:7", "derive:12", "derive:-8", "derive:8.5", "derive:huge", "derive:large", "derive:NaN", "derive:text",
        "derive:0 iterations", "derive:-1 iterations", "derive:no iterations", "derive:no salt", "derive:no hash",
        "derive:MD5", "derive:hmac key", "derive:algorithm", "generate:HMAC", "generate:P-384", "generate:none"}

Arrays == {"Uint8Array", "Int8Array", "Uint8ClampedArray", "Uint16Array", "Int16Array", "Uint32Array", "Int32Array",
           "BigUint64Array", "BigInt64Array"}
NotArrays == {"Float32Array", "Float64Array", "DataView", "ArrayBuffer", "array", "undefined", "number", "string", "null", "none"}

Ops(st) ==
  (IF "digest" \in Names
   THEN { [op |-> "digest", alg |-> a, form |-> f, m |-> m, view |-> v] : a \in Hashes, f \in Forms, m \in Lens, v \in Views }
        \union { [op |-> "digest", alg |-> a, form |-> f, m |-> 3, view |-> v] : a \in AnyCase \union NoHash, f \in Forms, v \in Views \union Other }
   ELSE {})
  \union (IF "hmac" \in Names
   THEN { [op |-> "hmac", alg |-> a, form |-> f, k |-> k, m |-> m, view |-> v] :
          a \in Hashes, f \in Forms, k \in KeyLens, m \in Lens, v \in {"buffer"} }
        \union { [op |-> "hmac", alg |-> a, form |-> f, k |-> 20, m |-> 3, view |-> v] :
          a \in AnyCase \union (NoHash \ {""}), f \in Forms, v \in Views \union Other }
   ELSE {})
  \union (IF "derive" \in Names
   THEN { [op |-> "derive", alg |-> a, form |-> "string", k |-> k, m |-> m, iter |-> i, bits |-> n, view |-> v] :
          a \in Hashes, k \in {1, 20, 65, 129}, m \in {1, 16, 64, 65, 129, 1000}, i \in {1, 2, 7}, n \in {40, 128, 160, 256, 264, 512, 1032}, v \in {"buffer"} }
        \union { [op |-> "derive", alg |-> a, form |-> f, k |-> 20, m |-> 16, iter |-> 1000, bits |-> 256, view |-> v] :
          a \in Hashes \union AnyCase, f \in Forms, v \in Views }
        \union { [op |-> "derive", alg |-> a, form |-> "string", k |-> 20, m |-> 16, iter |-> i, bits |-> 256, view |-> "buffer"] :
          a \in {"SHA-1", "SHA-256"}, i \in {255, 256, 257, 65535, 65536, 65537, 100001} }
   ELSE {})
  \union (IF "bad" \in Names THEN { [op |-> "bad", what |-> b] : b \in Bad } ELSE {})
  \union (IF "random" \in Names
   THEN { [op |-> "random", arr |-> a, n |-> n, off |-> o] : a \in Arrays, n \in Sizes, o \in {0, 1, 3, 8, 1000} }    \* elements before it
        \union { [op |-> "norandom", arr |-> a] : a \in NotArrays }
        \union { [op |-> "uuid", n |-> 500] }
   ELSE {})

Value(op, t) == IF Canon(op.alg) = "none" THEN "rejected" ELSE IF op.view \in Other THEN "right or rejected" ELSE T(t)
Result(op) ==
  CASE op.op = "digest" -> Value(op, <<"D/" \o Canon(op.alg), op.m>>)
    [] op.op = "hmac" -> IF Canon(op.alg) = "none" THEN "rejected" ELSE Value(op, <<"H", Canon(op.alg), op.k, op.m>>)
    [] op.op = "derive" -> Value(op, <<"P", Canon(op.alg), op.k, op.m, op.iter, op.bits>>)
    [] op.op = "bad" -> "rejected"
    [] op.op = "random" -> "filled"            \* all of the array, nothing beside it, the same array back
    [] op.op = "norandom" -> "TypeError"       \* never an array that looks filled and is not
    [] op.op = "uuid" -> "distinct"            \* version 4, all different from each other and from all before

Init == s = 0 /\ act = [op |-> [op |-> "init"]]
Next == \E op \in Ops(s) : s' = s /\ act' = [op |-> op, r |-> Result(op)]
Spec == Init /\ [][Next]_vars
View == s
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))

(* the value depends on the algorithm and the bytes only *)
SameValue == [][ act'.op.op = "digest" /\ Canon(act'.op.alg) # "none" /\ act'.op.view \in Views
                 => act'.r = T(<<"D/" \o Canon(act'.op.alg), act'.op.m>>) ]_vars
NoUnknown == [][ act'.op.op \in {"digest", "hmac", "derive"} => (act'.r = "rejected" <=> Canon(act'.op.alg) = "none") ]_vars
=============================================================================
