------------------------------- MODULE Crypto -------------------------------
(* Keys and signatures (src/runtime/crypto/{hmac,ecdsa,rsa,pbkdf2}.rs) as an ideal
   functionality: a signature is the record of who signed what with which hash, and
   verifies for exactly that. Key material is a name; a generated key gets a new one. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Algs, Mats, Hashes, Msgs, Keys, Sigs, OpNames

VARIABLES keys, sigs, made, act
vars == <<keys, sigs, made, act>>

RSA == "RSASSA-PKCS1-v1_5"
NoKey == [alg |-> "none", kind |-> "none", mat |-> "none", hash |-> "none"]
NoSig == [alg |-> "none", mat |-> "none", hash |-> "none", m |-> 0]
BadSig == [alg |-> "bad", mat |-> "none", hash |-> "none", m |-> 0]
K(alg, kind, mat, hash) == [alg |-> alg, kind |-> kind, mat |-> mat, hash |-> hash]

(* what can be imported, and how *)
Specs ==
  (IF "HMAC" \in Algs THEN { [fmt |-> "raw", key |-> K("HMAC", "secret", m, h)] : m \in Mats \cap {"h1", "h2"}, h \in Hashes } ELSE {})
  \union (IF "ECDSA" \in Algs
          THEN { [fmt |-> "raw", key |-> K("ECDSA", "public", m, "SHA-256")] : m \in Mats \cap {"e1", "e2"} }
               \union { [fmt |-> "pkcs8", key |-> K("ECDSA", "private", m, "SHA-256")] : m \in Mats \cap {"e1", "e2"} }
          ELSE {})
  \union (IF RSA \in Algs
          THEN { [fmt |-> f, key |-> K(RSA, "public", m, h)] : f \in {"spki", "rsa-spki", "rsa-raw"}, m \in Mats \cap {"r1", "r2"}, h \in Hashes \ {"SHA-1"} }
               \union { [fmt |-> f, key |-> K(RSA, "private", m, h)] : f \in {"pkcs8", "rsa-pkcs8"}, m \in Mats \cap {"r1", "r2"}, h \in Hashes \ {"SHA-1"} }
          ELSE {})
  \union (IF "PBKDF2" \in Algs THEN { [fmt |-> "raw", key |-> K("PBKDF2", "secret", m, "none")] : m \in Mats \cap {"h1", "h2"} } ELSE {})
Fresh == { g \in Mats \cap {"g1", "g2", "g3", "g4"} : (\A i \in Keys : keys[i].mat # g) /\ (\A j \in Sigs : sigs[j].mat # g) }

CanSign(k, alg) == k.alg = alg /\ alg \in {"HMAC", "ECDSA", RSA} /\ k.kind \in {"secret", "private"}
SigOf(k, m) == [alg |-> k.alg, mat |-> k.mat, hash |-> k.hash, m |-> m]
Matches(k, g, m) == g = SigOf(k, m)
(* the term an independent implementation gives a signature *)
TermOf(g) == CASE g.alg = "HMAC" -> "H/" \o g.hash \o "/" \o g.mat \o "/" \o ToString(g.m)
               [] g.alg = RSA -> "R/" \o g.hash \o "/" \o g.mat \o "/" \o ToString(g.m)
               [] g.alg = "ECDSA" -> IF g.mat \in {"e1", "e2"} THEN "E/" \o g.mat \o "/" \o ToString(g.m) ELSE "E/other"
Verified(k, alg, g, m) ==
  IF k.alg # alg \/ alg \notin {"HMAC", "ECDSA", RSA} THEN {"rejected"}
  ELSE IF k.kind = "private" /\ ~(k.mat \in {"g1", "g2", "g3", "g4"})
       THEN IF Matches(k, g, m) THEN {"true", "false", "rejected"} ELSE {"false", "rejected"}  \* need not work, must not lie
  ELSE {IF Matches(k, g, m) THEN "true" ELSE "false"}

Ops ==
  (IF "import" \in OpNames THEN { [op |-> "import", i |-> i, spec |-> sp] : i \in Keys, sp \in Specs } ELSE {})
  \union (IF "generate" \in OpNames /\ "ECDSA" \in Algs /\ Fresh # {}
          THEN { [op |-> "generate", i |-> p[1], j |-> p[2]] : p \in { p \in Keys \X Keys : p[1] # p[2] } } ELSE {})
  \union (IF "sign" \in OpNames THEN { [op |-> "sign", alg |-> a, i |-> i, m |-> m, j |-> j] :
                                       a \in Algs \union {"ECDSA/SHA-384"}, i \in { i \in Keys : keys[i].alg # "none" }, m \in Msgs, j \in Sigs } ELSE {})
  \union (IF "given" \in OpNames THEN { [op |-> "given", g |-> g, j |-> j] : j \in Sigs, g \in
          { SigOf(sp.key, m) : m \in Msgs, sp \in { sp \in Specs : sp.key.kind \in {"secret", "private"} /\ sp.key.alg # "PBKDF2" } } } ELSE {})
  \union (IF "tamper" \in OpNames THEN { [op |-> "tamper", j |-> j, how |-> h] : j \in { j \in Sigs : sigs[j].alg \notin {"none", "bad"} },
                                         h \in {"flip", "short", "long", "front", "zero", "empty"} } ELSE {})
  \union (IF "verify" \in OpNames THEN { [op |-> "verify", alg |-> a, i |-> i, m |-> m, j |-> j] :
                                       a \in Algs \union {"ECDSA/SHA-384"}, i \in { i \in Keys : keys[i].alg # "none" }, m \in Msgs, j \in Sigs } ELSE {})

Step(op, r, ks, gs, mk) == /\ keys' = ks /\ sigs' = gs /\ made' = mk /\ act' = [op |-> op, r |-> r]
Same(op, r) == Step(op, r, keys, sigs, made)
Do(op) ==
  CASE op.op = "import" -> Step(op, "ok", [keys EXCEPT ![op.i] = op.spec.key], sigs, made)
    [] op.op = "generate" ->
            LET g == CHOOSE x \in Fresh : TRUE
            IN Step(op, "ok", [keys EXCEPT ![op.i] = K("ECDSA", "private", g, "SHA-256"), ![op.j] = K("ECDSA", "public", g, "SHA-256")],
                    sigs, { x \in made : x.mat # g })
    [] op.op = "sign" -> IF CanSign(keys[op.i], op.alg)
         THEN LET g == SigOf(keys[op.i], op.m) IN Step(op, TermOf(g), keys, [sigs EXCEPT ![op.j] = g], made \union {g})
         ELSE Same(op, "rejected")
    [] op.op = "given" -> Step(op, "ok", keys, [sigs EXCEPT ![op.j] = op.g], made \union {op.g})
    [] op.op = "tamper" -> Step(op, "ok", keys, [sigs EXCEPT ![op.j] = BadSig], made)
    [] op.op = "verify" -> \E r \in Verified(keys[op.i], op.alg, sigs[op.j], op.m) : Same(op, r)

Init == keys = [i \in Keys |-> NoKey] /\ sigs = [j \in Sigs |-> NoSig] /\ made = {} /\ act = [op |-> [op |-> "init"], r |-> ""]
Next == \E op \in Ops : Do(op)
Pick(S) == RandomElement({ x \in S : keys = keys })
Deep == \E w \in {Pick({ x.op : x \in Ops })} : \E op \in {Pick({ x \in Ops : x.op = w })} : Do(op)
Spec == Init /\ [][Next]_vars
View == <<keys, sigs>>
Seen == <<keys, sigs, made>>
Emit == PrintT(ToJson([s |-> <<keys, sigs>>, a |-> act', t |-> <<keys', sigs'>>]))

(* ---- properties *)
(* nothing verifies that was not signed with that key, that hash and that message *)
Unforgeable == [][ (act'.op.op = "verify" /\ act'.r = "true") =>
                   SigOf(keys[act'.op.i], act'.op.m) \in made /\ sigs[act'.op.j].alg = act'.op.alg ]_vars
(* what was signed verifies, as long as the signature is not changed *)
Complete == [][ (act'.op.op = "verify" /\ keys[act'.op.i].kind \in {"secret", "public"} /\ keys[act'.op.i].alg = act'.op.alg
                 /\ sigs[act'.op.j] = SigOf(keys[act'.op.i], act'.op.m) /\ act'.op.alg # "PBKDF2") => act'.r = "true" ]_vars
(* a public key or a password signs nothing, and a key serves only its own algorithm *)
OnlySigners == [][ (act'.op.op = "sign" /\ act'.r # "rejected") =>
                   keys[act'.op.i].kind \in {"secret", "private"} /\ keys[act'.op.i].alg = act'.op.alg ]_vars
KeysStay == [][ act'.op.op \notin {"import", "generate"} => keys' = keys ]_vars
=============================================================================
