-------------------------------- MODULE Text --------------------------------
(* TextEncoder and TextDecoder (src/runtime/text_encoding.rs): UTF-16 code units to
   UTF-8 bytes, and bytes of an encoding to text, as the Encoding Standard says.
   Both are stateless: every call is a function of its arguments.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Bytes,      \* representative bytes
          Units,      \* representative code units
          MaxBytes, MaxUnits, LongBytes, LongUnits, Names

VARIABLES s, act
vars == <<s, act>>

Rep == 65533          \* U+FFFD
Bom == 65279

(* ---- decoding. out is the text so far as code points; bad: something was not valid *)
D(out, bad) == [out |-> out, bad |-> bad]
RECURSIVE Utf8(_, _, _, _, _, _, _)
(* need more continuation bytes, the next one within lo..hi *)
Utf8(b, i, need, cp, lo, hi, d) ==
  IF i > Len(b) THEN IF need = 0 THEN d ELSE D(Append(d.out, Rep), TRUE)
  ELSE LET x == b[i] IN
  IF need = 0
  THEN IF x < 128 THEN Utf8(b, i + 1, 0, 0, 128, 191, D(Append(d.out, x), d.bad))
       ELSE IF x >= 194 /\ x <= 223 THEN Utf8(b, i + 1, 1, x - 192, 128, 191, d)
       ELSE IF x >= 224 /\ x <= 239
            THEN Utf8(b, i + 1, 2, x - 224, IF x = 224 THEN 160 ELSE 128, IF x = 237 THEN 159 ELSE 191, d)
       ELSE IF x >= 240 /\ x <= 244
            THEN Utf8(b, i + 1, 3, x - 240, IF x = 240 THEN 144 ELSE 128, IF x = 244 THEN 143 ELSE 191, d)
       ELSE Utf8(b, i + 1, 0, 0, 128, 191, D(Append(d.out, Rep), TRUE))
  \* the byte that does not continue a sequence is looked at again by itself
  ELSE IF x < lo \/ x > hi THEN Utf8(b, i, 0, 0, 128, 191, D(Append(d.out, Rep), TRUE))
  ELSE LET c == cp * 64 + (x - 128)
       IN IF need = 1 THEN Utf8(b, i + 1, 0, 0, 128, 191, D(Append(d.out, c), d.bad))
          ELSE Utf8(b, i + 1, need - 1, c, 128, 191, d)

High(u) == u >= 55296 /\ u <= 56319
Low(u) == u >= 56320 /\ u <= 57343
Pair(h, l) == 65536 + (h - 55296) * 1024 + (l - 56320)
RECURSIVE Points(_, _, _)
Points(u, i, d) ==       \* code units to code points
  IF i > Len(u) THEN d
  ELSE IF High(u[i]) /\ i < Len(u) /\ Low(u[i + 1]) THEN Points(u, i + 2, D(Append(d.out, Pair(u[i], u[i + 1])), d.bad))
  ELSE IF High(u[i]) \/ Low(u[i]) THEN Points(u, i + 1, D(Append(d.out, Rep), TRUE))
  ELSE Points(u, i + 1, D(Append(d.out, u[i]), d.bad))
(* an odd last byte is one more error, and takes a high surrogate before it with it *)
Utf16(b) ==
  LET n == Len(b) \div 2
      u == [k \in 1..n |-> b[2 * k - 1] + 256 * b[2 * k]]
  IN IF Len(b) = 2 * n THEN Points(u, 1, D(<<>>, FALSE))
     ELSE LET m == IF n > 0 /\ High(u[n]) THEN n - 1 ELSE n
          IN D(Points(SubSeq(u, 1, m), 1, D(<<>>, FALSE)).out \o <<Rep>>, TRUE)

Swap(b) == [i \in 1..Len(b) |-> IF i % 2 = 1 THEN IF i < Len(b) THEN b[i + 1] ELSE b[i] ELSE b[i - 1]]
(* one byte per character: only the bytes used here *)
West(b) == D([i \in 1..Len(b) |-> CASE b[i] = 128 -> 8364 [] b[i] = 147 -> 8220 [] b[i] = 153 -> 8482 [] OTHER -> b[i]], FALSE)

Decoded(enc, b) == CASE enc = "utf-8" -> Utf8(b, 1, 0, 0, 128, 191, D(<<>>, FALSE))
                     [] enc = "utf-16le" -> Utf16(b)
                     [] enc = "utf-16be" -> Utf16(Swap(b))
                     [] enc = "windows-1252" -> West(b)
(* the names an encoding goes by; any case, with blanks around *)
Labels == [utf8 |-> {"utf-8", "UTF-8", "utf8", " Utf8\t", "unicode-1-1-utf-8", "default"},
           utf16 |-> {"utf-16le", "utf-16", "UTF-16", "ucs-2", "iso-10646-ucs-2"},
           utf16be |-> {"utf-16be", "UTF-16BE "},
           west |-> {"windows-1252", "latin1", "ascii", "us-ascii", "ISO-8859-1", "cp1252", "\nl1"},
           none |-> {"", "replacement", "iso-2022-kr", "hz-gb-2312", "~utf-8", "utf-8~", "utf-8\t~", "null", "utf-7", "utf-32", "latin-1", "utf_8", "utf8x", "iso-8859"}]
EncOf(l) == CASE l \in Labels.utf8 -> "utf-8" [] l \in Labels.utf16 -> "utf-16le" [] l \in Labels.utf16be -> "utf-16be"
              [] l \in Labels.west -> "windows-1252" [] OTHER -> "none"
AllLabels == UNION { Labels[k] : k \in DOMAIN Labels }
(* the name a decoder says its encoding has: of every encoding there is *)
Named == [ibm866 |-> <<"866", "cp866", "IBM866">>, iso_8859_2 |-> <<"latin2", "l2", "iso_8859-2:1987">>, iso_8859_3 |-> <<"latin3">>,
          iso_8859_4 |-> <<"latin4">>, iso_8859_5 |-> <<"cyrillic">>, iso_8859_6 |-> <<"arabic", "asmo-708">>, iso_8859_7 |-> <<"greek", "sun_eu_greek">>,
          iso_8859_8 |-> <<"visual", "hebrew">>, iso_8859_8_i |-> <<"logical", "csiso88598i">>, iso_8859_10 |-> <<"latin6">>, iso_8859_13 |-> <<"iso8859-13">>,
          iso_8859_14 |-> <<"iso885914">>, iso_8859_15 |-> <<"l9">>, iso_8859_16 |-> <<"ISO-8859-16">>, koi8_r |-> <<"koi", "koi8_r">>, koi8_u |-> <<"koi8-ru">>,
          macintosh |-> <<"mac", "x-mac-roman">>, windows_874 |-> <<"tis-620", "dos-874">>, windows_1250 |-> <<"cp1250", "x-cp1250">>,
          windows_1251 |-> <<"cp1251">>, windows_1252 |-> <<"latin1", "ascii", "\nl1 ", "x-cp1252">>, windows_1253 |-> <<"cp1253">>, windows_1254 |-> <<"latin5", "iso-8859-9">>,
          windows_1255 |-> <<"cp1255">>, windows_1256 |-> <<"cp1256">>, windows_1257 |-> <<"cp1257">>, windows_1258 |-> <<"cp1258">>,
          x_mac_cyrillic |-> <<"x-mac-ukrainian">>, gbk |-> <<"gb2312", "chinese", "x-gbk", "GB_2312-80">>, gb18030 |-> <<"GB18030">>,
          big5 |-> <<"big5-hkscs", "cn-big5">>, euc_jp |-> <<"x-euc-jp">>, iso_2022_jp |-> <<"csiso2022jp">>, shift_jis |-> <<"sjis", "ms_kanji", "windows-31j">>,
          euc_kr |-> <<"korean", "ksc_5601", "windows-949">>, utf_8 |-> <<"utf8", " Utf8\t", "x-unicode20utf8">>, utf_16be |-> <<"unicodefffe">>,
          utf_16le |-> <<"utf-16", "ucs-2", "unicode", "csunicode">>, x_user_defined |-> <<"X-User-Defined">>]
NoBom(enc, d) == IF enc # "windows-1252" /\ d.out # <<>> /\ Head(d.out) = Bom THEN Tail(d.out) ELSE d.out
Decode(enc, b) == LET d == Decoded(enc, b)
                  IN [text |-> NoBom(enc, d), kept |-> d.out, fatal |-> IF d.bad THEN "TypeError" ELSE "ok"]

(* ---- encoding *)
Utf8Of(c) == IF c < 128 THEN <<c>>
             ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
             ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
             ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Flat(_, _)
Flat(p, i) == IF i > Len(p) THEN <<>> ELSE Utf8Of(p[i]) \o Flat(p, i + 1)
Encode(u) == Flat(Points(u, 1, D(<<>>, FALSE)).out, 1)
(* into n bytes: whole characters only *)
RECURSIVE Into(_, _, _, _, _)
Into(p, i, n, read, w) ==
  IF i > Len(p) \/ w + Len(Utf8Of(p[i])) > n THEN [read |-> read, written |-> w]
  ELSE Into(p, i + 1, n, read + (IF p[i] >= 65536 THEN 2 ELSE 1), w + Len(Utf8Of(p[i])))
EncodeInto(u, n) == Into(Points(u, 1, D(<<>>, FALSE)).out, 1, n, 0, 0)

(* the same again and again: told as runs, so that it can be long. every once in it is whole, so
   that the text of the whole is the texts of the parts in order                              *)
Counts == {15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097,
           8191, 8192, 8193, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 262144, 1048576}
Again == [utf8 |-> {<<65>>, <<0>>, <<195, 169>>, <<226, 130, 172>>, <<240, 159, 152, 128>>, <<239, 187, 191>>, <<255>>},
          utf16 |-> {<<65, 0>>, <<0, 216, 0, 220>>, <<255, 254>>, <<0, 220>>}]
Before == [utf8 |-> {<<>>, <<65>>, <<195>>, <<239, 187, 191>>}, utf16 |-> {<<>>, <<65, 0>>, <<255, 254>>}]
After == [utf8 |-> {<<>>, <<0>>, <<195>>, <<240, 159, 152>>}, utf16 |-> {<<>>, <<0>>, <<0, 216>>}]
BigDecode(enc, pre, unit, n, post) ==
  LET p == Decoded(enc, pre)  u == Decoded(enc, unit)  q == Decoded(enc, post)
  IN [pre |-> NoBom(enc, p), keptpre |-> p.out, unit |-> u.out, post |-> q.out,
      n |-> IF pre = <<>> /\ Head(u.out) = Bom THEN n - 1 ELSE n,
      fatal |-> IF p.bad \/ u.bad \/ q.bad THEN "TypeError" ELSE "ok"]
(* into a room that the run of ones fills: as many whole ones as fit *)
BigInto(pre, unit, n, room) ==
  LET p == Encode(pre)  u == Encode(unit)  k == (room - Len(p)) \div Len(u)
  IN [read |-> Len(pre) + k * Len(unit), written |-> Len(p) + k * Len(u)]
BigEncode(pre, unit, n) ==
  LET total == Len(Encode(pre)) + n * Len(Encode(unit))
      rooms == [i \in 1..4 |-> CASE i = 1 -> total [] i = 2 -> total - 1 [] i = 3 -> total \div 2 [] i = 4 -> total \div 2 + 1]
  IN [pre |-> Encode(pre), unit |-> Encode(unit), rooms |-> rooms, into |-> [i \in 1..4 |-> BigInto(pre, unit, n, rooms[i])]]

Seqs(S, n) == UNION { [1..k -> S] : k \in 0..n }
Flags == {"none", "true", "1", "text", "false", "0", "empty", "null"}
On(f) == f \in {"true", "1", "text"}
Ops(st) ==
  { [op |-> "decode", enc |-> e, b |-> b] : e \in Names \cap {"utf-8", "utf-16le"}, b \in Seqs(Bytes, MaxBytes) }
  \union (IF "label" \in Names THEN { [op |-> "label", l |-> l, b |-> b] : l \in AllLabels, b \in Seqs(Bytes, MaxBytes) } ELSE {})
  \union (IF "name" \in Names THEN UNION { { [op |-> "name", l |-> Named[e][i], n |-> e, fatal |-> f, bom |-> k] :
            i \in DOMAIN Named[e], f \in Flags, k \in Flags } : e \in DOMAIN Named } ELSE {})
  \union (IF "arg" \in Names THEN { [op |-> "arg", a |-> a] : a \in {"none", "undefined", "null", "5", "true", "object", "number", "string", "empty"} } ELSE {})
  \union (IF "big" \in Names THEN UNION { { [op |-> "bigdecode", enc |-> IF e = "utf8" THEN "utf-8" ELSE "utf-16le", pre |-> p, unit |-> u, n |-> n, post |-> q,
              want |-> BigDecode(IF e = "utf8" THEN "utf-8" ELSE "utf-16le", p, u, n, q)] :
            p \in Before[e], u \in Again[e], n \in Counts, q \in After[e] } : e \in DOMAIN Again } ELSE {})
  \union (IF "bigencode" \in Names THEN { [op |-> "bigencode", pre |-> p, unit |-> u, n |-> n, want |-> BigEncode(p, u, n)] :
            p \in {<<>>, <<65>>, <<55296>>, <<65279>>}, u \in {<<65>>, <<0>>, <<233>>, <<8364>>, <<55357, 56832>>, <<65279>>, <<55296>>}, n \in Counts } ELSE {})
  \union (IF "encode" \in Names THEN { [op |-> "encode", u |-> u] : u \in Seqs(Units, MaxUnits) } ELSE {})
Result(op) ==
  IF op.op = "decode" THEN Decode(op.enc, op.b)
  ELSE IF op.op = "label" THEN IF EncOf(op.l) = "none" THEN [text |-> "RangeError", kept |-> "RangeError", fatal |-> "RangeError"]
                               ELSE Decode(EncOf(op.l), op.b)
  ELSE IF op.op = "name" THEN [name |-> op.n, fatal |-> On(op.fatal), bom |-> On(op.bom)]
  ELSE IF op.op = "bigdecode" THEN op.want      \* (the driver compares, and tells it back)
  ELSE IF op.op = "bigencode" THEN op.want
  ELSE IF op.op = "arg"      \* what is not text is made text to encode; only bytes can be decoded
  THEN [encoded |-> CASE op.a \in {"none", "undefined", "empty"} -> <<>>
                      [] op.a = "null" -> <<110, 117, 108, 108>>
                      [] op.a \in {"5", "string"} -> <<53>>
                      [] op.a = "true" -> <<116, 114, 117, 101>>
                      [] op.a = "object" -> <<111, 45>>
                      [] op.a = "number" -> <<49, 46, 53>>,
        decoded |-> IF op.a \in {"none", "undefined"} THEN "empty"
                    ELSE IF op.a \in {"null", "empty"} THEN "any" ELSE "TypeError"]
  ELSE LET e == Encode(op.u) IN [bytes |-> e, into |-> [n \in 1..(Len(e) + 2) |-> EncodeInto(op.u, n - 1)]]

Init == s = 0 /\ act = [op |-> [op |-> "init"]]
Act(op) == s' = s /\ act' = [op |-> op, r |-> Result(op)]
Next == \E op \in Ops(s) : Act(op)
Pick(S) == RandomElement({ x \in S : s = 0 })      \* s: not a constant, so drawn anew each time
RandSeq(S, n) == [k \in 1..n |-> Pick(S)]
Deep == \E k \in {Pick(1..3)} : \E n \in {Pick(1..(IF k = 1 THEN LongUnits ELSE LongBytes))} :
        \E q \in {RandSeq(IF k = 1 THEN Units ELSE Bytes, n)} :
          Act(IF k = 1 THEN [op |-> "encode", u |-> q]
              ELSE [op |-> "decode", enc |-> IF k = 2 THEN "utf-8" ELSE "utf-16le", b |-> q])
Spec == Init /\ [][Next]_vars
View == s
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))

(* ---- properties *)
(* what was encoded decodes to the same text, and is valid *)
RoundTrip == [][ act'.op.op = "encode" =>
   LET d == Decode("utf-8", act'.r.bytes)
   IN d.kept = Points(act'.op.u, 1, D(<<>>, FALSE)).out /\ d.fatal = "ok" ]_vars
(* decoding a text's own encoding gives it back, byte for byte, when it was valid *)
Inverse == [][ (act'.op.op = "decode" /\ act'.op.enc = "utf-8" /\ act'.r.fatal = "ok") => Flat(act'.r.kept, 1) = act'.op.b ]_vars
(* never half a character, never more than fits, and as much as fits *)
Whole == [][ act'.op.op = "encode" => \A n \in DOMAIN act'.r.into :
   LET r == act'.r.into[n]
   IN /\ r.written <= n - 1
      /\ Encode(SubSeq(act'.op.u, 1, r.read)) = SubSeq(act'.r.bytes, 1, r.written)
      /\ (n - 1 >= Len(act'.r.bytes)) => r.read = Len(act'.op.u) ]_vars
=============================================================================
