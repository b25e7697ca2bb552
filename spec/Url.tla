-------------------------------- MODULE Url --------------------------------
(* A URL: its parts are those of the text it is made of, alone or relative to another
   URL; a part that is changed is changed, the others are not, and the text follows.
   A path is a sequence of segments (there is one at least), a query and a fragment are
   texts, "" when there is none.                                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Bases, Refs, Parts, MaxSteps, MaxPath, OpNames
VARIABLES s, act
vars == <<s, act>>

U(pr, us, pw, ho, po, pa, q, f) == [pr |-> pr, us |-> us, pw |-> pw, ho |-> ho, po |-> po, pa |-> pa, q |-> q, f |-> f]
None == U("", "", "", "", "", <<"">>, "", "")
Init == s = [u |-> None, n |-> 0] /\ act = [op |-> [op |-> "init"]]

Default(pr) == CASE pr \in {"http", "ws"} -> "80" [] pr \in {"https", "wss"} -> "443" [] OTHER -> "-"
Normal(u) == IF u.po = Default(u.pr) THEN [u EXCEPT !.po = ""] ELSE u

(* . and .. *)
RECURSIVE Dots(_, _)
Dots(done, todo) ==
  IF todo = <<>> THEN done
  ELSE LET x == Head(todo) last == Len(todo) = 1
           popped == IF done = <<>> THEN <<>> ELSE SubSeq(done, 1, Len(done) - 1)
       IN CASE x = ".." -> Dots(IF last THEN Append(popped, "") ELSE popped, Tail(todo))
            [] x = "." -> Dots(IF last THEN Append(done, "") ELSE done, Tail(todo))
            [] OTHER -> Dots(Append(done, x), Tail(todo))
Path(p) == Dots(<<>>, p)
RECURSIVE Join(_)
Join(p) == IF p = <<>> THEN "" ELSE "/" \o Head(p) \o Join(Tail(p))

(* ---- the texts: what is written, and what it says *)
Auth(us, pw, ho, po) ==
  (IF us = "" /\ pw = "" THEN "" ELSE us \o (IF pw = "" THEN "" ELSE ":" \o pw) \o "@") \o ho \o (IF po = "" THEN "" ELSE ":" \o po)
Text(u) == u.pr \o "://" \o Auth(u.us, u.pw, u.ho, u.po) \o Join(u.pa) \o (IF u.q = "" THEN "" ELSE "?" \o u.q) \o (IF u.f = "" THEN "" ELSE "#" \o u.f)
B(t, u) == [t |-> t, u |-> u]
Base(b) ==
  CASE b = "bare" -> B("http://h", U("http", "", "", "h", "", <<"">>, "", ""))
    [] b = "bareq" -> B("http://h?a=1/../2", U("http", "", "", "h", "", <<"">>, "a=1/../2", ""))
    [] b = "baref" -> B("http://h#f@g:1/?", U("http", "", "", "h", "", <<"">>, "", "f@g:1/?"))
    [] b = "root" -> B("http://h/", U("http", "", "", "h", "", <<"">>, "", ""))
    [] b = "file" -> B("https://h.ex/a/b?a=1#f", U("https", "", "", "h.ex", "", <<"a", "b">>, "a=1", "f"))
    [] b = "dir" -> B("http://h/a/b/", U("http", "", "", "h", "", <<"a", "b", "">>, "", ""))
    [] b = "port" -> B("http://h:8080/a?a=1", U("http", "", "", "h", "8080", <<"a">>, "a=1", ""))
    [] b = "port80" -> B("http://h:80/a", U("http", "", "", "h", "", <<"a">>, "", ""))
    [] b = "port443" -> B("http://h:443/a", U("http", "", "", "h", "443", <<"a">>, "", ""))
    [] b = "noport" -> B("http://h:/a", U("http", "", "", "h", "", <<"a">>, "", ""))
    [] b = "both" -> B("http://u:p@h/a", U("http", "u", "p", "h", "", <<"a">>, "", ""))
    [] b = "user" -> B("https://u@h:8080/a/b?a=/x/y", U("https", "u", "", "h", "8080", <<"a", "b">>, "a=/x/y", ""))
    [] b = "pass" -> B("http://:p@h/", U("http", "", "p", "h", "", <<"">>, "", ""))
    [] b = "colons" -> B("http://u:p:q@h:1/", U("http", "u", "p:q", "h", "1", <<"">>, "", ""))
    [] b = "odd" -> B("http://h/a@b:c//d?a=u@v:1?#/x?y#z", U("http", "", "", "h", "", <<"a@b:c", "", "d">>, "a=u@v:1?", "/x?y#z"))
    [] b = "dots" -> B("http://h/a/../../b/./c/..", U("http", "", "", "h", "", <<"b", "">>, "", ""))
    [] b = "ip6" -> B("http://[::1]:8080/a", U("http", "", "", "[::1]", "8080", <<"a">>, "", ""))
    [] b = "ip6bare" -> B("ws://[::1]?a=1", U("ws", "", "", "[::1]", "", <<"">>, "a=1", ""))
    [] b = "case" -> B("HTTP://User@H.Ex/A?A#A", U("http", "User", "", "h.ex", "", <<"A">>, "A", "A"))
    [] b = "db" -> B("postgresql://u:p@db.h:5432/x", U("postgresql", "u", "p", "db.h", "5432", <<"x">>, "", ""))
    [] b = "esc" -> B("http://h/%41%2F/b?a=%26#%20", U("http", "", "", "h", "", <<"%41%2F", "b">>, "a=%26", "%20"))
    [] OTHER -> B("", None)
Good == {"bare", "bareq", "baref", "root", "file", "dir", "port", "port80", "port443", "noport", "both", "user", "pass", "colons", "odd", "dots", "ip6", "ip6bare", "case", "db", "esc"}
BadText(b) == CASE b = "empty" -> "" [] b = "word" -> "garbage" [] b = "path" -> "/x/y" [] b = "query" -> "?a=1" [] b = "net" -> "//h/x"
                [] b = "nohost" -> "http://" [] b = "badport" -> "http://h:8x/" [] b = "onlyport" -> "http://:80/" [] b = "slashes" -> "://h/"
                [] b = "digit" -> "1http://h/"
BadBases == {"empty", "word", "path", "query", "net", "nohost", "badport", "onlyport", "slashes", "digit"}

(* a reference: its text, how much of it there is, its segments, its query ("none" or text), its fragment *)
R(t, k, p, q, f) == [t |-> t, k |-> k, p |-> p, q |-> q, f |-> f]
Ref(r) ==
  CASE r = "empty" -> R("", "same", <<>>, "none", "")
    [] r = "query" -> R("?a=2", "same", <<>>, "a=2", "")
    [] r = "noquery" -> R("?", "same", <<>>, "", "")
    [] r = "frag" -> R("#z/?#", "same", <<>>, "none", "z/?#")
    [] r = "root" -> R("/", "abs", <<"">>, "none", "")
    [] r = "abs" -> R("/x/y", "abs", <<"x", "y">>, "none", "")
    [] r = "absq" -> R("/x?a=/../b#h", "abs", <<"x">>, "a=/../b", "h")
    [] r = "absdots" -> R("/../x/./y/..", "abs", <<"..", "x", ".", "y", "..">>, "none", "")
    [] r = "rel" -> R("r", "rel", <<"r">>, "none", "")
    [] r = "reldir" -> R("r/", "rel", <<"r", "">>, "none", "")
    [] r = "dot" -> R(".", "rel", <<".">>, "none", "")
    [] r = "dotr" -> R("./r", "rel", <<".", "r">>, "none", "")
    [] r = "up" -> R("..", "rel", <<"..">>, "none", "")
    [] r = "upr" -> R("../r", "rel", <<"..", "r">>, "none", "")
    [] r = "upup" -> R("../../../r", "rel", <<"..", "..", "..", "r">>, "none", "")
    [] r = "mid" -> R("r/../t/./u", "rel", <<"r", "..", "t", ".", "u">>, "none", "")
    [] r = "dotted" -> R(".r/..t", "rel", <<".r", "..t">>, "none", "")
    [] r = "relq" -> R("r?a=2&x=://", "rel", <<"r">>, "a=2&x=://", "")
    [] r = "colon" -> R("./a:b", "rel", <<".", "a:b">>, "none", "")
    [] r = "later" -> R("r/http://x", "rel", <<"r", "http:", "", "x">>, "none", "")
    [] r = "net" -> R("//g", "net", <<"">>, "none", "")
    [] r = "netpath" -> R("//v@g:99/../p", "net", <<"..", "p">>, "none", "")
    [] r = "full" -> R("https://g/q/../r?a=3", "full", <<"q", "..", "r">>, "a=3", "")
Resolve(u, r) ==
  LET q == IF r.q = "none" THEN "" ELSE r.q
  IN CASE r.k = "same" -> [u EXCEPT !.q = IF r.q = "none" THEN u.q ELSE r.q, !.f = r.f]
       [] r.k = "abs" -> [u EXCEPT !.pa = Path(r.p), !.q = q, !.f = r.f]
       [] r.k = "rel" -> [u EXCEPT !.pa = Path(SubSeq(u.pa, 1, Len(u.pa) - 1) \o r.p), !.q = q, !.f = r.f]
       [] r.k = "net" -> IF r.t = "//g" THEN U(u.pr, "", "", "g", "", <<"">>, q, r.f) ELSE Normal(U(u.pr, "v", "", "g", "99", <<"p">>, q, r.f))
       [] r.k = "full" -> U("https", "", "", "g", "", <<"r">>, q, r.f)

(* ---- changing a part: <<part, text given, what it becomes>>; "same": nothing is changed *)
Set(u, part, v) ==
  CASE part = "protocol" -> Normal([u EXCEPT !.pr = IF v = "https:" THEN "https" ELSE v])
    [] part = "host" -> Normal(IF v = "g:99" THEN [u EXCEPT !.ho = "g", !.po = "99"] ELSE [u EXCEPT !.ho = v])
    [] part = "hostname" -> [u EXCEPT !.ho = v]
    [] part = "port" -> Normal([u EXCEPT !.po = v])
    [] part = "username" -> [u EXCEPT !.us = v]
    [] part = "password" -> [u EXCEPT !.pw = v]
    [] part = "pathname" -> [u EXCEPT !.pa = CASE v \in {"x", "/x", "y/../x"} -> <<"x">> [] v \in {"", "/"} -> <<"">> [] v = "/x/y/" -> <<"x", "y", "">> [] v = "/x?y#z" -> <<"x%3Fy%23z">>]
    [] part = "search" -> [u EXCEPT !.q = CASE v \in {"a=2", "?a=2"} -> "a=2" [] v = "??a=2" -> "?a=2" [] v = "a#b" -> "a%23b" [] OTHER -> ""]
    [] part = "hash" -> [u EXCEPT !.f = CASE v \in {"z", "#z"} -> "z" [] v = "##z" -> "#z" [] OTHER -> ""]
Values(part) ==
  CASE part = "protocol" -> {"http", "https", "https:", "ws"}
    [] part = "host" -> {"g", "g:99", "[::2]"}
    [] part = "hostname" -> {"g", "h.ex", "[::2]"}
    [] part = "port" -> {"", "99", "80", "443"}
    [] part \in {"username", "password"} -> {"", "v"}
    [] part = "pathname" -> {"x", "/x", "y/../x", "", "/", "/x/y/", "/x?y#z"}
    [] part = "search" -> {"a=2", "?a=2", "??a=2", "a#b", "", "?"}
    [] part = "hash" -> {"z", "#z", "##z", "", "#"}

(* what searchParams.get('a') answers, of the queries there are *)
A(q) == CASE q \in {"a=1", "a=1&k=v"} -> "1" [] q = "a=1/../2" -> "1/../2" [] q = "a=/x/y" -> "/x/y" [] q = "a=u@v:1?" -> "u@v:1?" [] q = "a=%26" -> "&" [] q = "a=%26&k=v" -> "&"
          [] q \in {"a=2", "a=2&k=v", "a=2&x=://"} -> "2" [] q = "a=/../b" -> "/../b" [] q = "a=3" -> "3" [] q = "a=3&k=v" -> "3" [] q = "a%23b" -> "none" [] OTHER -> "none"
Adds == {"", "a=1", "a=2", "a=3", "a=%26"}

(* ---- what is seen *)
Opt(c, x) == IF x = "" THEN "" ELSE c \o x
See(u) ==
  LET host == u.ho \o Opt(":", u.po) IN
  [protocol |-> u.pr \o ":", username |-> u.us, password |-> u.pw, host |-> host, hostname |-> u.ho, port |-> u.po, pathname |-> Join(u.pa),
   search |-> Opt("?", u.q), hash |-> Opt("#", u.f), origin |-> u.pr \o "://" \o host, href |-> Text(u), a |-> A(u.q)]
Is(op, t) == s' = t /\ act' = [op |-> op, r |-> [e |-> "ok", u |-> See(t.u)]]
Refused(op) == s' = [s EXCEPT !.n = @ + 1] /\ act' = [op |-> op, r |-> [e |-> "TypeError", u |-> IF s.u = None THEN See(None) ELSE See(s.u)]]
To(u) == [u |-> u, n |-> s.n + 1]

Ops ==
  {x \in
     {[op |-> "new", v |-> Base(b).t, b |-> b] : b \in Bases \cap Good}
     \union {[op |-> "bad", v |-> BadText(b), b |-> b] : b \in BadBases}
     \union {[op |-> "based", v |-> Base(b).t, b |-> b, o |-> o] : b \in Bases \cap Good, o \in {"garbage", "/x"}}
     \union (IF s.u = None THEN {} ELSE
         {[op |-> "ref", v |-> Ref(r).t, r |-> r, how |-> h] : r \in Refs, h \in {"url", "text"}}
         \union {[op |-> "both", v |-> Text(s.u), r |-> r, how |-> "first"] : r \in Refs}
         \union {[op |-> "copy", v |-> ""], [op |-> "reparse", v |-> ""]}
         \union {[op |-> "badhref", v |-> BadText(b), b |-> b] : b \in BadBases}
         \union {[op |-> "href", v |-> Base(b).t, b |-> b] : b \in Bases \cap Good}
         \union UNION {{[op |-> "set", part |-> p, v |-> v] : v \in Values(p)} : p \in Parts}
         \union {[op |-> "add", v |-> ""]})
   : x.op \in OpNames }
SetOk(op) ==
  /\ (op.part \in {"protocol"} => s.u.pr # "postgresql")
  /\ (s.u.pr = "postgresql" => ~(op.part = "host" /\ op.v = "[::2]"))
Ok(op) == CASE op.op = "set" -> SetOk(op) [] op.op = "add" -> s.u.q \in Adds [] OTHER -> TRUE
Do(op) ==
  CASE op.op \in {"new", "href"} -> Is(op, To(Base(op.b).u))
    [] op.op = "based" -> IF op.o = "garbage" THEN Is(op, To(Base(op.b).u)) ELSE Is(op, To(Base(op.b).u))
    [] op.op \in {"bad", "badhref"} -> Refused(op)
    [] op.op = "ref" -> Is(op, To(Resolve(s.u, Ref(op.r))))
    [] op.op = "both" -> Is(op, To(Normal(s.u)))
    [] op.op \in {"copy", "reparse"} -> Is(op, To(s.u))
    [] op.op = "set" -> Is(op, To(Set(s.u, op.part, op.v)))
    [] op.op = "add" -> Is(op, To([s.u EXCEPT !.q = IF @ = "" THEN "k=v" ELSE @ \o "&k=v"]))
Next == \E op \in Ops : Ok(op) /\ Do(op)
Deep == \E n \in {RandomElement({o.op : o \in {x \in Ops : Ok(x)}})} : \E op \in {RandomElement({x \in Ops : Ok(x) /\ x.op = n})} : Do(op)
Within == s.n <= MaxSteps /\ Len(s.u.pa) <= MaxPath

(* A change of one part changes what is seen of no other. *)
OnlyThat == [][ act'.op.op = "set" =>
    LET p == act'.op.part u == s.u v == s'.u IN
      /\ (p # "protocol" => u.pr = v.pr) /\ (p \notin {"host", "hostname"} => u.ho = v.ho) /\ (p \notin {"host", "port", "protocol"} => u.po = v.po)
      /\ (p # "pathname" => u.pa = v.pa) /\ (p # "search" => u.q = v.q) /\ (p # "hash" => u.f = v.f) /\ (p # "username" => u.us = v.us) ]_vars
(* No path leads out of its root. *)
Rooted == s.u.pa # <<>> /\ \A i \in 1..Len(s.u.pa) : s.u.pa[i] \notin {".", ".."}
View == s
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))
=============================================================================
