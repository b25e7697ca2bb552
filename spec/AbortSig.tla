----------------------------- MODULE AbortSig -----------------------------
(* Abort signals: of a controller, aborted from the start, or with a time limit. A signal
   aborts at most once, with the first reason given; every listener it has at that moment
   is called once, in the order they were added, whatever the others do; a listener that
   is removed before its turn is not called.
   A listener has a number and does something when called: nothing, throw, abort again,
   remove another, add another.                                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Signals, Acts, MaxListeners, Delays, Deepest, OpNames
VARIABLES s, act
vars == <<s, act>>

None == "none"
Reasons == {"nothing", "text", "zero", "empty", "null", "false", "object"}
Told(r) == IF r = "nothing" THEN "AbortError" ELSE r

Fresh == [kind |-> "no", reason |-> None, on |-> <<>>, at |-> 0]
Init0 == [g |-> [x \in Signals |-> Fresh], n |-> 0, now |-> 0]

(* ---- abort: the listeners there are, one by one *)
Drop(q, i) == SelectSeq(q, LAMBDA l : l.i # i)
Has(q, i) == \E k \in 1..Len(q) : q[k].i = i
(* what l does to the list of listeners *)
Effect(q, l) ==
  CASE l.a = "drop next" -> Drop(q, l.i + 1)
    [] l.a = "drop last" -> Drop(q, l.i - 1)
    [] l.a = "drop self" -> Drop(q, l.i)
    [] l.a = "drop all" -> <<>>
    [] OTHER -> q                      \* one added now is never called
RECURSIVE Run(_, _)
Run(todo, q) ==
  IF todo = <<>> THEN [heard |-> <<>>, on |-> q]
  ELSE LET l == Head(todo)
       IN IF ~Has(q, l.i) THEN Run(Tail(todo), q)
          ELSE LET rest == Run(Tail(todo), Effect(q, l))
               IN [heard |-> <<l.i>> \o rest.heard, on |-> rest.on]

Abort(st, x, r) ==
  IF st.g[x].reason # None THEN [st |-> st, heard |-> <<>>]
  ELSE LET o == Run(st.g[x].on, st.g[x].on)
       IN [st |-> [st EXCEPT !.g[x].reason = Told(r), !.g[x].on = o.on], heard |-> o.heard]

RECURSIVE Fire(_, _)
Due(st) == { x \in Signals : st.g[x].kind = "timeout" /\ st.g[x].at <= st.now /\ st.g[x].reason = None }
Fire(st, heard) ==
  IF Due(st) = {} THEN [st |-> st, heard |-> heard]
  ELSE LET x == CHOOSE y \in Due(st) : TRUE
           o == Abort(st, x, "TimeoutError")
       IN Fire(o.st, [heard EXCEPT ![x] = o.heard])

Ops(st) ==
  { op \in
    { [op |-> "controller", x |-> x] : x \in Signals }
    \union { [op |-> "aborted", x |-> x, r |-> r] : x \in Signals, r \in Reasons }
    \union { [op |-> "timeout", x |-> x, d |-> d] : x \in Signals, d \in Delays }
    \union { [op |-> "listen", x |-> x, a |-> a] : x \in Signals, a \in Acts }
    \union UNION { { [op |-> "unlisten", x |-> x, i |-> st.g[x].on[k].i] : k \in 1..Len(st.g[x].on) } : x \in Signals }
    \union { [op |-> "other", x |-> x] : x \in Signals }        \* listens to another event
    \union { [op |-> "abort", x |-> x, r |-> r] : x \in Signals, r \in Reasons }
    \union { [op |-> "tick"] }
    : /\ op.op \in OpNames
      /\ op.op \in {"controller", "aborted", "timeout"} => st.g[op.x].kind = "no"
      /\ op.op \in {"listen", "unlisten", "other"} => st.g[op.x].kind # "no"
      /\ op.op = "listen" => Len(st.g[op.x].on) < MaxListeners
      /\ op.op = "abort" => st.g[op.x].kind = "controller"
      /\ op.op = "tick" => \E x \in Signals : st.g[x].kind = "timeout" /\ st.g[x].reason = None }

Quiet == [x \in Signals |-> <<>>]
Do(st, op) ==
  LET put(v) == [st |-> [st EXCEPT !.g[op.x] = v], heard |-> Quiet]
  IN
  CASE op.op = "controller" -> put([Fresh EXCEPT !.kind = "controller"])
    [] op.op = "aborted" -> put([Fresh EXCEPT !.kind = "aborted", !.reason = Told(op.r)])
    [] op.op = "timeout" -> put([Fresh EXCEPT !.kind = "timeout", !.at = st.now + op.d])
    [] op.op = "listen" -> [st |-> [st EXCEPT !.n = @ + 1, !.g[op.x].on = Append(@, [i |-> st.n + 1, a |-> op.a])], heard |-> Quiet]
    [] op.op = "unlisten" -> [st |-> [st EXCEPT !.g[op.x].on = Drop(@, op.i)], heard |-> Quiet]
    [] op.op = "other" -> [st |-> st, heard |-> Quiet]
    [] op.op = "abort" -> LET o == Abort(st, op.x, op.r) IN [st |-> o.st, heard |-> [Quiet EXCEPT ![op.x] = o.heard]]
    [] op.op = "tick" -> Fire([st EXCEPT !.now = @ + 1], Quiet)

See(g) == [aborted |-> g.reason # None, reason |-> g.reason]     \* throwIfAborted throws the same
Init == s = Init0 /\ act = [op |-> [op |-> "init"]]
Act(op) == LET o == Do(s, op) IN
  /\ s' = o.st
  /\ act' = [op |-> op, r |-> [heard |-> o.heard, g |-> [x \in Signals |-> See(o.st.g[x])], odd |-> <<>>]]
Next == \E op \in Ops(s) : Act(op)
Deep == \E op \in {RandomElement(Ops(s))} : Act(op)
DeepN == LET ops == Ops(s) IN
  \E n \in {RandomElement({ o.op : o \in ops })} : \E op \in {RandomElement({ o \in ops : o.op = n })} : Act(op)
View == s
Within == TLCGet("level") <= Deepest
Emit == PrintT(ToJson([s |-> s, a |-> act', t |-> s']))

FirstReason == [][ \A x \in Signals : s.g[x].reason # None => s'.g[x].reason = s.g[x].reason ]_vars
Once == [][ \A x \in Signals : act'.r.heard[x] # <<>> => s.g[x].reason = None /\ s'.g[x].reason # None ]_vars
InTurn == [][ \A x \in Signals : \A i, j \in 1..Len(act'.r.heard[x]) :
                i < j => act'.r.heard[x][i] < act'.r.heard[x][j] ]_vars
=============================================================================
