------------------------------ MODULE TtpHist ------------------------------
(* Exploration of every sequence of calls up to a depth, from a menu: all  *)
(* reachable sessions, and a history for each way to reach them by one     *)
(* more call.  Each history carries the answers the specification gives:   *)
(* of the calls, of result() after each, and of a fixed list of calls at   *)
(* the end.  The driver makes the same calls on the code.                  *)
EXTENDS TtpSession, Json, IOUtils

World == JsonDeserialize(IOEnv.TTP_WORLD)   \* defs, first, menu, suffix, depth

VARIABLES s,    \* the session
          h,    \* numbers of the menu items called
          ans   \* their answers
vars == <<s, h, ans>>
View == s

RECURSIVE RunOps(_, _, _, _)
RunOps(st, ops, k, acc) ==
  IF k > Len(ops) THEN [s |-> st, out |-> acc]
  ELSE LET r == DoOp(st, ops[k], World.defs, None) IN RunOps(r.s, ops, k + 1, Append(acc, r.out))
Show == [op |-> "result", obj |-> "p", structure |-> "list", templates |-> <<>>, out |-> <<>>, bag |-> FALSE]

Init == /\ s = RunOps(NewSession(""), World.first, 1, <<>>).s
        /\ h = <<>> /\ ans = <<>>
Call(k) ==
  LET r == RunOps(s, World.menu[k], 1, <<>>)
      e == RunOps(r.s, World.suffix, 1, <<>>)
      a == Append(ans, [out |-> r.out, res |-> RunOps(r.s, <<Show>>, 1, <<>>).out[1]])
  IN /\ s' = r.s /\ h' = Append(h, k) /\ ans' = a
     /\ PrintT("HIST " \o ToJson([h |-> h', ans |-> a, end |-> e.out]))
Next == Len(h) < World.depth /\ \E k \in 1..Len(World.menu) : Call(k)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* what holds of every session *)
Ts == s.ps["p"].templates
\* inputs of a template have different names, and no text twice
InputsDistinct ==
  \A t \in 1..Len(Ts) :
    LET ins == Ts[t].inputs IN
    /\ \A a, b \in 1..Len(ins) : a # b => ins[a].name # ins[b].name
    /\ \A a \in 1..Len(ins) : \A x, y \in 1..Len(ins[a].data) : x # y => ins[a].data[x] # ins[a].data[y]
\* a group that names inputs is run on no other, and each input of these is run by it
RoutingKept ==
  \A t \in 1..Len(Ts) : \A a \in 1..Len(Ts[t].inputs) :
    LET tops == TopsOf(Ts[t].groups) IN
    \A k \in 1..Len(tops) :
      Ts[t].groups[tops[k]].inputs # <<>> =>
        ((k \in Ts[t].inputs[a].idx) <=> InSeq(Ts[t].groups[tops[k]].inputs, Ts[t].inputs[a].name))
Item == World.menu[h'[Len(h')]]
Does(op) == \E j \in 1..Len(Item) : Item[j].op = op
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* results are forgotten by clear_result and new objects only, and added to by parse only
KeptStep ==
  (h' # h /\ ~Does("clear_result") /\ ~Does("new")) =>
    \A t \in 1..Len(Ts) :
      LET a == Ts[t].results  b == Ts'[t].results IN
      IF ~Does("parse") THEN a = b
      ELSE (Ts[t].method = "per_input" /\ IsL(a) /\ Ts[t].outs = <<>>) => (IsL(b) /\ IsPrefix(a.l, b.l))
Kept == [][KeptStep]_vars
\* templates are never lost nor reordered
OrderStep == (h' # h /\ ~Does("new")) => (Len(Ts) <= Len(Ts') /\ \A t \in 1..Len(Ts) : Ts[t].name = Ts'[t].name)
Order == [][OrderStep]_vars
\* a call that names a template leaves the others alone
OthersStep ==
  (h' # h) =>
    \A j \in 1..Len(Item) :
      (Len(Item) = 1 /\ Item[j].op \in {"add_input", "set_input", "clear_input"} /\ Item[j].template # "_all_") =>
        \A t \in 1..Len(Ts) : Ts[t].name # Item[j].template => Ts[t] = Ts'[t]
Others == [][OthersStep]_vars
=============================================================================
