----------------------------- MODULE TtpSmall -----------------------------
(* Every text up to a length over a small alphabet of lines, for each of a *)
(* catalogue of templates.  Texts grow by one line at a time; each is      *)
(* parsed by the specification of the parser (TtpSession), and the result  *)
(* printed for the driver to compare the code with.  Where the template is *)
(* plain, the result is compared here with what the properties say of it   *)
(* directly (Declared): a definition of records by the positions of lines, *)
(* without scanning, stacks or partial results.                            *)
EXTENDS TtpSession, Json, IOUtils

Worlds == JsonDeserialize(IOEnv.TTP_WORLD)   \* each: defs, first, prefix, alphabet, depth, plain

VARIABLES w,    \* the template
          s,    \* the session after loading it
          q,    \* lines of the text, as numbers
          ans   \* its result
vars == <<w, s, q, ans>>
View == <<w, q>>

RECURSIVE RunOps(_, _, _, _)
RunOps(st, ops, k, acc) ==
  IF k > Len(ops) THEN [s |-> st, out |-> acc]
  ELSE LET r == DoOp(st, ops[k], Worlds[w].defs, None) IN RunOps(r.s, ops, k + 1, Append(acc, r.out))
TextOf(p) == JoinSeq(Worlds[w].prefix \o [k \in 1..Len(p) |-> Worlds[w].alphabet[p[k]]], "\n")
Calls(p) == <<[op |-> "add_input", obj |-> "p", name |-> "Default_Input", template |-> "_root_template_", groups |-> <<"all">>, data |-> S(TextOf(p))],
              [op |-> "parse", obj |-> "p", multi |-> FALSE],
              [op |-> "result", obj |-> "p", structure |-> "list", templates |-> <<>>, out |-> <<>>, bag |-> FALSE]>>
Init == /\ w \in 1..Len(Worlds)
        /\ s = RunOps(NewSession(""), Worlds[w].first, 1, <<>>).s
        /\ q = <<>> /\ ans = None
Grow(k) == /\ q' = Append(q, k) /\ UNCHANGED <<w, s>>
           /\ ans' = RunOps(s, Calls(q'), 1, <<>>).out[3]
           /\ PrintT("TEXT " \o ToJson([w |-> w, q |-> q', a |-> ans']))
Next == Len(q) < Worlds[w].depth /\ \E k \in 1..Len(Worlds[w].alphabet) : Grow(k)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* what the properties say of plain templates: groups of distinct list     *)
(* paths, each data line described by one template line at most            *)
T == s.ps["p"].templates[1].T
Line(n) == Worlds[w].alphabet[q[n]]
\* the template line that describes data line n: <<group, line>>, or <<>>
Seen(n) == LET m == {x \in {<<g, l>> : g \in 1..Len(T), l \in 1..Worlds[w].maxl} :
                       x[2] <= Len(T[x[1]].lines) /\ MatchLine(T[x[1]].lines[x[2]].es, Line(n)).ok}
           IN IF m = {} THEN <<>> ELSE CHOOSE x \in m : TRUE
RECURSIVE Up(_)
Up(g) == {g} \cup (IF T[g].parent = 0 THEN {} ELSE Up(T[g].parent))
TopG(g) == CHOOSE t \in Up(g) : T[t].parent = 0
ActAt(n) == T[Seen(n)[1]].lines[Seen(n)[2]].act
StartOf(g, n) == Seen(n) # <<>> /\ Seen(n)[1] = g /\ IsStartAct(ActAt(n))
EndOf(g, n) == Seen(n) # <<>> /\ Seen(n)[1] = g /\ IsEndAct(ActAt(n))
\* the last line before n for which P holds
LastWith(P(_), n) == LET m == {k \in 1..(n - 1) : P(k)} IN IF m = {} THEN 0 ELSE CHOOSE k \in m : \A j \in m : j <= k
RECURSIVE Lives(_, _), RecAt(_, _)
\* line n begins a record of g: its parent has one that is not closed
Lives(g, n) == StartOf(g, n) /\ (T[g].parent = 0 \/ RecAt(T[g].parent, n) # 0)
\* the record of g (the number of its first line) open before line n, 0 if none
RecAt(g, n) ==
  LET P(k) == Lives(g, k)
      m == LastWith(P, n)
  IN IF m = 0 \/ (\E k \in (m + 1)..(n - 1) : EndOf(g, k)) THEN 0
     ELSE IF T[g].parent # 0 /\ RecAt(T[g].parent, n) # RecAt(T[g].parent, m) THEN 0 ELSE m
\* a further line belongs to the open record, unless a group that is not below
\* it has taken a line in between
RECURSIVE Holds(_, _, _)
Taken(n) == Seen(n) # <<>> /\ LET g == Seen(n)[1] IN Lives(g, n) \/ (RecAt(g, n) # 0 /\ Holds(RecAt(g, n), g, n))
Holds(m, g, n) ==
  /\ Seen(n) # <<>> /\ Seen(n)[1] = g /\ ~IsStartAct(ActAt(n)) /\ ~IsEndAct(ActAt(n))
  /\ RecAt(g, n) = m
  /\ \A k \in (m + 1)..(n - 1) :
       (Seen(k) # <<>> /\ TopG(Seen(k)[1]) = TopG(g) /\ g \notin Up(Seen(k)[1])) => ~Taken(k)
ValuesAt(n) == LET m == MatchLine(T[Seen(n)[1]].lines[Seen(n)[2]].es, Line(n))
               IN [x \in {m.caps[k].n : k \in 1..Len(m.caps)} |-> S(m.caps[CHOOSE k \in 1..Len(m.caps) : m.caps[k].n = x].v)]
\* the values of the lines numbered in set P, from n on, of a record of g: the
\* first of each name, and again the first after each record below it
RECURSIVE First(_, _, _, _, _)
First(g, P, n, old, acc) ==
  IF n > Len(q) THEN Update(old, acc)
  ELSE IF n \in P THEN First(g, P, n + 1, old, Update(ValuesAt(n), acc))
  ELSE IF P # {} /\ Seen(n) # <<>> /\ Lives(Seen(n)[1], n) /\ g \in Up(Seen(n)[1]) /\ n > CHOOSE x \in P : \A y \in P : x <= y
       THEN First(g, P, n + 1, Update(old, acc), EmptyFn)
  ELSE First(g, P, n + 1, old, acc)
RECURSIVE RecTree(_, _), ListOf(_, _, _)
KidsOf(g) == {k \in 1..Len(T) : T[k].parent = g}
LeafOf(g) == T[g].raw[Len(T[g].raw)]
NmOf(g) == SubSeq(LeafOf(g), 1, Len(LeafOf(g)) - 1)      \* without the asterisk
RecTree(g, m) ==
  LET own == Update(T[g].defs, First(g, {m} \cup {n \in (m + 1)..Len(q) : Holds(m, g, n)}, 1, EmptyFn, EmptyFn))
      ks == {k \in KidsOf(g) : \E n \in 1..Len(q) : Lives(k, n) /\ RecAt(g, n) = m}
  IN D(Update(own, [x \in {NmOf(k) : k \in ks} |->
                      ListOf(CHOOSE k \in ks : NmOf(k) = x, 1, m)]))
\* the records of group g below record m of its parent, from line n on
RECURSIVE Recs(_, _, _)
Recs(g, n, m) == IF n > Len(q) THEN <<>>
                 ELSE (IF Lives(g, n) /\ (m = 0 \/ RecAt(T[g].parent, n) = m) THEN <<RecTree(g, n)>> ELSE <<>>)
                      \o Recs(g, n + 1, m)
ListOf(g, n, m) == L(Recs(g, n, m))
Declared ==
  LET ts == {g \in 1..Len(T) : T[g].parent = 0 /\ \E n \in 1..Len(q) : Lives(g, n)}
  IN L(<<L(<<D([x \in {NmOf(g) : g \in ts} |-> ListOf(CHOOSE g \in ts : NmOf(g) = x, 1, 0)])>>)>>)
Shown == [text |-> TextOf(q), w |-> w, ans |-> ToJson(ans), declared |-> IF Worlds[w].plain THEN ToJson(Declared) ELSE ""]
\* not covered: a record whose parent began earlier, but not below the present record of its own parent
Orphan(n) == /\ Seen(n) # <<>> /\ StartOf(Seen(n)[1], n) /\ ~Lives(Seen(n)[1], n)
             /\ \E k \in 1..(n - 1) : Lives(T[Seen(n)[1]].parent, k)
             /\ ~\E k \in 1..(n - 1) : EndOf(T[Seen(n)[1]].parent, k)
AsDeclared == (Worlds[w].plain /\ ~(\E n \in 1..Len(q) : Orphan(n)) /\ q # <<>>) => ans = Declared
=============================================================================
