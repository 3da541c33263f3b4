------------------------------ MODULE TtpEngine ------------------------------
(* Parsing one datum: its text is prepared and scanned; the matches of the *)
(* groups without outputs of their own are assembled together, then those  *)
(* of each group with outputs apart, whose result goes through its outputs *)
(* State en of a datum in progress:                                        *)
(*   phases  what is still to assemble: [evs, outs] each                   *)
(*   n, k    phase and event to be taken next;  a  the assembly            *)
(*   tree    results of the first phase;  xs  results of the others        *)
(*   files   what file returners wrote;  err  a function raised an error   *)
EXTENDS TtpText, TtpAsm, TtpOut

\* variables tags with a name are saved first, ahead of the matches
RECURSIVE SaveVars(_, _, _)
SaveVars(vt, k, a) ==
  IF k > Len(vt) THEN a
  ELSE LET d == [n \in {vt[k].names[j] : j \in 1..Len(vt[k].names)} \cap DOMAIN a.cx.vars |-> a.cx.vars[n]]
           p == FormPath(vt[k].items, 1, <<>>, d, a.cache, a.cx.vars)
       IN SaveVars(vt, k + 1,
            IF p.ok THEN [a EXCEPT !.tree = SaveAt(@, p.path, D(p.d), FALSE, Last(p.path), a.toint), !.cache = p.cache]
            ELSE a)
AsmOf(T, evs, cx, tree, toint, vt, plain) ==
  LET a0 == AsmInit(tree, cx, toint, plain)
      a1 == IF evs = <<>> THEN a0 ELSE SaveVars(vt, 1, a0)
  IN [runs |-> RunsOf(T, cx)] @@ a1

RECURSIVE PlainEvs(_, _, _)
PlainEvs(T, evs, k) == IF k > Len(evs) THEN <<>>
                       ELSE (IF T[evs[k].g].outs = <<>> THEN evs[k].q ELSE <<>>) \o PlainEvs(T, evs, k + 1)
PhasesOf(T, evs) ==
  LET apart == SelectSeq(evs, LAMBDA e : T[e.g].outs # <<>> /\ e.q # <<>>)
  IN <<[evs |-> PlainEvs(T, evs, 1), outs |-> <<>>]>>
     \o [k \in 1..Len(apart) |-> [evs |-> apart[k].q, outs |-> T[apart[k].g].outs]]

\* t: the template [T, vt, ...]; st: [cx, tree, xs, toint, files] to start from
Begin(t, tops, lines, st) ==
  LET sc == Scan(t.T, tops, lines, st.cx)
      ph == IF sc.cx.err THEN <<[evs |-> <<>>, outs |-> <<>>]>> ELSE PhasesOf(t.T, sc.evs)
  IN [phases |-> ph, n |-> 1, k |-> 1, tree |-> st.tree, xs |-> st.xs, files |-> st.files, err |-> sc.cx.err,
      a |-> AsmOf(t.T, ph[1].evs, sc.cx, st.tree, st.toint, t.vt, <<>>)]
MorePhases(en) == en.n < Len(en.phases)
RECURSIVE OutsNamed(_, _, _)
OutsNamed(gouts, names, k) ==
  IF k > Len(names) THEN <<>>
  ELSE SelectSeq(gouts, LAMBDA o : o.name = names[k]) \o OutsNamed(gouts, names, k + 1)
\* all events of the phase taken: its record is completed, its outputs run
EndPhase(t, en) ==
  LET a == Flush(en.a)
      first == en.n = 1
      o == OutAll(OutsNamed(t.gouts, en.phases[en.n].outs, 1), 1, a.tree,
                  [vars |-> t.vars, fvars |-> Update(a.cx.gvars, a.cx.vars), macros |-> t.macros, cust |-> a.cx.cust, before |-> EmptyFn, tres |-> EmptyFn],
                  en.files)
      e1 == IF first THEN [en EXCEPT !.a = a, !.tree = a.tree]
            ELSE [en EXCEPT !.a = a, !.xs = Append(@, o.r), !.files = o.files]
  IN IF ~MorePhases(en) THEN e1
     ELSE [e1 EXCEPT !.n = @ + 1, !.k = 1,
             !.a = AsmOf(t.T, en.phases[en.n + 1].evs, a.cx, EmptyD, a.toint, t.vt, <<e1.tree>>)]

\* what one input contributes to the results: records of nameless top groups
\* form the list, everything else is one dictionary after them; results of
\* groups with outputs follow what the others gave
FormDatum(t, xs) ==
  IF xs # <<>> THEN L((IF t = EmptyD THEN <<>> ELSE <<t>>) \o xs)
  ELSE IF IsD(t) /\ Has(t.d, "_anonymous_")
  THEN LET rest == Drop(t.d, "_anonymous_") IN
       IF DOMAIN rest = {} THEN t.d["_anonymous_"] ELSE L(Append(t.d["_anonymous_"].l, D(rest)))
  ELSE t

\* the same in one go
RECURSIVE StepPhase(_, _)
StepPhase(t, en) ==
  LET evs == en.phases[en.n].evs IN
  IF en.k > Len(evs) THEN en
  ELSE StepPhase(t, [en EXCEPT !.k = @ + 1, !.a = StepEv(t.T, @, Select(t.T, @, evs[en.k]))])
RECURSIVE RunPhases(_, _)
RunPhases(t, en) == LET e == EndPhase(t, StepPhase(t, en)) IN IF MorePhases(en) THEN RunPhases(t, e) ELSE e
============================================================================
