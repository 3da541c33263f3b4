------------------------------ MODULE TtpAsm ------------------------------
(* Assembly of match events into records, and of records into the result   *)
(* tree.  State a:                                                          *)
(*   tree     the results so far                                            *)
(*   rec      the open record [d, g, raw, items, defs, fns, mwl]; g = 0     *)
(*            before the first one; mwl: it continues a record already saved*)
(*   started  stack of ids of the opened groups                             *)
(*   ended    ids of closed groups                                          *)
(*   dropped  ids of groups whose current record was discarded by functions   *)
(*   cache    values used by dynamic paths                                  *)
(*   cx       function context; toint the integer-key option                *)
(*   plain    <<>>, or <<results>> of the groups without outputs of their   *)
(*            own, while the others are assembled                           *)
EXTENDS TtpScan, TtpGroupFn

NoRec == [d |-> EmptyFn, g |-> 0, id |-> NoId, raw |-> <<>>, items |-> <<>>,
          defs |-> EmptyFn, fns |-> <<>>, mwl |-> FALSE]
AsmInit(tree, cx, toint, plain) ==
  [tree |-> tree, plain |-> plain, rec |-> NoRec, started |-> <<>>, ended |-> {}, dropped |-> {}, cache |-> EmptyFn,
   cx |-> cx, toint |-> toint]


-----------------------------------------------------------------------------
(* completing the open record *)
RECURSIVE RunGFns(_, _, _, _)
RunGFns(fns, k, g, a) ==
  IF k > Len(fns) THEN [g |-> g, a |-> a]
  ELSE LET g2 == GFn(fns[k], [g EXCEPT !.save = <<>>, !.tree = IF a.plain = <<>> THEN a.tree ELSE a.plain[1]])
           sv == g2.save
           fp == IF sv = <<>> THEN [ok |-> FALSE, path |-> <<>>, d |-> EmptyFn, cache |-> EmptyFn]
                 ELSE FormPath(sv[1].items, 1, <<>>, g2.r.d, g2.cache, g2.cx.vars)
           a2 == IF sv = <<>> \/ ~fp.ok THEN a
                 ELSE [a EXCEPT !.tree = SaveAt(@, fp.path, sv[1].v, a.rec.mwl, Last(fp.path), a.toint)]
           \* variables of the path are taken out of the record
           g3 == IF sv = <<>> THEN g2 ELSE [g2 EXCEPT !.r = D(fp.d), !.cache = fp.cache]
       IN IF ~g3.ok THEN [g |-> g3, a |-> a2] ELSE RunGFns(fns, k + 1, g3, a2)

Flush(a) ==
  IF a.rec.g = 0 THEN a
  ELSE
  LET d0 == Update(a.rec.defs, a.rec.d)                 \* own values win over defaults
      p1 == FormPath(a.rec.items, 1, <<>>, d0, a.cache, a.cx.vars)
      cont == a.rec.mwl
      d1 == IF cont THEN p1.d ELSE d0
      tree1 == IF cont /\ p1.ok THEN Touch(a.tree, p1.path, a.toint) ELSE a.tree
      r1 == IF cont /\ p1.ok
            THEN LET e == LastElem(ElemAt(a.tree, p1.path, a.toint))
                 IN IF IsD(e) THEN D(Update(e.d, d1)) ELSE D(d1)
            ELSE D(d1)
      a1 == [a EXCEPT !.tree = tree1, !.cache = IF cont THEN p1.cache ELSE @]
      out == RunGFns(a.rec.fns, 1, [ok |-> TRUE, r |-> r1, cx |-> a1.cx, items |-> a.rec.items,
                                    cache |-> a1.cache, defs |-> a.rec.defs, save |-> <<>>, tree |-> EmptyD], a1)
      g == out.g
      a2 == [out.a EXCEPT !.cx = g.cx, !.cache = g.cache]
      p2 == FormPath(g.items, 1, <<>>, IF IsD(g.r) THEN g.r.d ELSE EmptyFn, g.cache, g.cx.vars)
  IN IF ~g.ok THEN IF cont THEN a2 ELSE [a2 EXCEPT !.dropped = @ \cup {a.rec.id}]
     ELSE IF ~p2.ok THEN [a2 EXCEPT !.cache = p2.cache]
     ELSE [a2 EXCEPT !.cache = p2.cache,
                     !.tree = SaveAt(@, p2.path, IF IsD(g.r) THEN D(p2.d) ELSE g.r,
                                     a.rec.mwl, Last(p2.path), a.toint)]

-----------------------------------------------------------------------------
(* one step per match event *)
RECURSIVE Trace(_, _, _, _)
\* the stack after group id (of parent pid) opens: back to its parent
Trace(st, id, pid, isline) ==
  IF st = <<>> THEN <<id>>
  ELSE IF Last(st) = pid \/ isline THEN Append(st, id)
  ELSE Trace(SubSeq(st, 1, Len(st) - 1), id, pid, isline)

Open(T, a, ev, d, mwl) ==
  LET a1 == [a EXCEPT !.started = Trace(@, T[ev.g].id, ParentId(T, ev.g), ev.isline)]
      a2 == Flush(a1)
  IN [a2 EXCEPT !.dropped = @ \ {T[ev.g].id},
                !.rec = [d |-> d, g |-> ev.g, id |-> T[ev.g].id, raw |-> T[ev.g].raw,
                         items |-> T[ev.g].path, defs |-> IF mwl THEN EmptyFn ELSE a.runs[ev.g],
                         fns |-> T[ev.g].fns, mwl |-> mwl]]

DoStart(T, a, ev) == Open(T, a, ev, IF ev.act = "startempty" THEN EmptyFn ELSE ev.d, FALSE)
SameRec(T, a, ev) == a.rec.raw = T[ev.g].raw
IsOpen(T, a, ev) == InSeq(a.started, T[ev.g].id)
\* its record is saved, so that lines after its child groups can be added to it
IsKept(T, a, ev) == IsOpen(T, a, ev) /\ T[ev.g].id \notin a.dropped
\* a further line of the open record: the first value of a variable is kept
DoAdd(T, a, ev) ==
  IF SameRec(T, a, ev) THEN [a EXCEPT !.rec = [@ EXCEPT !.d = Update(ev.d, @)]]
  ELSE IF IsKept(T, a, ev) THEN Open(T, a, ev, ev.d, TRUE)
  ELSE a
JoinVal(old, new, sep) ==
  IF IsS(old) /\ IsS(new) THEN S(old.s \o sep \o new.s)
  ELSE IF IsL(old) THEN L(IF IsL(new) THEN old.l \o new.l ELSE Append(old.l, new))
  ELSE L(<<old, new>>)
JoinChar(T, ev) ==
  LET cl == T[ev.g].lines[ev.l]
      js == SelectSeq(cl.es, LAMBDA e : e.n # "" /\ Has(cl.joinc, e.n) /\ cl.joinc[e.n] # "")
  IN IF js = <<>> THEN "\n" ELSE cl.joinc[Last(js).n]
DoJoin(T, a, ev) ==
  IF SameRec(T, a, ev)
  THEN [a EXCEPT !.rec = [@ EXCEPT !.d =
         [k \in DOMAIN @ \cup DOMAIN ev.d |->
            IF k \notin DOMAIN ev.d THEN @[k]
            ELSE IF k \notin DOMAIN @ THEN ev.d[k]
            ELSE JoinVal(@[k], ev.d[k], JoinChar(T, ev))]]]
  ELSE IF IsKept(T, a, ev) THEN Open(T, a, ev, ev.d, TRUE)
  ELSE a
DoEnd(T, a, ev) ==
  IF ~SameRec(T, a, ev) /\ a.started # <<>> /\ Last(a.started) = T[ev.g].id THEN a
  ELSE [a EXCEPT !.ended = @ \cup {T[ev.g].id}]

\* a closed group, or one below a closed group, takes no line until it opens again
ParentClosed(T, a, ev) == \E p \in Ancestors(T, ev.g) : T[p].id \in a.ended
Closed(T, a, ev) == T[ev.g].id \in a.ended
StepKind(T, a, ev) ==
  IF ~ev.ok THEN "Filtered"
  ELSE IF ParentClosed(T, a, ev) THEN "BelowClosed"
  ELSE IF Closed(T, a, ev) /\ ~IsStartAct(ev.act) THEN "IsClosed"
  ELSE IF IsStartAct(ev.act) THEN "Start"
  ELSE IF ev.act = "end" THEN "End"
  ELSE IF ev.act = "join" THEN "Join" ELSE "Add"
StepEv(T, a, ev) ==
  LET k == StepKind(T, a, ev) IN
  CASE k = "Filtered" -> [a EXCEPT !.ended = @ \cup {T[ev.g].id}]
    [] k = "BelowClosed" -> a
    [] k = "IsClosed" -> a
    [] k = "Start" -> DoStart(T, [a EXCEPT !.ended = @ \ {T[ev.g].id}], ev)
    [] k = "End" -> DoEnd(T, a, ev)
    [] k = "Join" -> DoJoin(T, a, ev)
    [] k = "Add" -> DoAdd(T, a, ev)

-----------------------------------------------------------------------------
(* one data line matched by several template lines *)
RECURSIVE FirstIdx(_, _, _)
FirstIdx(q, k, P) == IF k > Len(q) THEN 0 ELSE IF q[k] \in P THEN k ELSE FirstIdx(q, k + 1, P)
Pick(q, P, dflt) == LET k == FirstIdx(q, 1, P) IN IF k = 0 THEN dflt ELSE q[k]
Select(T, a, cands) ==
  IF Len(cands) = 1 THEN cands[1]
  ELSE
  LET ix == [k \in 1..Len(cands) |-> k]
      lines == SelectSeq(ix, LAMBDA k : cands[k].isline)
      starts == SelectSeq(ix, LAMBDA k : ~cands[k].isline /\ cands[k].act = "start")
      empties == SelectSeq(ix, LAMBDA k : ~cands[k].isline /\ cands[k].act = "startempty")
      norms == SelectSeq(ix, LAMBDA k : ~cands[k].isline /\ ~IsStartAct(cands[k].act))
      Mine(k) == T[cands[k].g].id = a.rec.id
      All == 1..Len(cands)
      OpenPick(q) ==
        LET same == {k \in All : cands[k].ok /\ Mine(k)}
            near == {k \in All : cands[k].ok /\
                       ((a.rec.id # NoId /\ StartsWith(T[cands[k].g].id[1], a.rec.id[1]))
                        \/ InSeq(a.started, ParentId(T, cands[k].g)))}
        IN Pick(q, same, Pick(q, near, Last(q)))
      NormPick(q) == Pick(q, {k \in All : Mine(k)},
                          Pick(q, {k \in All : InSeq(a.started, T[cands[k].g].id)}, Last(q)))
      LinePick(q) == Pick(q, {k \in All : Mine(k)}, Last(q))
  IN cands[IF empties # <<>> THEN OpenPick(empties)
           ELSE IF starts # <<>> THEN OpenPick(starts)
           ELSE IF norms # <<>> THEN NormPick(norms) ELSE LinePick(lines)]

\* defaults naming a variable take its value once scanning is done
Resolve(v, f) == IF IsS(v) /\ Has(f, v.s) THEN f[v.s] ELSE v
RunsOf(T, cx) == [g \in 1..Len(T) |->
                    [k \in DOMAIN T[g].defs |-> Resolve(Resolve(T[g].defs[k], cx.gvars), cx.vars)]]
============================================================================
