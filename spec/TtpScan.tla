------------------------------ MODULE TtpScan ------------------------------
(* From a template and one input text to the ordered match events.         *)
(* Groups are a flat sequence in document order: [parent, abs, anon,       *)
(* items, idx, method, dflt, lines, fns, outs]; parent = 0 for a top       *)
(* group; outs are the names of outputs of its own; a path item is [raw,   *)
(* parts, star].                                                           *)
EXTENDS TtpFn

-----------------------------------------------------------------------------
(* static structure of a template *)
RECURSIVE RawJoin(_, _)
RawJoin(items, k) == IF k > Len(items) THEN ""
                     ELSE (IF k = 1 THEN "" ELSE ".") \o items[k].raw \o RawJoin(items, k + 1)
AnonItem == [raw |-> "_anonymous_*", parts |-> <<[k |-> "lit", v |-> "_anonymous_"]>>, star |-> 1]

\* path of group g given its parent's path: relative names extend it,
\* absolute names replace it, nameless groups share it
PathOf(g, ppath) ==
  IF g.anon THEN (IF g.parent = 0 THEN <<AnonItem>> ELSE ppath)
  ELSE IF g.abs THEN (IF g.items = <<>> THEN <<AnonItem>> ELSE g.items)
  ELSE ppath \o g.items
IdOf(g, path) == <<RawJoin(path, 1) \o (IF g.anon THEN "._anonymous_" ELSE ""), g.idx>>
NoId == <<"", -1>>

HdrRe == Alt(<<Sq(<<Plus("S"), Rep(Cls("ws"), 1, 0, FALSE)>>), Plus("S")>>)
RECURSIVE HdrSplit(_, _)
HdrSplit(s, i) == IF i > Len(s) THEN <<>>
                  ELSE LET q == Ends(HdrRe, s, i)
                       IN IF q = <<>> THEN HdrSplit(s, i + 1)
                          ELSE <<SubSeq(s, i, q[1] - 1)>> \o HdrSplit(s, q[1])
AnyRep(lo, hi) == Rep(Cls("any"), lo, hi, FALSE)
HdrElems(tk) ==
  LET txt == RStrip(tk.v)
      hs == HdrSplit(txt, 1)
      n == Len(hs)
      cols == IF tk.cols = 0 THEN (IF n < 3 THEN 1 ELSE n - 2) ELSE Min2(IF tk.cols < 1 THEN 1 ELSE tk.cols, n)
      W(k) == Len(hs[k]) + (IF k = 1 THEN Len(ReplaceAll(Upto(txt, IndentLen(txt, 1)), "\t", "    ")) ELSE 0)
      E(k) == IF k = n THEN (IF cols >= n THEN AnyRep(1, 0) ELSE AnyRep(0, 0))
              ELSE IF k < cols THEN AnyRep(W(k), W(k))
              ELSE IF k = cols THEN AnyRep(1, W(k)) ELSE AnyRep(0, W(k))
  IN [k \in 1..n |-> [e |-> E(k), n |-> Strip(hs[k])]]
HdrFns(name) == <<[f |-> "strip", a |-> <<>>, kw |-> EmptyFn],
                  [f |-> "exclude", a |-> <<S(name)>>, kw |-> EmptyFn]>>

IsHdr(ln) == ln.toks # <<>> /\ ln.toks[1].t = "hdr"
\* a compiled line: its elements, action, and functions per variable
CompLine(ln) ==
  IF IsHdr(ln)
  THEN LET es == HdrElems(ln.toks[1]) IN
       [es |-> es, act |-> "start", isline |-> FALSE, tail |-> ln.tail,
        names |-> {es[k].n : k \in 1..Len(es)}, pure |-> "",
        fns |-> [n \in {es[k].n : k \in 1..Len(es)} |-> HdrFns(n)], joinc |-> EmptyFn]
  ELSE LET vt == VarToks(ln)
           vars == {k \in 1..Len(vt) : vt[k].t = "var"}
           sets == {k \in 1..Len(vt) : vt[k].t = "set"}
           FnsOf(n) == vt[CHOOSE k \in vars : vt[k].n = n].fns
       IN [es |-> Compile(ln), act |-> LineAction(ln), isline |-> LineIsLine(ln), tail |-> ln.tail,
           names |-> {vt[k].n : k \in vars} \cup {vt[k].n : k \in sets},
           \* a line without capturing variables: the set variable it carries
           pure |-> IF vars = {} /\ sets # {} THEN vt[CHOOSE k \in sets : TRUE].n ELSE "",
           fns |-> [n \in {vt[k].n : k \in vars} \cup {vt[k].n : k \in sets} |->
                      IF \E k \in vars : vt[k].n = n THEN FnsOf(n)
                      ELSE <<[f |-> "set", kw |-> EmptyFn,
                              a |-> <<vt[CHOOSE k \in sets : vt[k].n = n].v, S(SetText(ln))>>]>>],
           joinc |-> [n \in {vt[k].n : k \in vars} |->
                        LET js == SelectSeq(FnsOf(n), LAMBDA c : c.f = "joinmatches")
                        IN IF js = <<>> THEN "" ELSE IF js[1].a = <<>> THEN "\n" ELSE js[1].a[1].s]]

\* default values of a group's variables
RECURSIVE TokDefaults(_, _, _, _)
TokDefaults(toks, k, dflt, acc) ==
  IF k > Len(toks) THEN acc
  ELSE LET tk == toks[k] IN
    IF tk.t = "var"
    THEN LET a1 == IF ~IsNone(dflt) /\ IsS(dflt) /\ ~Has(acc, tk.n) /\ tk.n # "_line_" THEN Put(acc, tk.n, dflt) ELSE acc
             a2 == IF "dflt" \in DOMAIN tk THEN Put(a1, tk.n, tk.dflt) ELSE a1
         IN TokDefaults(toks, k + 1, dflt, a2)
    ELSE IF tk.t = "set"
    THEN LET a1 == IF ~IsNone(dflt) /\ IsS(dflt) /\ ~Has(acc, tk.n) THEN Put(acc, tk.n, dflt) ELSE acc
         IN TokDefaults(toks, k + 1, dflt, IF Len(toks) = 1 THEN Put(a1, tk.n, tk.v) ELSE a1)
    ELSE TokDefaults(toks, k + 1, dflt, acc)
RECURSIVE LineDefaults(_, _, _, _)
LineDefaults(lines, k, dflt, acc) ==
  IF k > Len(lines) THEN acc
  ELSE LineDefaults(lines, k + 1, dflt, TokDefaults(lines[k].toks, 1, dflt, acc))
GroupDefaults(g) ==
  LET a == LineDefaults(g.lines, 1, g.dflt, EmptyFn)
  IN IF IsD(g.dflt) THEN Update(a, g.dflt.d) ELSE a

IsEndAct(a) == a = "end"
IsStartAct(a) == a \in {"start", "startempty"}

RECURSIVE CompLines(_, _)
CompLines(lines, k) ==
  IF k > Len(lines) THEN <<>>
  ELSE (IF IsUncondSet(lines[k]) THEN <<>> ELSE <<CompLine(lines[k])>>) \o CompLines(lines, k + 1)

\* roles of the lines of a group: closing lines; opening lines (the first
\* one, every one in a table group, or marked _start_); the others
Forced(g, cl, k) ==
  IF ~cl[k].tail /\ (k = 1 \/ g.method = "table") /\ ~IsStartAct(cl[k].act) /\ ~IsEndAct(cl[k].act)
  THEN [cl[k] EXCEPT !.act = "start"] ELSE cl[k]
CompGroup(g, path) ==
  LET cl0 == CompLines(g.lines, 1)
      cl == [k \in 1..Len(cl0) |-> Forced(g, cl0, k)]
      idxs == [k \in 1..Len(cl) |-> k]
      starts == SelectSeq(idxs, LAMBDA k : ~IsEndAct(cl[k].act) /\ ~cl[k].tail /\ IsStartAct(cl[k].act))
      defs == GroupDefaults(g)
  IN [parent |-> g.parent, path |-> path, raw |-> [k \in 1..Len(path) |-> path[k].raw],
      id |-> IdOf(g, path), lines |-> cl,
      ends |-> SelectSeq(idxs, LAMBDA k : IsEndAct(cl[k].act)),
      starts |-> starts,
      norms |-> SelectSeq(idxs, LAMBDA k : ~IsEndAct(cl[k].act) /\ (cl[k].tail \/ ~IsStartAct(cl[k].act))),
      defs |-> defs, fns |-> g.fns, outs |-> g.outs,
      hasdef |-> (IsD(g.dflt) /\ starts = <<>>)
                 \/ \E j \in 1..Len(starts) : cl[starts[j]].names \cap DOMAIN defs # {}]
RECURSIVE CompGroups(_, _, _)
CompGroups(gs, k, acc) ==
  IF k > Len(gs) THEN acc
  ELSE LET g == gs[k]
           pp == IF g.parent = 0 THEN <<>> ELSE acc[g.parent].path
       IN CompGroups(gs, k + 1, Append(acc, CompGroup(g, PathOf(g, pp))))
CompTemplate(gs) == CompGroups(gs, 1, <<>>)
Kids(T, g) == SelectSeq([k \in 1..Len(T) |-> k], LAMBDA k : T[k].parent = g)
ParentId(T, g) == IF T[g].parent = 0 THEN NoId ELSE T[T[g].parent].id
RECURSIVE Ancestors(_, _)
Ancestors(T, g) == IF T[g].parent = 0 THEN {} ELSE {T[g].parent} \cup Ancestors(T, T[g].parent)

-----------------------------------------------------------------------------
(* scanning: st = [res |-> [position -> events], cx |-> function context]  *)
RECURSIVE CapFold(_, _, _, _, _)
CapFold(cl, caps, k, acc, cx) ==
  IF k > Len(caps) THEN [ok |-> TRUE, d |-> acc, cx |-> cx]
  ELSE LET r == Chain(S(caps[k].v), cl.fns[caps[k].n], 1, EmptyFn, cx) IN
       IF ~r.ok THEN [ok |-> FALSE, d |-> EmptyFn, cx |-> r.cx]
       ELSE CapFold(cl, caps, k + 1, Update(Put(acc, caps[k].n, r.v), r.nf), r.cx)
LineResult(cl, caps, line, cx) ==
  IF caps # <<>> THEN CapFold(cl, caps, 1, EmptyFn, cx)
  ELSE IF cl.pure # "" THEN CapFold(cl, <<[n |-> cl.pure, v |-> "\n" \o line]>>, 1, EmptyFn, cx)
  ELSE [ok |-> TRUE, d |-> EmptyFn, cx |-> cx]

AddEv(res, pos, ev) == Put(res, pos, Append(Get(res, pos, <<>>), ev))
RECURSIVE ScanRe(_, _, _, _, _, _, _)
\* matches of line l of group g on data lines n..hi
ScanRe(T, g, l, data, n, hi, acc) ==
  IF n > hi THEN acc
  ELSE LET cl == T[g].lines[l]
           m == MatchLine(cl.es, data[n])
       IN IF ~m.ok THEN ScanRe(T, g, l, data, n + 1, hi, acc)
          ELSE LET r == LineResult(cl, m.caps, data[n], acc.cx)
                   keep == r.ok \/ IsStartAct(cl.act)
                   ev == [g |-> g, l |-> l, act |-> cl.act, isline |-> cl.isline, ok |-> r.ok, d |-> r.d]
               IN ScanRe(T, g, l, data, n + 1, hi,
                    [res |-> IF keep THEN AddEv(acc.res, n, ev) ELSE acc.res, cx |-> r.cx,
                     first |-> IF acc.first = 0 THEN n ELSE acc.first, last |-> n])
Fresh(st) == [res |-> st.res, cx |-> st.cx, first |-> 0, last |-> 0]
RECURSIVE ScanStarts(_, _, _, _, _, _, _)
\* first: first opening line found; lastst: last one of an opening line other than _line_
ScanStarts(T, g, k, data, lo, hi, acc) ==
  IF k > Len(T[g].starts) THEN acc
  ELSE LET l == T[g].starts[k]
           r == ScanRe(T, g, l, data, lo, hi, Fresh(acc))
       IN ScanStarts(T, g, k + 1, data, lo, hi,
            [res |-> r.res, cx |-> r.cx,
             first |-> IF r.first = 0 THEN acc.first
                       ELSE IF acc.first = 0 \/ r.first < acc.first THEN r.first ELSE acc.first,
             lastst |-> IF ~T[g].lines[l].isline /\ r.last > acc.lastst THEN r.last ELSE acc.lastst])
RECURSIVE ScanEnds(_, _, _, _, _, _, _)
ScanEnds(T, g, k, data, lo, hi, acc) ==
  IF k > Len(T[g].ends) THEN acc
  ELSE LET r == ScanRe(T, g, T[g].ends[k], data, lo, hi, Fresh(acc))
       IN ScanEnds(T, g, k + 1, data, lo, hi,
            [res |-> r.res, cx |-> r.cx, lastst |-> acc.lastst,
             e |-> IF r.last > acc.lastst /\ r.last > acc.e THEN r.last ELSE acc.e])
RECURSIVE ScanNorms(_, _, _, _, _, _, _)
ScanNorms(T, g, k, data, lo, hi, st) ==
  IF k > Len(T[g].norms) THEN st
  ELSE LET r == ScanRe(T, g, T[g].norms[k], data, lo, hi, Fresh(st))
       IN ScanNorms(T, g, k + 1, data, lo, hi, [res |-> r.res, cx |-> r.cx])
\* drop this group's matches after its final closing line
Trim(res, g, e) ==
  LET keep(p) == IF p > e THEN SelectSeq(res[p], LAMBDA ev : ev.g # g) ELSE res[p]
  IN [p \in {q \in DOMAIN res : keep(q) # <<>>} |-> keep(p)]
RECURSIVE FreeFrom(_, _)
FreeFrom(res, p) == IF p \in DOMAIN res THEN FreeFrom(res, p + 1) ELSE p

RECURSIVE RunRe(_, _, _, _, _, _), RunKids(_, _, _, _, _, _, _, _)
RunRe(T, g, data, lo, hi, st) ==
  LET s == ScanStarts(T, g, 1, data, lo, hi, [res |-> st.res, cx |-> st.cx, first |-> 0, lastst |-> 0])
  IN IF s.first = 0
     THEN \* never opened: a group with defaults on its opening line still yields one record
          LET ev == [g |-> g, l |-> IF T[g].starts = <<>> THEN 0 ELSE T[g].starts[1],
                     act |-> IF T[g].starts = <<>> THEN "start" ELSE T[g].lines[T[g].starts[1]].act,
                     isline |-> IF T[g].starts = <<>> THEN FALSE ELSE T[g].lines[T[g].starts[1]].isline,
                     ok |-> TRUE, d |-> EmptyFn]
              st2 == [res |-> IF T[g].hasdef THEN AddEv(s.res, FreeFrom(s.res, Len(data) + 1), ev) ELSE s.res,
                      cx |-> s.cx]
              kids == SelectSeq(Kids(T, g), LAMBDA c : T[g].starts = <<>> \/ T[c].hasdef)
          IN RunKids(T, kids, 1, data, lo, hi, st2, g)
     ELSE LET e == ScanEnds(T, g, 1, data, s.first, hi, [res |-> s.res, cx |-> s.cx, lastst |-> s.lastst, e |-> 0])
              hi2 == IF e.e = 0 THEN hi ELSE e.e - 1
              st3 == [res |-> IF e.e = 0 THEN e.res ELSE Trim(e.res, g, e.e), cx |-> e.cx]
              st4 == ScanNorms(T, g, 1, data, s.first, hi2, st3)
          IN RunKids(T, Kids(T, g), 1, data, s.first, hi2, st4, g)
RunKids(T, kids, k, data, lo, hi, st, g) ==
  IF k > Len(kids) THEN st
  ELSE RunKids(T, kids, k + 1, data, lo, hi, RunRe(T, kids[k], data, lo, hi, st), g)

MaxPos(res, from) == IF \E p \in DOMAIN res : p > from
                     THEN CHOOSE p \in DOMAIN res : p > from /\ \A q \in DOMAIN res : q <= from \/ q >= p
                     ELSE 0
RECURSIVE InOrder(_, _)   \* events by position
InOrder(res, from) == LET p == MaxPos(res, from)
                      IN IF p = 0 THEN <<>> ELSE <<res[p]>> \o InOrder(res, p)
RECURSIVE ScanTops(_, _, _, _, _)
\* the events of each top group in turn: candidate sets in the order of the text
ScanTops(T, tops, k, data, acc) ==
  IF k > Len(tops) THEN acc
  ELSE LET r == RunRe(T, tops[k], data, 1, Len(data), [res |-> EmptyFn, cx |-> acc.cx])
       IN ScanTops(T, tops, k + 1, data,
            [evs |-> Append(acc.evs, [g |-> tops[k], q |-> InOrder(r.res, 0)]), cx |-> r.cx])
Scan(T, tops, data, cx) == ScanTops(T, tops, 1, data, [evs |-> <<>>, cx |-> cx])
============================================================================
