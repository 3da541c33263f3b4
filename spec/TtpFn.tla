------------------------------ MODULE TtpFn ------------------------------
(* Match-variable functions.  A call is [f |-> name, a |-> <<values>>,     *)
(* kw |-> function].  ApplyFn yields                                        *)
(*   [v |-> new data, flag |-> "T"|"F"|"N", nf |-> new fields, cx |-> cx]  *)
(* where cx is what functions can read and write:                          *)
(*   vars, gvars   variables of this input text, and those shared by all   *)
(*   tvars         variables the template was loaded with                  *)
(*   lookups       lookup tables;  tres, own: results of templates by      *)
(*                 name, and of the earlier texts of this template         *)
(*   macros        macro names;  cust: functions added by the user, by     *)
(*                 "scope.name"                                            *)
(*   err           a function raised an error: parsing stops               *)
EXTENDS TtpLine, TtpNet

Ret(v, flag, cx) == [v |-> v, flag |-> flag, nf |-> EmptyFn, cx |-> cx]
RetNF(v, nf, cx) == [v |-> v, flag |-> "N", nf |-> nf, cx |-> cx]
Flag(b) == IF b THEN "T" ELSE "F"
KwOf(c, k, dflt) == IF Has(c.kw, k) THEN c.kw[k] ELSE dflt
\* argument n, positional or by keyword
ArgOf(c, n, k, dflt) == IF n <= Len(c.a) THEN c.a[n] ELSE KwOf(c, k, dflt)

\* python "pattern in data"
InVal(p, v) == IF IsS(v) THEN ContainsStr(v.s, p.s)
               ELSE IF IsL(v) THEN \E j \in 1..Len(v.l) : v.l[j] = p ELSE FALSE
\* a filter argument that names a template variable stands for its value
ArgVal(c, n, cx) == IF IsS(c.a[n]) /\ Has(cx.tvars, c.a[n].s) THEN cx.tvars[c.a[n].s] ELSE c.a[n]

\* regular expressions given as arguments come with their expression tree
RexAt(e, s, i) == Ends(e, s, i) # <<>>
RexSearch(e, s) == \E i \in 1..(Len(s) + 1) : RexAt(e, s, i)
RexStarts(e, s) == RexAt(e, s, 1)
RexEnds(e, s) == \E i \in 1..(Len(s) + 1) :
                   \E j \in 1..Len(Ends(e, s, i)) : Ends(e, s, i)[j] = Len(s) + 1
\* re.sub(e, new, s, count); count = 0 for all; e matches at least one character
RECURSIVE RexSub(_, _, _, _, _)
RexSub(e, new, s, i, n) ==
  IF i > Len(s) THEN ""
  ELSE LET q == Ends(e, s, i)
       IN IF q # <<>> /\ q[1] > i
          THEN new \o (IF n = 1 THEN From(s, q[1]) ELSE RexSub(e, new, s, q[1], IF n = 0 THEN 0 ELSE n - 1))
          ELSE Chr(s, i) \o RexSub(e, new, s, i + 1, n)

RECURSIVE FmtFrom(_, _)   \* "...{}..." with one value
FmtFrom(s, v) == ReplaceN(s, "{}", v, 1)

RECURSIVE JoinVals(_, _)
JoinVals(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1].s
                    ELSE q[1].s \o sep \o JoinVals(Tail(q), sep)

\* the macro library used by generated templates (MACROS in driver/case.py)
MacroApply(name, v, cx) ==
  CASE name \in {"m_up", "cm_up"} -> Ret(S(Upper(v.s)), "N", cx)
    [] name = "m_none" -> Ret(v, "N", cx)
    [] name = "m_true" -> Ret(v, "T", cx)
    [] name = "m_false" -> Ret(v, "F", cx)
    [] name = "m_odd" -> Ret(v, Flag(Len(v.s) % 2 = 1), cx)
    [] name = "m_len" -> Ret(I(Len(v.s)), "N", cx)
    [] name = "m_tup" -> RetNF(S(v.s \o "!"), [nf |-> S(v.s), nl |-> I(Len(v.s))], cx)
    [] name = "m_list" -> Ret(L(<<v, v>>), "N", cx)
    [] name = "m_dict" -> Ret(D([val |-> v]), "N", cx)
    [] name = "m_empty" -> Ret(S(""), "N", cx)
    [] name = "m_zero" -> Ret(I(0), "N", cx)
    [] name = "m_a" -> Ret(S(v.s \o "-a"), "N", cx)
    [] name = "m_b" -> Ret(S(v.s \o "-b"), "N", cx)
    [] name = "m_h1" -> Ret(S("1" \o v.s), "N", cx)
    [] name = "m_h2" -> Ret(S("2" \o v.s), "N", cx)
    [] name = "m_c" -> Ret(S("c-" \o v.s), "N", cx)
    [] OTHER -> Ret(v, "N", cx)         \* not defined: no effect

\* functions added by the user (driver/custfns.py)
CustApply(id, v, c, cx) ==
  CASE id = "cf_up" -> Ret(S("<" \o Upper(v.s) \o ">"), "N", cx)
    [] id = "cf_sfx" -> Ret(S(v.s \o "~" \o (IF Len(c.a) > 0 THEN c.a[1].s ELSE KwOf(c, "sfx", S("none")).s)), "N", cx)
    [] id = "cf_odd" -> Ret(v, Flag(Len(v.s) % 2 = 1), cx)
    [] id = "cf_true" -> Ret(v, "T", cx)
    [] id = "cf_nf" -> RetNF(v, [cnf |-> S(v.s \o "+"), cnl |-> I(Len(v.s))], cx)
    [] id = "cf_gv" -> Ret(v, "N", [cx EXCEPT !.gvars = Put(@, "cgv", v), !.vars = Put(@, "cgv", v)])
    [] OTHER -> Ret(v, "N", cx)

RECURSIVE Walk(_, _, _)   \* nested .get(part, {})
Walk(v, parts, k) == IF k > Len(parts) THEN v
                     ELSE Walk(IF IsD(v) /\ Has(v.d, parts[k]) THEN v.d[parts[k]] ELSE EmptyD, parts, k + 1)
AddField(c) == KwOf(c, "add_field", B(FALSE))
Found(v, fv, c, cx) == IF IsB(AddField(c)) THEN Ret(fv, "N", cx)
                       ELSE RetNF(v, AddField(c).s :> fv, cx)
LookupName(c) == SplitOn(ArgOf(c, 1, "name", S("")).s, ".")

\* fnmatch with * and ?
RECURSIVE Glob(_, _, _, _)
Glob(p, i, s, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE IF Chr(p, i) = "*" THEN Glob(p, i + 1, s, j) \/ (j <= Len(s) /\ Glob(p, i, s, j + 1))
  ELSE j <= Len(s) /\ (Chr(p, i) = "?" \/ Chr(p, i) = Chr(s, j)) /\ Glob(p, i + 1, s, j + 1)

Incr(f, k) == Put(f, k, IF Has(f, k) THEN I(f[k].i + 1) ELSE I(1))
\* replaceall, resuball: what is replaced by what, in order.  A name of a variable stands for its
\* texts; a dictionary has the new text as key (c.order: the keys as they are written)
RECURSIVE Olds(_, _)
Olds(new, q) == IF q = <<>> THEN <<>>
                ELSE (IF IsS(q[1]) THEN <<[n |-> new, o |-> q[1].s, plain |-> FALSE]>> ELSE <<>>) \o Olds(new, Tail(q))
RECURSIVE ByKey(_, _)
ByKey(d, order) == IF order = <<>> THEN <<>>
                   ELSE (IF Has(d, order[1]) THEN Olds(order[1], IF IsL(d[order[1]]) THEN d[order[1]].l ELSE <<d[order[1]]>>) ELSE <<>>)
                        \o ByKey(d, Tail(order))
RECURSIVE Steps(_, _, _, _)
Steps(c, new, k, vars) ==
  IF k > Len(c.a) THEN <<>>
  ELSE LET o == c.a[k].s IN
       (IF ~Has(vars, o) THEN <<[n |-> new, o |-> o, plain |-> FALSE]>>
        ELSE IF IsL(vars[o]) THEN Olds(new, vars[o].l)
        ELSE IF IsD(vars[o]) THEN ByKey(vars[o].d, c.order)
        ELSE IF IsS(vars[o]) /\ c.f = "resuball" THEN <<[n |-> new, o |-> vars[o].s, plain |-> TRUE]>> ELSE <<>>)
       \o Steps(c, new, k + 1, vars)
StepsOf(c, vars) == IF Len(c.a) > 1 THEN Steps(c, c.a[1].s, 2, vars) ELSE Steps(c, "", 1, vars)
RECURSIVE Replaced(_, _, _)
Replaced(c, s, q) ==   \* c.res: the expressions by their text
  IF q = <<>> THEN s
  ELSE Replaced(c, IF c.f = "replaceall" \/ q[1].plain THEN ReplaceAll(s, q[1].o, q[1].n)
                   ELSE RexSub(c.res[q[1].o], q[1].n, s, 1, 0), Tail(q))

Upto1(q, n) == SubSeq(q, 1, Min2(n, Len(q)))
ItemAt(q, n) == \* item(): clamped index
  IF n >= 0 THEN (IF n <= Len(q) - 1 THEN q[n + 1] ELSE Last(q))
  ELSE IF 0 - n <= Len(q) - 1 THEN q[Len(q) + n + 1] ELSE q[1]
CharsOf(s) == [i \in 1..Len(s) |-> S(Chr(s, i))]
\* values a function can read: this input's variables, then shared ones
ReadVar(cx, k, dflt) == IF Has(cx.vars, k) THEN cx.vars[k]
                        ELSE IF Has(cx.gvars, k) THEN cx.gvars[k] ELSE dflt
RECURSIVE RangeStr(_, _)
RangeStr(a, b) == IF a > b THEN <<>> ELSE <<ToString(a)>> \o RangeStr(a + 1, b)
NonEmpty(q) == SelectSeq(q, LAMBDA x : x # "")
\* items between range characters; [ok |-> FALSE] if a range is not made of integers
RECURSIVE UnrangeFrom(_, _, _, _)
UnrangeFrom(items, k, sep, acc) ==
  IF k > Len(items) THEN [ok |-> TRUE, q |-> acc]
  ELSE LET sp == NonEmpty(SplitOn(items[k], sep)) IN
       IF acc = <<>> THEN UnrangeFrom(items, k + 1, sep, sp)
       ELSE IF sp = <<>> \/ ~IntLit(Last(acc)) \/ ~IntLit(sp[1]) THEN [ok |-> FALSE, q |-> <<>>]
       ELSE UnrangeFrom(items, k + 1, sep,
              acc \o RangeStr(StrToInt(Last(acc)) + 1, StrToInt(sp[1]) - 1) \o sp)
Unrange(s, rc, sep) == LET r == UnrangeFrom(SplitOn(s, rc), 1, sep, <<>>)
                       IN IF ~ContainsStr(s, rc) \/ ~r.ok THEN s ELSE JoinSeq(r.q, sep)

StrMethods == {"upper", "lower", "strip", "lstrip", "rstrip", "replace", "split", "startswith",
               "endswith", "title", "capitalize", "swapcase", "isalpha", "islower", "isupper"}
StrMethod(v, c, cx) ==
  LET s == v.s  a == c.a IN
  CASE c.f = "upper" -> Ret(S(Upper(s)), "N", cx)
    [] c.f = "lower" -> Ret(S(Lower(s)), "N", cx)
    [] c.f = "title" -> Ret(S(Title(s)), "N", cx)
    [] c.f = "capitalize" -> Ret(S(Capitalize(s)), "N", cx)
    [] c.f = "swapcase" -> Ret(S(SwapCase(s)), "N", cx)
    [] c.f = "strip" -> Ret(S(IF a = <<>> THEN Strip(s) ELSE StripSet(s, CharSet(a[1].s))), "N", cx)
    [] c.f = "lstrip" -> Ret(S(IF a = <<>> THEN LStrip(s) ELSE LStripSet(s, CharSet(a[1].s))), "N", cx)
    [] c.f = "rstrip" -> Ret(S(IF a = <<>> THEN RStrip(s) ELSE RStripSet(s, CharSet(a[1].s))), "N", cx)
    [] c.f = "replace" -> Ret(S(ReplaceAll(s, a[1].s, a[2].s)), "N", cx)
    [] c.f = "split" -> Ret(L(StrSeq(IF a = <<>> THEN Words(s) ELSE SplitOn(s, a[1].s))), "N", cx)
    [] c.f = "startswith" -> Ret(v, Flag(StartsWith(s, a[1].s)), cx)
    [] c.f = "endswith" -> Ret(v, Flag(EndsWith(s, a[1].s)), cx)
    [] c.f = "isalpha" -> Ret(v, Flag(s # "" /\ \A i \in 1..Len(s) : IsAlphaC(Chr(s, i))), cx)
    [] c.f = "islower" -> Ret(v, Flag(Lower(s) = s /\ Upper(s) # s), cx)
    [] c.f = "isupper" -> Ret(v, Flag(Upper(s) = s /\ Lower(s) # s), cx)

FloatOf(n) == [x |-> "float:" \o ToString(n) \o ".0"]
\* where a lookup by template or by group starts
RECURSIVE FirstWith(_, _, _)
FirstWith(q, k, n) == IF k > Len(q) THEN EmptyD
                      ELSE IF IsD(q[k]) /\ Has(q[k].d, n) THEN q[k].d[n] ELSE FirstWith(q, k + 1, n)
LookupTable(c, cx, pos) ==   \* pos: position of the name argument, 0 when it has to be a keyword
  LET nm == IF pos > 0 THEN ArgOf(c, pos, "name", None) ELSE KwOf(c, "name", None) IN
  IF IsS(nm) THEN Walk(cx.lookups, SplitOn(nm.s, "."), 1)
  ELSE IF Has(c.kw, "template")
  THEN LET q == SplitOn(c.kw["template"].s, ".")
       IN IF Has(cx.tres, q[1]) THEN Walk(cx.tres[q[1]], Tail(q), 1) ELSE Walk(EmptyD, q, 1)
  ELSE IF Has(c.kw, "group")
  THEN LET q == SplitOn(c.kw["group"].s, ".")
       IN Walk(FirstWith(IF IsL(cx.own) THEN cx.own.l ELSE <<>>, 1, q[1]), Tail(q), 1)
  ELSE EmptyD
HashKey(v) == IF IsS(v) THEN v.s ELSE IF IsI(v) THEN "<int>" \o ToString(v.i) ELSE ""
CanKey(v) == IsS(v) \/ IsI(v)

ApplyFn(v, c, cx) ==
  CASE cx.err -> Ret(v, "F", cx)
    [] Has(cx.cust, "match." \o c.f) -> CustApply(cx.cust["match." \o c.f], v, c, cx)
    [] c.f = "raise" -> Ret(v, "F", [cx EXCEPT !.err = TRUE])
    [] c.f = "contains" -> Ret(v, Flag(\E n \in 1..Len(c.a) : InVal(ArgVal(c, n, cx), v)), cx)
    [] c.f = "exclude" -> Ret(v, Flag(~InVal(ArgVal(c, 1, cx), v)), cx)
    [] c.f = "equal" -> Ret(v, Flag(v = ArgVal(c, 1, cx)), cx)
    [] c.f = "notequal" -> Ret(v, Flag(v # ArgVal(c, 1, cx)), cx)
    [] c.f = "startswith_re" -> Ret(v, Flag(RexStarts(c.re, v.s)), cx)
    [] c.f = "notstartswith_re" -> Ret(v, Flag(~RexStarts(c.re, v.s)), cx)
    [] c.f = "endswith_re" -> Ret(v, Flag(RexEnds(c.re, v.s)), cx)
    [] c.f = "notendswith_re" -> Ret(v, Flag(~RexEnds(c.re, v.s)), cx)
    [] c.f = "contains_re" -> Ret(v, Flag(RexSearch(c.re, v.s)), cx)
    [] c.f = "exclude_re" -> Ret(v, Flag(~RexSearch(c.re, v.s)), cx)
    [] c.f = "isdigit" -> Ret(v, Flag(AllDigits(Strip(v.s))), cx)
    [] c.f = "notdigit" -> Ret(v, Flag(~AllDigits(Strip(v.s))), cx)
    [] c.f = "greaterthan" ->
         Ret(v, Flag(AllDigits(Strip(v.s)) /\ AllDigits(Strip(c.a[1].s))
                     /\ StrToNat(Strip(v.s)) > StrToNat(Strip(c.a[1].s))), cx)
    [] c.f = "lessthan" ->
         Ret(v, Flag(AllDigits(Strip(v.s)) /\ AllDigits(Strip(c.a[1].s))
                     /\ StrToNat(Strip(v.s)) < StrToNat(Strip(c.a[1].s))), cx)
    [] c.f = "void" -> Ret(v, "F", cx)
    [] c.f = "to_int" -> Ret(IF IsS(v) /\ IntLit(v.s) THEN I(StrToInt(v.s)) ELSE v, "N", cx)
    [] c.f = "to_float" -> Ret(IF IsS(v) THEN (IF IntLit(v.s) THEN FloatOf(StrToInt(v.s))
                                               ELSE IF DecLit(v.s) THEN NumOf(v) ELSE v)
                               ELSE IF IsI(v) THEN FloatOf(v.i) ELSE v, "N", cx)
    [] c.f = "to_str" -> Ret(S(StrOf(v)), "N", cx)
    [] c.f = "to_list" -> Ret(L(<<v>>), "N", cx)
    [] c.f = "join" -> Ret(IF IsL(v) THEN S(JoinVals(v.l, c.a[1].s)) ELSE v, "N", cx)
    [] c.f = "append" ->
         LET w == ReadVar(cx, c.a[1].s, c.a[1]) IN
         Ret(IF IsS(v) THEN S(v.s \o w.s) ELSE IF IsL(v) THEN L(Append(v.l, w)) ELSE v, "N", cx)
    [] c.f = "prepend" ->
         LET w == ReadVar(cx, c.a[1].s, c.a[1]) IN
         Ret(IF IsS(v) THEN S(w.s \o v.s) ELSE IF IsL(v) THEN L(<<w>> \o v.l) ELSE v, "N", cx)
    [] c.f = "sformat" -> Ret(S(FmtFrom(ArgVal(c, 1, cx).s, StrOf(v))), "N", cx)
    [] c.f = "truncate" -> Ret(S(JoinSeq(Upto1(SplitOn(v.s, " "), c.a[1].i), " ")), "N", cx)
    [] c.f = "item" -> LET q == IF IsL(v) THEN v.l ELSE CharsOf(v.s)
                        IN Ret(IF q = <<>> THEN v ELSE ItemAt(q, c.a[1].i), "N", cx)
    [] c.f \in {"replaceall", "resuball"} -> Ret(S(Replaced(c, v.s, StepsOf(c, cx.vars))), "N", cx)
    [] c.f = "resub" -> Ret(S(RexSub(c.re, c.a[2].s, v.s, 1,
                             IF Len(c.a) > 2 THEN c.a[3].i ELSE KwOf(c, "count", I(1)).i)), "N", cx)
    [] c.f = "unrange" ->
         Ret(S(Unrange(v.s, ArgOf(c, 1, "rangechar", None).s, ArgOf(c, 2, "joinchar", None).s)), "N", cx)
    [] c.f = "let" -> IF Len(c.a) = 1 THEN Ret(c.a[1], "N", cx) ELSE RetNF(v, c.a[1].s :> c.a[2], cx)
    [] c.f = "copy" -> RetNF(v, c.a[1].s :> v, cx)
    [] c.f = "record" -> Ret(v, "N", [cx EXCEPT !.vars = Put(@, c.a[1].s, v), !.gvars = Put(@, c.a[1].s, v)])
    [] c.f = "count" ->
         LET a == ArgOf(c, 1, "var", None)  g == ArgOf(c, 2, "globvar", None) IN
         Ret(v, "N", [cx EXCEPT !.vars = IF IsS(a) THEN Incr(@, a.s) ELSE @,
                                !.gvars = IF IsS(g) THEN Incr(@, g.s) ELSE @])
    [] c.f = "set" -> \* conditional: a[1] value, the line text must be exact
         IF RStrip(v.s) # c.a[2].s THEN Ret(v, "F", cx)
         ELSE Ret(IF IsS(c.a[1]) THEN ReadVar(cx, c.a[1].s, c.a[1]) ELSE c.a[1], "N", cx)
    [] c.f = "macro" -> IF Has(cx.macros, c.a[1].s) THEN MacroApply(cx.macros[c.a[1].s], v, cx) ELSE Ret(v, "N", cx)
    [] c.f = "joinmatches" -> Ret(v, "N", cx)
    [] c.f = "lookup" ->
         LET t == LookupTable(c, cx, 1) IN
         IF CanKey(v) /\ IsD(t) /\ Has(t.d, HashKey(v)) THEN Found(v, t.d[HashKey(v)], c, cx) ELSE Ret(v, "N", cx)
    [] c.f = "rlookup" ->   \* order: the table's own key order, given beside it
         LET t == Walk(cx.lookups, LookupName(c), 1)
             hits == IF IsD(t) THEN SelectSeq(c.order, LAMBDA k : Has(t.d, k) /\ ContainsStr(v.s, k)) ELSE <<>>
         IN IF hits = <<>> THEN Ret(v, "N", cx) ELSE Found(v, t.d[hits[1]], c, cx)
    [] c.f = "gpvlookup" ->
         LET t == Walk(cx.lookups, LookupName(c), 1)
             Hit(k) == {j \in 1..Len(t.d[k].l) : Glob(t.d[k].l[j].s, 1, v.s, 1)}
             multi == KwOf(c, "multimatch", B(FALSE)).b
             keys == IF IsD(t) THEN SelectSeq(c.order, LAMBDA k : Has(t.d, k) /\ Hit(k) # {}) ELSE <<>>
             all == FlatSeq([n \in 1..Len(keys) |-> [j \in 1..Cardinality(Hit(keys[n])) |-> S(keys[n])]])
             fv == IF keys = <<>> THEN L(<<>>) ELSE IF multi THEN L(all) ELSE L(<<S(keys[1])>>)
             rc == KwOf(c, "record", B(FALSE))
             cx2 == IF IsB(rc) \/ ~IsD(t) THEN cx
                    ELSE [cx EXCEPT !.vars = Put(@, rc.s, fv), !.gvars = Put(@, rc.s, fv)]
         IN IF keys = <<>> THEN Ret(v, "N", cx2) ELSE Found(v, fv, c, cx2)
    [] c.f \in NetFns ->
         LET r == NetApply(v, c.f, IF c.a = <<>> /\ Has(c.kw, "format") THEN <<c.kw["format"]>> ELSE c.a,
                           [k \in 1..Len(c.a) |-> c.a[k].s], cx.vars)
         IN IF r.flag = "E" THEN Ret(v, "F", [cx EXCEPT !.err = TRUE]) ELSE Ret(r.v, r.flag, cx)
    [] IsNet(v) ->     \* what the object itself has
         LET a == OfNet(v) IN
         IF c.f \notin AttrsOf(a) THEN Ret(v, "N", cx)
         ELSE IF c.f \in IsNames THEN Ret(v, Flag(Is(a, c.f)), cx) ELSE Ret(Attr(a, c.f), "N", cx)
    [] c.f \in StrMethods -> IF IsS(v) THEN StrMethod(v, c, cx) ELSE Ret(v, "N", cx)
    [] OTHER -> Ret(v, "N", cx)          \* unknown: no effect

\* a chain: left to right, stopped by the first False
RECURSIVE Chain(_, _, _, _, _)
Chain(v, fns, k, nf, cx) ==
  IF k > Len(fns) THEN [v |-> v, ok |-> TRUE, nf |-> nf, cx |-> cx]
  ELSE LET r == ApplyFn(v, fns[k], cx) IN
       IF r.flag = "F" THEN [v |-> r.v, ok |-> FALSE, nf |-> nf, cx |-> r.cx]
       ELSE Chain(r.v, fns, k + 1, Update(nf, r.nf), r.cx)
============================================================================
