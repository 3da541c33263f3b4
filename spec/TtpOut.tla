------------------------------ MODULE TtpOut ------------------------------
(* Outputs: functions, formatters and returners applied to results.  An    *)
(* output is [name, desc, cond |-> <<>> or <<name, value>>, fns |-> calls, *)
(* fmt, ta |-> [path, headers, order, missing, key, sep, quote],           *)
(* ret |-> returners, url, fname |-> where the file returner writes, load  *)
(* |-> the value of the tag's text, jinja |-> the template it is, tabs |-> *)
(* the sheets of a workbook, log |-> servers, facility, iterate].          *)
(* JSON, YAML, pprint and tabulated texts and workbooks are represented by *)
(* the value they stand for.                                               *)
(* ox is what outputs can see: [vars |-> of the template, fvars |-> all    *)
(* variables, macros, cust, before |-> positions in the results by input,  *)
(* tres |-> results by template].                                          *)
EXTENDS TtpGroupFn

RECURSIVE WalkPath(_, _, _)
WalkPath(v, path, k) ==
  IF k > Len(path) THEN v
  ELSE IF IsD(v) /\ Has(v.d, path[k]) THEN WalkPath(v.d[path[k]], path, k + 1) ELSE EmptyD
RECURSIVE Traverse(_, _)
Traverse(v, path) ==
  IF IsD(v) THEN WalkPath(v, path, 1)
  ELSE IF IsL(v) THEN L([k \in 1..Len(v.l) |-> Traverse(v.l[k], path)]) ELSE v

\* order: the order of the keys, which dictionaries here do not have
InOrderOf(order, S0) == SelectSeq(order, LAMBDA k : k \in S0)
RECURSIVE DictToList(_, _, _)
DictToList(v, key, order) ==
  IF IsD(v)
  THEN IF \E k \in DOMAIN v.d : ~IsD(v.d[k]) THEN v
       ELSE LET ks == InOrderOf(order, DOMAIN v.d)
            IN L([n \in 1..Len(ks) |-> D(Put(v.d[ks[n]].d, key, S(ks[n])))])
  ELSE IF IsL(v) THEN L([k \in 1..Len(v.l) |-> DictToList(v.l[k], key, order)])
  ELSE L(<<>>)

\* table: the header row, then one row per record
RECURSIVE TableItems(_, _, _)
TableItems(src, k, t) ==
  IF k > Len(src) THEN <<>>
  ELSE LET it == IF t.path = <<>> THEN src[k] ELSE Traverse(src[k], t.path)
           q == IF ~Truthy(it) THEN <<>>
                ELSE IF IsL(it) THEN it.l
                ELSE IF IsD(it) THEN (IF t.key # "" THEN DictToList(it, t.key, t.order).l ELSE <<it>>)
                ELSE <<>>
       IN q \o TableItems(src, k + 1, t)
Table(v, t) ==
  LET rows == TableItems(IF IsL(v) THEN v.l ELSE IF IsD(v) THEN <<v>> ELSE <<>>, 1, t)
      hs == IF t.headers # <<>> THEN t.headers
            ELSE InOrderOf(t.sorted, UNION {DOMAIN rows[k].d : k \in 1..Len(rows)})
  IN <<StrSeq(hs)>> \o [k \in 1..Len(rows) |->
       [j \in 1..Len(hs) |-> IF Has(rows[k].d, hs[j]) THEN rows[k].d[hs[j]] ELSE S(t.missing)]]
RECURSIVE JoinRow(_, _, _)
JoinRow(row, k, sep) == IF k > Len(row) THEN ""
                        ELSE (IF k = 1 THEN "" ELSE sep) \o StrOf(row[k]) \o JoinRow(row, k + 1, sep)
RECURSIVE CsvRows(_, _, _)
CsvRows(tb, k, t) ==
  IF k > Len(tb) THEN ""
  ELSE (IF k = 1 THEN "" ELSE "\n") \o t.quote \o JoinRow(tb[k], 1, t.quote \o t.sep \o t.quote)
       \o t.quote \o CsvRows(tb, k + 1, t)

OMacro(name, r) ==
  CASE name = "o_len" -> D([len |-> I(IF IsL(r) THEN Len(r.l) ELSE IF IsS(r) THEN Len(r.s) ELSE IF IsD(r) THEN Cardinality(DOMAIN r.d) ELSE 0)])
    [] name = "o_wrap" -> D([wrapped |-> r])
    [] name = "o_first" -> IF IsL(r) /\ r.l # <<>> THEN r.l[1] ELSE r
    [] name = "o_false" -> B(FALSE)
    [] OTHER -> r
\* functions added by the user (driver/custfns.py)
OCust(id, r) == IF id = "co_wrap" THEN D([cust |-> r]) ELSE r
\* comparison with data before: of an input, a template or a variable
PickAt(v, ps) == [k \in 1..Len(ps) |-> v.l[ps[k]]]
DeepDiffFn(c, r, ox) ==
  LET ib == ArgOf(c, 1, "input_before", None)  ia == ArgOf(c, 2, "input_after", None)
      tb == KwOf(c, "template_before", None)  vb == KwOf(c, "var_before", None)
      full == KwOf(c, "verbose_level", I(1)) = I(2)
      before == IF IsS(ib) THEN L(PickAt(r, ox.before[ib.s])) ELSE IF IsS(tb) THEN ox.tres[tb.s] ELSE ox.vars[vb.s]
      after == IF IsS(ia) THEN L(PickAt(r, ox.before[ia.s])) ELSE r
      x == IF KwOf(c, "mode", S("bulk")) = S("iterate")
           THEN L([k \in 1..Len(after.l) |-> Changes(before.l[1], after.l[k], full)]) ELSE Changes(before, after, full)
      af == KwOf(c, "add_field", B(FALSE))
  IN IF IsS(ib) /\ ~IsL(r) THEN r
     ELSE IF ~IsS(af) THEN x
     ELSE IF IsL(r) THEN L(Append(r.l, D(af.s :> x))) ELSE D(Put(r.d, af.s, x))
\* validation of each result
ValidOne(c, r, ox) ==
  LET errs == FieldErrors(r.d, ox.vars[ArgOf(c, 1, "schema", None).s].d, KwOf(c, "allow_unknown", B(TRUE)).b)
      all == Update(ox.fvars, r.d)
      info == KwOf(c, "info", S(""))
      en == KwOf(c, "errors", S(""))
      v == KwOf(c, "result", S("valid")).s :> B(errs = EmptyFn)
      v2 == IF info = S("") THEN v
            ELSE Put(v, "info", IF FmtNames(c.fmt) \subseteq DOMAIN all THEN S(Fmt(c.fmt, 1, all)) ELSE info)
  IN D(IF en = S("") THEN v2 ELSE Put(v2, en.s, D(errs)))
ValidateFn(c, r, ox) ==
  IF ~Has(ox.vars, ArgOf(c, 1, "schema", None).s) THEN r
  ELSE IF IsD(r) THEN ValidOne(c, r, ox)
  ELSE L([k \in 1..Len(r.l) |-> IF IsD(r.l[k]) THEN ValidOne(c, r.l[k], ox) ELSE r.l[k]])
OutFn(c, o, r, ox) ==
  CASE Has(ox.cust, "output." \o c.f) -> OCust(ox.cust["output." \o c.f], r)
    [] c.f = "traverse" -> Traverse(r, SplitOn(KwOf(c, "path", None).s, "."))
    [] c.f = "dict_to_list" ->
         LET p == KwOf(c, "path", S(""))
         IN DictToList(IF p.s = "" THEN r ELSE Traverse(r, SplitOn(p.s, ".")), KwOf(c, "key_name", S("key")).s, o.ta.order)
    [] c.f = "is_equal" ->
         D([output_name |-> IF o.name = "" THEN None ELSE S(o.name),
            output_description |-> S(IF o.desc = "" THEN "None" ELSE o.desc), is_equal |-> B(r = o.load)])
    [] c.f = "deepdiff" -> DeepDiffFn(c, r, ox)
    [] c.f = "validate" -> ValidateFn(c, r, ox)
    [] c.f = "macro" -> IF Has(ox.macros, c.a[1].s) THEN OMacro(ox.macros[c.a[1].s], r) ELSE r
    [] OTHER -> r
RECURSIVE OutFns(_, _, _, _, _)
OutFns(fns, k, o, r, ox) ==
  IF k > Len(fns) THEN r ELSE OutFns(fns, k + 1, o, OutFn(fns[k], o, r, ox), ox)

\* a text with places for values, repeated and conditional parts: nodes [k |-> "text", s],
\* [k |-> "val" | "up" | "len", p |-> path], [k |-> "for", x, p, body], [k |-> "if", p, body, other]
None0 == [x |-> "undefined"]
RECURSIVE At(_, _, _)
At(v, p, k) == IF k > Len(p) THEN v ELSE IF IsD(v) /\ Has(v.d, p[k]) THEN At(v.d[p[k]], p, k + 1) ELSE None0
RECURSIVE Render(_, _, _), RenderEach(_, _, _, _, _)
Render(ns, k, env) ==
  IF k > Len(ns) THEN ""
  ELSE LET n == ns[k]
           v == At(D(env), n.p, 1)
       IN (CASE n.k = "text" -> n.s
             [] n.k = "val" -> IF v = None0 THEN "" ELSE StrOf(v)
             [] n.k = "up" -> IF v = None0 THEN "" ELSE Upper(StrOf(v))
             [] n.k = "len" -> IF IsL(v) THEN ToString(Len(v.l)) ELSE "0"
             [] n.k = "for" -> IF IsL(v) THEN RenderEach(n, v.l, 1, env, n.body) ELSE ""
             [] n.k = "if" -> IF v # None0 /\ Truthy(v) THEN Render(n.body, 1, env) ELSE Render(n.other, 1, env)) \o Render(ns, k + 1, env)
RenderEach(n, q, k, env, body) ==
  IF k > Len(q) THEN "" ELSE Render(body, 1, Put(env, n.x, q[k])) \o RenderEach(n, q, k + 1, env, body)

Grid(tb) == L([k \in 1..Len(tb) |-> L(tb[k])])
\* the rows one can see of a drawn table or a sheet: without the blank ones; of a row, up to its last
\* cell that shows something
Blank(v) == v = None \/ v = S("")
RECURSIVE NoBlankTail(_)
NoBlankTail(q) == IF q # <<>> /\ Blank(q[Len(q)]) THEN NoBlankTail(SubSeq(q, 1, Len(q) - 1)) ELSE q
SeenRows(rows) == SelectSeq([k \in 1..Len(rows) |-> L(NoBlankTail(rows[k].l))], LAMBDA w : w.l # <<>>)
OutFmt(o, r, cust) ==
  CASE Has(cust, "formatters." \o o.fmt) -> D([fmt |-> r])
    [] o.fmt = "table" -> Grid(Table(r, o.ta))
    [] o.fmt = "csv" -> S(CsvRows(Table(r, o.ta), 1, o.ta))
    [] o.fmt = "tabulate" -> LET tb == Table(r, o.ta)
                             IN IF tb[1] = <<>> THEN L(<<>>)
                                ELSE L(SeenRows([k \in 1..Len(tb) |-> L([j \in 1..Len(tb[k]) |-> S(StrOf(tb[k][j]))])]))
    [] o.fmt = "excel" -> L([k \in 1..Len(o.tabs) |-> L(<<S(o.tabs[k].tab), Grid(Table(r, o.tabs[k]))>>)])
    [] o.fmt = "jinja2" -> S(Render(o.jinja, 1, "_data_" :> r))
    [] OTHER -> r
\* a workbook with further rows: to sheets it has, or new sheets
RECURSIVE AddSheets(_, _, _)
AddSheets(old, new, k) ==
  IF k > Len(new) THEN old
  ELSE LET is(j) == old[j].l[1] = new[k].l[1]
           at == {j \in 1..Len(old) : is(j)}
       IN AddSheets(IF at = {} THEN Append(old, L(<<new[k].l[1], L(SeenRows(new[k].l[2].l))>>))
                    ELSE [j \in 1..Len(old) |-> IF is(j) THEN L(<<old[j].l[1], L(old[j].l[2].l \o SeenRows(Tail(new[k].l[2].l)))>>) ELSE old[j]],
                    new, k + 1)
ToFile(o, name, y, files) ==
  IF o.fmt = "excel" THEN Put(files, name, L(AddSheets(IF o.update /\ Has(files, name) THEN files[name].l ELSE <<>>, y.l, 1)))
  ELSE Put(files, name, y)
\* what is sent somewhere is kept, in order, as a file of that name
Sent(files, name, q) == Put(files, name, L((IF Has(files, name) THEN files[name].l ELSE <<>>) \o q))
\* the items a log gets: those at the path, if all of it is there
RECURSIVE Reaches(_, _, _)
Reaches(v, p, k) == IF k > Len(p) THEN TRUE ELSE IsD(v) /\ Has(v.d, p[k]) /\ Reaches(v.d[p[k]], p, k + 1)
RECURSIVE LogItems(_, _, _, _)
LogItems(src, k, p, iterate) ==
  IF k > Len(src) THEN <<>>
  ELSE LET ok == IF IsL(src[k]) THEN \A j \in 1..Len(src[k].l) : IsD(src[k].l[j]) /\ Reaches(src[k].l[j], p, 1) ELSE Reaches(src[k], p, 1)
           it == Traverse(src[k], p)
           q == IF ~Truthy(src[k]) \/ ~ok \/ ~Truthy(it) THEN <<>> ELSE IF IsL(it) /\ iterate THEN it.l ELSE <<it>>
       IN q \o LogItems(src, k + 1, p, iterate)
RECURSIVE ToLogs(_, _, _, _)
ToLogs(o, q, k, files) ==
  IF k > Len(o.log.servers) THEN files
  ELSE ToLogs(o, q, k + 1, Sent(files, "<log>" \o o.log.servers[k],
                [j \in 1..Len(q) |-> D([pri |-> I(8 * o.log.facility + 6), msg |-> q[j]])]))
\* words given a colour: one word after the other, wherever they are
RECURSIVE Painted(_, _, _)
Painted(s, q, k) == IF k > Len(q) THEN s ELSE Painted(ReplaceAll(s, q[k].w, q[k].on \o q[k].w \o q[k].off), q, k + 1)
OnScreen(o, y) == IF o.paint = <<>> THEN y ELSE S(Painted(y.s, o.paint, 1))
\* what becomes of results r, and of the files, when output o is run
OutOne(o, r, ox, files) ==
  IF o.cond # <<>> /\ ~(Has(ox.vars, o.cond[1].s) /\ ox.vars[o.cond[1].s] = o.cond[2])
  THEN [r |-> r, files |-> files]
  ELSE LET y == OutFmt(o, OutFns(o.fns, 1, o, r, ox), ox.cust)
           has(x) == \E k \in 1..Len(o.ret) : o.ret[k] = x
           name == o.url \o (IF FmtNames(o.fname) \subseteq DOMAIN ox.fvars THEN Fmt(o.fname, 1, ox.fvars) ELSE o.ftext)
           f1 == IF has("file") THEN ToFile(o, name, y, files) ELSE files
           f2 == IF has("terminal") THEN Sent(f1, "<terminal>", <<OnScreen(o, y)>>) ELSE f1
           f3 == IF has("syslog") THEN ToLogs(o, LogItems(IF IsL(y) THEN y.l ELSE <<y>>, 1, o.ta.path, o.log.iterate), 1, f2) ELSE f2
       IN [r |-> IF has("self") THEN y ELSE r, files |-> f3]
RECURSIVE OutAll(_, _, _, _, _)
OutAll(outs, k, r, ox, files) ==
  IF k > Len(outs) THEN [r |-> r, files |-> files]
  ELSE LET x == OutOne(outs[k], r, ox, files)
       IN OutAll(outs, k + 1, x.r, ox, x.files)
============================================================================
