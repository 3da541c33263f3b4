---------------------------- MODULE TtpSession ----------------------------
(* Sessions: parser objects, the files around them and what callers keep.  *)
(* State s:                                                                *)
(*   ps     parser objects by the caller's name                            *)
(*   fs     files: path -> content      lists  order directories list in   *)
(*   env    directory templates and inputs are also looked for in, or ""   *)
(*   held   values the caller kept from earlier calls, or passed to them   *)
(* A parser object:                                                        *)
(*   templates  sequence of [name, groups, T, vt, vars, tvars, vfn, inputs,*)
(*              lookups, macros, outs, gouts, results, method]             *)
(*   vars, lookups   what later templates start from                       *)
(*   gvars      variables shared by all inputs and templates               *)
(*   toint      integer-key option;  base  put before input addresses      *)
(*   cust       functions added by the user                                *)
(* An operation is a record with field op; its answer is [s, out].         *)
EXTENDS TtpEngine, TtpLoad

NewParser(vars, toint, base) ==
  [templates |-> <<>>, vars |-> vars, lookups |-> EmptyFn, gvars |-> EmptyFn, toint |-> toint,
   cust |-> EmptyFn, base |-> base]
NewSession(env) == [ps |-> EmptyFn, fs |-> EmptyFn, lists |-> EmptyFn, env |-> env, held |-> EmptyFn]

TopsOf(gs) == SelectSeq([k \in 1..Len(gs) |-> k], LAMBDA k : gs[k].parent = 0)
\* the name an input's groups filter refers to: the path of the top group
TopName(g) == IF g.anon THEN "_anonymous_" ELSE RawJoin(g.items, 1)

-----------------------------------------------------------------------------
(* where data comes from: anything but text is taken as it is; a text may  *)
(* be the path of a file, or of a directory, whose files are taken in the  *)
(* order the system lists them; any other text is the data itself          *)
JoinPath(a, b) == IF EndsWith(a, "/") THEN a \o b ELSE a \o "/" \o b
ExtOf(f) == LET q == SplitOn(f, ".") IN q[Len(q)]
ItemsOf(s, v, exts, filts) ==
  IF ~IsS(v) THEN <<[k |-> "struct", v |-> v]>>
  ELSE IF Has(s.fs, v.s) THEN <<[k |-> "file", v |-> v]>>
  ELSE IF s.env # "" /\ Has(s.fs, JoinPath(s.env, v.s)) THEN <<[k |-> "file", v |-> S(JoinPath(s.env, v.s))]>>
  ELSE IF Has(s.lists, v.s)
  THEN LET fl == SelectSeq(s.lists[v.s], LAMBDA f :
                   /\ Has(s.fs, JoinPath(v.s, f))
                   /\ (exts = <<>> \/ InSeq(exts, ExtOf(f)))
                   /\ \A n \in 1..Len(filts) : RexSearch(filts[n], f))
       IN [n \in 1..Len(fl) |-> [k |-> "file", v |-> S(JoinPath(v.s, fl[n]))]]
  ELSE <<[k |-> "text", v |-> v]>>
RECURSIVE UrlItems(_, _, _, _, _, _)
UrlItems(s, base, urls, k, exts, filts) ==
  IF k > Len(urls) THEN <<>>
  ELSE ItemsOf(s, S(base \o urls[k]), exts, filts) \o UrlItems(s, base, urls, k + 1, exts, filts)

-----------------------------------------------------------------------------
(* which groups parse which input: a group that names inputs is for those   *)
(* only, and an input named by groups is parsed by those only; every other  *)
(* input is parsed by the groups its filter names, or by all that name none *)
RECURSIVE OrderedIdx(_, _, _)
OrderedIdx(S0, k, n) == IF k > n THEN <<>> ELSE (IF k \in S0 THEN <<k>> ELSE <<>>) \o OrderedIdx(S0, k + 1, n)
Routing(gs, iname, filter) ==
  LET tops == TopsOf(gs)
      named == {k \in 1..Len(tops) : InSeq(gs[tops[k]].inputs, iname)}
      free == {k \in 1..Len(tops) : gs[tops[k]].inputs = <<>>
                 /\ (InSeq(filter, "all") \/ InSeq(filter, TopName(gs[tops[k]])))}
  IN IF named # {} THEN named ELSE free

IdxInput(ins, n) == LET s == {k \in 1..Len(ins) : ins[k].name = n} IN IF s = {} THEN 0 ELSE CHOOSE k \in s : TRUE
RECURSIVE AddNew(_, _, _)
AddNew(q, xs, k) == IF k > Len(xs) THEN q
                    ELSE AddNew(IF InSeq(q, xs[k]) THEN q ELSE Append(q, xs[k]), xs, k + 1)
\* an input is [name, idx, data, fns, param]; adding to an existing one extends it
PutInput(t, n, filter, data, fns, param) ==
  LET k == IdxInput(t.inputs, n)
      idx == Routing(t.groups, n, filter)
  IN [t EXCEPT !.inputs =
        IF k = 0 THEN Append(@, [name |-> n, idx |-> idx, data |-> data, fns |-> fns, param |-> param])
        ELSE [@ EXCEPT ![k] = [@ EXCEPT !.data = AddNew(@, data, 1), !.idx = @ \cup idx]]]
RECURSIVE PutInputs(_, _, _, _, _), GroupInputs(_, _, _, _, _)
PutInputs(s, t, ins, k, base) ==
  IF k > Len(ins) THEN t
  ELSE PutInputs(s, PutInput(t, ins[k].name, ins[k].groups,
                             ins[k].data \o UrlItems(s, base, ins[k].urls, 1, ins[k].exts, ins[k].filts),
                             ins[k].fns, ins[k].param), ins, k + 1, base)
\* an input that groups name and no tag defines: the files at that address
GroupInputs(s, t, names, k, base) ==
  IF k > Len(names) THEN t
  ELSE GroupInputs(s,
         IF IdxInput(t.inputs, names[k]) # 0 THEN t
         ELSE PutInput(t, names[k], <<"all">>,
                SelectSeq(ItemsOf(s, S(base \o names[k]), <<>>, <<>>), LAMBDA x : x.k = "file"), <<>>, EmptyD),
         names, k + 1, base)

-----------------------------------------------------------------------------
(* loading templates *)
RECURSIVE MergeVars(_, _, _)
MergeVars(tags, k, acc) == IF k > Len(tags) THEN acc ELSE MergeVars(tags, k + 1, Update(acc, tags[k].load))
RECURSIVE SetKeys(_)
SetKeys(S0) == IF S0 = {} THEN <<>> ELSE LET x == CHOOSE y \in S0 : TRUE IN <<x>> \o SetKeys(S0 \ {x})
\* variables tags that carry a name: their variables are saved at that path,
\* in the order of the paths
VarTags(tags, order) ==
  [k \in 1..Len(order) |->
     [items |-> order[k].items,
      names |-> LET q == SelectSeq([j \in 1..Len(tags) |-> j], LAMBDA j : tags[j].path = order[k].path)
                IN SetKeys(UNION {DOMAIN tags[q[j]].load : j \in 1..Len(q)})]]
CustMacros(cust) ==
  [n \in {SubSeq(k, 7, Len(k)) : k \in {j \in DOMAIN cust : StartsWith(j, "macro.")}} |-> cust["macro." \o n]]

\* vars: what the parser object contributes; nothing: the template was filtered out
NewTemplate(s, p, d0, name, vars, base, nothing) ==
  LET d == [d0 EXCEPT !.vars = [k \in 1..Len(@) |-> [load |-> LoadOf(@[k].load, s.fs).d, path |-> @[k].path]],
                      !.lookups = [n \in DOMAIN @ |-> LoadOf(@[n], s.fs)]]
      all == MergeVars(d.vars, 1, vars)
      vfn == [n \in {m \in DOMAIN all : IsS(all[m]) /\ all[m].s \in Getters(p.cust)} |-> all[n].s]
      onames == {d.outputs[k].name : k \in 1..Len(d.outputs)}
      gs == [k \in 1..Len(d.groups) |-> [d.groups[k] EXCEPT !.outs = SelectSeq(@, LAMBDA n : n \in onames)]]
      claimed == UNION {{gs[k].outs[j] : j \in 1..Len(gs[k].outs)} : k \in {j \in 1..Len(gs) : gs[j].parent = 0}}
      ggs == SelectSeq(gs, LAMBDA g : g.parent = 0)
      t0 == [name |-> name, groups |-> gs, T |-> CompTemplate(gs), vt |-> VarTags(d.vars, d.varpaths),
             vars |-> DropAll(all, DOMAIN vfn), tvars |-> all, vfn |-> vfn, inputs |-> <<>>, lookups |-> d.lookups,
             macros |-> Update(CustMacros(p.cust), d.macros),
             outs |-> SelectSeq(d.outputs, LAMBDA o : o.name \notin claimed),
             gouts |-> SelectSeq(d.outputs, LAMBDA o : o.name \in claimed),
             results |-> L(<<>>), method |-> d.method]
      t1 == PutInputs(s, t0, d.inputs, 1, base)
  IN IF nothing
     THEN [t0 EXCEPT !.groups = <<>>, !.T = <<>>, !.vt = <<>>, !.vars = vars, !.tvars = vars, !.vfn = EmptyFn,
                     !.lookups = EmptyFn, !.macros = CustMacros(p.cust), !.outs = <<>>, !.gouts = <<>>]
     ELSE GroupInputs(s, t1, FlatSeq([k \in 1..Len(ggs) |-> ggs[k].inputs]), 1, base)

BaseOf(d, base) == IF d.base = <<>> THEN base ELSE d.base[1]
NameOf(d, name) == IF d.name = "" THEN name ELSE d.name
\* templates within a template are named by their position unless they have a
\* name; the template around them is dropped; filters select by name
TemplatesOf(s, p, d, name, filters) ==
  LET b == BaseOf(d, p.base)
      kept == SelectSeq([k \in 1..Len(d.kids) |-> k], LAMBDA k : filters = <<>> \/ InSeq(filters, d.kids[k].name))
      nm == NameOf(d, name)
  IN IF kept = <<>> THEN <<NewTemplate(s, p, d, nm, p.vars, b, filters # <<>> /\ ~InSeq(filters, nm))>>
     ELSE [j \in 1..Len(kept) |->
             LET e == d.kids[kept[j]] IN
             NewTemplate(s, p, e, NameOf(e, ToString(kept[j] - 1)), p.vars, BaseOf(e, b), FALSE)]

-----------------------------------------------------------------------------
(* parsing: the work is every (template, input, datum) in order; [t, 0, 0]  *)
(* ends a template whose data give one result together                      *)
OneResult(t) == t.method = "per_template"
RECURSIVE WorkOf(_, _)
WorkIn(ins, k, t) == [j \in 1..Len(ins[k].data) |-> [t |-> t, n |-> k, j |-> j]]
RECURSIVE WorkIns(_, _, _)
WorkIns(ins, k, t) == IF k > Len(ins) THEN <<>> ELSE WorkIn(ins, k, t) \o WorkIns(ins, k + 1, t)
WorkOf(p, t) ==
  IF t > Len(p.templates) THEN <<>>
  ELSE WorkIns(p.templates[t].inputs, 1, t)
       \o (IF OneResult(p.templates[t]) THEN <<[t |-> t, n |-> 0, j |-> 0]>> ELSE <<>>)
       \o WorkOf(p, t + 1)
\* a parse in progress; multi: each datum by a process of its own
ParBegin(p, multi) == [work |-> WorkOf(p, 1), k |-> 1, tree |-> EmptyD, xs |-> <<>>, multi |-> multi]

FirstNamed(ts, n) == ts[CHOOSE k \in 1..Len(ts) : ts[k].name = n /\ \A j \in 1..(k - 1) : ts[j].name # n]
\* results of templates as lookups see them: those of the first datum
ResultsByName(p) ==
  [n \in {p.templates[k].name : k \in 1..Len(p.templates)} |->
     LET r == FirstNamed(p.templates, n).results
     IN IF IsL(r) THEN (IF r.l = <<>> THEN EmptyD ELSE r.l[1]) ELSE r]
CxOf(p, t, vars, multi) ==
  [vars |-> vars, gvars |-> IF multi THEN EmptyFn ELSE p.gvars, tvars |-> t.tvars, lookups |-> D(t.lookups),
   tres |-> ResultsByName(p), own |-> t.results, macros |-> t.macros, cust |-> p.cust, err |-> FALSE]
TopsFor(t, n) ==
  LET tops == TopsOf(t.groups)  q == OrderedIdx(t.inputs[n].idx, 1, Len(tops))
  IN [k \in 1..Len(q) |-> tops[q[k]]]
StartDatum(s, p, par) ==
  LET w == par.work[par.k]
      t == p.templates[w.t]
      x == t.inputs[w.n].data[w.j]
      v == IF x.k = "struct" THEN x.v ELSE S(Framed(IF x.k = "file" THEN s.fs[x.v.s].s ELSE x.v.s))
      nm == IF x.k = "file" THEN x.v.s ELSE IF x.k = "struct" THEN "structured_data" ELSE "text_data"
      txt == InFns(t.inputs[w.n].fns, 1, v, t.macros, p.cust)
  IN Begin(t, TopsFor(t, w.n), DataLines(txt.s),
           [cx |-> CxOf(p, t, Update(t.vars, GotVars(t.vfn, v, nm, p.cust)), par.multi),
            tree |-> par.tree, xs |-> par.xs, toint |-> p.toint, files |-> s.fs])
\* one datum done
FinishDatum(p, par, en) ==
  LET w == par.work[par.k]
      t == p.templates[w.t]
      p1 == IF par.multi THEN p ELSE [p EXCEPT !.gvars = en.a.cx.gvars]
  IN IF OneResult(t) THEN [p |-> p1, par |-> [par EXCEPT !.k = @ + 1, !.tree = en.tree, !.xs = en.xs]]
     ELSE [p |-> [p1 EXCEPT !.templates = [@ EXCEPT ![w.t] =
                   [@ EXCEPT !.results = L(Append(@.l, FormDatum(en.tree, en.xs)))]]],
           par |-> [par EXCEPT !.k = @ + 1]]
\* all data of a template done, when they give one result
FinishTemplate(p, par) ==
  [p |-> [p EXCEPT !.templates = [@ EXCEPT ![par.work[par.k].t] = [@ EXCEPT !.results = FormDatum(par.tree, par.xs)]]],
   par |-> [par EXCEPT !.k = @ + 1, !.tree = EmptyD, !.xs = <<>>]]
\* where in the results of a template those of each of its inputs are
RECURSIVE DataBefore(_, _)
DataBefore(ins, n) == IF n = 1 THEN 0 ELSE Len(ins[n - 1].data) + DataBefore(ins, n - 1)
Positions(ins) ==
  [m \in {ins[n].name : n \in 1..Len(ins)} |->
     LET n == CHOOSE j \in 1..Len(ins) : ins[j].name = m
     IN [k \in 1..Len(ins[n].data) |-> DataBefore(ins, n) + k]]
\* outputs run once everything is parsed
RECURSIVE OutsFrom(_, _, _)
OutsFrom(p, k, files) ==
  IF k > Len(p.templates) THEN [p |-> p, files |-> files]
  ELSE LET t == p.templates[k]
           ox == [vars |-> t.vars, fvars |-> Update(p.gvars, t.vars), macros |-> t.macros, cust |-> p.cust, before |-> Positions(t.inputs),
                  tres |-> [n \in {p.templates[j].name : j \in 1..Len(p.templates)} |-> FirstNamed(p.templates, n).results]]
           x == OutAll(t.outs, 1, t.results, ox, files)
       IN OutsFrom([p EXCEPT !.templates = [@ EXCEPT ![k] = [@ EXCEPT !.results = x.r]]], k + 1, x.files)
Raised == [x |-> "exc:RuntimeError"]

\* the same in one go
RECURSIVE ParseRest(_, _, _)
ParseRest(s, p, par) ==
  IF par.k > Len(par.work)
  THEN LET x == OutsFrom(p, 1, s.fs) IN [p |-> x.p, files |-> x.files, out |-> None]
  ELSE IF par.work[par.k].n = 0 THEN LET r == FinishTemplate(p, par) IN ParseRest(s, r.p, r.par)
  ELSE LET t == p.templates[par.work[par.k].t]
           en == RunPhases(t, StartDatum(s, p, par))
           r == FinishDatum(p, par, en)
       IN IF en.err THEN [p |-> [p EXCEPT !.gvars = IF par.multi THEN @ ELSE en.a.cx.gvars], files |-> s.fs, out |-> Raised]
          ELSE ParseRest([s EXCEPT !.fs = en.files], r.p, r.par)

-----------------------------------------------------------------------------
(* results in the requested structure *)
RECURSIVE FlatItems(_, _), FlatAll(_, _)
FlatItems(q, k) == IF k > Len(q) THEN <<>>
                   ELSE (IF IsL(q[k]) THEN q[k].l ELSE <<q[k]>>) \o FlatItems(q, k + 1)
FlatAll(rs, k) == IF k > Len(rs) THEN <<>>
                  ELSE (IF IsL(rs[k]) THEN FlatItems(rs[k].l, 1) ELSE <<rs[k]>>) \o FlatAll(rs, k + 1)
RECURSIVE DictAll(_, _, _)
DictAll(ts, k, acc) == IF k > Len(ts) THEN acc ELSE DictAll(ts, k + 1, Put(acc, ts[k].name, ts[k].results))
Structure(ts, s) ==
  CASE s = "list" -> L([k \in 1..Len(ts) |-> ts[k].results])
    [] s = "dictionary" -> D(DictAll(ts, 1, EmptyFn))
    [] s = "flat_list" -> L(FlatAll([k \in 1..Len(ts) |-> ts[k].results], 1))
Picked(p, names) == SelectSeq(p.templates, LAMBDA t : names = <<>> \/ InSeq(names, t.name))
\* through an output described by the call: [ts, files]
RECURSIVE Asked(_, _, _, _, _)
Asked(ts, k, o, p, files) ==
  IF k > Len(ts) THEN [ts |-> ts, files |-> files]
  ELSE LET x == OutOne(o, ts[k].results, [vars |-> EmptyFn, fvars |-> Update(p.gvars, ts[k].vars), macros |-> ts[k].macros, cust |-> p.cust,
                                     before |-> EmptyFn, tres |-> EmptyFn], files)
       IN Asked([ts EXCEPT ![k] = [@ EXCEPT !.results = x.r]], k + 1, o, p, x.files)
\* results of data parsed by several processes come in any order
CountOf(q, x) == Cardinality({k \in 1..Len(q) : q[k] = x})
\* (also within what an output function of the user made of them)
RECURSIVE SameBag(_, _)
SameBag(a, b) == \/ a = b
                 \/ /\ IsL(a) /\ IsL(b) /\ Len(a.l) = Len(b.l)
                    /\ \A k \in 1..Len(a.l) : CountOf(a.l, a.l[k]) = CountOf(b.l, a.l[k])
                 \/ /\ IsD(a) /\ IsD(b) /\ DOMAIN a.d = {"cust"} /\ DOMAIN b.d = {"cust"}
                    /\ SameBag(a.d["cust"], b.d["cust"])
SameAnswer(o, got, want) ==
  got = want
  \/ (o.op \in {"result", "cli"} /\ o.bag
      /\ CASE o.structure = "flat_list" -> SameBag(got, want)
           [] o.structure = "list" -> IsL(got) /\ Len(got.l) = Len(want.l)
                                      /\ \A k \in 1..Len(got.l) : SameBag(got.l[k], want.l[k])
           [] OTHER -> IsD(got) /\ DOMAIN got.d = DOMAIN want.d
                       /\ \A k \in DOMAIN got.d : SameBag(got.d[k], want.d[k]))

-----------------------------------------------------------------------------
(* operations; defs are the template definitions, seen the answer recorded  *)
Ans(s, out) == [s |-> s, out |-> out]
MapTemplates(p, sel, F(_)) ==
  [p EXCEPT !.templates = [k \in 1..Len(@) |-> IF sel = "_all_" \/ @[k].name = sel THEN F(@[k]) ELSE @[k]]]
RECURSIVE AddTemplates(_, _, _, _, _, _)
AddTemplates(s, p, ds, k, name, filters) ==
  IF k > Len(ds) THEN p
  ELSE AddTemplates(s, [p EXCEPT !.templates = @ \o TemplatesOf(s, p, ds[k], name, filters)], ds, k + 1, name, filters)
AddInput(s, p, o) ==
  LET items == ItemsOf(s, o.data, <<>>, <<>>)
  IN IF items = <<>> THEN p
     ELSE MapTemplates(p, o.template, LAMBDA t : PutInput(t, o.name, o.groups, items, <<>>, EmptyD))
ClearInput(p, sel) == MapTemplates(p, sel, LAMBDA t : [t EXCEPT !.inputs = <<>>])
DefsOf(defs, q) == [k \in 1..Len(q) |-> defs[q[k]]]
\* the names of the files and directories right below a directory
Below(s, dir) == {SplitOn(SubSeq(f, Len(dir) + 2, Len(f)), "/")[1] :
                    f \in {g \in DOMAIN s.fs : StartsWith(g, dir \o "/")}}
NewOf(s, o, defs) ==
  LET p1 == AddTemplates(s, NewParser(o.vars, o.toint, o.base), DefsOf(defs, o.tmpls), 1, "_root_template_", <<>>)
  IN IF o.data = <<>> THEN p1
     ELSE AddInput(s, p1, [data |-> o.data[1], template |-> "_all_", name |-> "Default_Input", groups |-> <<"all">>])
ResultOf(s, p, o) ==
  LET ts == Picked(p, o.templates)
      x == IF o.out = <<>> THEN [ts |-> ts, files |-> s.fs] ELSE Asked(ts, 1, o.out[1], p, s.fs)
  IN [out |-> Structure(x.ts, o.structure), files |-> x.files]
InputLoads(p) ==
  D([n \in {p.templates[k].name : k \in 1..Len(p.templates)} |->
       LET ins == p.templates[CHOOSE k \in 1..Len(p.templates) : p.templates[k].name = n
                                /\ \A j \in (k + 1)..Len(p.templates) : p.templates[j].name # n].inputs
       IN D([m \in {ins[k].name : k \in 1..Len(ins)} |-> ins[IdxInput(ins, m)].param])])

RECURSIVE PrintedText(_, _)
PrintedText(q, k) == IF k > Len(q) THEN "" ELSE q[k].s \o "\n" \o PrintedText(q, k + 1)

DoOp(s, o, defs, seen) ==
  LET p == IF Has(s.ps, o.obj) THEN s.ps[o.obj] ELSE NewParser(EmptyFn, FALSE, "")
      With(q) == Ans([s EXCEPT !.ps = Put(@, o.obj, q)], None)
  IN
  CASE o.op = "new" -> With(NewOf(s, o, defs))
    [] o.op = "add_template" -> With(AddTemplates(s, p, DefsOf(defs, o.tmpls), 1, o.name, o.filters))
    [] o.op = "add_input" -> With(AddInput(s, p, o))
    [] o.op = "set_input" -> With(AddInput(s, ClearInput(p, o.template), o))
    [] o.op = "clear_input" -> With(ClearInput(p, o.template))
    [] o.op = "add_vars" ->
         With([MapTemplates(p, "_all_", LAMBDA t : [t EXCEPT !.vars = Update(@, o.vars)]) EXCEPT !.vars = Update(@, o.vars)])
    [] o.op = "add_lookup" ->
         With([MapTemplates(p, "_all_", LAMBDA t : [t EXCEPT !.lookups = Put(@, o.name, LoadOf(o.table, s.fs))])
                 EXCEPT !.lookups = Put(@, o.name, LoadOf(o.table, s.fs))])
    [] o.op = "func" -> With([p EXCEPT !.cust = Put(@, o.scope \o "." \o o.name, o.fn)])
    [] o.op = "parse" ->
         LET r == ParseRest(s, p, ParBegin(p, o.multi))
         IN Ans([s EXCEPT !.ps = Put(@, o.obj, r.p), !.fs = r.files], r.out)
    \* one process and several cannot be asked for at once
    [] o.op = "parse_both" -> Ans(s, [x |-> "exc:SystemExit"])
    [] o.op = "result" -> LET r == ResultOf(s, p, o) IN Ans([s EXCEPT !.fs = r.files], r.out)
    [] o.op = "quick_parse" ->
         LET p1 == NewOf(s, o, defs)
             r == ParseRest(s, p1, ParBegin(p1, FALSE))
         IN Ans([s EXCEPT !.fs = r.files], IF r.out # None THEN r.out ELSE ResultOf([s EXCEPT !.fs = r.files], r.p, o).out)
    \* what is kept between runs to start faster changes nothing
    [] o.op = "cache" -> Ans(s, None)
    [] o.op = "cli" ->
         LET p1 == AddTemplates(s, NewParser(o.vars, FALSE, o.base), DefsOf(defs, o.tmpls), 1, "_root_template_", <<>>)
             i == [data |-> o.data[1], template |-> "_root_template_", name |-> "Default_Input", groups |-> <<"all">>]
             p2 == IF o.data = <<>> THEN p1 ELSE AddInput(s, ClearInput(p1, i.template), i)
             r == ParseRest(s, p2, ParBegin(p2, o.multi))
         IN Ans([s EXCEPT !.fs = r.files], ResultOf([s EXCEPT !.fs = r.files], r.p, o).out)
    [] o.op = "clear_result" ->
         With([p EXCEPT !.templates = [k \in 1..Len(@) |->
                 IF o.templates = <<>> \/ InSeq(o.templates, @[k].name)
                 THEN [@[k] EXCEPT !.results = L(<<>>)] ELSE @[k]]])
    [] o.op = "get_input_load" -> Ans(s, InputLoads(p))
    [] o.op = "keep" -> LET r == ResultOf(s, p, o)
                        IN Ans([s EXCEPT !.fs = r.files, !.held = Put(@, o.as, r.out)], r.out)
    [] o.op = "userdata" -> Ans([s EXCEPT !.held = Put(@, o.as, o.value)], None)
    [] o.op = "look" -> Ans(s, s.held[o.as])
    [] o.op = "write_file" -> Ans([s EXCEPT !.fs = Put(@, o.path, S(o.text))], None)
    [] o.op = "remove_file" -> Ans([s EXCEPT !.fs = Drop(@, o.path)], None)
    \* what was printed, as values or as one text; what log servers got
    [] o.op = "read_terminal" ->
         LET q == IF Has(s.fs, "<terminal>") THEN s.fs["<terminal>"].l ELSE <<>>
         IN Ans(s, IF o.text THEN S(PrintedText(q, 1)) ELSE L(q))
    [] o.op = "read_log" -> Ans(s, IF Has(s.fs, "<log>" \o o.server) THEN s.fs["<log>" \o o.server] ELSE L(<<>>))
    [] o.op = "read_file" -> Ans(s, IF Has(s.fs, o.path) THEN s.fs[o.path] ELSE [x |-> "missing"])
    \* the order directories list in is the system's choice
    [] o.op = "listdir" ->
         LET ok == IsL(seen) /\ Len(seen.l) = Cardinality(Below(s, o.path))
                   /\ \A k \in 1..Len(seen.l) : seen.l[k].s \in Below(s, o.path)
         IN Ans([s EXCEPT !.lists = Put(@, o.path, IF ok THEN [k \in 1..Len(seen.l) |-> seen.l[k].s] ELSE <<>>)],
                IF ok THEN seen ELSE [x |-> "listing"])
============================================================================
