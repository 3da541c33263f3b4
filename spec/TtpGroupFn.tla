------------------------------ MODULE TtpGroupFn ------------------------------
(* Group functions: run in order on a completed record; the first False    *)
(* discards it.  GFn yields [ok, r |-> record value, cx, items, cache,     *)
(* save |-> extra placements, tree |-> results of this input so far].      *)
EXTENDS TtpFn, TtpTree, TtpValid

GRet(g, r, ok) == [g EXCEPT !.r = r, !.ok = ok]
GHas(g, k) == IsD(g.r) /\ Has(g.r.d, k)
GArg(c, n, k, dflt) == ArgOf(c, n, k, dflt)
ValArg(v, cx) == IF IsS(v) /\ Has(cx.vars, v.s) THEN cx.vars[v.s] ELSE v
Names(c) == {c.a[n].s : n \in 1..Len(c.a)}
\* present with a value of its own, not the one filled in by default
Own(g, k) == GHas(g, k) /\ ~(Has(g.defs, k) /\ g.defs[k] = g.r.d[k])

\* "...{name}..." formatting
RECURSIVE Fmt(_, _, _)
Fmt(parts, k, d) == IF k > Len(parts) THEN ""
                    ELSE (IF parts[k].k = "lit" THEN parts[k].v ELSE StrOf(d[parts[k].v])) \o Fmt(parts, k + 1, d)
FmtNames(parts) == {parts[k].v : k \in {j \in 1..Len(parts) : parts[j].k = "var"}}

GMacroApply(name, g) ==
  CASE name = "g_false" -> GRet(g, g.r, FALSE)
    [] name = "g_true" -> GRet(g, g.r, TRUE)
    [] name = "g_none" -> GRet(g, g.r, TRUE)
    [] name = "g_add" -> GRet(g, D(Put(g.r.d, "added", S("by_macro"))), TRUE)
    [] name = "g_count" -> GRet(g, D(Put(g.r.d, "nkeys", I(Cardinality(DOMAIN g.r.d)))), TRUE)
    [] name = "g_new" -> GRet(g, D([only |-> S("new")]), TRUE)
    [] name = "g_nest" -> GRet(g, D([texts |-> D([k \in {k \in DOMAIN g.r.d : IsS(g.r.d[k])} |-> g.r.d[k]])]), TRUE)
    [] name = "g_hasb" -> IF GHas(g, "b") THEN GRet(g, g.r, TRUE) ELSE GRet(g, g.r, FALSE)
    [] OTHER -> GRet(g, g.r, TRUE)
RECURSIVE GMacros(_, _, _)
GMacros(ns, k, g) ==
  IF k > Len(ns) THEN g
  ELSE LET r == IF Has(g.cx.macros, ns[k]) THEN GMacroApply(g.cx.macros[ns[k]], g) ELSE g
       IN IF ~r.ok THEN r ELSE GMacros(ns, k + 1, r)

RECURSIVE ExpandInto(_, _, _)
ExpandInto(t, keys, v) ==
  IF Len(keys) = 1 THEN D(Put(t.d, keys[1], v))
  ELSE LET sub == IF Has(t.d, keys[1]) THEN t.d[keys[1]] ELSE EmptyD
       IN D(Put(t.d, keys[1], IF IsD(sub) THEN ExpandInto(sub, Tail(keys), v) ELSE sub))
RECURSIVE ExpandAll(_, _, _)
ExpandAll(ks, d, t) == IF ks = {} THEN t
                       ELSE LET k == CHOOSE x \in ks : TRUE
                            IN ExpandAll(ks \ {k}, d, ExpandInto(t, SplitOn(k, "."), d[k]))

\* functions added by the user (driver/custfns.py)
GCustApply(id, g, c) ==
  CASE id = "cg_tag" -> GRet(g, D(Put(g.r.d, "tag", IF Len(c.a) > 0 THEN c.a[1] ELSE KwOf(c, "tag", S("none")))), TRUE)
    [] id = "cg_false" -> GRet(g, g.r, FALSE)
    [] id = "cg_up" -> GRet(g, D([k \in DOMAIN g.r.d |-> IF IsS(g.r.d[k]) THEN S(Upper(g.r.d[k].s)) ELSE g.r.d[k]]), TRUE)
    [] OTHER -> GRet(g, g.r, TRUE)
GLookupTable(c, g) ==
  IF Has(c.kw, "group")
  THEN LET q == SplitOn(c.kw["group"].s, ".")
           own == IF IsL(g.cx.own) THEN g.cx.own.l ELSE <<>>
       IN Walk(IF IsD(g.tree) /\ Has(g.tree.d, q[1]) THEN g.tree.d[q[1]] ELSE FirstWith(own, 1, q[1]), Tail(q), 1)
  ELSE LookupTable(c, g.cx, 2)

GFn(c, g) ==
  LET r == g.r  d == g.r.d IN
  CASE Has(g.cx.cust, "group." \o c.f) -> GCustApply(g.cx.cust["group." \o c.f], g, c)
    [] c.f = "contains" -> GRet(g, r, \E k \in Names(c) : Own(g, k))
    [] c.f = "containsall" -> GRet(g, r, \A k \in Names(c) : Own(g, k))
    [] c.f = "exclude" -> GRet(g, r, ~\E k \in Names(c) : Own(g, k))
    [] c.f = "excludeall" -> GRet(g, r, ~\A k \in Names(c) : Own(g, k))
    [] c.f = "equal" ->
         LET k == GArg(c, 1, "key", None).s  v == ValArg(GArg(c, 2, "value", None), g.cx)
         IN GRet(g, r, GHas(g, k) /\ d[k] = v)
    [] c.f = "contains_val" ->
         LET k == GArg(c, 1, "key", None).s  v == ValArg(GArg(c, 2, "value", None), g.cx)
         IN GRet(g, r, IF GHas(g, k) THEN InVal(v, d[k]) ELSE v.s = "")
    [] c.f = "exclude_val" ->
         LET k == GArg(c, 1, "key", None).s  v == ValArg(GArg(c, 2, "value", None), g.cx)
         IN GRet(g, r, ~(GHas(g, k) /\ d[k] = v))
    [] c.f = "void" -> GRet(g, r, FALSE)
    [] c.f = "del" -> GRet(g, D(DropAll(d, Names(c))), TRUE)
    [] c.f = "set" ->
         LET src == GArg(c, 1, "source", None)
             tgt == GArg(c, 2, "target", src)
             v == IF Has(g.cx.vars, src.s) THEN g.cx.vars[src.s]
                  ELSE IF Has(g.cx.gvars, src.s) THEN g.cx.gvars[src.s]
                  ELSE GArg(c, 3, "default", src)
         IN GRet(g, D(Put(d, tgt.s, v)), TRUE)
    [] c.f = "record" ->
         LET src == GArg(c, 1, "source", None).s
             tgt == GArg(c, 2, "target", S(src)).s
         IN IF ~GHas(g, src) THEN GRet(g, r, TRUE)
            ELSE [g EXCEPT !.ok = TRUE, !.cx = [@ EXCEPT !.vars = Put(@, tgt, d[src]), !.gvars = Put(@, tgt, d[src])]]
    [] c.f = "sformat" ->
         LET all == Update(Update(g.cx.gvars, g.cx.vars), d)
         IN IF FmtNames(c.fmt) \subseteq DOMAIN all
            THEN GRet(g, D(Put(d, GArg(c, 2, "add_field", None).s, S(Fmt(c.fmt, 1, all)))), TRUE)
            ELSE GRet(g, r, TRUE)
    [] c.f = "to_int" ->
         LET ks == IF c.a = <<>> THEN DOMAIN d ELSE Names(c)
             il == KwOf(c, "intlist", B(FALSE)).b
         IN GRet(g, D([k \in DOMAIN d |->
                IF k \notin ks THEN d[k]
                ELSE IF il /\ IsL(d[k]) THEN L([j \in 1..Len(d[k].l) |-> NumOf(d[k].l[j])])
                ELSE NumOf(d[k])]), TRUE)
    [] c.f = "expand" -> GRet(g, ExpandAll(DOMAIN d, d, EmptyD), TRUE)
    [] c.f = "items2dict" ->
         LET kn == GArg(c, 1, "key_name", None).s  vn == GArg(c, 2, "value_name", None).s
         IN IF ~(GHas(g, kn) /\ GHas(g, vn)) THEN GRet(g, r, FALSE)
            ELSE GRet(g, D(Put(DropAll(d, {kn, vn}), StrOf(d[kn]), d[vn])), TRUE)
    [] c.f = "itemize" ->
         LET k == GArg(c, 1, "key", None).s IN
         IF ~GHas(g, k) THEN GRet(g, r, FALSE)
         ELSE IF "items" \in DOMAIN c     \* an explicit path: saved there, the record stays
         THEN [g EXCEPT !.ok = TRUE, !.cache = Update(@, d), !.save = Append(@, [items |-> c.items, v |-> d[k]])]
         ELSE [g EXCEPT !.ok = TRUE, !.cache = Update(@, d), !.r = d[k],
                        !.items = SetLast(@, [Last(@) EXCEPT !.star = 1])]
    [] c.f = "to_ip" ->
         LET k == GArg(c, 1, "ip_key", None).s  m == GArg(c, 2, "mask_key", None).s IN
         IF ~GHas(g, k) \/ ~GHas(g, m) THEN GRet(g, r, TRUE)
         ELSE LET a == IpOf(StrOf(d[k]) \o "/" \o StrOf(d[m]), <<>>)
              IN GRet(g, IF a.ok THEN D(Put(d, k, NetVal(a))) ELSE r, TRUE)
    [] c.f = "cerberus" ->
         LET sn == GArg(c, 1, "schema", None).s
             errs == FieldErrors(d, g.cx.vars[sn].d, KwOf(c, "allow_unknown", B(TRUE)).b)
         IN IF ~Has(g.cx.vars, sn) \/ errs = EmptyFn THEN GRet(g, r, TRUE)
            ELSE IF KwOf(c, "add_errors", B(FALSE)).b THEN GRet(g, D(Put(d, "validation_errors", D(errs))), TRUE)
            ELSE GRet(g, r, FALSE)
    [] c.f = "validate" ->
         LET sn == GArg(c, 1, "schema", None).s
             errs == FieldErrors(d, g.cx.vars[sn].d, KwOf(c, "allow_unknown", B(TRUE)).b)
             d1 == Put(d, KwOf(c, "result", S("valid")).s, B(errs = EmptyFn))
             all == Update(Update(g.cx.gvars, g.cx.vars), d1)
             en == KwOf(c, "errors", S(""))
             d2 == IF KwOf(c, "info", S("")) = S("") \/ ~(FmtNames(c.fmt) \subseteq DOMAIN all) THEN d1
                   ELSE Put(d1, "info", S(Fmt(c.fmt, 1, all)))
         IN IF ~Has(g.cx.vars, sn) THEN GRet(g, r, TRUE)
            ELSE GRet(g, D(IF en = S("") THEN d2 ELSE Put(d2, en.s, D(errs))), TRUE)
    [] c.f = "macro" -> GMacros(c.names, 1, [g EXCEPT !.ok = TRUE])
    [] c.f = "lookup" ->
         LET k == GArg(c, 1, "key", None).s
             t == GLookupTable(c, g)
             af == KwOf(c, "add_field", B(FALSE))
             hit == GHas(g, k) /\ IsD(t) /\ CanKey(d[k]) /\ Has(t.d, HashKey(d[k]))
             fv == t.d[HashKey(d[k])]
         IN IF ~hit THEN GRet(g, r, TRUE)
            ELSE IF IsS(af) THEN GRet(g, D(Put(d, af.s, fv)), TRUE)
            ELSE IF KwOf(c, "update", B(FALSE)).b /\ IsD(fv) THEN GRet(g, D(Update(d, fv.d)), TRUE)
            ELSE IF KwOf(c, "replace", B(TRUE)).b THEN GRet(g, D(Put(d, k, fv)), TRUE)
            ELSE GRet(g, r, TRUE)
    \* a function nobody knows changes nothing
    [] OTHER -> GRet(g, r, TRUE)
============================================================================
