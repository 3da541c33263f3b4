----------------------------- MODULE TtpValid -----------------------------
(* Comparison of two values, and validation of records against a schema.   *)
(* A difference is [c |-> kind of change, p |-> where, v |-> what it was   *)
(* and is]; a schema has the rules nullable, type, empty, allowed,         *)
(* forbidden, min, max, minlength, maxlength, required and schema.         *)
EXTENDS TtpVal, FiniteSets

\* ---- what differs between two values, and where
PyType(v) == [x |-> "type:<class '" \o (IF IsS(v) THEN "str" ELSE IF IsI(v) THEN "int" ELSE IF IsB(v) THEN "bool" ELSE IF IsNone(v) THEN "NoneType"
                                        ELSE IF IsL(v) THEN "list" ELSE "dict") \o "'>"]
AtKey(p, k) == p \o "['" \o k \o "']"
AtPos(p, k) == p \o "[" \o ToString(k - 1) \o "]"
RECURSIVE Diffs(_, _, _)
Diffs(a, b, p) ==
  IF a = b THEN {}
  ELSE IF DOMAIN a # DOMAIN b
  THEN {[c |-> "type_changes", p |-> p,
         v |-> D([old_type |-> PyType(a), new_type |-> PyType(b), old_value |-> a, new_value |-> b])]}
  ELSE IF IsD(a)
  THEN {[c |-> "dictionary_item_added", p |-> AtKey(p, k), v |-> b.d[k]] : k \in DOMAIN b.d \ DOMAIN a.d}
       \cup {[c |-> "dictionary_item_removed", p |-> AtKey(p, k), v |-> a.d[k]] : k \in DOMAIN a.d \ DOMAIN b.d}
       \cup UNION {Diffs(a.d[k], b.d[k], AtKey(p, k)) : k \in DOMAIN a.d \cap DOMAIN b.d}
  ELSE IF IsL(a)
  THEN {[c |-> "iterable_item_added", p |-> AtPos(p, k), v |-> b.l[k]] : k \in (Len(a.l) + 1)..Len(b.l)}
       \cup {[c |-> "iterable_item_removed", p |-> AtPos(p, k), v |-> a.l[k]] : k \in (Len(b.l) + 1)..Len(a.l)}
       \cup UNION {Diffs(a.l[k], b.l[k], AtPos(p, k)) : k \in 1..Min2(Len(a.l), Len(b.l))}
  ELSE {[c |-> "values_changed", p |-> p, v |-> D([old_value |-> a, new_value |-> b])]}
\* as shown: by kind, then place; full: with the values added and removed.  Places without values
\* are a set, which has the places as elements here
Changes(a, b, full) ==
  LET ds == Diffs(a, b, "root")
      of(c) == {x \in ds : x.c = c}
  IN D([c \in {x.c : x \in ds} |->
         IF c \in {"dictionary_item_added", "dictionary_item_removed"} /\ ~full
         THEN D([p \in {x.p : x \in of(c)} |-> None])
         ELSE D([p \in {x.p : x \in of(c)} |-> (CHOOSE x \in of(c) : x.p = p).v])])

\* ---- validation: what is wrong with each field, by field
TypeIs(t, v) ==
  CASE t = "string" -> IsS(v) [] t = "integer" -> IsI(v) [] t = "boolean" -> IsB(v) [] t = "list" -> IsL(v) [] t = "dict" -> IsD(v)
    [] t = "number" -> IsI(v) \/ (DOMAIN v = {"x"} /\ StartsWith(v.x, "float:")) [] OTHER -> FALSE
SizeOf(v) == IF IsS(v) THEN Len(v.s) ELSE IF IsL(v) THEN Len(v.l) ELSE IF IsD(v) THEN Cardinality(DOMAIN v.d) ELSE 0
Sized(v) == IsS(v) \/ IsL(v) \/ IsD(v)
ReprOf(v) == IF IsS(v) THEN ReprS(v.s) ELSE StrOf(v)
TupleOf(q) == "(" \o JoinSeq([k \in 1..Len(q) |-> ReprOf(q[k])], ", ") \o (IF Len(q) = 1 THEN "," ELSE "") \o ")"
Msg(on, text) == IF on THEN <<S(text)>> ELSE <<>>
\* messages about value v under the rules r, other than those of what v contains
Wrong(r, v) ==
  LET has(k) == Has(r, k)
      skip == has("empty") /\ Sized(v) /\ SizeOf(v) = 0
      out == SelectSeq(v.l, LAMBDA x : ~InSeq(r["allowed"].l, x))
  IN IF IsNone(v) THEN Msg(~(has("nullable") /\ r["nullable"].b), "null value not allowed")
     ELSE IF has("type") /\ ~TypeIs(r["type"].s, v) THEN <<S("must be of " \o r["type"].s \o " type")>>
     ELSE (IF ~has("allowed") \/ skip THEN <<>>
           ELSE IF IsL(v) THEN Msg(out # <<>>, "unallowed values " \o TupleOf(out))
           ELSE Msg(~InSeq(r["allowed"].l, v), "unallowed value " \o StrOf(v)))
          \o Msg(skip /\ ~r["empty"].b, "empty values not allowed")
          \o Msg(has("forbidden") /\ ~skip /\ ~IsL(v) /\ InSeq(r["forbidden"].l, v), "unallowed value " \o StrOf(v))
          \o Msg(has("max") /\ IsI(v) /\ v.i > r["max"].i, "max value is " \o StrOf(r["max"]))
          \o Msg(has("maxlength") /\ ~skip /\ Sized(v) /\ SizeOf(v) > r["maxlength"].i, "max length is " \o StrOf(r["maxlength"]))
          \o Msg(has("min") /\ IsI(v) /\ v.i < r["min"].i, "min value is " \o StrOf(r["min"]))
          \o Msg(has("minlength") /\ ~skip /\ Sized(v) /\ SizeOf(v) < r["minlength"].i, "min length is " \o StrOf(r["minlength"]))
RECURSIVE FieldErrors(_, _, _), Within(_, _, _)
\* by field of document d
FieldErrors(d, sch, allow) ==
  LET missing == {k \in DOMAIN sch \ DOMAIN d : Has(sch[k].d, "required") /\ sch[k].d["required"].b}
      of(k) == IF k \in missing THEN <<S("required field")>>
               ELSE IF ~Has(sch, k) THEN Msg(~allow, "unknown field")
               ELSE Wrong(sch[k].d, d[k]) \o Within(sch[k].d, d[k], allow)
  IN [k \in {j \in DOMAIN d \cup missing : of(j) # <<>>} |-> L(of(k))]
\* what is wrong further in, as one more item
Within(r, v, allow) ==
  IF ~Has(r, "schema") \/ (Has(r, "type") /\ ~TypeIs(r["type"].s, v)) THEN <<>>
  ELSE LET sub == IF IsD(v) THEN FieldErrors(v.d, r["schema"].d, allow)
                  ELSE IF IsL(v)
                  THEN LET of(k) == Wrong(r["schema"].d, v.l[k]) \o Within(r["schema"].d, v.l[k], allow)
                           bad == {k \in 1..Len(v.l) : of(k) # <<>>}
                       IN [key \in {"<int>" \o ToString(k - 1) : k \in bad} |->
                             L(of(CHOOSE k \in bad : "<int>" \o ToString(k - 1) = key))]
                  ELSE EmptyFn
       IN IF sub = EmptyFn THEN <<>> ELSE <<D(sub)>>
============================================================================
