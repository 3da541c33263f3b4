------------------------------ MODULE TtpTree ------------------------------
(* Placement of records in the result tree.  A resolved path is a sequence *)
(* of [n |-> name, star |-> 0..2]; "_" is the null item.                   *)
EXTENDS TtpVal

KeyOf(name, toint) == IF toint /\ AllDigits(name) THEN "<int>" \o ToString(StrToNat(name)) ELSE name

\* the branch a path creates: "*" makes a list, everything else dictionaries
RECURSIVE Fwd(_, _)
Fwd(path, ti) ==
  IF path = <<>> THEN EmptyD
  ELSE IF path[1].n = "_" THEN Fwd(Tail(path), ti)
  ELSE LET key == KeyOf(path[1].n, ti) IN
       IF path[1].star = 1
       THEN D(key :> IF Len(path) = 1 THEN L(<<>>) ELSE L(<<Fwd(Tail(path), ti)>>))
       ELSE D(key :> Fwd(Tail(path), ti))

\* merge of new data into an element, key by key, dictionaries recursively
RECURSIVE Merge(_, _)
Merge(e, r) ==
  IF ~IsD(e) \/ ~IsD(r) THEN r
  ELSE D([k \in DOMAIN e.d \cup DOMAIN r.d |->
            IF k \notin DOMAIN r.d THEN e.d[k]
            ELSE IF k \in DOMAIN e.d /\ Truthy(e.d[k]) /\ IsD(r.d[k]) THEN Merge(e.d[k], r.d[k])
            ELSE r.d[k]])

\* what saving record r does to the element E its path leads to
Place(E, r, mwl, last) ==
  IF IsL(E)
  THEN IF ~Truthy(r) THEN E
       ELSE IF mwl THEN (IF E.l = <<>> THEN L(<<r>>) ELSE L(SetLast(E.l, Merge(Last(E.l), r))))
       ELSE L(Append(E.l, r))
  ELSE IF IsD(E)
  THEN IF mwl THEN Merge(E, r)
       ELSE IF last.star = 2 THEN D(Update(r.d, E.d))      \* "**": one dictionary, first value wins
       ELSE IF last.n = "_" THEN D(Update(E.d, r.d))       \* null item: merged into the parent
       ELSE IF E.d # EmptyFn THEN L(<<E, r>>)              \* second record: dictionary becomes a list
       ELSE r
  ELSE E

\* walk to the element at path (creating what is missing, through the last
\* item of lists) and replace it by what Place yields
RECURSIVE SaveAt(_, _, _, _, _, _)
SaveAt(E, path, r, mwl, last, ti) ==
  IF path = <<>> THEN Place(E, r, mwl, last)
  ELSE IF IsD(E)
  THEN IF path[1].n = "_" THEN SaveAt(E, Tail(path), r, mwl, last, ti)
       ELSE LET key == KeyOf(path[1].n, ti)
                E2 == IF Has(E.d, key) THEN E ELSE D(Update(E.d, Fwd(path, ti).d))
            IN D([E2.d EXCEPT ![key] = SaveAt(@, Tail(path), r, mwl, last, ti)])
  ELSE IF IsL(E)
  THEN LET q == IF E.l = <<>> THEN <<Fwd(path, ti)>> ELSE E.l
       IN L(SetLast(q, SaveAt(Last(q), path, r, mwl, last, ti)))
  ELSE E                                                   \* a leaf is never overwritten

\* the element at path, with what is missing created
RECURSIVE ElemAt(_, _, _)
ElemAt(E, path, ti) ==
  IF path = <<>> THEN E
  ELSE IF IsD(E)
  THEN IF path[1].n = "_" THEN ElemAt(E, Tail(path), ti)
       ELSE LET key == KeyOf(path[1].n, ti)
                E2 == IF Has(E.d, key) THEN E ELSE D(Update(E.d, Fwd(path, ti).d))
            IN ElemAt(E2.d[key], Tail(path), ti)
  ELSE IF IsL(E)
  THEN IF E.l = <<>> THEN ElemAt(Fwd(path, ti), path, ti) ELSE ElemAt(Last(E.l), path, ti)
  ELSE E
RECURSIVE Touch(_, _, _)   \* only create what is missing
Touch(E, path, ti) ==
  IF path = <<>> THEN E
  ELSE IF IsD(E)
  THEN IF path[1].n = "_" THEN Touch(E, Tail(path), ti)
       ELSE LET key == KeyOf(path[1].n, ti)
                E2 == IF Has(E.d, key) THEN E ELSE D(Update(E.d, Fwd(path, ti).d))
            IN D([E2.d EXCEPT ![key] = Touch(@, Tail(path), ti)])
  ELSE IF IsL(E)
  THEN LET q == IF E.l = <<>> THEN <<Fwd(path, ti)>> ELSE E.l
       IN L(SetLast(q, Touch(Last(q), path, ti)))
  ELSE E
\* a later part of a record already saved: together with its earlier part
LastElem(E) == IF IsL(E) THEN (IF E.l = <<>> THEN EmptyD ELSE Last(E.l)) ELSE E

-----------------------------------------------------------------------------
(* dynamic paths: {{ name }} is replaced by the record's value (which moves *)
(* out of the record), else by the last value used for that name, else by  *)
(* a template variable; a path that cannot be completed discards the record *)
RECURSIVE FormParts(_, _, _, _, _, _)
FormParts(parts, k, acc, d, cache, vars) ==
  IF k > Len(parts) THEN [ok |-> TRUE, txt |-> acc, d |-> d, cache |-> cache]
  ELSE LET p == parts[k] IN
    IF p.k = "lit" THEN FormParts(parts, k + 1, acc \o p.v, d, cache, vars)
    ELSE IF Has(d, p.v)
         THEN FormParts(parts, k + 1, acc \o StrOf(d[p.v]), Drop(d, p.v), Put(cache, p.v, d[p.v]), vars)
    ELSE IF Has(cache, p.v) THEN FormParts(parts, k + 1, acc \o StrOf(cache[p.v]), d, cache, vars)
    ELSE IF Has(vars, p.v) THEN FormParts(parts, k + 1, acc \o StrOf(vars[p.v]), d, cache, vars)
    ELSE [ok |-> FALSE, txt |-> "", d |-> d, cache |-> cache]
RECURSIVE FormPath(_, _, _, _, _, _)
FormPath(items, k, acc, d, cache, vars) ==
  IF k > Len(items) THEN [ok |-> items # <<>>, path |-> acc, d |-> d, cache |-> cache]
  ELSE LET r == FormParts(items[k].parts, 1, "", d, cache, vars) IN
       IF ~r.ok THEN [ok |-> FALSE, path |-> acc, d |-> r.d, cache |-> r.cache]
       ELSE FormPath(items, k + 1, Append(acc, [n |-> r.txt, star |-> items[k].star]), r.d, r.cache, vars)
============================================================================
