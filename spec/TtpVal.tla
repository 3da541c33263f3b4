------------------------------ MODULE TtpVal ------------------------------
(* Result values.  Every value is a one-field record whose field name is   *)
(* its kind, so values of different kinds compare unequal instead of being *)
(* a type error:                                                           *)
(*   [s |-> text] [i |-> integer] [b |-> BOOLEAN] [z |-> 0] (None)         *)
(*   [l |-> sequence of values]   [d |-> function from keys to values]     *)
(*   [x |-> text]  (any other value, by its printed form)                  *)
EXTENDS TtpStr

S(v) == [s |-> v]
I(v) == [i |-> v]
B(v) == [b |-> v]
L(v) == [l |-> v]
D(v) == [d |-> v]
None == [z |-> 0]
EmptyFn == [k \in {} |-> 0]
EmptyD == [d |-> EmptyFn]

IsS(v) == DOMAIN v = {"s"}
IsI(v) == DOMAIN v = {"i"}
IsB(v) == DOMAIN v = {"b"}
IsL(v) == DOMAIN v = {"l"}
IsD(v) == DOMAIN v = {"d"}
IsNone(v) == DOMAIN v = {"z"}

Has(f, k) == k \in DOMAIN f
Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]
DropAll(f, ks) == [j \in DOMAIN f \ ks |-> f[j]]
\* right operand wins, like dict.update
Update(f, g) == g @@ f
Get(f, k, dflt) == IF Has(f, k) THEN f[k] ELSE dflt

\* str(v) for the kinds that can be printed into text
\* (dictionaries have no order here: as if their keys had been written in the order of their texts)
AsciiText == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiRank == [c \in {Chr(AsciiText, k) : k \in 1..Len(AsciiText)} |-> CHOOSE k \in 1..Len(AsciiText) : Chr(AsciiText, k) = c]
RECURSIVE LessS(_, _, _)
LessS(a, b, k) == IF k > Len(b) THEN FALSE ELSE IF k > Len(a) THEN TRUE
                  ELSE IF Chr(a, k) = Chr(b, k) THEN LessS(a, b, k + 1) ELSE AsciiRank[Chr(a, k)] < AsciiRank[Chr(b, k)]
RECURSIVE KeysInOrder(_)
KeysInOrder(ks) == IF ks = {} THEN <<>>
               ELSE LET m == CHOOSE k \in ks : \A j \in ks : j = k \/ LessS(k, j, 1) IN <<m>> \o KeysInOrder(ks \ {m})
RECURSIVE StrOf(_)
ReprS(t) == IF ContainsStr(t, "'") /\ ~ContainsStr(t, "\"") THEN "\"" \o t \o "\"" ELSE "'" \o t \o "'"
StrOf(v) == IF IsS(v) THEN v.s
            ELSE IF IsI(v) THEN ToString(v.i)
            ELSE IF IsB(v) THEN (IF v.b THEN "True" ELSE "False")
            ELSE IF IsNone(v) THEN "None"
            ELSE IF IsL(v) THEN "[" \o JoinSeq([k \in 1..Len(v.l) |-> IF IsS(v.l[k]) THEN ReprS(v.l[k].s) ELSE StrOf(v.l[k])], ", ") \o "]"
            ELSE IF IsD(v) THEN LET ks == KeysInOrder(DOMAIN v.d)
                                IN "{" \o JoinSeq([k \in 1..Len(ks) |-> (IF StartsWith(ks[k], "<int>") THEN From(ks[k], 6) ELSE ReprS(ks[k])) \o ": "
                                     \o (IF IsS(v.d[ks[k]]) THEN ReprS(v.d[ks[k]].s) ELSE StrOf(v.d[ks[k]]))], ", ") \o "}"
            ELSE IF DOMAIN v = {"x"} THEN From(v.x, IndexFrom(v.x, ":", 1) + 1) ELSE "?"
\* Python truth value
Truthy(v) == IF IsS(v) THEN v.s # ""
             ELSE IF IsI(v) THEN v.i # 0
             ELSE IF IsB(v) THEN v.b
             ELSE IF IsNone(v) THEN FALSE
             ELSE IF IsL(v) THEN v.l # <<>>
             ELSE IF IsD(v) THEN DOMAIN v.d # {}
             ELSE TRUE
\* the number a text stands for, if it does
NumOf(v) == IF IsB(v) THEN I(IF v.b THEN 1 ELSE 0)
            ELSE IF ~IsS(v) THEN v
            ELSE IF IntLit(v.s) THEN I(StrToInt(v.s))
            ELSE IF DecLit(v.s) THEN [x |-> "float:" \o DecText(v.s)] ELSE v
Min2(a, b) == IF a < b THEN a ELSE b
InSeq(q, x) == \E k \in 1..Len(q) : q[k] = x
SetLast(q, v) == [q EXCEPT ![Len(q)] = v]
Last(q) == q[Len(q)]
RECURSIVE FlatSeq(_)
FlatSeq(q) == IF q = <<>> THEN <<>> ELSE q[1] \o FlatSeq(Tail(q))
RECURSIVE StrSeq(_)
StrSeq(q) == IF q = <<>> THEN <<>> ELSE <<S(q[1])>> \o StrSeq(Tail(q))
============================================================================
