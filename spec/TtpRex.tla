------------------------------ MODULE TtpRex ------------------------------
(* Backtracking matcher for the regular expressions template lines are     *)
(* made of.  Ends(e, s, i) is the sequence of positions at which e can     *)
(* stop when it starts at position i of s, in the order a backtracking     *)
(* engine tries them (greedy first, first alternative first), without      *)
(* repetitions: what follows depends on the position only.                 *)
(*   [k |-> "lit", v |-> text]         [k |-> "cls", v |-> class name]     *)
(*   [k |-> "set", v |-> text]         (any one character of v)            *)
(*   [k |-> "seq", v |-> <<e...>>]     [k |-> "alt", v |-> <<e...>>]       *)
(*   [k |-> "rep", e |-> e, lo |-> n, hi |-> n or 0 for no limit,          *)
(*    lazy |-> BOOLEAN]                                                    *)
EXTENDS TtpVal, FiniteSets

InClass(c, name) ==
  CASE name = "S" -> c \notin SpaceChars          \* \S
    [] name = "any" -> c # "\n"                   \* .
    [] name = "d" -> c \in AnyDigitChars             \* \d
    [] name = "hex" -> c \in HexChars             \* [0-9a-fA-F]
    [] name = "sp" -> c = " "
    [] name = "ws" -> c \in {" ", "\t"}           \* [ \t]
    [] name = "alpha" -> IsAlphaC(c)              \* [a-zA-Z]
    [] name = "w" -> IsAlphaC(c) \/ c \in AnyDigitChars \cup WideLetters \cup {"_"}

RECURSIVE DedupFrom(_, _, _)
DedupFrom(q, i, acc) ==
  IF i > Len(q) THEN acc
  ELSE IF \E j \in 1..Len(acc) : acc[j] = q[i] THEN DedupFrom(q, i + 1, acc)
  ELSE DedupFrom(q, i + 1, Append(acc, q[i]))
Dedup(q) == DedupFrom(q, 1, <<>>)

RECURSIVE RunEnd(_, _, _)   \* end of the run of class characters from i
RunEnd(name, s, i) == IF i <= Len(s) /\ InClass(Chr(s, i), name) THEN RunEnd(name, s, i + 1) ELSE i
DownTo(a, b) == [j \in 1..(IF a >= b THEN a - b + 1 ELSE 0) |-> a - j + 1]
UpToSeq(a, b) == [j \in 1..(IF b >= a THEN b - a + 1 ELSE 0) |-> a + j - 1]

RECURSIVE Ends(_, _, _), SeqEnds(_, _, _, _), AltEnds(_, _, _, _),
          RepEnds(_, _, _, _, _, _), ThenAll(_, _, _, _), RepAll(_, _, _, _, _, _, _)
Ends(e, s, i) ==
  CASE e.k = "lit" -> IF i + Len(e.v) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(e.v) - 1) = e.v
                      THEN <<i + Len(e.v)>> ELSE <<>>
    [] e.k = "cls" -> IF i <= Len(s) /\ InClass(Chr(s, i), e.v) THEN <<i + 1>> ELSE <<>>
    [] e.k = "set" -> IF i <= Len(s) /\ Chr(s, i) \in CharSet(e.v) THEN <<i + 1>> ELSE <<>>
    [] e.k = "seq" -> SeqEnds(e.v, 1, s, i)
    [] e.k = "alt" -> Dedup(AltEnds(e.v, 1, s, i))
    [] e.k = "rep" ->
         IF e.e.k = "cls"
         THEN LET r == RunEnd(e.e.v, s, i)
                  top == IF e.hi = 0 THEN r ELSE Min2(r, i + e.hi)
              IN IF e.lazy THEN UpToSeq(i + e.lo, top) ELSE DownTo(top, i + e.lo)
         ELSE Dedup(RepEnds(e.e, e.lo, e.hi, e.lazy, s, i))
SeqEnds(es, n, s, i) ==
  IF n > Len(es) THEN <<i>>
  ELSE Dedup(ThenAll(Ends(es[n], s, i), es, n, s))
\* continue with es[n+1..] from each position, in order
ThenAll(ps, es, n, s) ==
  IF ps = <<>> THEN <<>> ELSE SeqEnds(es, n + 1, s, ps[1]) \o ThenAll(Tail(ps), es, n, s)
AltEnds(es, n, s, i) == IF n > Len(es) THEN <<>> ELSE Ends(es[n], s, i) \o AltEnds(es, n + 1, s, i)
RepEnds(e, lo, hi, lazy, s, i) ==
  LET stop == IF lo = 0 THEN <<i>> ELSE <<>>
      more == IF hi = 1 \/ (lo = 0 /\ i > Len(s)) THEN
                 (IF hi = 1 THEN Ends(e, s, i) ELSE <<>>)
              ELSE RepAll(Ends(e, s, i), e, lo, hi, lazy, s, i)
  IN IF lazy THEN stop \o more ELSE more \o stop
RepAll(ps, e, lo, hi, lazy, s, i) ==
  IF ps = <<>> THEN <<>>
  ELSE (IF ps[1] = i /\ lo = 0 THEN <<>>   \* an empty iteration does not repeat
        ELSE RepEnds(e, IF lo = 0 THEN 0 ELSE lo - 1, IF hi = 0 THEN 0 ELSE hi - 1, lazy, s, ps[1]))
       \o RepAll(Tail(ps), e, lo, hi, lazy, s, i)

Lit(v) == [k |-> "lit", v |-> v]
Cls(v) == [k |-> "cls", v |-> v]
Sq(v) == [k |-> "seq", v |-> v]
Alt(v) == [k |-> "alt", v |-> v]
Rep(e, lo, hi, lz) == [k |-> "rep", e |-> e, lo |-> lo, hi |-> hi, lazy |-> lz]
Plus(c) == Rep(Cls(c), 1, 0, FALSE)

\* the named patterns of the documentation
PWord == Plus("S")
PPhrase == Sq(<<Rep(Sq(<<Plus("S"), Lit(" ")>>), 1, 0, TRUE), Plus("S")>>)
PRow == Sq(<<Rep(Sq(<<Plus("S"), Plus("sp")>>), 1, 0, TRUE), Plus("S")>>)
POctet == Rep(Cls("d"), 1, 3, FALSE)
PIp == Sq(<<Rep(Sq(<<POctet, Lit(".")>>), 3, 3, FALSE), POctet>>)
PV6 == Sq(<<Rep(Alt(<<Sq(<<Rep(Cls("hex"), 1, 4, FALSE), Lit(":")>>), Lit(":")>>), 1, 7, FALSE),
            Alt(<<Rep(Cls("hex"), 1, 4, FALSE), Rep(Lit(":"), 0, 1, FALSE)>>)>>)
MacSep == [k |-> "set", v |-> ":.-"]
Hex2 == Rep(Cls("hex"), 2, 2, FALSE)
Hex4 == Rep(Cls("hex"), 4, 4, FALSE)
PMac == Alt(<<Sq(<<Rep(Sq(<<Hex2, MacSep>>), 5, 5, FALSE), Hex2>>),
              Sq(<<Rep(Sq(<<Hex4, MacSep>>), 2, 2, FALSE), Hex4>>)>>)
Pattern(name) ==
  CASE name = "WORD" -> PWord
    [] name = "PHRASE" -> PPhrase
    [] name = "ROW" -> PRow
    [] name = "ORPHRASE" -> Alt(<<PWord, PPhrase>>)
    [] name = "DIGIT" -> Plus("d")
    [] name = "IP" -> PIp
    [] name = "PREFIX" -> Sq(<<PIp, Lit("/"), Rep(Cls("d"), 1, 2, FALSE)>>)
    [] name = "IPV6" -> PV6
    [] name = "PREFIXV6" -> Sq(<<PV6, Lit("/"), Rep(Cls("d"), 1, 3, FALSE)>>)
    [] name = "MAC" -> PMac
    [] name = "_line_" -> Plus("any")
============================================================================
