------------------------------ MODULE TtpStr ------------------------------
(* Text primitives.  TLC strings support Len, SubSeq and \o, so text is    *)
(* handled one character (a length-1 string) at a time.                    *)
EXTENDS Naturals, Integers, Sequences, TLC, Json

Chr(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)

DigitChars == {"0","1","2","3","4","5","6","7","8","9"}
HexChars == DigitChars \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}
\* characters this file cannot contain, as used in texts
Wide == JsonDeserialize("chars.json")
WideOf(q) == {q[k] : k \in 1..Len(q)}
SpaceChars == {" ", "\t", "\r", "\n", "\f"} \cup WideOf(Wide.space)
AnyDigitChars == DigitChars \cup WideOf(Wide.digit)
WideLetters == WideOf(Wide.letter)
IsDigitC(c) == c \in DigitChars

LowerSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m",
              "n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M",
              "N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
ToUp == [c \in {LowerSeq[i] : i \in 1..26} |->
           UpperSeq[CHOOSE i \in 1..26 : LowerSeq[i] = c]]
ToLo == [c \in {UpperSeq[i] : i \in 1..26} |->
           LowerSeq[CHOOSE i \in 1..26 : UpperSeq[i] = c]]
WideUp == [c \in WideOf(Wide.lower) |-> Wide.upper[CHOOSE k \in 1..Len(Wide.lower) : Wide.lower[k] = c]]
WideLo == [c \in WideOf(Wide.upper) |-> Wide.lower[CHOOSE k \in 1..Len(Wide.upper) : Wide.upper[k] = c]]
UpMap == ToUp @@ WideUp
LoMap == ToLo @@ WideLo
UpC(c) == IF c \in DOMAIN UpMap THEN UpMap[c] ELSE c
LoC(c) == IF c \in DOMAIN LoMap THEN LoMap[c] ELSE c
IsAlphaC(c) == c \in DOMAIN ToUp \/ c \in DOMAIN ToLo

RECURSIVE MapStr(_, _, _)   \* M maps some characters, the others stay
MapStr(M, s, i) == IF i > Len(s) THEN ""
                   ELSE LET c == Chr(s, i) IN (IF c \in DOMAIN M THEN M[c] ELSE c) \o MapStr(M, s, i + 1)
Upper(s) == MapStr(UpMap, s, 1)
Lower(s) == MapStr(LoMap, s, 1)
SwapCase(s) == MapStr(UpMap @@ LoMap, s, 1)
Capitalize(s) == IF s = "" THEN "" ELSE UpC(Chr(s, 1)) \o Lower(From(s, 2))
RECURSIVE TitleFrom(_, _, _)
TitleFrom(s, i, prevAlpha) ==
  IF i > Len(s) THEN "" ELSE
  LET c == Chr(s, i)
  IN (IF prevAlpha THEN LoC(c) ELSE UpC(c)) \o TitleFrom(s, i + 1, IsAlphaC(c) \/ c \in WideLetters)
Title(s) == TitleFrom(s, 1, FALSE)

StartsWith(s, t) == Len(t) <= Len(s) /\ SubSeq(s, 1, Len(t)) = t
EndsWith(s, t) == Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t

\* index of the first occurrence of t in s at or after position i, or 0
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, t, i) ==
  IF i + Len(t) - 1 > Len(s) THEN 0
  ELSE IF SubSeq(s, i, i + Len(t) - 1) = t THEN i
  ELSE IndexFrom(s, t, i + 1)
ContainsStr(s, t) == t = "" \/ IndexFrom(s, t, 1) # 0

RECURSIVE ReplaceN(_, _, _, _)   \* first n occurrences (n < 0: all); old # ""
ReplaceN(s, old, new, n) ==
  LET p == IndexFrom(s, old, 1)
  IN IF n = 0 \/ p = 0 THEN s
     ELSE Upto(s, p - 1) \o new \o ReplaceN(From(s, p + Len(old)), old, new, n - 1)
ReplaceAll(s, old, new) == ReplaceN(s, old, new, -1)

RECURSIVE SplitOn(_, _)
SplitOn(s, sep) ==
  LET p == IndexFrom(s, sep, 1)
  IN IF p = 0 THEN <<s>>
     ELSE <<Upto(s, p - 1)>> \o SplitOn(From(s, p + Len(sep)), sep)

RECURSIVE JoinSeq(_, _)
JoinSeq(q, sep) ==
  IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1]
  ELSE q[1] \o sep \o JoinSeq(Tail(q), sep)

RECURSIVE LStripSet(_, _)
LStripSet(s, S) == IF s # "" /\ Chr(s, 1) \in S THEN LStripSet(From(s, 2), S) ELSE s
RECURSIVE RStripSet(_, _)
RStripSet(s, S) == IF s # "" /\ Chr(s, Len(s)) \in S THEN RStripSet(Upto(s, Len(s) - 1), S) ELSE s
StripSet(s, S) == RStripSet(LStripSet(s, S), S)
LStrip(s) == LStripSet(s, SpaceChars)
RStrip(s) == RStripSet(s, SpaceChars)
Strip(s) == StripSet(s, SpaceChars)
CharSet(s) == {Chr(s, i) : i \in 1..Len(s)}

\* str.split() without arguments
RECURSIVE WordsFrom(_, _)
WordsFrom(q, i) == IF i > Len(q) THEN <<>>
                   ELSE (IF q[i] = "" THEN <<>> ELSE <<q[i]>>) \o WordsFrom(q, i + 1)
Words(s) == WordsFrom(SplitOn(MapStr([c \in SpaceChars |-> " "], s, 1), " "), 1)

AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : IsDigitC(Chr(s, i))
DigitVal == [c \in DigitChars |-> CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2
   [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
   [] c = "8" -> 8 [] c = "9" -> 9]
RECURSIVE NatFrom(_, _, _)
NatFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE NatFrom(s, i + 1, acc * 10 + DigitVal[Chr(s, i)])
StrToNat(s) == NatFrom(s, 1, 0)
\* int(text): optional sign, digits, surrounding blanks
IntLit(s) == LET t == Strip(s) IN
             AllDigits(t) \/ (Len(t) > 1 /\ Chr(t, 1) \in {"-", "+"} /\ AllDigits(From(t, 2)))
StrToInt(s) == LET t == Strip(s) IN
               IF Chr(t, 1) = "-" THEN 0 - StrToNat(From(t, 2))
               ELSE IF Chr(t, 1) = "+" THEN StrToNat(From(t, 2)) ELSE StrToNat(t)
\* float(text) for decimals: an optional sign, digits and a point; the number as Python prints it
NoSign(s) == IF s # "" /\ Chr(s, 1) \in {"-", "+"} THEN From(s, 2) ELSE s
DecLit(s) == LET t == NoSign(Strip(s))
                 k == IndexFrom(t, ".", 1)
             IN k > 0 /\ Len(t) > 1 /\ (k = 1 \/ AllDigits(Upto(t, k - 1))) /\ (k = Len(t) \/ AllDigits(From(t, k + 1)))
RECURSIVE NoZeros(_), NoTail(_)
NoZeros(s) == IF s # "" /\ Chr(s, 1) = "0" THEN NoZeros(From(s, 2)) ELSE s
NoTail(s) == IF s # "" /\ Chr(s, Len(s)) = "0" THEN NoTail(Upto(s, Len(s) - 1)) ELSE s
DecText(s) == LET u == Strip(s)
                  t == NoSign(u)
                  k == IndexFrom(t, ".", 1)
                  n == NoZeros(Upto(t, k - 1))
                  f == NoTail(From(t, k + 1))
              IN (IF Chr(u, 1) = "-" THEN "-" ELSE "") \o (IF n = "" THEN "0" ELSE n) \o "." \o (IF f = "" THEN "0" ELSE f)
============================================================================
