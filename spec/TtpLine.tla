------------------------------ MODULE TtpLine ------------------------------
(* Template lines: which data lines they match and what they capture.      *)
(* A line is [toks, exact, exsp, tail]; a token is                         *)
(*   [t |-> "lit", v |-> text]                                             *)
(*   [t |-> "var", n |-> name, pats |-> <<pattern...>>, fns |-> <<f...>>,  *)
(*    acts |-> <<"start"|"end"|"join"|...>>, isline |-> BOOLEAN]           *)
(*   [t |-> "ign", pats |-> <<>> or <<pattern>>]                           *)
(*   [t |-> "start"] / [t |-> "end"]   ({{ _start_ }}, {{ _end_ }})        *)
(*   [t |-> "set", n |-> name, v |-> value]   ({{ name | set(value) }})    *)
(* a pattern is [p |-> name] or [re |-> expression]                        *)
EXTENDS TtpRex

PatOf(p) == IF "p" \in DOMAIN p THEN Pattern(p.p) ELSE p.re

IsBlankC(c) == c \in {" ", "\t"}
RECURSIVE BlankRun(_, _), DigitRun(_, _), PlainRun(_, _, _, _)
BlankRun(s, i) == IF i <= Len(s) /\ IsBlankC(Chr(s, i)) THEN BlankRun(s, i + 1) ELSE i
DigitRun(s, i) == IF i <= Len(s) /\ IsDigitC(Chr(s, i)) THEN DigitRun(s, i + 1) ELSE i
PlainRun(s, i, exact, exsp) ==
  IF i <= Len(s) /\ (exsp \/ ~IsBlankC(Chr(s, i))) /\ (exact \/ ~IsDigitC(Chr(s, i)))
  THEN PlainRun(s, i + 1, exact, exsp) ELSE i
\* literal text of a template line: a run of blanks stands for one or more
\* blanks, a run of digits for one or more digits
RECURSIVE ChunkElems(_, _, _, _)
ChunkElems(s, i, exact, exsp) ==
  IF i > Len(s) THEN <<>>
  ELSE IF ~exsp /\ IsBlankC(Chr(s, i)) THEN <<[e |-> Plus("ws"), n |-> ""]>> \o ChunkElems(s, BlankRun(s, i), exact, exsp)
  ELSE IF ~exact /\ IsDigitC(Chr(s, i)) THEN <<[e |-> Plus("d"), n |-> ""]>> \o ChunkElems(s, DigitRun(s, i), exact, exsp)
  ELSE LET j == PlainRun(s, i, exact, exsp)
       IN <<[e |-> Lit(SubSeq(s, i, j - 1)), n |-> ""]>> \o ChunkElems(s, j, exact, exsp)

RECURSIVE IndentLen(_, _)
IndentLen(s, i) == IF i <= Len(s) /\ IsBlankC(Chr(s, i)) THEN IndentLen(s, i + 1) ELSE i - 1

WsElem == [e |-> Plus("ws"), n |-> ""]
DropWs(es) == IF es # <<>> /\ Last(es) = WsElem THEN SubSeq(es, 1, Len(es) - 1) ELSE es

RECURSIVE PatSeq(_)
PatSeq(ps) == IF ps = <<>> THEN <<>> ELSE <<PatOf(ps[1])>> \o PatSeq(Tail(ps))
VarExpr(ps) == IF ps = <<>> THEN PWord ELSE IF Len(ps) = 1 THEN PatOf(ps[1]) ELSE Alt(PatSeq(ps))

RECURSIVE CompileFrom(_, _, _)
CompileFrom(ln, k, acc) ==
  IF k > Len(ln.toks) THEN acc
  ELSE LET tk == ln.toks[k] IN
    CASE tk.t = "lit" ->
           LET txt == IF k = Len(ln.toks) THEN RStrip(tk.v) ELSE tk.v
               n == IF k = 1 THEN IndentLen(txt, 1) ELSE 0
               ind == IF n > 0 THEN <<[e |-> Lit(Upto(txt, n)), n |-> ""]>> ELSE <<>>
           IN CompileFrom(ln, k + 1, acc \o ind \o ChunkElems(txt, n + 1, ln.exact \/ ln.exsp, ln.exsp))
      [] tk.t = "var" -> CompileFrom(ln, k + 1, Append(acc, [e |-> VarExpr(tk.pats), n |-> tk.n]))
      [] tk.t = "ign" -> CompileFrom(ln, k + 1, Append(acc, [e |-> VarExpr(tk.pats), n |-> ""]))
      \* an indicator variable ends the line
      [] OTHER -> DropWs(acc)
Compile(ln) == CompileFrom(ln, 1, <<>>)

NoMatch == [ok |-> FALSE, caps |-> <<>>]
LineEnd(s, i) == LET r == RunEnd("ws", s, i)
                 IN r > Len(s) \/ (r = Len(s) /\ Chr(s, r) = "\r")
RECURSIVE MatchElems(_, _, _, _), TryEnds(_, _, _, _, _)
MatchElems(es, k, s, i) ==
  IF k > Len(es) THEN IF LineEnd(s, i) THEN [ok |-> TRUE, caps |-> <<>>] ELSE NoMatch
  ELSE TryEnds(Ends(es[k].e, s, i), es, k, s, i)
TryEnds(ps, es, k, s, i) ==
  IF ps = <<>> THEN NoMatch
  ELSE LET r == MatchElems(es, k + 1, s, ps[1])
       IN IF r.ok
          THEN [ok |-> TRUE,
                caps |-> IF es[k].n = "" THEN r.caps
                         ELSE <<[n |-> es[k].n, v |-> SubSeq(s, i, ps[1] - 1)]>> \o r.caps]
          ELSE TryEnds(Tail(ps), es, k, s, i)
\* the match of a compiled line on one data line
MatchLine(es, s) == MatchElems(es, 1, s, 1)

-----------------------------------------------------------------------------
(* what a line does when it matches *)
VarToks(ln) == SelectSeq(ln.toks, LAMBDA tk : tk.t # "lit")
TokAction(tk) == CASE tk.t = "start" -> "startempty"
                   [] tk.t = "end" -> "end"
                   [] tk.t = "var" -> IF tk.acts = <<>> THEN "add" ELSE Last(tk.acts)
                   [] OTHER -> "add"
RECURSIVE ActionFrom(_, _, _)
ActionFrom(vts, k, a) ==
  IF k > Len(vts) THEN a
  ELSE ActionFrom(vts, k + 1,
         IF a \in {"start", "startempty"} \/ vts[k].t = "ign" THEN a ELSE TokAction(vts[k]))
LineAction(ln) == ActionFrom(VarToks(ln), 1, "add")
LineIsLine(ln) == \E k \in 1..Len(ln.toks) : ln.toks[k].t = "var" /\ ln.toks[k].isline
\* {{ name | set(value) }} alone on a line is not matched against data
IsUncondSet(ln) == Len(ln.toks) = 1 /\ ln.toks[1].t = "set"
RECURSIVE LitText(_, _)
LitText(toks, k) == IF k > Len(toks) THEN ""
                    ELSE (IF toks[k].t = "lit" THEN toks[k].v ELSE "") \o LitText(toks, k + 1)
SetText(ln) == "\n" \o RStrip(LitText(ln.toks, 1))
============================================================================
