------------------------------ MODULE TtpText ------------------------------
(* What happens to an input text before it is scanned: variables that have *)
(* getters take their value from it, then the input's functions run on it. *)
(* A datum is [k |-> "text"|"file"|"struct", v |-> text, path or value].   *)
EXTENDS TtpGroupFn

\* the text as the parser holds it
Framed(txt) == "\n" \o txt \o "\n\n"
\* the lines of such a text: what stands between two line ends
DataLines(txt) == LET q == SplitOn(Upto(txt, Len(txt) - 1), "\n")
                  IN IF txt = "" \/ Len(q) <= 2 THEN <<>> ELSE SubSeq(q, 2, Len(q) - 1)
\* every line end counts here, also the last one
AllLines(txt) == LET q == SplitOn(txt, "\n") IN IF Len(q) <= 2 THEN <<>> ELSE SubSeq(q, 2, Len(q) - 1)

-----------------------------------------------------------------------------
(* gethostname: seven forms of prompt, the first form found wins *)
El(e) == [e |-> e, n |-> ""]
Host(e) == [e |-> e, n |-> "h"]
SPlus == Plus("S")
SLazy == Rep(Cls("S"), 1, 0, TRUE)
Rest == El(Rep(Cls("any"), 0, 0, FALSE))
Prompts == <<
  <<El(Rep(Cls("S"), 1, 2, FALSE)), El(Lit(":")), Host(SLazy), El([k |-> "set", v |-> ">#"]), Rest>>,
  <<El(SPlus), El(Lit(":")), Host(SPlus), El(Lit("#")), Rest>>,
  <<Host(SPlus), El(Lit("#")), Rest>>,
  <<El(Rep(Cls("S"), 0, 0, FALSE)), El(Lit("@")), Host(SPlus), El(Lit(">")), Rest>>,
  <<El(Lit("<")), Host(SPlus), El(Lit(">")), Rest>>,
  <<Host(SPlus), El(Lit(">")), Rest>>,
  <<Host(Sq(<<SPlus, Lit(" ("), SPlus, Lit(")")>>)), El(Lit(" #")), Rest>> >>
RECURSIVE HostIn(_, _, _), HostFrom(_, _)
HostIn(es, lines, n) == IF n > Len(lines) THEN ""
                        ELSE LET m == MatchLine(es, lines[n])
                             IN IF m.ok THEN m.caps[1].v ELSE HostIn(es, lines, n + 1)
HostFrom(k, lines) == IF k > Len(Prompts) THEN ""
                      ELSE LET h == HostIn(Prompts[k], lines, 1) IN IF h # "" THEN h ELSE HostFrom(k + 1, lines)
HostName(txt) == HostFrom(1, AllLines(txt))

-----------------------------------------------------------------------------
(* extract_commands: the output of commands, from the prompt they follow to *)
(* the next prompt                                                          *)
RECURSIVE Blanks(_, _), CmdAt(_, _, _, _), EndAt(_, _, _)
Blanks(s, i) == IF i <= Len(s) /\ Chr(s, i) = " " THEN Blanks(s, i + 1) ELSE i
IsAt(s, t, i) == i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t
PromptAt(s, h, i) == IsAt(s, h, i) /\ i + Len(h) <= Len(s) /\ Chr(s, i + Len(h)) \in {"#", ">"}
\* where the output of cmd begins when its prompt stands at i, or 0
OutputAt(s, h, cmd, i) ==
  IF ~PromptAt(s, h, i) THEN 0
  ELSE LET a == Blanks(s, i + Len(h) + 1) IN
       IF ~IsAt(s, cmd, a) THEN 0
       ELSE LET b == Blanks(s, a + Len(cmd)) IN IF b < Len(s) /\ Chr(s, b) = "\n" THEN b + 1 ELSE 0
\* the end of the output begun before i: the next prompt, or the end of the text
EndAt(s, h, i) == IF i > Len(s) \/ PromptAt(s, h, i) \/ (i = Len(s) /\ Chr(s, i) = "\n") THEN i ELSE EndAt(s, h, i + 1)
CmdAt(s, h, cmd, i) ==
  IF i > Len(s) THEN ""
  ELSE LET o == OutputAt(s, h, cmd, i) IN
       IF o = 0 THEN CmdAt(s, h, cmd, i + 1) ELSE SubSeq(s, i, EndAt(s, h, o + 1) - 1)
RECURSIVE Cmds(_, _, _, _)
Cmds(s, h, cmds, k) ==
  IF k > Len(cmds) THEN ""
  ELSE LET m == CmdAt(s, h, cmds[k].s, 1)
       IN (IF m = "" THEN "" ELSE "\n" \o m \o "\n") \o Cmds(s, h, cmds, k + 1)

-----------------------------------------------------------------------------
(* input functions: [v, flag]; FALSE stops the ones that follow *)
IMacro(name, v) ==
  CASE name = "i_up" -> [v |-> S(Upper(v.s)), flag |-> "N"]
    [] name = "i_sub" -> [v |-> S(ReplaceAll(v.s, "x", "y")), flag |-> "N"]
    [] name = "i_true" -> [v |-> v, flag |-> "T"]
    [] name = "i_false" -> [v |-> v, flag |-> "F"]
    [] name = "i_stop" -> [v |-> v, flag |-> IF IsS(v) /\ ContainsStr(v.s, "stop") THEN "F" ELSE "T"]
    [] name = "i_join" -> [v |-> IF IsL(v) THEN S(Framed(JoinVals(v.l, "\n"))) ELSE v, flag |-> "N"]
    [] name = "i_key" -> [v |-> IF IsD(v) THEN S(Framed(v.d["text"].s)) ELSE v, flag |-> "N"]
    [] OTHER -> [v |-> v, flag |-> "N"]
ICust(id, v) ==
  CASE id = "ci_up" -> [v |-> IF IsS(v) THEN S(Upper(v.s)) ELSE v, flag |-> "N"]
    [] id = "ci_stop" -> [v |-> v, flag |-> "F"]
    [] OTHER -> [v |-> v, flag |-> "N"]
InFn(c, v, macros, cust) ==
  CASE Has(cust, "input." \o c.f) -> ICust(cust["input." \o c.f], v)
    [] c.f = "macro" -> IF Has(macros, c.a[1].s) THEN IMacro(macros[c.a[1].s], v) ELSE [v |-> v, flag |-> "N"]
    [] c.f = "extract_commands" ->
         LET h == HostName(v.s)
             r == IF h = "" THEN "" ELSE Cmds(v.s, h, c.a, 1)
         IN [v |-> IF r = "" THEN v ELSE S(r), flag |-> "N"]
    [] OTHER -> [v |-> v, flag |-> "N"]
RECURSIVE InFns(_, _, _, _, _)
InFns(fns, k, v, macros, cust) ==
  IF k > Len(fns) THEN v
  ELSE LET r == InFn(fns[k], v, macros, cust)
       IN IF r.flag = "F" THEN r.v ELSE InFns(fns, k + 1, r.v, macros, cust)

-----------------------------------------------------------------------------
(* variables whose value is the name of a getter *)
VCust(id, v, name) ==
  CASE id = "cv_len" -> I(IF IsS(v) THEN Len(v.s) ELSE 0)
    [] id = "cv_name" -> S("n:" \o name)
    [] OTHER -> None
\* the moment is not the specification's to say: who records the answers
\* has put its name for a time, of the form asked for, of the run itself
Clocks == {"get_time", "get_date", "get_timestamp", "get_timestamp_ms", "get_timestamp_iso", "get_time_ns"}
Getters(cust) == {"getfilename", "gethostname"} \cup Clocks
                 \cup {SubSeq(k, 10, Len(k)) : k \in {j \in DOMAIN cust : StartsWith(j, "variable.")}}
Getter(g, v, name, cust) ==
  CASE Has(cust, "variable." \o g) -> VCust(cust["variable." \o g], v, name)
    [] g = "getfilename" -> S(name)
    [] g \in Clocks -> [x |-> "now:" \o g]
    [] g = "gethostname" -> IF IsS(v) THEN S(HostName(v.s)) ELSE S("")
\* vfn: variable -> getter; only values found are set
GotVars(vfn, v, name, cust) ==
  LET val == [n \in DOMAIN vfn |-> Getter(vfn[n], v, name, cust)]
  IN [n \in {m \in DOMAIN vfn : Truthy(val[m])} |-> val[n]]
============================================================================
