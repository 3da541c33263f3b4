----------------------------- MODULE TtpCheck -----------------------------
(* Validation of recorded sessions.  Each case is a session run on the     *)
(* real code: definitions of templates, the operations called, and what    *)
(* each call returned (obs).  The model takes the same operations, one     *)
(* named action at a time; the verdict compares every answer.              *)
EXTENDS TtpSession, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TTP_CASES)

VARIABLES c,    \* number of the case
          i,    \* next operation
          pc,   \* "op" | "datum" | "ev" | "done"
          s,    \* the session: parser objects, files, values kept
          par,  \* parse in progress
          en,   \* datum in progress
          out,  \* answers so far
          cov   \* how often each action was taken
vars == <<c, i, pc, s, par, en, out, cov>>
Took(name) == cov' = Put(cov, name, IF Has(cov, name) THEN cov[name] + 1 ELSE 1)

Ops == Cases[c].ops
NoPar == [work |-> <<>>, k |-> 0]
NoEn == [phases |-> <<>>]
Init == /\ c \in 1..Len(Cases)
        /\ i = 1 /\ pc = "op" /\ s = NewSession(Cases[c].env) /\ par = NoPar /\ en = NoEn /\ out = <<>> /\ cov = EmptyFn

P == s.ps[Ops[i].obj]
SetP(p) == [s EXCEPT !.ps = Put(@, Ops[i].obj, p)]
Tm == P.templates[par.work[par.k].t]

ApiCall == /\ pc = "op" /\ i <= Len(Ops) /\ Ops[i].op # "parse"
           /\ LET r == DoOp(s, Ops[i], Cases[c].defs, Cases[c].obs[i]) IN s' = r.s /\ out' = Append(out, r.out)
           /\ i' = i + 1 /\ Took(Ops[i].op) /\ UNCHANGED <<c, pc, par, en>>
ParseCall == /\ pc = "op" /\ i <= Len(Ops) /\ Ops[i].op = "parse"
             /\ par' = ParBegin(P, Ops[i].multi)
             /\ pc' = "datum" /\ Took("ParseCall") /\ UNCHANGED <<c, i, s, en, out>>
\* next input text: made ready and scanned
NextDatum == /\ pc = "datum" /\ par.k <= Len(par.work) /\ par.work[par.k].n # 0
             /\ en' = StartDatum(s, P, par)
             /\ pc' = "ev" /\ Took("NextDatum") /\ UNCHANGED <<c, i, s, par, out>>
\* one match event
Evs == en.phases[en.n].evs
Event(kind) == /\ pc = "ev" /\ en.k <= Len(Evs)
               /\ LET ev == Select(Tm.T, en.a, Evs[en.k])
                  IN /\ StepKind(Tm.T, en.a, ev) = kind
                     /\ en' = [en EXCEPT !.k = @ + 1, !.a = StepEv(Tm.T, @, ev)]
               /\ Took(kind) /\ UNCHANGED <<c, i, pc, s, par, out>>
EvFiltered == Event("Filtered")
EvBelowClosed == Event("BelowClosed")
EvIsClosed == Event("IsClosed")
EvStart == Event("Start")
EvEnd == Event("End")
EvJoin == Event("Join")
EvAdd == Event("Add")
\* the open record is completed; groups with outputs of their own follow
NextPhase == /\ pc = "ev" /\ en.k > Len(Evs) /\ MorePhases(en)
             /\ en' = EndPhase(Tm, en)
             /\ Took("NextPhase") /\ UNCHANGED <<c, i, pc, s, par, out>>
\* end of the input text
EndDatum == /\ pc = "ev" /\ en.k > Len(Evs) /\ ~MorePhases(en) /\ ~en.err
            /\ LET e == EndPhase(Tm, en)
                   r == FinishDatum(P, par, e)
               IN s' = [SetP(r.p) EXCEPT !.fs = e.files] /\ par' = r.par
            /\ pc' = "datum" /\ en' = NoEn /\ Took("EndDatum") /\ UNCHANGED <<c, i, out>>
\* a function raised an error: the call ends, what was parsed before is kept
Fail == /\ pc = "ev" /\ en.err
        /\ s' = IF par.multi THEN s ELSE SetP([P EXCEPT !.gvars = en.a.cx.gvars])
        /\ out' = Append(out, Raised)
        /\ par' = NoPar /\ en' = NoEn /\ i' = i + 1 /\ pc' = "op" /\ Took("Fail") /\ UNCHANGED c
EndTemplate == /\ pc = "datum" /\ par.k <= Len(par.work) /\ par.work[par.k].n = 0
               /\ LET r == FinishTemplate(P, par) IN s' = SetP(r.p) /\ par' = r.par
               /\ Took("EndTemplate") /\ UNCHANGED <<c, i, pc, en, out>>
EndParse == /\ pc = "datum" /\ par.k > Len(par.work)
            /\ LET x == OutsFrom(P, 1, s.fs) IN s' = [SetP(x.p) EXCEPT !.fs = x.files]
            /\ out' = Append(out, None)
            /\ par' = NoPar /\ i' = i + 1 /\ pc' = "op" /\ Took("EndParse") /\ UNCHANGED <<c, en>>

\* the verdict: the first operation whose answer differs, 0 if none does
Bad == {n \in 1..Len(out) : ~SameAnswer(Ops[n], Cases[c].obs[n], out[n])}
FirstBad == IF Bad = {} THEN 0 ELSE CHOOSE n \in Bad : \A m \in Bad : n <= m
Verdict == /\ pc = "op" /\ i > Len(Ops)
           /\ PrintT("VERDICT " \o ToJson([id |-> Cases[c].id, bad |-> FirstBad,
                        exp |-> IF FirstBad = 0 THEN None ELSE out[FirstBad], cov |-> cov]))
           /\ pc' = "done" /\ UNCHANGED <<c, i, s, par, en, out, cov>>
Next == \/ ApiCall \/ ParseCall \/ NextDatum
        \/ EvFiltered \/ EvBelowClosed \/ EvIsClosed \/ EvStart \/ EvEnd \/ EvJoin \/ EvAdd
        \/ NextPhase \/ EndDatum \/ Fail \/ EndTemplate \/ EndParse \/ Verdict
Spec == Init /\ [][Next]_vars
============================================================================
