----------------------------- MODULE TraceStreams -----------------------------
(* Random draws.
   event request: inst (which collection of streams), seed, name, toks (numbers drawn, as text): continues the stream of this name in this collection; the i-th
   number of (seed, name) is always the same and never that of another seed or name.
   event same / differ: a, b (what two runs show of a stage's draws).
   event thin: n candidates, kept, want, var (sum of the probabilities and of p(1-p)), sure (candidates of probability 1 lost), never (of probability 0 kept), error.
   event pairs: n pairs of neighbouring decisions, both (kept together), want, var: independence.
   event fresh: toks: no two alike.                                                                                                   *)
EXTENDS TraceBase
VARIABLES pos, val, owner
At(x) == <<x.seed, x.name>>
P(e) == IF <<e.inst, e.name>> \in DOMAIN pos THEN pos[<<e.inst, e.name>>] ELSE 0
Put(m, k, v) == [ x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x] ]
Known(e, i) == LET k == <<e.seed, e.name, P(e) + i>> IN k \in DOMAIN val
ReqClauses(e) ==
  << <<"continues-its-stream", \A i \in DOMAIN e.toks : Known(e, i) => val[<<e.seed, e.name, P(e) + i>>] = e.toks[i]>>,
     <<"no-stream-shows-through", \A i \in DOMAIN e.toks : e.toks[i] \in DOMAIN owner => owner[e.toks[i]] = <<e.seed, e.name, P(e) + i>> >>,
     <<"numbers-of-one-request-differ", \A i, j \in DOMAIN e.toks : i # j => e.toks[i] # e.toks[j]>> >>
Within(a, want, var) == LET d == a - want IN (d > -4 /\ d < 4) \/ d * d <= 30 * var
ThinClauses(e) == << <<"no-error", e.error = "">>, <<"probability-one-keeps-all", e.sure = 0>>, <<"probability-zero-keeps-none", e.never = 0>>,
                     <<"stated-probability", Within(e.kept, e.want, e.var)>> >>
TraceInit == BaseInit /\ pos = <<>> /\ val = <<>> /\ owner = <<>>
Same3 == UNCHANGED <<pos, val, owner>>
DoReq(e) == /\ Advance(Failing(ReqClauses(e)))
            /\ pos' = Put(pos, <<e.inst, e.name>>, P(e) + Len(e.toks))
            /\ val' = [ k \in DOMAIN val \cup { <<e.seed, e.name, P(e) + i>> : i \in DOMAIN e.toks } |-> IF k \in DOMAIN val THEN val[k] ELSE e.toks[k[3] - P(e)] ]
            /\ owner' = [ t \in DOMAIN owner \cup { e.toks[i] : i \in DOMAIN e.toks } |->
                            IF t \in DOMAIN owner THEN owner[t] ELSE <<e.seed, e.name, P(e) + CHOOSE i \in DOMAIN e.toks : e.toks[i] = t>> ]
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN
                CASE e.ev = "request" -> DoReq(e)
                  [] e.ev = "same" -> Advance(Failing(<< <<"same-draws", e.a = e.b>> >>)) /\ Same3
                  [] e.ev = "differ" -> Advance(Failing(<< <<"other-draws", e.a # e.b>> >>)) /\ Same3
                  [] e.ev = "thin" -> Advance(Failing(ThinClauses(e))) /\ Same3
                  [] e.ev = "pairs" -> Advance(Failing(<< <<"independent", Within(e.both, e.want, e.var)>> >>)) /\ Same3
                  [] e.ev = "fresh" -> Advance(Failing(<< <<"no-draw-is-used-twice", Cardinality({ e.toks[i] : i \in DOMAIN e.toks }) = Len(e.toks)>> >>)) /\ Same3
                  [] OTHER -> Advance({"unknown-event"}) /\ Same3
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad, pos, val, owner>>
=============================================================================
