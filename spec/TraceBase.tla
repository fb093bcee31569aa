----------------------------- MODULE TraceBase -----------------------------
(* Common part of the trace specifications: the recorded events, one consumed per step; `bad` collects
   the clauses an event fails, so a verdict is total and the rest of the trace is still judged. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, bad

\* Failing(<<<<"clause", TRUE/FALSE>>, ...>>) : names of the clauses that do not hold
Failing(clauses) == { clauses[k][1] : k \in { j \in DOMAIN clauses : ~clauses[j][2] } }

Note(S) == bad \o SetToSeq({ [i |-> l, c |-> c] : c \in S })

Advance(S) == /\ l <= Len(Trace)
              /\ l' = l + 1
              /\ bad' = Note(S)

BaseInit == l = 1 /\ bad = <<>>

\* evaluated in every state; at the end of the trace it writes the verdict
Report == (l = Len(Trace) + 1) => JsonSerialize(IOEnv.VERDICT, bad)

TraceComplete == TLCGet("stats").diameter - 1 = Len(Trace)

Has(e, f) == f \in DOMAIN e
=============================================================================
