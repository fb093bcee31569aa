----------------------------- MODULE TraceRun -----------------------------
(* Validates recorded runs against the chunk loop: start (the population, and what each object's own run reported), one event per
   chunk taken from the readers, end (what the run left behind).  State: the run in progress and its cursor, as in ChunkLoop.tla. *)
EXTENDS TraceBase

VARIABLES run, cursor, seen

None == [n |-> 0]
\* the objects a chunk of the reader may hold: those with candidates (external ephemeris) or all (generated)
Idx(cand) == SelectSeq([j \in DOMAIN cand |-> IF cand[j] THEN j ELSE 0], LAMBDA j : j # 0)
Occ(s, x) == Cardinality({ i \in DOMAIN s : s[i] = x })
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

ChunkClauses(e) ==
  LET want == Idx(run.cand)
      rest == SubSeq(want, cursor + 1, Len(want))
  IN << <<"takes-the-next-objects-in-order", Len(e.ids) <= Len(rest) /\ e.ids = SubSeq(rest, 1, Len(e.ids))>>,
        <<"no-more-than-a-chunk", Len(e.ids) <= run.chunk>> >>

EndClauses(e) ==
  LET own == Flat(run.own)
      osta == Flat(run.ostats)
      O == { own[i] : i \in DOMAIN own }
      R == { e.rows[i] : i \in DOMAIN e.rows }
      S == { osta[i] : i \in DOMAIN osta }
      T == { e.stats[i] : i \in DOMAIN e.stats }
  IN << <<"run-completes", e.error = "" /\ e.completed>>,
        <<"every-object-taken", seen => cursor = Len(Idx(run.cand))>>,
        <<"every-own-detection-reported", O \subseteq R>>,
        <<"no-other-detection-reported", R \subseteq O>>,
        <<"each-detection-once", Len(e.rows) = Cardinality(R)>>,
        <<"statistics-of-own-detections", (run.stats = 1) => S \subseteq T>>,
        <<"no-other-statistics", (run.stats = 1) => T \subseteq S>>,
        <<"each-statistic-once", Len(e.stats) = Cardinality(T)>> >>

TraceInit == BaseInit /\ run = None /\ cursor = 0 /\ seen = FALSE
TraceNext ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     CASE e.ev = "start" -> run' = e /\ cursor' = 0 /\ seen' = FALSE /\ Advance({})
       [] e.ev = "chunk" -> cursor' = cursor + Len(e.ids) /\ seen' = TRUE /\ UNCHANGED run /\ Advance(Failing(ChunkClauses(e)))
       [] e.ev = "end"   -> UNCHANGED <<run, cursor, seen>> /\ Advance(Failing(EndClauses(e)))
       [] e.ev = "twins" -> UNCHANGED <<run, cursor, seen>> /\ Advance(Failing(<< <<"names-do-not-matter", Len(e.sizes) = 1>> >>))
       [] e.ev = "nameless" -> UNCHANGED <<run, cursor, seen>> /\ Advance(Failing(<< <<"refused-or-told-apart", IF e.refused THEN ~e.wrote ELSE e.own>> >>))
       [] OTHER -> UNCHANGED <<run, cursor, seen>> /\ Advance({"unknown-event"})
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad, run, cursor, seen>>
=============================================================================
