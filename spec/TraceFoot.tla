----------------------------- MODULE TraceFoot -----------------------------
(* Sources laid on the detectors of their camera.
   event chunk: dets (id, corners in any order), src (source: position in its own visit's focal plane, number of rows it was kept in, the labels it got),
   thresh, margin (positions closer than this to a decision are left open), error.
   event same: a, b: what two runs keep.                                                                                          *)
EXTENDS TraceBase, FootRules
Cor(d) == { <<d.corners[i][1], d.corners[i][2]>> : i \in DOMAIN d.corners }
Lim(E) == [ e \in E |-> ISqrt(Len2(e)) ]
In(E, p, t) == \A e \in DOMAIN E : Cross(e[1], e[2], p) > t * E[e]
Box(d, p) == d.box[1] <= p[1] /\ p[1] <= d.box[2] /\ d.box[3] <= p[2] /\ p[2] <= d.box[4]
ChunkClauses(e) ==
  LET E == TLCEval([ d \in DOMAIN e.dets |-> TLCEval(Lim(Edges(Cor(e.dets[d])))) ])
      Sure(p) == { d \in DOMAIN e.dets : Box(e.dets[d], p) /\ In(E[d], p, e.thresh + e.margin) }
      May(p) == { d \in DOMAIN e.dets : Box(e.dets[d], p) /\ In(E[d], p, e.thresh - e.margin) }
  IN << <<"no-error", e.error = "">>,
        <<"on-a-detector-is-kept", \A i \in DOMAIN e.src : e.src[i].rows = 0 => Sure(e.src[i].p) = {}>>,
        <<"off-every-detector-is-dropped", \A i \in DOMAIN e.src : e.src[i].rows > 0 => May(e.src[i].p) # {}>>,
        <<"never-kept-twice", \A i \in DOMAIN e.src : e.src[i].rows <= 1>>,
        <<"named-after-its-detector", \A i \in DOMAIN e.src : \A j \in DOMAIN e.src[i].labels : May(e.src[i].p) # {} => \E d \in May(e.src[i].p) : e.dets[d].id = e.src[i].labels[j]>> >>
TraceInit == BaseInit
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN
                CASE e.ev = "chunk" -> Advance(Failing(ChunkClauses(e)))
                  [] e.ev = "same" -> Advance(Failing(<< <<"order-leaves-no-mark", e.a = e.b>> >>))
                  [] OTHER -> Advance({"unknown-event"})
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
=============================================================================
