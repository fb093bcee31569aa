------------------------------ MODULE LinkScan ------------------------------
(* The linking computation as a state machine: detections arrive in time order, a night is closed when the first
   detection of a later night arrives, the closed night is scanned by pairs of positions in the sorted list (as the
   code does), and nights with tracklets enter a trailing window.  The invariants say that this incremental
   computation decides exactly the definition in Linking.tla.  Positions are points of a line.               *)
EXTENDS Linking, TLC, Json, IOUtils

CONSTANTS MaxT, MaxObs, Slots, MaxX, NObs, MinSep, MaxDt, Windows, NLinks, MaxPerNight

VARIABLES P, obs, cur, tn, found, done
vars == <<P, obs, cur, tn, found, done>>

Params == [nobs : NObs, minsep : MinSep, maxdt : MaxDt, window : Windows, nlink : NLinks, start : {0}, day : {Slots}]

Init == /\ P \in Params /\ obs = <<>> /\ cur = <<>> /\ tn = <<>> /\ found = -1 /\ done = FALSE

\* scan of one night by index pairs of the time-sorted detections
ScanNight(c) ==
  /\ Len(c) >= P.nobs
  /\ P.nobs = 1 \/ \E a, b \in DOMAIN c :
        /\ c[a].t - c[b].t > 0 /\ c[a].t - c[b].t < P.maxdt
        /\ (IF c[a].x > c[b].x THEN c[a].x - c[b].x ELSE c[b].x - c[a].x) > P.minsep
        /\ (a + 1) - b >= P.nobs

\* close the current night: count the trailing window
CloseNight(c, tns) ==
  IF c # <<>> /\ ScanNight(c) THEN Append(tns, Night(c[1].t, P)) ELSE tns
Trailing(tns) == LET n == tns[Len(tns)]
                 IN Cardinality({ k \in DOMAIN tns : tns[k] > n - P.window })
NewFound(tns) == IF found = -1 /\ Len(tns) > Len(tn) /\ (P.nlink = 1 \/ Trailing(tns) >= P.nlink)
                 THEN tns[Len(tns)] ELSE found

LastT == IF obs = <<>> THEN -1 ELSE obs[Len(obs)].t

Observe(t, x) ==
  /\ ~done /\ Len(obs) < MaxObs /\ t > LastT
  /\ obs' = Append(obs, [t |-> t, x |-> x])
  /\ IF cur # <<>> /\ Night(cur[1].t, P) # Night(t, P)
     THEN /\ tn' = CloseNight(cur, tn)
          /\ found' = NewFound(tn')
          /\ cur' = <<[t |-> t, x |-> x]>>
     ELSE /\ Len(cur) < MaxPerNight
          /\ cur' = Append(cur, [t |-> t, x |-> x])
          /\ UNCHANGED <<tn, found>>
  /\ UNCHANGED <<P, done>>

Finish == /\ ~done /\ obs # <<>> /\ done' = TRUE
          /\ tn' = CloseNight(cur, tn) /\ found' = NewFound(tn') /\ cur' = <<>>
          /\ UNCHANGED <<P, obs>>

Next == (\E t \in 0 .. MaxT, x \in 0 .. MaxX : Observe(t, x)) \/ Finish
Spec == Init /\ [][Next]_vars

Sep == [i \in DOMAIN obs |-> [j \in DOMAIN obs |->
          IF obs[i].x > obs[j].x THEN obs[i].x - obs[j].x ELSE obs[j].x - obs[i].x]]

ScanIsDefinition ==
  done => LET TN == TrackletNights(obs, Sep, P)
          IN /\ { tn[k] : k \in DOMAIN tn } = TN
             /\ (found # -1) = IsLinked(TN, P)
             /\ IsLinked(TN, P) => found = LinkDate(TN, P)

\* the verdict of a prefix is never withdrawn: linking is monotone in time
FoundIsFinal == [][found # -1 => found' = found]_vars

\* scenario generation: every finished behaviour, as JSON
Emit == done => PrintT("SCN " \o ToJson([p |-> P, o |-> obs]))
=============================================================================
