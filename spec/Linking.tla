------------------------------ MODULE Linking ------------------------------
(* When is an object linked?  The published definition, over the detections of one object.
   o    : sequence of detections [t |-> time, ...], in any order, times and day length in the same unit
   sep  : matrix of angular separations between them
   P    : [nobs, minsep, maxdt, window, nlink, start, day]                                              *)
EXTENDS Integers, FiniteSets, Sequences

Night(t, P) == (t - P.start) \div P.day          \* noon to noon; \div rounds down

Of(o, n, P) == { i \in DOMAIN o : Night(o[i].t, P) = n }

Between(o, S, i, j) == { k \in S : o[j].t <= o[k].t /\ o[k].t <= o[i].t }

Tracklet(o, sep, n, P) ==
  LET S == Of(o, n, P) IN
  /\ Cardinality(S) >= P.nobs
  /\ \/ P.nobs = 1 /\ S # {}
     \/ \E i, j \in S : /\ o[i].t - o[j].t > 0
                        /\ o[i].t - o[j].t < P.maxdt
                        /\ sep[i][j] > P.minsep
                        /\ Cardinality(Between(o, S, i, j)) >= P.nobs

Nights(o, P) == { Night(o[i].t, P) : i \in DOMAIN o }

TrackletNights(o, sep, P) == { n \in Nights(o, P) : Tracklet(o, sep, n, P) }

InWindow(TN, n, P) == { m \in TN : n - P.window < m /\ m <= n }

\* the nights on which a window of tracklets is complete
Complete(TN, P) == IF P.nlink = 1 THEN TN ELSE { n \in TN : Cardinality(InWindow(TN, n, P)) >= P.nlink }

IsLinked(TN, P) == Complete(TN, P) # {}
LinkDate(TN, P) == CHOOSE n \in Complete(TN, P) : \A m \in Complete(TN, P) : n <= m
=============================================================================
