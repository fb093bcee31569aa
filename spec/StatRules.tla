----------------------------- MODULE StatRules -----------------------------
(* The summary of the detections of one object in one filter.  A detection: o (object), f (filter), mag, ph (phase), linked, date (-1: none).
   mag and ph are whole numbers of a small unit; med2 is twice the median.                                         *)
EXTENDS Integers, Sequences, FiniteSets
Group(rows, o, f) == { i \in DOMAIN rows : rows[i].o = o /\ rows[i].f = f }
Keys(rows) == { <<rows[i].o, rows[i].f>> : i \in DOMAIN rows }
LowOf(S, v(_)) == CHOOSE x \in { v(i) : i \in S } : \A i \in S : x <= v(i)
TopOf(S, v(_)) == CHOOSE x \in { v(i) : i \in S } : \A i \in S : x >= v(i)
\* the k-th smallest value of a group: that many are at most it, and fewer are below it
Kth(S, v(_), k) == CHOOSE x \in { v(i) : i \in S } : Cardinality({ i \in S : v(i) <= x }) >= k /\ Cardinality({ i \in S : v(i) < x }) < k
Med2(S, v(_)) == LET n == Cardinality(S) IN IF n % 2 = 1 THEN 2 * Kth(S, v, (n + 1) \div 2) ELSE Kth(S, v, n \div 2) + Kth(S, v, n \div 2 + 1)
Summary(rows, o, f) ==
  LET S == Group(rows, o, f)
      M(i) == rows[i].mag
      P(i) == rows[i].ph
  IN [n |-> Cardinality(S), lo |-> LowOf(S, M), hi |-> TopOf(S, M), med2 |-> Med2(S, M), plo |-> LowOf(S, P), phi |-> TopOf(S, P),
      linked |-> \A i \in S : rows[i].linked, dates |-> { rows[i].date : i \in S }]
=============================================================================
