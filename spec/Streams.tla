----------------------------- MODULE Streams -----------------------------
(* Random streams: one per stage, created on first request from the seed and the stage's name, kept for later requests.  A stage, when enabled, thins
   its candidates in each chunk.  Checked: what a stage draws is a prefix of its own stream, whatever the other stages do, whatever the chunks; two
   runs with the same seed draw alike.  Variants: one shared stream, a stream restarted at each request.                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Stages, Seeds, Chunks, MaxRows, Variant
VARIABLES seed, enabled, made, pos, drawn, chunk, waiting
vars == <<seed, enabled, made, pos, drawn, chunk, waiting>>
\* the i-th number of a stream, as a token
Tok(sd, st, i) == <<sd, st, i>>
Key(s) == IF Variant = "shared" THEN "all" ELSE s
Init == /\ seed \in Seeds
        /\ enabled \in SUBSET Stages
        /\ made = {} /\ chunk = 1 /\ waiting = enabled
        /\ pos = [ s \in Stages \cup {"all"} |-> 0 ]
        /\ drawn = [ s \in Stages |-> <<>> ]
\* a stage requests its stream and draws one number for each of its n candidates of the chunk
Draw(s, n) ==
  /\ chunk <= Chunks /\ s \in waiting
  /\ LET k == Key(s)
         p == IF Variant = "restart" \/ k \notin made THEN 0 ELSE pos[k]
     IN /\ drawn' = [ drawn EXCEPT ![s] = @ \o [ i \in 1..n |-> Tok(seed, k, p + i) ] ]
        /\ pos' = [ pos EXCEPT ![k] = p + n ]
        /\ made' = made \cup {k}
  /\ waiting' = waiting \ {s}
  /\ UNCHANGED <<seed, enabled, chunk>>
NextChunk == /\ chunk <= Chunks /\ waiting = {}
             /\ chunk' = chunk + 1 /\ waiting' = enabled
             /\ UNCHANGED <<seed, enabled, made, pos, drawn>>
Next == NextChunk \/ \E s \in Stages, n \in 0..MaxRows : Draw(s, n)
Spec == Init /\ [][Next]_vars
OwnPrefix == \A s \in Stages : \A i \in DOMAIN drawn[s] : drawn[s][i] = Tok(seed, s, i)
NoRepeat == \A s, t \in Stages : \A i \in DOMAIN drawn[s] : \A j \in DOMAIN drawn[t] : <<s, i>> # <<t, j>> => drawn[s][i] # drawn[t][j]
=============================================================================
