----------------------------- MODULE Aux -----------------------------
(* A directory of auxiliary files, runs with their overrides, `sorcha bootstrap` with and without -f, downloads that fail, files removed by the user.
   Files are pairs <<role, "d" | "n">> (default or replaced name).  K: kernels in order of precision; "eph": another file; "gz", "json": the observatory list; "meta": the kernel list. *)
EXTENDS AuxRules, TLC, Json
CONSTANTS Depth, Variant, Emit, AllStarts
VARIABLES have, from, list, mode, kind, todo, log, ops, fault, forced, start, done
vars == <<have, from, list, mode, kind, todo, log, ops, fault, forced, start, done>>
K == <<"k1", "k2">>
Fetchable == {"k1", "k2", "eph", "gz"}
Roles == Fetchable \cup {"json", "meta"}
DName == [ r \in Roles |-> <<r, "d">> ]
NName == [ r \in Roles |-> <<r, "n">> ]
DUrl == [ r \in Fetchable |-> "default " \o r ]
NUrl == [ r \in Fetchable |-> "own " \o r ]
Kinds == { k \in [ Roles -> {"default", "name", "both", "url"} ] : /\ k["meta"] \in {"default", "name"} /\ k["json"] \in {"default", "name"}
                                                                   /\ Cardinality({ r \in Roles : k[r] # "default" }) <= 1 }
Plain == [ r \in Roles |-> "default" ]
N(r) == NameOf(kind, DName, NName, r)
U(r) == UrlOf(kind, DUrl, NUrl, r)
U2(r) == IF Variant = "defaulturl" /\ kind[r] = "name" THEN DUrl[r] ELSE U(r)
Defaults == { DName[r] : r \in Roles }
Names(S) == { N(r) : r \in S }
WantedNow == IF mode = "run" THEN Wanted(Names({"k1", "k2", "eph"}), N("gz"), N("json"), have) ELSE Names(Fetchable)
Init == /\ have \in { h \in SUBSET Defaults : AllStarts \/ Cardinality(h) \in {0, 5, 6} }
        /\ from = [ f \in have |-> "user" ]
        /\ list = [ f \in have \cap {DName["meta"]} |-> << DName["k1"], DName["k2"] >> ]
        /\ mode = "idle" /\ kind = Plain /\ todo = {} /\ log = <<>> /\ ops = <<>> /\ fault = FALSE /\ forced = FALSE /\ start = have /\ done = FALSE
Op(o) == ops' = Append(ops, o)
Run == /\ mode = "idle" /\ Len(ops) < Depth
       /\ \E k \in Kinds, f \in BOOLEAN :
            /\ kind' = k /\ fault' = f /\ Op([ op |-> "run", kind |-> k, fault |-> f ])
            /\ mode' = IF Refused(k) THEN "idle" ELSE "run"
       /\ log' = <<>> /\ forced' = FALSE /\ start' = have /\ done' = FALSE /\ UNCHANGED <<have, from, list, todo>>
Boot == /\ mode = "idle" /\ Len(ops) < Depth
        /\ \E b \in BOOLEAN, f \in BOOLEAN :
             /\ kind' = Plain /\ fault' = f /\ Op([ op |-> IF b THEN "force" ELSE "boot", kind |-> Plain, fault |-> f ])
             /\ forced' = b
             /\ have' = IF b THEN have \ Defaults ELSE have
             /\ mode' = IF ~b /\ Defaults \subseteq have THEN "idle" ELSE "boot"
             /\ log' = IF Variant = "fetchtodelete" /\ b /\ DName["k1"] \notin have THEN << <<DName["k1"], DUrl["k1"]>> >> ELSE <<>>
        /\ from' = [ f \in have' |-> from[f] ] /\ list' = [ f \in have' \cap DOMAIN list |-> list[f] ]
        /\ start' = have /\ done' = FALSE /\ UNCHANGED todo
Remove == /\ mode = "idle" /\ Len(ops) < Depth /\ ops # <<>> /\ ops[Len(ops)].op # "remove"
          /\ \E f \in have : /\ have' = have \ {f} /\ Op([ op |-> "remove", kind |-> Plain, fault |-> FALSE ])
                             /\ from' = [ g \in have' |-> from[g] ] /\ list' = [ g \in have' \cap DOMAIN list |-> list[g] ]
          /\ log' = <<>> /\ start' = have /\ done' = FALSE /\ UNCHANGED <<mode, kind, todo, fault, forced>>
Busy == mode \in {"run", "boot"}
Missing == IF Variant = "refetch" THEN WantedNow \ { log[i][1] : i \in DOMAIN log } ELSE WantedNow \ have
Add(f, c) == /\ have' = have \cup {f} /\ from' = [ g \in have' |-> IF g = f THEN c ELSE from[g] ]
Fetch == /\ Busy
         /\ \E r \in Fetchable : /\ N(r) \in Missing /\ U2(r) # ""
                                 /\ Add(N(r), U2(r)) /\ log' = Append(log, <<N(r), U2(r)>>)
         /\ UNCHANGED <<list, mode, kind, todo, ops, fault, forced, start, done>>
(* a download fails, or a file has no address: the operation ends there *)
Fail == /\ Busy /\ IF fault /\ Missing # {} THEN TRUE ELSE \E r \in Fetchable : N(r) \in Missing /\ U2(r) = ""
        /\ mode' = "idle"
        /\ (IF Variant = "halflist" /\ N("meta") \notin have THEN /\ Add(N("meta"), "built") /\ list' = [ f \in DOMAIN list \cup {N("meta")} |-> IF f = N("meta") THEN <<>> ELSE list[f] ]
            ELSE UNCHANGED <<have, from, list>>)
        /\ done' = FALSE /\ UNCHANGED <<kind, todo, log, ops, fault, forced, start>>
Unpack == /\ Busy /\ N("gz") \in have /\ N("json") \notin have
          /\ Add(N("json"), from[N("gz")])
          /\ UNCHANGED <<list, mode, kind, todo, log, ops, fault, forced, start, done>>
Order(s) == IF Variant = "order" THEN << s[2], s[1] >> ELSE s
Build == /\ Busy /\ IF mode = "boot" THEN TRUE ELSE N("meta") \notin have
         /\ Names({"k1", "k2"}) \subseteq have /\ WantedNow \subseteq have
         /\ Add(N("meta"), "built")
         /\ list' = [ f \in DOMAIN list \cup {N("meta")} |-> IF f = N("meta") THEN Order(IF Variant = "oldnames" THEN << DName["k1"], DName["k2"] >> ELSE << N("k1"), N("k2") >>) ELSE list[f] ]
         /\ IF mode = "boot" THEN mode' = "built" ELSE mode' = mode
         /\ UNCHANGED <<kind, todo, log, ops, fault, forced, start, done>>
Finish == /\ \/ mode = "run" /\ WantedNow \subseteq have /\ N("meta") \in have /\ N("json") \in have
             \/ mode = "built" /\ N("json") \in have
          /\ mode' = "idle" /\ done' = TRUE /\ UNCHANGED <<have, from, list, kind, todo, log, ops, fault, forced, start>>
Late == /\ mode = "built" /\ N("json") \notin have /\ N("gz") \in have /\ Add(N("json"), from[N("gz")]) /\ UNCHANGED <<list, mode, kind, todo, log, ops, fault, forced, start, done>>
Next == Run \/ Boot \/ Remove \/ Fetch \/ Fail \/ Unpack \/ Build \/ Finish \/ Late
Spec == Init /\ [][Next]_vars
(* a file that was there is not fetched; nothing is fetched twice *)
Once == /\ \A i, j \in DOMAIN log : i # j => log[i][1] # log[j][1]
        /\ \A i \in DOMAIN log : log[i][1] \in start => forced /\ log[i][1] \in Defaults
(* a file comes from its own address: a replaced name never from the default one *)
Source == \A f \in have : f[1] \in Fetchable => from[f] \in {"user", IF f[2] = "d" THEN DUrl[f[1]] ELSE NUrl[f[1]]}
(* a kernel list is complete and in order *)
Lists == \A f \in DOMAIN list : Len(list[f]) = 2 /\ list[f][1][1] = "k1" /\ list[f][2][1] = "k2"
(* an operation that finishes has what it needs; a list it built itself names its own kernels *)
Ready == done => /\ Names({"k1", "k2", "eph", "json", "meta"}) \subseteq have
                 /\ N("meta") \notin start => list[N("meta")] = << N("k1"), N("k2") >>
Tell == (Emit /\ mode = "idle" /\ Len(ops) = Depth) => PrintT("SCN " \o ToJson([ ops |-> ops ]))
Short == <<ops, mode, IF Len(ops) = Depth THEN {} ELSE have>>
=============================================================================
