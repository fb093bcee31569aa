----------------------------- MODULE TraceAux -----------------------------
(* Operations on a directory of auxiliary files.  before, after: the files there, [name, where it is from] ("user": put there by the user, "built", otherwise an address);
   fetched: downloads that succeeded, [name, address]; faulted: a download was made to fail; refused-or-failed: error # "".
   run: kind, dname, nname (per role), durl, nurl (per role that can be fetched), used: the files of the planets' ephemerides; furnished: the kernel list given to SPICE;
   fresh: the kernel list is new; loaded: what SPICE itself reads from the new list, in its order.
   boot: the same with default names; force.                                                                                                                            *)
EXTENDS TraceBase, AuxRules
Files(s) == { s[i][1] : i \in DOMAIN s }
Pairs(s) == { <<s[i][1], s[i][2]>> : i \in DOMAIN s }
Kernels == <<"leap_seconds", "earth_historical", "earth_predict", "orientation_constants", "planet_ephemeris", "earth_high_precision">>
PlainRoles == ToSet(Kernels) \cup {"jpl_planets", "jpl_small_bodies"}
Fetchable == PlainRoles \cup {"observatory_codes_compressed"}
NotTwice(s) == \A i, j \in DOMAIN s : i # j => s[i][1] # s[j][1]
FromGz(e, gz) == { p[2] : p \in { q \in Pairs(e.after) : q[1] = gz } }
RunClauses(e) ==
  LET N(r) == NameOf(e.kind, e.dname, e.nname, r)
      U(r) == UrlOf(e.kind, e.durl, e.nurl, r)
      have == Files(e.before)
      gz == N("observatory_codes_compressed")
      json == N("observatory_codes")
      meta == N("meta_kernel")
      missing == Wanted({ N(r) : r \in PlainRoles }, gz, json, have) \ have
      roles == { r \in Fetchable : N(r) \in missing }
      ok == ~e.faulted /\ \A r \in roles : U(r) # ""
      new == Pairs(e.after) \ Pairs(e.before)
  IN IF Refused(e.kind)
     THEN << <<"address-without-name-refused", e.error # "">>, <<"refused-without-effect", e.fetched = <<>> /\ Pairs(e.after) = Pairs(e.before)>> >>
     ELSE << <<"only-missing-files-are-fetched", NotTwice(e.fetched) /\ Files(e.fetched) \subseteq missing>>,
             <<"from-their-own-address", \A r \in roles : \A p \in Pairs(e.fetched) : p[1] = N(r) => p[2] = U(r)>>,
             <<"files-stay", Pairs(e.before) \subseteq Pairs(e.after)>>,
             <<"nothing-else-appears", \A p \in new : \/ p \in Pairs(e.fetched)
                                                      \/ p[1] = json /\ p[2] \in FromGz(e, gz)
                                                      \/ p = <<meta, "built">> >>,
             <<"list-with-its-kernels", meta \in Files(e.after) \ have => { N(k) : k \in ToSet(Kernels) } \subseteq Files(e.after)>>,
             <<"completes", ok => e.error = "" /\ missing \cup {json, meta} \subseteq Files(e.after)>>,
             <<"stops-without-a-file", ~ok => e.error # "">>,
             <<"uses-its-files", ok => e.used = << N("jpl_planets"), N("jpl_small_bodies") >> /\ e.furnished = meta>>,
             <<"list-in-precision-order", ok /\ e.fresh => e.loaded = [ i \in 1..6 |-> N(Kernels[i]) ]>> >>
BootClauses(e) ==
  LET D(r) == e.dname[r]
      all == { D(r) : r \in DOMAIN e.dname }
      rebuilt == { D("meta_kernel"), D("observatory_codes") }
      base == IF e.force THEN { p \in Pairs(e.before) : p[1] \notin all } ELSE Pairs(e.before)
      noop == ~e.force /\ all \subseteq Files(e.before)
      missing == { D(r) : r \in Fetchable } \ { p[1] : p \in base }
  IN << <<"nothing-to-do", noop => e.fetched = <<>> /\ Pairs(e.after) = Pairs(e.before) /\ e.error = "">>,
        <<"only-missing-files-are-fetched", NotTwice(e.fetched) /\ Files(e.fetched) \subseteq missing>>,
        <<"from-their-own-address", \A r \in Fetchable : \A p \in Pairs(e.fetched) : p[1] = D(r) => p[2] = e.durl[r]>>,
        <<"files-stay", \A p \in base : p[1] \notin rebuilt => p \in Pairs(e.after)>>,
        <<"nothing-else-appears", \A p \in Pairs(e.after) : p \in base \/ p \in Pairs(e.fetched) \/ p[1] \in rebuilt>>,
        <<"list-with-its-kernels", e.fresh => { D(k) : k \in ToSet(Kernels) } \subseteq Files(e.after)>>,
        <<"completes", ~e.faulted => e.error = "" /\ all \subseteq Files(e.after)>>,
        <<"list-in-precision-order", ~e.faulted /\ e.fresh => e.loaded = [ i \in 1..6 |-> D(Kernels[i]) ]>> >>
TraceInit == BaseInit
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN
                CASE e.ev = "run" -> Advance(Failing(RunClauses(e)))
                  [] e.ev = "boot" -> Advance(Failing(BootClauses(e)))
                  [] OTHER -> Advance({"unknown-event"})
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
=============================================================================
