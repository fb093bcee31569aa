----------------------------- MODULE AuxRules -----------------------------
(* Auxiliary data files.  A role (a kernel, the planets' ephemeris, the observatory list ...) has a default name and, when it can be fetched, a default address.
   kind[r]: "default", "name" (name replaced), "both" (name and address replaced), "url" (address alone replaced: refused).
   The observatory list is used unpacked; it is unpacked from its compressed file, which is what is fetched.                                                   *)
EXTENDS Integers, Sequences, FiniteSets
Refused(kind) == \E r \in DOMAIN kind : kind[r] = "url"
NameOf(kind, dname, nname, r) == IF kind[r] \in {"name", "both"} THEN nname[r] ELSE dname[r]
UrlOf(kind, durl, nurl, r) == IF kind[r] = "both" THEN nurl[r] ELSE IF kind[r] = "name" THEN "" ELSE durl[r]
(* what a run needs to have, given what is there (names): the compressed list only when the unpacked one is missing *)
Wanted(plain, gz, json, have) == plain \cup (IF json \in have THEN {} ELSE {gz})
=============================================================================
