------------------------------ MODULE Rounding ------------------------------
(* Rounding of a non-integer number to n decimal places.  A number is whole + (units + rest/1000) / base, base = 10^n units to the whole,
   0 <= units < base, 0 <= rest < 1000.  (TLC's integers have 32 bits: whole and units stay below 2^31.)  A rest of exactly one
   half may go either way; so may one within `slack` of it, the number being known to that accuracy only.                        *)
EXTENDS Integers
Up(w, u, base) == IF u + 1 = base THEN <<w + 1, 0>> ELSE <<w, u + 1>>
Rounded(w, u, rest, base, slack) ==
  (IF rest <= 500 + slack THEN {<<w, u>>} ELSE {}) \cup (IF rest >= 500 - slack THEN {Up(w, u, base)} ELSE {})
=============================================================================
