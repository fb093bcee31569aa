----------------------------- MODULE TraceModels -----------------------------
(* A history of the real registries in one process (a start event begins a new one).
   start: lc, ca: pairs <<name, tag>> registered (tag 0 for what comes with the code); classes: <<kind, tag, name>> defined so far.
   define: kind, tag, name.   scan: kind, reg (after it), other (the other registry), error.   build: kind, reg (what was built), refused, now (the registry).
   run: cli (from the command line), lc, ca, cp (complex parameters were given), filters, refused, error, base (keys of the rows without models),
   rows: k, d (what the run added to the row's magnitude, 1e-4 mag), dm (the light curve column), p, q (parameters of its object);
   calls: kind, tag, rows it was given, off (deviation of the given geometry, 1e-6), filters.                                                     *)
EXTENDS TraceBase, ModelsRules
VARIABLES defined, reg
F(ps) == [ n \in { ps[i][1] : i \in DOMAIN ps } |-> (CHOOSE i \in DOMAIN ps : ps[i][1] = n) ]
Reg(ps) == [ n \in { ps[i][1] : i \in DOMAIN ps } |-> ps[F(ps)[n]][2] ]
Cs(k) == Of(defined, k)
ScanClauses(e) == << <<"no-error", e.error = "">>,
                     <<"adds-new-and-keeps-old", Reg(e.reg) = Scan(reg[e.kind], Cs(e.kind))>>,
                     <<"leaves-the-other-alone", Reg(e.other) = reg[IF e.kind = "lc" THEN "ca" ELSE "lc"]>> >>
BuildClauses(e) == << <<"refused-when-a-name-occurs-twice", e.refused = Twice(Cs(e.kind))>>,
                      <<"every-name-its-class", ~e.refused => Reg(e.reg) = Build(Cs(e.kind))>>,
                      <<"registry-stays", Reg(e.now) = reg[e.kind]>> >>
(* a run from the command line scans first *)
Eff(e, k) == IF e.cli THEN Scan(reg[k], Cs(k)) ELSE reg[k]
Chosen(e, k) == IF k = "lc" THEN e.lc ELSE e.ca
Tag(e, k) == IF Chosen(e, k) = None THEN 0 ELSE Eff(e, k)[Chosen(e, k)]
(* tag 0: no model, or the one that comes with the code, which adds nothing *)
Light(e, r) == IF Tag(e, "lc") = 0 THEN 0 ELSE Tag(e, "lc") * 5000 + r.p
Coma(e, r) == IF Tag(e, "ca") = 0 THEN 0 ELSE Tag(e, "ca") * 200000 + r.q
Near(a, b) == a - b >= -1 /\ a - b <= 1
RunClauses(e) ==
  LET ok == /\ \A k \in {"lc", "ca"} : Usable(Eff(e, k), Chosen(e, k))
            /\ e.cp \/ (e.lc = None /\ e.ca = None) IN
  << <<"refused-without-parameters-or-with-an-unknown-name", ~ok => e.refused /\ e.rows = <<>> >>,
     <<"accepted", ok => e.error = "" /\ ~e.refused>>,
     <<"every-candidate", ok => { e.rows[i].k : i \in DOMAIN e.rows } = { e.base[i] : i \in DOMAIN e.base } /\ Len(e.rows) = Len(e.base)>>,
     <<"chosen-models-once", ok => \A i \in DOMAIN e.rows : Near(e.rows[i].d, Light(e, e.rows[i]) + Coma(e, e.rows[i]))>>,
     <<"light-curve-column", ok /\ e.lc # None => \A i \in DOMAIN e.rows : Near(e.rows[i].dm, Light(e, e.rows[i]))>>,
     <<"only-the-chosen-is-asked", ok => \A i \in DOMAIN e.calls : e.calls[i].tag = Tag(e, e.calls[i].kind)>>,
     <<"geometry", ok => \A i \in DOMAIN e.calls : e.calls[i].off <= 5>>,
     <<"filters", ok => \A i \in DOMAIN e.calls : e.calls[i].kind = "ca" => e.calls[i].filters = e.filters>>,
     <<"asked-about-each-candidate-once", ok => \A k \in {"lc", "ca"} : Tag(e, k) > 0 =>
          LET c == { i \in DOMAIN e.calls : e.calls[i].kind = k } IN
          /\ UNION { { e.calls[i].rows[j] : j \in DOMAIN e.calls[i].rows } : i \in c } = { e.base[i] : i \in DOMAIN e.base }
          /\ \A i \in c : Cardinality({ e.calls[i].rows[j] : j \in DOMAIN e.calls[i].rows }) = Len(e.calls[i].rows)
          /\ \A i, j \in c : i # j => { e.calls[i].rows[x] : x \in DOMAIN e.calls[i].rows } \cap { e.calls[j].rows[x] : x \in DOMAIN e.calls[j].rows } = {}>> >>
TraceInit == BaseInit /\ defined = <<>> /\ reg = [ k \in {"lc", "ca"} |-> <<>> ]
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN
                CASE e.ev = "start" -> /\ Advance({}) /\ reg' = [ k \in {"lc", "ca"} |-> Reg(IF k = "lc" THEN e.lc ELSE e.ca) ]
                                       /\ defined' = [ i \in DOMAIN e.classes |-> <<e.classes[i][1], e.classes[i][2], e.classes[i][3]>> ]
                  [] e.ev = "define" -> Advance({}) /\ defined' = Append(defined, <<e.kind, e.tag, e.name>>) /\ UNCHANGED reg
                  [] e.ev = "scan" -> Advance(Failing(ScanClauses(e))) /\ reg' = [ reg EXCEPT ![e.kind] = Reg(e.reg) ] /\ UNCHANGED defined
                  [] e.ev = "build" -> Advance(Failing(BuildClauses(e))) /\ UNCHANGED <<defined, reg>>
                  [] e.ev = "run" -> Advance(Failing(RunClauses(e))) /\ UNCHANGED <<defined, reg>>
                  [] OTHER -> Advance({"unknown-event"}) /\ UNCHANGED <<defined, reg>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad, defined, reg>>
=============================================================================
