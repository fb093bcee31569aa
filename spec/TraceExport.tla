----------------------------- MODULE TraceExport -----------------------------
(* A run that exported its ephemeris, and runs that read the file.
   write: error; used: identifiers of the rows the run used; file: of those in the file; columns: the file has the ephemeris columns and no others.
   read: same: chunk size as in the writing run (with another one, only settings without draws are compared, and the order of the detections is free); error;
   a, b: detections of the writing and the reading run; held: rows in the file.                                                                          *)
EXTENDS TraceBase, ExportRules
WriteClauses(e) == << <<"no-error", e.error = "">>,
                      <<"file-is-what-was-used", e.error = "" => Bag(e.file) = Bag(e.used)>>,
                      <<"columns", e.error = "" => e.columns>> >>
ReadClauses(e) == << <<"no-error", e.error = "">>,
                     <<"nothing-from-nothing", e.held = 0 => e.a = <<>> /\ e.b = <<>> >>,
                     <<"same-detections", e.error = "" => IF e.same THEN e.a = e.b ELSE Bag(e.a) = Bag(e.b)>> >>
TraceInit == BaseInit
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN
                CASE e.ev = "write" -> Advance(Failing(WriteClauses(e)))
                  [] e.ev = "read" -> Advance(Failing(ReadClauses(e)))
                  [] OTHER -> Advance({"unknown-event"})
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
=============================================================================
