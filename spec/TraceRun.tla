----------------------------- MODULE TraceRun -----------------------------
(* Conformance of recorded executions.  VERIF_DATA holds a sequence of
   traces, each with a sequence 'ev' of events recorded from the real code.
   Every event is one step of the specification: Step(st, e) gives the next
   specification state and whether the observation in e is one that the
   specification allows (ok), together with what it expected (exp).
   A mismatch is remembered and the rest of the trace is still checked.
   r.kf, if present and not empty, names the recorded defect of the code
   whose modelled outcome is the one that was observed.                    *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS Step(_, _), Start(_)

Traces == JsonDeserialize(IOEnv.VERIF_DATA)

VARIABLES cur_, at_, st_, bad_

Init == /\ cur_ \in 1 .. Len(Traces)
        /\ at_ = 1
        /\ st_ = Start(Traces[cur_])
        /\ bad_ = <<>>

Consume == /\ at_ <= Len(Traces[cur_].ev)
           /\ LET r == Step(st_, Traces[cur_].ev[at_])
              IN /\ st_' = r.st
                 /\ bad_' = IF r.ok THEN bad_
                           ELSE Append(bad_, [l |-> at_, exp |-> r.exp,
                                             kf |-> IF "kf" \in DOMAIN r THEN r.kf ELSE ""])
           /\ at_' = at_ + 1
           /\ UNCHANGED cur_

Finish == /\ at_ = Len(Traces[cur_].ev) + 1
          /\ PrintT("@VERDICT " \o ToJson([t |-> cur_, bad |-> bad_]))
          /\ at_' = at_ + 1
          /\ UNCHANGED <<cur_, st_, bad_>>

Next == Consume \/ Finish
===========================================================================
