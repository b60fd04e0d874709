------------------------------ MODULE MCErrFmt ------------------------------
(***************************************************************************)
(* Validates observations of the real code: the file named by SCENARIOS is *)
(* a sequence of [id, fails, errs, raw]: the failures that were provoked,  *)
(* the errors of the ValidationError that was raised and its raw form.     *)
(***************************************************************************)
EXTENDS ErrFmt, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.SCENARIOS)
VARIABLES i, done
Init == i \in 1..Len(Obs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET o == Obs[i]
           IN PrintT(ToJson(<<"@", o.id, Flattened(o.fails, o.errs), SameRaw(o.raw, Raw(o.errs)), Tokens(o.errs, 0)>>))
Spec == Init /\ [][Next]_<<i, done>>
Inv == Law(Obs[i].errs) /\ Law(Norm(Obs[i].fails))
=============================================================================
