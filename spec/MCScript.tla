------------------------------ MODULE MCScript ------------------------------
(***************************************************************************)
(* Runs the specification along scripts.  The file named by SCENARIOS is a *)
(* sequence of scenarios [id, env, ops]; for each of them there is one     *)
(* behaviour, whose transitions are Apply(w, ops[i]).  Every transition is *)
(* printed (what an observer sees and the values of every instance after   *)
(* it) and the invariants of Props are checked in every state.             *)
(***************************************************************************)
EXTENDS Oblate, Props, Json, IOUtils

Scen == ndJsonDeserialize(IOEnv.SCENARIOS)

VARIABLES sid, pc, w, obs
vars == <<sid, pc, w, obs>>

Init == /\ sid \in 1..Len(Scen)
        /\ pc = 0
        /\ w = World0(Scen[sid].env)
        /\ obs = [res |-> "init", errs |-> <<>>, evs |-> <<>>, out |-> <<>>]

Step == /\ pc < Len(Scen[sid].ops)
        /\ LET op == Scen[sid].ops[pc + 1]
               r == Apply(w, op)
           IN /\ w' = r.w
              /\ obs' = [res |-> r.res, errs |-> r.errs, evs |-> r.evs, out |-> r.out]
              /\ PrintT(ToJson(<<"@", Scen[sid].id, pc + 1, r.res, r.errs, r.evs, <<r.out>>,
                                 [i \in DOMAIN r.w.ins |-> [vals |-> r.w.ins[i].vals, st |-> r.w.ins[i].st]], r.w.g.ecls, r.w.g.warn>>))
        /\ pc' = pc + 1
        /\ UNCHANGED sid

Next == Step
Spec == Init /\ [][Next]_vars

OpAt == Scen[sid].ops[pc + 1]
Inv == WorldOk(w)
Act == [][StepOk(w, Scen[sid].ops[pc + 1], w', obs')]_vars
=============================================================================
