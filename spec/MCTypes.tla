------------------------------ MODULE MCTypes ------------------------------
(* Runs TypeWorld along scripts; see MCScript. *)
EXTENDS TypeWorld, Json, IOUtils
Scen == ndJsonDeserialize(IOEnv.SCENARIOS)
VARIABLES sid, pc, s, obs
vars == <<sid, pc, s, obs>>
Init == sid \in 1..Len(Scen) /\ pc = 0 /\ s = TWorld0 /\ obs = [ok |-> TRUE]
Next == /\ pc < Len(Scen[sid].ops)
        /\ LET r == TApply(s, Scen[sid].ops[pc + 1], Scen[sid].env)
           IN /\ s' = r.s
              /\ obs' = r.o
              /\ PrintT(ToJson(<<"@", Scen[sid].id, pc + 1, r.o>>))
        /\ pc' = pc + 1
        /\ UNCHANGED sid
Spec == Init /\ [][Next]_vars
Inv == pc >= 0
Act == [][TStepOk(s, Scen[sid].ops[pc + 1], s', obs')]_vars
=============================================================================
