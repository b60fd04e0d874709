------------------------------- MODULE MCMenu -------------------------------
(***************************************************************************)
(* Every behaviour of small menus of operations.  The file named by        *)
(* SCENARIOS is a sequence of menus [id, env, stages]; stage k is a        *)
(* sequence of alternatives, each a sequence of operations.  A behaviour   *)
(* takes one alternative of every stage, until an operation cannot be      *)
(* applied (the instance it needs was never created).  The behaviours of a *)
(* menu form a tree: path is the sequence of the choices.                  *)
(***************************************************************************)
EXTENDS Oblate, Props, Json, IOUtils

Menus == ndJsonDeserialize(IOEnv.SCENARIOS)

VARIABLES m,     \* the menu
          path,  \* the choices made
          todo,  \* what remains of the alternative
          last,  \* the operation that was applied
          w, obs
vars == <<m, path, todo, last, w, obs>>

Stages == Menus[m].stages
Nothing == [res |-> "init", errs |-> <<>>, evs |-> <<>>, out |-> <<>>]
Init == /\ m \in 1..Len(Menus)
        /\ path = <<>> /\ todo = <<>> /\ last = [op |-> "none"]
        /\ w = World0(Menus[m].env)
        /\ obs = Nothing

Choose1 == /\ todo = <<>> /\ obs.res # "skip" /\ Len(path) < Len(Stages)
           /\ \E j \in 1..Len(Stages[Len(path) + 1]) :
                path' = Append(path, j) /\ todo' = Stages[Len(path) + 1][j]
           /\ last' = [op |-> "none"] /\ obs' = Nothing
           /\ UNCHANGED <<m, w>>
Step == /\ todo # <<>>
        /\ LET op == Head(todo)
               r == Apply(w, op)
           IN /\ w' = r.w /\ last' = op
              /\ obs' = [res |-> r.res, errs |-> r.errs, evs |-> r.evs, out |-> r.out]
              /\ todo' = IF r.res = "skip" THEN <<>> ELSE Tail(todo)
              /\ PrintT(ToJson(<<"@", Menus[m].id, path, Len(Stages[Len(path)][path[Len(path)]]) - Len(todo) + 1,
                                 r.res, r.errs, r.evs, <<r.out>>,
                                 [i \in DOMAIN r.w.ins |-> [vals |-> r.w.ins[i].vals, st |-> r.w.ins[i].st]], r.w.g.ecls, r.w.g.warn>>))
        /\ UNCHANGED <<m, path>>
Next == Choose1 \/ Step
Spec == Init /\ [][Next]_vars

Inv == WorldOk(w)
Act == [][todo # <<>> => StepOk(w, last', w', obs')]_vars
=============================================================================
