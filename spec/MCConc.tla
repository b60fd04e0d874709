------------------------------- MODULE MCConc -------------------------------
(***************************************************************************)
(* Strands of operations that are executed concurrently (in threads) or    *)
(* re-entrantly (an operation started by user code in the middle of        *)
(* another one).  The strands of a scenario share the schema classes, the  *)
(* configuration and some instances that none of them changes; apart from  *)
(* these each works on instances of its own.                               *)
(*                                                                         *)
(* Every interleaving of the operations is explored.  Whatever the         *)
(* interleaving, each operation has the outcome it has when the strands    *)
(* run one after the other (ok), and the final state is the same (Final).  *)
(* The operations are atomic here; the conformance check interleaves the   *)
(* real ones at every call of user code and compares them with Base.       *)
(***************************************************************************)
EXTENDS Oblate, Props, Json, IOUtils

Scen == ndJsonDeserialize(IOEnv.SCENARIOS)

RECURSIVE RunOps(_, _)
RunOps(w, ops) == IF ops = <<>> THEN w ELSE RunOps(Apply(w, Head(ops)).w, Tail(ops))

View(w, r) == [res |-> r.res, errs |-> r.errs, evs |-> r.evs, out |-> r.out]
Ins(w) == [i \in DOMAIN w.ins |-> [vals |-> w.ins[i].vals, st |-> w.ins[i].st]]

(* what is observed of ops, one after the other, from w *)
RECURSIVE Trace(_, _)
Trace(w, ops) == IF ops = <<>> THEN <<>>
                 ELSE LET r == Apply(w, Head(ops))
                      IN <<[v |-> View(w, r), ins |-> Ins(r.w), g |-> r.w.g]>> \o Trace(r.w, Tail(ops))

VARIABLES sid, pcs, w, base, final, ok
vars == <<sid, pcs, w, base, final, ok>>

Strands(s) == Scen[s].strands
Init == /\ sid \in 1..Len(Scen)
        /\ w = RunOps(World0(Scen[sid].env), Scen[sid].ops)
        /\ pcs = [t \in 1..Len(Strands(sid)) |-> 0]
        \* each strand by itself
        /\ base = [t \in 1..Len(Strands(sid)) |-> Trace(w, Strands(sid)[t])]
        /\ final = RunOps(w, FlattenSeq(Strands(sid)))
        /\ ok = TRUE
        /\ \A t \in 1..Len(Strands(sid)) : \A k \in 1..Len(base[t]) :
             LET b == base[t][k]
             IN PrintT(ToJson(<<"@", Scen[sid].id, t, k, b.v.res, b.v.errs, b.v.evs, <<b.v.out>>, b.ins, b.g.ecls, b.g.warn>>))

Step(t) == /\ pcs[t] < Len(Strands(sid)[t])
           /\ LET r == Apply(w, Strands(sid)[t][pcs[t] + 1])
              IN /\ w' = r.w
                 /\ ok' = (ok /\ View(w, r) = base[t][pcs[t] + 1].v)
           /\ pcs' = [pcs EXCEPT ![t] = @ + 1]
           /\ UNCHANGED <<sid, base, final>>
Next == \E t \in DOMAIN pcs : Step(t)
Spec == Init /\ [][Next]_vars

Independent == ok
Confluent == (\A t \in DOMAIN pcs : pcs[t] = Len(Strands(sid)[t])) => w = final
Inv == Independent /\ Confluent /\ WorldOk(w)
=============================================================================
