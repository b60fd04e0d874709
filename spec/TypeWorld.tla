----------------------------- MODULE TypeWorld -----------------------------
(***************************************************************************)
(* Standalone type validation as a state machine: the state is the option  *)
(* to warn of unsupported types and the set of unsupported types that were *)
(* warned of; TypeExpr.tla says what conforms.                             *)
(***************************************************************************)
EXTENDS TypeExpr

TWorld0 == [warn |-> TRUE, issued |-> {}]

RECURSIVE UnsupIn(_, _)
(* all unsupported parts of a type expression *)
UnsupIn(t, env) ==
  LET k == t[1] IN
  CASE k = "unsup" -> {env.orig[t[2]]}
    [] k \in {"list", "set", "seq", "tupv", "req", "nreq"} -> UnsupIn(t[2], env)
    [] k \in {"union", "tup"} -> UNION {UnsupIn(x, env) : x \in Rng(t[2])}
    [] k \in {"dict", "mapping"} -> UnsupIn(t[2], env) \cup UnsupIn(t[3], env)
    [] k = "td" -> UNION {UnsupIn(e[2], env) : e \in Rng(TDKeys(t[2], env))}
    [] OTHER -> {}

(* returns the next state and what is observed: the verdict, the offending *)
(* keys, the unsupported types that must (may) be warned of, each once     *)
TApply(s, op, env) ==
  CASE op.op = "warn" /\ op.how \in {"bad", "badctor"} -> [s |-> s, o |-> [ok |-> FALSE]]
    [] op.op = "warn" -> [s |-> [s EXCEPT !.warn = op.v], o |-> [ok |-> TRUE]]
    [] op.op = "val" ->
         LET r == ValidateTypes(op.types, op.values, op.ie, op.im, env)
             reached == {env.orig[l] : l \in r.warn}
             may == IF s.warn THEN UNION {UnsupIn(op.types[i][2], env) : i \in DOMAIN op.types} \ s.issued ELSE {}
             must == IF s.warn THEN reached \ s.issued ELSE {}
         IN [s |-> [s EXCEPT !.issued = @ \cup must],
             o |-> [ok |-> r.ok, bad |-> r.bad, extra |-> r.extra, missing |-> r.missing, must |-> must, may |-> may]]

TStepOk(s, op, s2, o) ==
  /\ op.op = "val" =>
       /\ s2.warn = s.warn
       /\ o.must \subseteq o.may
       /\ (~s.warn => o.may = {} /\ s2 = s)
       /\ o.ok <=> (DOMAIN o.bad = {} /\ o.extra = {} /\ o.missing = {})
       /\ (op.ie => o.extra = {}) /\ (op.im => o.missing = {})
       /\ \A k \in DOMAIN o.bad : o.bad[k] # <<>>
  /\ s.issued \subseteq s2.issued
=============================================================================
