-------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* What the specification guarantees: WorldOk holds in every state,        *)
(* StepOk(w, op, w2, obs) of every transition w --op--> w2.                *)
(***************************************************************************)
EXTENDS Oblate

Changed(w, w2) == {i \in DOMAIN w.ins : w.ins[i] # w2.ins[i]}

(* the values an instance can hold: of known fields, conforming to them *)
ValOk(w, f, v) ==
  \/ f.dflt = <<"val", v>>
  \/ f.dflt[1] = "call" /\ v = <<"str", "dv:" \o f.id>>
  \/ IsNone(v) /\ f.none
  \/ /\ ~IsNone(v)
     /\ CASE f.kind = "probe" -> v[1] = "L" \/ f.load[Code(v) + 1] = "id"
          [] f.kind = "any"   -> TRUE
          [] f.kind = "prim"  -> IsInstance(v, PrimClass(f.pt), w.env)
          [] f.kind = "struct" -> IsStructOf(v, f.pt) /\ Conf(v, f.tp, w.env).ok
          [] f.kind = "typed" -> Conf(v, f.tp, w.env).ok
          [] f.kind = "object" -> v[1] = "obj" /\ v[2] \in DOMAIN w.ins
                                  /\ f.cls \in Rng(w.cl[w.ins[v[2]].cls].mro)

InstOk(w, i) ==
  LET r == w.ins[i]
  IN /\ DOMAIN r.vals \subseteq FieldNames(w, r.cls)
     /\ \A n \in FieldNames(w, r.cls) :
          LET f == FieldObj(w, r.cls, n)
          IN /\ n \in DOMAIN r.vals => ValOk(w, f, r.vals[n])
             \* a field without a value is optional and has no default
             /\ n \notin DOMAIN r.vals => ~Required(f) /\ f.dflt[1] = "missing"

ClassOk(w, c) ==
  LET k == w.cl[c]
  IN /\ DOMAIN k.own \subseteq DOMAIN k.flds
     /\ \A n \in DOMAIN k.flds : w.fo[k.flds[n]].nm = n
     /\ \A b \in Rng(k.mro) : DOMAIN w.cl[b].flds \subseteq DOMAIN k.flds

WorldOk(w) == /\ \A i \in DOMAIN w.ins : InstOk(w, i)
              /\ \A c \in DOMAIN w.cl : ClassOk(w, c)

Reads == {"get", "dump", "walk", "info", "repr"}
StepOk(w, op, w2, o) ==
  \* an operation that fails changes nothing at all
  /\ o.res # "ok" => [w2 EXCEPT !.g = w.g] = w
  \* the configuration changes by those who change it
  /\ w2.g # w.g => op.op = "cfg" \/ CfgChanged(w, o.evs)
  /\ o.res = "verr" <=> o.errs # <<>>
  \* reading changes nothing
  /\ op.op \in Reads => [w2 EXCEPT !.g = w.g] = w
  \* instances never disappear and only the target of the operation changes
  /\ DOMAIN w.ins \subseteq DOMAIN w2.ins
  /\ Changed(w, w2) \subseteq (IF op.op \in {"upd", "set", "state"} THEN {op.i} ELSE {})
  \* frozen classes and fields
  /\ op.op \in {"upd", "set"} /\ o.res # "skip" =>
       LET c == w.ins[op.i].cls
       IN /\ w.cl[c].cfg.frozen => Changed(w, w2) = {} /\ o.res = "FrozenError"
          /\ o.res = "ok" =>
               \A n \in FieldNames(w, c) :
                 LET a == w.ins[op.i].vals
                     b == w2.ins[op.i].vals
                     given == IF op.op = "set" THEN op.f = n ELSE LK(FieldObj(w, c, n)) \in Keys(op.data)
                 IN /\ FieldObj(w, c, n).frozen => (n \in DOMAIN a <=> n \in DOMAIN b) /\ (n \in DOMAIN a => a[n] = b[n])
                    /\ given => n \in DOMAIN b
                    /\ ~given => (n \in DOMAIN a <=> n \in DOMAIN b) /\ (n \in DOMAIN a => a[n] = b[n])
  \* only the definition of a class adds classes and it leaves the others
  \* and their fields alone
  /\ op.op = "def" => \A c \in DOMAIN w.cl : w2.cl[c] = w.cl[c]
  /\ op.op = "def" => \A f \in DOMAIN w.fo : w2.fo[f] = w.fo[f]
  /\ op.op # "def" => w2.cl = w.cl
  /\ op.op \notin {"addv", "remv", "clrv", "def"} => w2.fo = w.fo
  \* the registry of one field object only
  /\ op.op \in {"addv", "remv", "clrv"} =>
       \A f \in DOMAIN w.fo : w2.fo[f] # w.fo[f] => f = w.cl[op.cls].flds[op.f]
=============================================================================
