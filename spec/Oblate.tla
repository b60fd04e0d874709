------------------------------- MODULE Oblate -------------------------------
(***************************************************************************)
(* The schema lifecycle of oblate: definition of schema classes,           *)
(* construction of instances from raw data, update, assignment, lookup,    *)
(* dump, copy, the validator registry and the global configuration.        *)
(*                                                                         *)
(* The state of the system is one record, the world w:                     *)
(*   w.fo   field objects: id -> definition and registered validators      *)
(*   w.cl   schema classes: id -> own fields, linearization, config, hooks *)
(*   w.ins  schema instances: id -> [cls, vals, st]                        *)
(*   w.g    global configuration: [ecls, warn]                             *)
(*   w.env  what comes from outside of oblate (class ancestry, TypedDicts, *)
(*          the results of int(), float() and str())                       *)
(*                                                                         *)
(* Apply(w, op) is the transition function: it returns the next world and  *)
(* everything an observer of the public API sees of the operation:         *)
(*   res   "ok", "verr" (ValidationError) or the exception that is raised  *)
(*   errs  the field errors carried by a ValidationError                   *)
(*   evs   the user code (value_load, validators, hooks ..) that is called *)
(*   out   the value returned                                              *)
(* The ambient context (the current schema, field key and context that     *)
(* errors are attributed with) is specified separately, in Ambient.tla.    *)
(*                                                                         *)
(* User code is scripted: a callback has a table of outcomes, indexed by   *)
(* Code(value).  An outcome is                                             *)
(*   "ok"   returns          "id"  (value_load only) returns its argument  *)
(*   "V" "A" "VS" "AS"  ValueError/AssertionError (or a subclass of it)    *)
(*          with a message,  "V0" "A0" without one, "V1" "A1" with an      *)
(*          empty one, "VE" whose text is empty though it has arguments    *)
(*   "VB" "AB" with a message of white space only, "VM" with several       *)
(*          arguments, "VU" a UnicodeDecodeError, "VC" with a text of its  *)
(*          own: the message is the text of the exception                  *)
(*   "F" "FS" FieldError (or a subclass) with a message and a state,       *)
(*   "FV"     one that is a ValueError as well                             *)
(*   "FL" "FT" "FE"  FieldError whose message is a list, tuple, set        *)
(*   "FD" "FI"  FieldError whose message is a dictionary, a number         *)
(*   "B.."  any other exception                                            *)
(***************************************************************************)
EXTENDS Values, TypeExpr

TextMsg == {"V", "A", "VS", "AS", "VB", "AB", "VM", "VU", "VC"}
NoMsg == {"V0", "A0", "V1", "A1", "VE"}
IsFail(o) == o \in TextMsg \cup NoMsg \cup {"F", "FS", "FV", "FL", "FT", "FE", "FD", "FI"}
IsBoom(o) == ~IsFail(o) /\ o \notin {"ok", "id"}

(***************************************************************************)
(* Errors                                                                  *)
(***************************************************************************)
ErrRec(key, fld, sch, ctx, msg, st) ==
  [key |-> key, fld |-> fld, sch |-> sch, ctx |-> ctx, msg |-> msg, st |-> st]

(* Errors of user code: who is the id of the callback.  A FieldError with  *)
(* a sequence as message counts as one error for each element.             *)
UserMsgs(o, who, code) ==
  CASE o \in TextMsg -> <<[msg |-> <<"user", who, code, 0>>, st |-> NoneV]>>
    [] o \in {"F", "FS", "FV"} -> <<[msg |-> <<"user", who, code, 0>>, st |-> <<"st", who>>]>>
    [] o \in {"FL", "FT", "FE"} -> <<[msg |-> <<"user", who, code, 1>>, st |-> <<"st", who>>],
                                     [msg |-> <<"user", who, code, 2>>, st |-> <<"st", who>>]>>
    [] o = "FD" -> <<[msg |-> <<"udict", who, code>>, st |-> <<"st", who>>]>>
    [] o = "FI" -> <<[msg |-> <<"uint", who, code>>, st |-> NoneV]>>

(* Default errors: field.fmt[code] says what an overridden format_error    *)
(* does with an error code: "none" (not overridden for that code, the      *)
(* default message), "str", "nil" (an empty string), "fe" (a FieldError    *)
(* with a state), "fl" (a FieldError with a list as message), "bad" (an     *)
(* answer of a wrong type: a TypeError); any other mode is an exception    *)
(* that ends the operation.                                                *)
FmtMode(f, code) == IF Has(f.fmt, code) THEN f.fmt[code] ELSE "none"
FmtMsgs(f, code) ==
  CASE FmtMode(f, code) = "none" -> <<[msg |-> <<"lib", code>>, st |-> NoneV]>>
    [] FmtMode(f, code) = "str"  -> <<[msg |-> <<"fmt", f.id, code, 0>>, st |-> NoneV]>>
    [] FmtMode(f, code) = "nil"  -> <<[msg |-> <<"nil">>, st |-> NoneV]>>
    [] FmtMode(f, code) = "fe"   -> <<[msg |-> <<"fmt", f.id, code, 0>>, st |-> <<"st", f.id>>]>>
    [] FmtMode(f, code) = "fl"   -> <<[msg |-> <<"fmt", f.id, code, 1>>, st |-> <<"st", f.id>>],
                                      [msg |-> <<"fmt", f.id, code, 2>>, st |-> <<"st", f.id>>]>>
    [] OTHER -> <<>>
FmtBoom(f, code) ==
  LET m == FmtMode(f, code)
  IN IF m \in {"none", "str", "nil", "fe", "fl"} THEN "" ELSE IF m = "bad" THEN "TypeError" ELSE m
FmtEvs(f, code, val, iid) ==
  IF f.fl THEN <<<<"fmt", iid, f.nm, code, val>>>> ELSE <<>>
MissingV == <<"missing">>

LK(f) == IF f.lk = "" THEN f.nm ELSE f.lk
DK(f) == IF f.dk = "" THEN f.nm ELSE f.dk
Required(f) == f.req /\ f.dflt[1] = "missing"

WithKey(ms, key, fld, sch, ctx) ==
  MapS(LAMBDA m : ErrRec(key, fld, sch, ctx, m.msg, m.st), ms)

(* what an outcome o of user code of field f yields as errors *)
OutcomeErrs(f, o, who, code, iid, ctx) ==
  WithKey(IF o \in NoMsg THEN FmtMsgs(f, "validation_failed") ELSE UserMsgs(o, who, code),
          LK(f), f.nm, iid, ctx)
OutcomeEvs(f, o, val, iid) ==
  IF o \in NoMsg THEN FmtEvs(f, "validation_failed", val, iid) ELSE <<>>
OutcomeBoom(f, o) == IF o \in NoMsg THEN FmtBoom(f, "validation_failed") ELSE ""
DefaultErrs(f, code, iid, ctx) == WithKey(FmtMsgs(f, code), LK(f), f.nm, iid, ctx)

(***************************************************************************)
(* Classes                                                                 *)
(***************************************************************************)
Cls(w, c) == w.cl[c]
FieldObj(w, c, name) == w.fo[w.cl[c].flds[name]]
FieldNames(w, c) == DOMAIN w.cl[c].flds
(* the field of class c whose load key is k, "" if there is none *)
FieldByLoadKey(w, c, k) ==
  LET s == {n \in FieldNames(w, c) : LK(FieldObj(w, c, n)) = k}
  IN IF s = {} THEN "" ELSE CHOOSE n \in s : TRUE
(* lookup by name, then by load key *)
FieldByName(w, c, n) == IF n \in FieldNames(w, c) THEN n ELSE FieldByLoadKey(w, c, n)

(***************************************************************************)
(* Loading one value                                                       *)
(***************************************************************************)
Coerced(w, pt, v) == Lookup(w.env.co[pt], v, <<"unknown">>)
StrOf(w, v) == Coerced(w, "String", v)[2][2]
PrimClass(pt) == CASE pt = "String" -> "str" [] pt = "Integer" -> "int"
                   [] pt = "Float" -> "float" [] pt = "Boolean" -> "bool"

(* the result of loading a primitive: <<"ok", value>> or <<"err", code>> *)
(* (the code UNKNOWN says that the environment does not tell)              *)
LoadPrim(w, f, v) ==
  IF IsInstance(v, PrimClass(f.pt), w.env) THEN <<"ok", v>>
  ELSE IF f.strict THEN <<"err", "invalid_datatype">>
  ELSE IF Coerced(w, IF f.pt = "Boolean" THEN "String" ELSE f.pt, v)[1] = "unknown" THEN <<"err", "UNKNOWN">>
  ELSE IF Coerced(w, IF f.pt = "Boolean" THEN "String" ELSE f.pt, v)[1] # "ok" THEN <<"err", "coercion_failed">>
  ELSE IF f.pt = "Boolean"
       THEN IF StrOf(w, v) \in Rng(f.tv) THEN <<"ok", <<"bool", "True">>>>
            ELSE IF StrOf(w, v) \in Rng(f.fv) THEN <<"ok", <<"bool", "False">>>>
            ELSE <<"err", "coercion_failed">>
       ELSE Coerced(w, f.pt, v)

StructTag(k) == CASE k = "Dict" -> "dict" [] k = "List" -> "list" [] k = "Set" -> "set" [] k = "TypedDict" -> "dict"
IsStructOf(v, k) == IsStruct(v, StructTag(k)) \/ (StructTag(k) = "dict" /\ v[1] = "map")
(* fields with a type expression: code of the error or "" *)
LoadTyped(w, f, v) ==
  IF f.kind = "struct" /\ ~IsStructOf(v, f.pt) THEN <<"err", "invalid_datatype">>
  ELSE IF Conf(v, f.tp, w.env).ok THEN <<"ok", v>>
  ELSE <<"err", IF f.kind = "struct" THEN "type_validation_failed" ELSE f.tcode>>
(* the default of a type validation failure is one error for each problem  *)
(* found; they are all abstracted to one                                   *)

NestMsg(errs) == <<"nest", errs>>

RECURSIVE Construct(_, _, _, _, _, _, _)
RECURSIVE LoadAll(_, _, _, _, _, _, _)
RECURSIVE RunVals(_, _, _, _, _, _, _, _)

LoadRes(ok, val, errs, evs, boom, ins) ==
  [ok |-> ok, val |-> val, errs |-> errs, evs |-> evs, boom |-> boom, ins |-> ins]

(* f.value_load(v, ctx) for the instance iid; tag prefixes the ids of the  *)
(* instances that are created                                              *)
LoadVal(w, f, v, iid, tag, isupd) ==
  LET ctx == <<"load", f.nm, iid>>
      fail(code) == LoadRes(FALSE, NoneV, DefaultErrs(f, code, iid, ctx), FmtEvs(f, code, v, iid), FmtBoom(f, code), <<>>)
  IN
  CASE f.kind = "probe" ->
         LET o == f.load[Code(v) + 1]
             ev == <<"load", iid, f.nm, v, isupd>>
         IN IF o = "ok" THEN LoadRes(TRUE, <<"L", v>>, <<>>, <<ev>>, "", <<>>)
            ELSE IF o = "id" THEN LoadRes(TRUE, v, <<>>, <<ev>>, "", <<>>)
            ELSE IF IsBoom(o) THEN LoadRes(FALSE, NoneV, <<>>, <<ev>>, o, <<>>)
            ELSE LoadRes(FALSE, NoneV, OutcomeErrs(f, o, f.id, Code(v), iid, ctx),
                         <<ev>> \o OutcomeEvs(f, o, v, iid), OutcomeBoom(f, o), <<>>)
    [] f.kind = "any"  -> LoadRes(TRUE, v, <<>>, <<>>, "", <<>>)
    [] f.kind = "prim" -> LET r == LoadPrim(w, f, v)
                          IN IF r[1] = "ok" THEN LoadRes(TRUE, r[2], <<>>, <<>>, "", <<>>) ELSE fail(r[2])
    [] f.kind \in {"struct", "typed"} ->
                          LET r == LoadTyped(w, f, v)
                          IN IF r[1] = "ok" THEN LoadRes(TRUE, v, <<>>, <<>>, "", <<>>) ELSE fail(r[2])
    [] f.kind = "object" ->
         IF v[1] = "obj" /\ f.cls \in Rng(Cls(w, w.ins[v[2]].cls).mro)
         THEN LoadRes(TRUE, v, <<>>, <<>>, "", <<>>)
         ELSE IF v[1] = "map"
         THEN LET r == Construct(w, f.cls, tag, v[2], f.ie, f.ist, TRUE)
              IN IF r.res = "ok" THEN LoadRes(TRUE, <<"obj", tag>>, <<>>, r.evs, "", r.ins)
                 ELSE IF r.res = "verr"
                      THEN LoadRes(FALSE, NoneV,
                                   <<ErrRec(LK(f), f.nm, iid, ctx, NestMsg(r.errs), NoneV)>>, r.evs, "", <<>>)
                 ELSE LoadRes(FALSE, NoneV, <<>>, r.evs, r.res, <<>>)
         ELSE fail("invalid_datatype")

(***************************************************************************)
(* Validators of one value: they all run, in order of registration; an     *)
(* exception that is no validation error ends the operation.               *)
(* acc = [errs, evs, boom]                                                 *)
(***************************************************************************)
RunVals(w, f, vs, v, rawv, iid, isupd, acc) ==
  IF vs = <<>> \/ acc.boom # "" THEN acc
  ELSE LET d == Head(vs)
           o == d.tbl[Code(v) + 1]
           ev == <<"val", iid, f.nm, d.id, v, rawv, isupd>>
       IN RunVals(w, f, Tail(vs), v, rawv, iid, isupd,
                  IF o \in {"ok", "id"} THEN [acc EXCEPT !.evs = @ \o <<ev>>]
                  ELSE IF IsBoom(o) THEN [acc EXCEPT !.evs = @ \o <<ev>>, !.boom = o]
                  ELSE [acc EXCEPT !.evs = @ \o <<ev>> \o OutcomeEvs(f, o, v, iid),
                                   !.boom = OutcomeBoom(f, o),
                                   !.errs = @ \o OutcomeErrs(f, o, d.id, Code(v), iid, <<"load", f.nm, iid>>)])

(***************************************************************************)
(* Construction                                                            *)
(* acc = [vals, errs, evs, q, ins, boom]: the values loaded so far, the    *)
(* errors, the calls of user code, the values still to be validated, the   *)
(* nested instances created and an exception that ends the operation       *)
(***************************************************************************)
UnknownErr(k, iid, nested) ==
  ErrRec(k, "", iid, IF nested THEN <<"any">> ELSE <<"none">>, <<"lib", "unknown">>, NoneV)

LoadOne(w, c, iid, kv, ie, nested, acc) ==
  LET n == FieldByLoadKey(w, c, kv[1])
      v == kv[2]
  IN IF n = "" THEN IF ie THEN acc ELSE [acc EXCEPT !.errs = @ \o <<UnknownErr(kv[1], iid, nested)>>]
     ELSE
     LET f == FieldObj(w, c, n)
         q1 == IF f.raws = <<>> THEN acc.q ELSE acc.q \o <<[f |-> f, v |-> v, raw |-> v, vs |-> f.raws]>>
     IN IF IsNone(v)
        THEN IF f.none THEN [acc EXCEPT !.vals = Put(@, n, NoneV), !.q = q1]
             ELSE [acc EXCEPT !.q = q1,
                              !.errs = @ \o DefaultErrs(f, "none_disallowed", iid, <<"load", f.nm, iid>>),
                              !.evs = @ \o FmtEvs(f, "none_disallowed", NoneV, iid),
                              !.boom = FmtBoom(f, "none_disallowed")]
        ELSE LET r == LoadVal([w EXCEPT !.ins = acc.ins @@ @], f, v, iid, iid \o "." \o kv[1], FALSE)
             IN IF r.ok THEN [acc EXCEPT !.vals = Put(@, n, r.val), !.evs = @ \o r.evs, !.ins = r.ins @@ @,
                                         !.q = q1 \o <<[f |-> f, v |-> r.val, raw |-> v, vs |-> f.vals]>>]
                ELSE [acc EXCEPT !.errs = @ \o r.errs, !.evs = @ \o r.evs, !.q = q1, !.boom = r.boom]

LoadAll(w, c, iid, data, ie, nested, acc) ==
  IF data = <<>> \/ acc.boom # "" THEN acc
  ELSE LoadAll(w, c, iid, Tail(data), ie, nested, LoadOne(w, c, iid, Head(data), ie, nested, acc))

(* fields that are not given: an error if required, the default if any *)
RECURSIVE FillMissing(_, _, _, _, _, _)
FillMissing(w, c, iid, names, nested, acc) ==
  IF names = <<>> \/ acc.boom # "" THEN acc
  ELSE LET f == FieldObj(w, c, Head(names))
           a1 == IF Required(f)
                 THEN [acc EXCEPT !.errs = @ \o DefaultErrs(f, "field_required", iid, IF nested THEN <<"any">> ELSE <<"none">>),
                                  !.evs = @ \o FmtEvs(f, "field_required", MissingV, iid),
                                  !.boom = FmtBoom(f, "field_required")]
                 ELSE acc
           a2 == CASE f.dflt[1] = "missing" -> a1
                   [] f.dflt[1] = "val"  -> [a1 EXCEPT !.vals = Put(@, f.nm, f.dflt[2])]
                   [] f.dflt[1] = "call" ->
                        LET ev == <<"def", iid, f.nm, FALSE>>
                        IN IF f.dflt[2] = "ok"
                           THEN [a1 EXCEPT !.vals = Put(@, f.nm, <<"str", "dv:" \o f.id>>), !.evs = @ \o <<ev>>]
                           ELSE [a1 EXCEPT !.boom = f.dflt[2], !.evs = @ \o <<ev>>]
       IN FillMissing(w, c, iid, Tail(names), nested, a2)

RECURSIVE RunQueue(_, _, _, _, _)
RunQueue(w, iid, q, vals, acc) ==
  IF q = <<>> \/ acc.boom # "" THEN acc
  ELSE LET e == Head(q)
           r == RunVals(w, e.f, e.vs, e.v, e.raw, iid, FALSE, [errs |-> <<>>, evs |-> <<>>, boom |-> ""])
           (* a normal validator may look at the other fields: they are all loaded *)
       IN RunQueue(w, iid, Tail(q), vals,
                   [acc EXCEPT !.errs = @ \o r.errs, !.evs = @ \o r.evs, !.boom = r.boom])

RECURSIVE Peeks(_, _, _, _)
(* the values of the peeked-at fields as seen by the validators *)
Peeks(w, q, vals, iid) ==
  IF q = <<>> THEN <<>>
  ELSE LET e == Head(q)
           ds == SelectS(e.vs, LAMBDA d : d.peek # "")
       IN MapS(LAMBDA d : <<"peek", iid, e.f.nm, d.id,
                            IF d.peek \in DOMAIN vals THEN vals[d.peek] ELSE <<"unset">>>>, ds)
          \o Peeks(w, Tail(q), vals, iid)

(* preprocess_data *)
Preprocess(h, data) ==
  CASE h[1] = "ren" /\ h[3] \notin Keys(data) -> MapS(LAMBDA kv : IF kv[1] = h[2] THEN <<h[3], kv[2]>> ELSE kv, data)
    [] h[1] = "drop" -> SelectS(data, LAMBDA kv : kv[1] # h[2])
    [] h[1] = "add"  -> IF h[2] \in Keys(data) THEN data ELSE data \o <<<<h[2], h[3]>>>>
    [] OTHER -> data

IgnoreExtra(w, c, ie) == IF ie = "m" THEN w.cl[c].cfg.ie ELSE ie = "T"

CRes(res, errs, evs, ins) == [res |-> res, errs |-> errs, evs |-> evs, ins |-> ins]

(***************************************************************************)
(* Loading one value of an initialized instance (update and assignment):   *)
(* raw validators, load, validators; the value is stored only when all of  *)
(* them succeed.                                                           *)
(***************************************************************************)
ProcNow(w, f, v, iid, vals, tag) ==
  LET raw == RunVals(w, f, f.raws, v, v, iid, TRUE, [errs |-> <<>>, evs |-> <<>>, boom |-> ""])
  IN IF raw.boom # "" THEN [vals |-> vals, errs |-> raw.errs, evs |-> raw.evs, ins |-> <<>>, boom |-> raw.boom]
     ELSE IF IsNone(v)
     THEN IF f.none
          THEN [vals |-> IF raw.errs = <<>> THEN Put(vals, f.nm, NoneV) ELSE vals,
                errs |-> raw.errs, evs |-> raw.evs, ins |-> <<>>, boom |-> ""]
          ELSE [vals |-> vals,
                errs |-> raw.errs \o DefaultErrs(f, "none_disallowed", iid, <<"load", f.nm, iid>>),
                evs |-> raw.evs \o FmtEvs(f, "none_disallowed", NoneV, iid), ins |-> <<>>,
                boom |-> FmtBoom(f, "none_disallowed")]
     ELSE LET r == LoadVal(w, f, v, iid, tag, TRUE)
          IN IF ~r.ok THEN [vals |-> vals, errs |-> raw.errs \o r.errs, evs |-> raw.evs \o r.evs,
                            ins |-> <<>>, boom |-> r.boom]
             ELSE LET n == RunVals(w, f, f.vals, r.val, v, iid, TRUE,
                                   [errs |-> raw.errs, evs |-> raw.evs \o r.evs, boom |-> ""])
                  IN [vals |-> IF n.errs = <<>> /\ n.boom = "" THEN Put(vals, f.nm, r.val) ELSE vals,
                      errs |-> n.errs, evs |-> n.evs, ins |-> r.ins, boom |-> n.boom]

(* __schema_post_init__ *)
PostInit(w, c, iid, tag, acc, st) ==
  LET h == w.cl[c].hooks.post
      ev == <<"post", iid, TRUE>>
      done == CRes("ok", <<>>, acc.evs \o <<ev>>, Put(acc.ins, iid, [cls |-> c, vals |-> acc.vals, st |-> st]))
  IN CASE h[1] = "none" -> [done EXCEPT !.evs = acc.evs]
       [] h[1] = "ok"   -> done
       [] h[1] = "boom" -> CRes(h[2], <<>>, acc.evs \o <<ev>>, <<>>)
       [] h[1] = "set"  ->
            IF h[2] \notin FieldNames(w, c) THEN done
            ELSE LET f == FieldObj(w, c, h[2])
            IN IF w.cl[c].cfg.frozen \/ f.frozen THEN CRes("FrozenError", <<>>, acc.evs \o <<ev>>, <<>>)
               ELSE LET r == ProcNow([w EXCEPT !.ins = acc.ins @@ @], f, h[3], iid, acc.vals, tag \o "." \o LK(f))
                    IN IF r.boom # "" THEN CRes(r.boom, <<>>, acc.evs \o <<ev>> \o r.evs, <<>>)
                       ELSE IF r.errs # <<>> THEN CRes("verr", r.errs, acc.evs \o <<ev>> \o r.evs, <<>>)
                       ELSE CRes("ok", <<>>, acc.evs \o <<ev>> \o r.evs,
                                 Put(r.ins @@ acc.ins, iid, [cls |-> c, vals |-> r.vals, st |-> st]))

Construct(w, c, iid, data0, ie, st, nested) ==
  LET h == w.cl[c].hooks
      ev0 == IF h.pre[1] = "none" THEN <<>> ELSE <<<<"pre", iid, FALSE>>>>
  IN IF h.pre[1] = "boom" THEN CRes(h.pre[2], <<>>, ev0, <<>>)
     ELSE IF h.pre[1] = "nonmap" THEN CRes("TypeError", <<>>, ev0, <<>>)
     ELSE
     LET data == Preprocess(h.pre, data0)
         a1 == LoadAll(w, c, iid, data, IgnoreExtra(w, c, ie), nested,
                       [vals |-> <<>>, errs |-> <<>>, evs |-> ev0, q |-> <<>>, ins |-> <<>>, boom |-> ""])
         rest == SelectS(w.cl[c].order, LAMBDA n : LK(FieldObj(w, c, n)) \notin Keys(data))
         a2 == FillMissing(w, c, iid, rest, nested, a1)
         a3 == RunQueue(w, iid, a2.q, a2.vals, a2)
         a4 == IF a2.boom = "" THEN [a3 EXCEPT !.evs = @ \o Peeks(w, a2.q, a2.vals, iid)] ELSE a2
     IN IF a4.boom # "" THEN CRes(a4.boom, <<>>, a4.evs, <<>>)
        ELSE IF a4.errs # <<>> THEN CRes("verr", a4.errs, a4.evs, <<>>)
        ELSE PostInit(w, c, iid, iid, a4, st)

(***************************************************************************)
(* Update                                                                  *)
(***************************************************************************)
RECURSIVE UpdateAll(_, _, _, _, _, _, _)
UpdateAll(w, c, iid, data, ie, tag, acc) ==
  IF data = <<>> \/ acc.boom # "" THEN acc
  ELSE LET k == Head(data)[1]
           n == FieldByLoadKey(w, c, k)
           nxt == IF n = ""
                  THEN IF ie THEN acc ELSE [acc EXCEPT !.errs = @ \o <<UnknownErr(k, iid, FALSE)>>]
                  ELSE LET f == FieldObj(w, c, n)
                       IN IF f.frozen THEN [acc EXCEPT !.boom = "FrozenError"]
                          ELSE LET r == ProcNow([w EXCEPT !.ins = acc.ins @@ @], f, Head(data)[2], iid, acc.vals,
                                                tag \o "." \o k)
                               IN [vals |-> r.vals, errs |-> acc.errs \o r.errs, evs |-> acc.evs \o r.evs,
                                   ins |-> r.ins @@ acc.ins, boom |-> r.boom]
       IN UpdateAll(w, c, iid, Tail(data), ie, tag, nxt)

(***************************************************************************)
(* Dump                                                                    *)
(* returns [res, out, errs, evs]; out maps dump keys to values             *)
(***************************************************************************)
RECURSIVE DumpInst(_, _, _)
RECURSIVE DumpAll(_, _, _, _, _)
DumpOne(w, iid, f, v, sel, acc) ==
  LET ctx == <<"dump", f.nm, iid>>
  IN CASE f.kind = "probe" ->
            LET o == f.dump[Code(v) + 1]
                ev == <<"dump", iid, f.nm, v, sel>>
            IN IF o \in {"ok", "id"}
               THEN [acc EXCEPT !.out = Put(@, DK(f), IF o = "ok" THEN <<"D", v>> ELSE v), !.evs = @ \o <<ev>>]
               ELSE IF IsBoom(o) THEN [acc EXCEPT !.boom = @ \cup {o}, !.evs = @ \o <<ev>>]
               ELSE [acc EXCEPT !.errs = @ \o OutcomeErrs(f, o, f.id, Code(v), iid, ctx),
                                !.boom = @ \cup ({OutcomeBoom(f, o)} \ {""}),
                                !.evs = @ \o <<ev>> \o OutcomeEvs(f, o, v, iid)]
       [] f.kind = "object" /\ v[1] = "obj" ->
            LET r == DumpInst(w, v[2], FieldNames(w, w.ins[v[2]].cls))
            IN IF r.boom # {} THEN [acc EXCEPT !.boom = @ \cup r.boom, !.evs = @ \o r.evs]
               ELSE IF r.errs # <<>>
                    THEN [acc EXCEPT !.errs = @ \o <<ErrRec(LK(f), f.nm, iid, ctx, NestMsg(r.errs), NoneV)>>,
                                     !.evs = @ \o r.evs]
               ELSE [acc EXCEPT !.out = Put(@, DK(f), <<"dumped", r.out>>), !.evs = @ \o r.evs]
       [] OTHER -> [acc EXCEPT !.out = Put(@, DK(f), v)]

DumpAll(w, iid, names, sel, acc) ==
  IF names = <<>> THEN acc
  ELSE LET n == Head(names)
           i == w.ins[iid]
       IN DumpAll(w, iid, Tail(names), sel,
                  IF n \in sel /\ n \in DOMAIN i.vals
                  THEN DumpOne(w, iid, FieldObj(w, i.cls, n), i.vals[n], sel, acc) ELSE acc)

(* An exception that is no validation error ends the dump; which one is    *)
(* raised when several fields would raise one is not specified.            *)
DumpInst(w, iid, sel) ==
  DumpAll(w, iid, w.cl[w.ins[iid].cls].order, sel,
          [out |-> <<>>, errs |-> <<>>, evs |-> <<>>, boom |-> {}])

(***************************************************************************)
(* Class definition                                                        *)
(* A definition is [bases, body, cfg, hooks, ...]; the body is a sequence  *)
(* of entries                                                              *)
(*   [k |-> "field", nm, f]        a new field                             *)
(*   [k |-> "copy", nm, from, fr]  a copy of field fr of class from        *)
(*   [k |-> "reuse", nm, from, fr] the very field object of another class  *)
(*   [k |-> "val", fr, by, raw, d] a validator decorated for field fr, "by"*)
(*                                 is "name" or "obj"                      *)
(***************************************************************************)

(* C3 linearization *)
RECURSIVE C3Merge(_)
C3Merge(seqs0) ==
  LET seqs == SelectS(seqs0, LAMBDA s : s # <<>>)
  IN IF seqs = <<>> THEN <<>>
     ELSE LET cand == {i \in 1..Len(seqs) : \A j \in 1..Len(seqs) : Head(seqs[i]) \notin Rng(Tail(seqs[j]))}
          IN IF cand = {} THEN <<"!">>
             ELSE LET i == CHOOSE i \in cand : \A j \in cand : i <= j
                      h == Head(seqs[i])
                  IN <<h>> \o C3Merge([j \in 1..Len(seqs) |-> IF Head(seqs[j]) = h THEN Tail(seqs[j]) ELSE seqs[j]])
Linearize(w, id, bases) ==
  <<id>> \o C3Merge(MapS(LAMBDA b : w.cl[b].mro, bases) \o <<bases>>)

NoFlds == [x \in {} |-> ""]

(* the fields of a class: for each name, the one of the first class of its *)
(* linearization that defines it                                           *)
RECURSIVE Inherit(_, _)
Inherit(w, mro) == IF mro = <<>> THEN NoFlds ELSE w.cl[Head(mro)].own @@ Inherit(w, Tail(mro))

(* acc = [fo, own, err] *)
BodyEntry(w, id, inh, acc, e) ==
  IF acc.err # "" THEN acc
  ELSE CASE e.k = "field" ->
              LET fid == id \o "." \o e.nm
              IN [acc EXCEPT !.fo = Put(@, fid, ("owner" :> id) @@ [e.f EXCEPT !.nm = e.nm]), !.own = Put(@, e.nm, fid)]
         [] e.k = "copy" ->
              LET fid == id \o "." \o e.nm
                  src == w.fo[w.cl[e.from].flds[e.fr]]
              IN [acc EXCEPT !.fo = Put(@, fid, [src EXCEPT !.nm = e.nm, !.owner = id]), !.own = Put(@, e.nm, fid)]
         [] e.k = "reuse" -> [acc EXCEPT !.err = "RuntimeError"]
         [] OTHER -> acc

BodyVal(w, id, inh, acc, e) ==
  IF acc.err # "" \/ e.k # "val" THEN acc
  ELSE LET mine == IF e.fr \in DOMAIN acc.own THEN acc.own[e.fr] ELSE ""
           fid == IF mine # "" THEN mine ELSE id \o "." \o e.fr
           add(f) == IF e.raw THEN [f EXCEPT !.raws = @ \o <<e.d>>] ELSE [f EXCEPT !.vals = @ \o <<e.d>>]
       IN IF mine = "" /\ e.fr \notin DOMAIN inh THEN [acc EXCEPT !.err = "TypeError"]
          ELSE IF mine # "" THEN [acc EXCEPT !.fo = Put(@, fid, add(@[fid]))]
          \* the inherited field is copied, the parent's is left alone
          ELSE [acc EXCEPT !.fo = Put(@, fid, add([w.fo[inh[e.fr]] EXCEPT !.owner = id])), !.own = Put(@, e.fr, fid)]

(* The order in which the names are visited: it decides nothing but the    *)
(* order of the errors, which is not specified.                            *)
RECURSIVE NameOrder(_)
NameOrder(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o NameOrder(S \ {x})

BaseCfg == [frozen |-> FALSE, ie |-> FALSE, slotted |-> TRUE, repr |-> TRUE]

DefClass(w, op) ==
  LET d == op.d
      id == op.id
      mro == Linearize(w, id, d.bases)
      inh == Inherit(w, Tail(mro))
      a1 == FoldL(LAMBDA acc, e : BodyEntry(w, id, inh, acc, e), [fo |-> w.fo, own |-> NoFlds, err |-> ""], d.body)
      a2 == FoldL(LAMBDA acc, e : BodyVal(w, id, inh, acc, e), a1, d.body)
      flds == a2.own @@ inh
      cfg == IF d.cfg.own THEN d.cfg.c ELSE IF d.bases = <<>> THEN BaseCfg ELSE w.cl[d.bases[Len(d.bases)]].cfg
      \* what gives the text of instances: its own method ("=" and its id), the generated one, or none
      rep == IF "rep" \in DOMAIN d /\ d.rep THEN "=" \o id ELSE IF cfg.repr THEN "gen" ELSE ""
      hk(k) == IF d.hooks[k][1] # "inherit" THEN d.hooks[k]
               ELSE LET ps == SelectS(Tail(mro), LAMBDA b : w.cl[b].hookown[k])
                    IN IF ps = <<>> THEN <<"none">> ELSE w.cl[Head(ps)].hooks[k]
      cl == [own |-> a2.own, mro |-> mro, flds |-> flds, order |-> NameOrder(DOMAIN flds), cfg |-> cfg,
             hooks |-> [pre |-> hk("pre"), post |-> hk("post")],
             hookown |-> [pre |-> d.hooks.pre[1] # "inherit", post |-> d.hooks.post[1] # "inherit"],
             \* instances have a __dict__ unless every class of the linearization is slotted
             dict |-> (~cfg.slotted /\ ~d.slots) \/ \E b \in Rng(Tail(mro)) : w.cl[b].dict,
             reprown |-> rep,
             repr |-> IF rep # "" THEN rep
                      ELSE LET ps == SelectS(Tail(mro), LAMBDA b : w.cl[b].reprown # "")
                           IN IF ps = <<>> THEN "" ELSE w.cl[Head(ps)].reprown]
  IN IF a2.err # "" THEN [w |-> w, res |-> a2.err]
     ELSE [w |-> [w EXCEPT !.fo = a2.fo, !.cl = Put(@, id, cl)], res |-> "ok"]

(***************************************************************************)
(* The transition function                                                 *)
(***************************************************************************)
Obs(w, res, errs, evs, out) == [w |-> w, res |-> res, errs |-> errs, evs |-> evs, out |-> out]
Done(w) == Obs(w, "ok", <<>>, <<>>, <<>>)
Raised(w, e) == Obs(w, e, <<>>, <<>>, <<>>)

DoNew(w, op) ==
  LET r == Construct(w, op.cls, op.id, op.data, op.ie, op.st, FALSE)
  IN IF r.res = "ok" THEN Obs([w EXCEPT !.ins = r.ins @@ @], "ok", <<>>, r.evs, <<>>)
     ELSE Obs(w, r.res, r.errs, r.evs, <<>>)

DoUpd(w, op) ==
  LET i == w.ins[op.i]
      c == w.cl[i.cls]
  IN IF c.cfg.frozen THEN Obs(w, "FrozenError", <<>>, <<>>, <<"schema", op.i>>)
     ELSE LET r == UpdateAll(w, i.cls, op.i, op.data, IgnoreExtra(w, i.cls, op.ie), op.id,
                             [vals |-> i.vals, errs |-> <<>>, evs |-> <<>>, ins |-> <<>>, boom |-> ""])
          IN IF r.boom # "" THEN Obs(w, r.boom, <<>>, r.evs, <<>>)
             ELSE IF r.errs # <<>> THEN Obs(w, "verr", r.errs, r.evs, <<>>)
             ELSE Obs([w EXCEPT !.ins = Put(r.ins @@ @, op.i, [i EXCEPT !.vals = r.vals])], "ok", <<>>, r.evs, <<>>)

DoSet(w, op) ==
  LET i == w.ins[op.i]
      f == FieldObj(w, i.cls, op.f)
  IN IF w.cl[i.cls].cfg.frozen THEN Obs(w, "FrozenError", <<>>, <<>>, <<"schema", op.i>>)
     ELSE IF f.frozen THEN Obs(w, "FrozenError", <<>>, <<>>, <<"field", f.nm, f.owner>>)
     ELSE LET r == ProcNow(w, f, op.v, op.i, i.vals, op.id \o "." \o LK(f))
          IN IF r.boom # "" THEN Obs(w, r.boom, <<>>, r.evs, <<>>)
             ELSE IF r.errs # <<>> THEN Obs(w, "verr", r.errs, r.evs, <<>>)
             ELSE Obs([w EXCEPT !.ins = Put(r.ins @@ @, op.i, [i EXCEPT !.vals = r.vals])], "ok", <<>>, r.evs, <<>>)

DoGet(w, op) ==
  LET i == w.ins[op.i]
      n == IF op.attr THEN op.n ELSE FieldByName(w, i.cls, op.n)
  IN IF n = "" THEN Raised(w, "RuntimeError")
     ELSE IF n \in DOMAIN i.vals THEN Obs(w, "ok", <<>>, <<>>, i.vals[n])
     ELSE IF op.d # <<>> THEN Obs(w, "ok", <<>>, <<>>, op.d)
     ELSE Obs(w, "FieldNotSet", <<>>, <<>>, <<op.n, n>>)

DoDump(w, op) ==
  LET i == w.ins[op.i]
      all == FieldNames(w, i.cls)
      sel == (IF op.inc[1] = "m" THEN all ELSE all \cap Rng(op.inc[2])) \ (IF op.exc[1] = "m" THEN {} ELSE Rng(op.exc[2]))
  IN IF op.inc[1] # "m" /\ op.exc[1] # "m" THEN Raised(w, "TypeError")
     ELSE LET r == DumpInst(w, op.i, sel)
          IN IF r.boom # {} THEN Obs(w, "boom", <<>>, <<>>, NameOrder(r.boom))
             ELSE IF r.errs # <<>> THEN Obs(w, "verr", r.errs, r.evs, <<>>)
             ELSE Obs(w, "ok", <<>>, r.evs, r.out)

DoCopy(w, op) == Done([w EXCEPT !.ins = Put(@, op.id, @[op.i])])

(* op.raw is the raw argument; class based validators decide themselves *)
IsRaw(d, raw) == IF d.k = "fn" THEN raw ELSE d.k = "clsraw"
(* what is no callable is no validator: k = "bad" *)
WithFld(w, op, f) == [w EXCEPT !.fo = Put(@, w.cl[op.cls].flds[op.f], f)]
DoAddV(w, op) ==
  LET f == FieldObj(w, op.cls, op.f)
  IN IF op.d.k = "bad" THEN Raised(w, "TypeError")
     ELSE Done(WithFld(w, op, IF IsRaw(op.d, op.raw) THEN [f EXCEPT !.raws = @ \o <<op.d>>]
                         ELSE [f EXCEPT !.vals = @ \o <<op.d>>]))
DoRemV(w, op) ==
  LET f == FieldObj(w, op.cls, op.f)
      rm(s) == LET h == SelectS([j \in 1..Len(s) |-> j], LAMBDA j : s[j].id = op.d.id)
               IN IF h = <<>> THEN s ELSE RemoveAt(s, h[1])
  IN IF op.d.k = "bad" THEN Raised(w, "TypeError")
     ELSE Done(WithFld(w, op, IF IsRaw(op.d, op.raw) THEN [f EXCEPT !.raws = rm(@)] ELSE [f EXCEPT !.vals = rm(@)]))
DoClrV(w, op) ==
  LET f == FieldObj(w, op.cls, op.f)
  IN Done(WithFld(w, op, [f EXCEPT !.raws = IF op.raw \in {"m", "T"} THEN <<>> ELSE @,
                                   !.vals = IF op.raw \in {"m", "F"} THEN <<>> ELSE @]))
DoWalk(w, op) ==
  LET f == FieldObj(w, op.cls, op.f)
      ids(s) == MapS(LAMBDA d : d.id, s)
  IN Obs(w, "ok", <<>>, <<>>, [vals |-> IF op.raw \in {"m", "F"} THEN ids(f.vals) ELSE <<>>,
                               raws |-> IF op.raw \in {"m", "T"} THEN ids(f.raws) ELSE <<>>])

DoCfg(w, op) ==
  CASE op.k = "ecls"    -> Done([w EXCEPT !.g.ecls = op.v])
    [] op.k = "replace" -> Done([w EXCEPT !.g = [ecls |-> op.v, warn |-> op.warn]])
    [] op.k = "warn"    -> Done([w EXCEPT !.g.warn = op.v])
    [] op.k = "bad"     -> Raised(w, "TypeError")

(* changing in place the state of the context of an instance *)
DoState(w, op) == Done([w EXCEPT !.ins = Put(@, op.i, [@[op.i] EXCEPT !.st = <<"list", @[2] \o <<op.v>>>>])])

DoDef(w, op) == LET r == DefClass(w, op) IN Obs(r.w, r.res, <<>>, <<>>, <<>>)

(* what the field objects of a class tell about themselves *)
DoInfo(w, op) ==
  Obs(w, "ok", <<>>, <<>>,
      [n \in FieldNames(w, op.cls) |->
         LET f == FieldObj(w, op.cls, n)
         IN [name |-> f.nm, lk |-> LK(f), dk |-> DK(f), req |-> Required(f), none |-> f.none, frozen |-> f.frozen,
             dflt |-> f.dflt[1] # "missing", owner |-> f.owner, ex |-> f.id,
             dval |-> IF f.dflt[1] = "val" THEN f.dflt[2] ELSE <<f.dflt[1]>>]])

(* What cannot be meant is refused and leaves everything as it is: an      *)
(* object field of something that is no schema, a dictionary with a key    *)
(* type only, a union of fewer than two types, validators that cannot be   *)
(* called, a validator for a field the class does not have; and a field    *)
(* that is bound to no class cannot tell its name or schema.               *)
DoOdd(w, op) == Raised(w, IF op.k \in {"unbound-name", "unbound-schema"} THEN "RuntimeError" ELSE "TypeError")

(* the text of an instance: the generated one names exactly the fields     *)
(* that are set                                                            *)
DoRepr(w, op) ==
  LET i == w.ins[op.i]
      gen == w.cl[i.cls].repr = "gen"
  IN Obs(w, "ok", <<>>, <<>>, [kind |-> w.cl[i.cls].repr, names |-> IF gen THEN NameOrder(DOMAIN i.vals) ELSE <<>>])

(* The round trip: an instance is dumped and another one of the same class *)
(* is constructed from the result.                                         *)
RECURSIVE AsData(_)
AsData(out) == LET ks == NameOrder(DOMAIN out)
               IN MapS(LAMBDA k : <<k, IF out[k][1] = "dumped" THEN <<"map", AsData(out[k][2])>> ELSE out[k]>>, ks)
DoRt(w, op) ==
  LET i == w.ins[op.i]
      r == DumpInst(w, op.i, FieldNames(w, i.cls))
  IN IF r.boom # {} THEN Obs(w, "boom", <<>>, <<>>, NameOrder(r.boom))
     ELSE IF r.errs # <<>> THEN Obs(w, "verr", r.errs, r.evs, <<>>)
     ELSE LET c == Construct(w, i.cls, op.id, AsData(r.out), "m", NoneV, FALSE)
          IN IF c.res = "ok" THEN Obs([w EXCEPT !.ins = c.ins @@ @], "ok", <<>>, r.evs \o c.evs, <<>>)
             ELSE Obs(w, c.res, c.errs, r.evs \o c.evs, <<>>)

(* assigning an attribute that is no field *)
DoSetX(w, op) == IF w.cl[w.ins[op.i].cls].dict THEN Done(w) ELSE Raised(w, "AttributeError")

(* operations on what does not exist (its creation failed) are left out *)
Applicable(w, op) == Rng(op.needc) \subseteq DOMAIN w.cl /\ Rng(op.need) \subseteq DOMAIN w.ins

Apply0(w, op) ==
  CASE ~Applicable(w, op) -> Raised(w, "skip")
    [] op.op = "info"  -> DoInfo(w, op)
    [] op.op = "odd"   -> DoOdd(w, op)
    [] op.op = "repr"  -> DoRepr(w, op)
    [] op.op = "rt"    -> DoRt(w, op)
    [] op.op = "setx"  -> DoSetX(w, op)
    [] op.op = "def"   -> DoDef(w, op)
    [] op.op = "new"   -> DoNew(w, op)
    [] op.op = "upd"   -> DoUpd(w, op)
    [] op.op = "set"   -> DoSet(w, op)
    [] op.op = "get"   -> DoGet(w, op)
    [] op.op = "dump"  -> DoDump(w, op)
    [] op.op = "copy"  -> DoCopy(w, op)
    [] op.op = "addv"  -> DoAddV(w, op)
    [] op.op = "remv"  -> DoRemV(w, op)
    [] op.op = "clrv"  -> DoClrV(w, op)
    [] op.op = "walk"  -> DoWalk(w, op)
    [] op.op = "cfg"   -> DoCfg(w, op)
    [] op.op = "state" -> DoState(w, op)

(* User code may change the global configuration in the midst of an        *)
(* operation: env.cfg (if there) says which validators (ids) do so and     *)
(* whether the loaders and dumpers of all scripted fields do (fields), and *)
(* the class they set (v).  That is the class in force from then on.       *)
CfgEv(e, c) == \/ e[1] = "val" /\ e[4] \in Rng(c.ids)
               \/ e[1] \in {"load", "dump"} /\ c.fields
CfgChanged(w, evs) == "cfg" \in DOMAIN w.env /\ \E j \in DOMAIN evs : CfgEv(evs[j], w.env.cfg)
Apply(w, op) == LET r == Apply0(w, op)
                IN IF CfgChanged(w, r.evs) THEN [r EXCEPT !.w.g.ecls = w.env.cfg.v] ELSE r

World0(env) == [fo |-> <<>>, cl |-> <<>>, ins |-> <<>>, g |-> [ecls |-> "E0", warn |-> TRUE], env |-> env]
=============================================================================
