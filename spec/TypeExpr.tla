------------------------------ MODULE TypeExpr ------------------------------
(***************************************************************************)
(* Conformity of a value to a type expression.                             *)
(*                                                                         *)
(* Type expressions:                                                       *)
(*   <<"any">>  <<"cls", name>>  <<"union", q>>  <<"lit", q of values>>    *)
(*   <<"list", t>> <<"set", t>> <<"seq", t>> <<"tupv", t>> <<"tup", q>>    *)
(*   <<"tupany">>  <<"dict", k, v>>  <<"mapping", k, v>>  <<"td", name>>   *)
(*   <<"req", t>>  <<"nreq", t>>                                           *)
(*   <<"unsup", label, reached>>  a type oblate does not support           *)
(*                                                                         *)
(* The environment env describes what comes from outside of oblate:        *)
(*   env.anc[c]  the classes that class c is a subclass of                 *)
(*   env.td[n]   the TypedDict class n: [bases, total, body] where body is *)
(*               a sequence of <<key, type>>                               *)
(***************************************************************************)
EXTENDS Values

ClassName(v) ==
  CASE v[1] = "none"  -> "NoneType"
    [] v[1] \in {"x", "sub"} -> v[2]
    [] v[1] = "c"     -> "Cmd"
    [] v[1] \in {"L", "D"} -> "Wrap"
    [] v[1] = "map"   -> "dict"
    [] v[1] = "mp"    -> "mappingproxy"
    [] v[1] = "obj"   -> "Schema"
    [] OTHER          -> v[1]

IsInstance(v, c, env) == c = "object" \/ c \in Rng(env.anc[ClassName(v)])

(* The builtin structure of a value (instances of subclasses of builtin    *)
(* classes are <<"sub", class, builtin value>>).                           *)
Struct(v) == IF v[1] = "sub" THEN v[3] ELSE v
IsStruct(v, tag) == Struct(v)[1] = tag
Items(v) == Struct(v)[2]

(* literals are compared by equality: an instance of a subclass of str or *)
(* int is equal to the plain value                                         *)
Plain(v) == IF v[1] = "sub" /\ v[3][1] \notin {"list", "dict", "set", "tuple"} THEN v[3] ELSE v

RECURSIVE TDKeys(_, _)
(* The keys of a TypedDict as a sequence of <<key, type, required>>:       *)
(* an explicit marker decides, otherwise the totality of the class that    *)
(* the key is defined in.                                                  *)
TDKeys(n, env) ==
  LET d == env.td[n]
      own == MapS(LAMBDA kv : <<kv[1],
                                IF kv[2][1] \in {"req", "nreq"} THEN kv[2][2] ELSE kv[2],
                                kv[2][1] = "req" \/ (kv[2][1] # "nreq" /\ d.total)>>, d.body)
  IN FoldL(LAMBDA acc, b : acc \o SelectS(TDKeys(b, env), LAMBDA e : e[1] \notin {a[1] : a \in Rng(acc)}),
           own, d.bases)

Res(ok, diag, warn) == [ok |-> ok, diag |-> diag, warn |-> warn]
Ok == Res(TRUE, <<>>, {})
Bad(d) == Res(FALSE, <<d>>, {})

RECURSIVE Conf(_, _, _)
RECURSIVE ConfAll(_, _, _, _, _, _)
RECURSIVE ConfAny(_, _, _, _)
RECURSIVE ConfPairs(_, _, _, _, _, _)
RECURSIVE ConfTD(_, _, _, _)

(* every item conforms to t; lab labels the offending items *)
ConfAll(q, i, t, lab, env, acc) ==
  IF i > Len(q) THEN acc
  ELSE LET r == Conf(q[i], t, env)
       IN ConfAll(q, i + 1, t, lab, env,
                  Res(acc.ok /\ r.ok,
                      IF r.ok THEN acc.diag ELSE acc.diag \o <<(IF lab = "" THEN <<"item">> ELSE <<lab, i - 1>>)>>,
                      acc.warn \cup r.warn))

ConfAny(v, ts, env, warn) ==
  IF ts = <<>> THEN Res(FALSE, <<<<"union">>>>, warn)
  ELSE LET r == Conf(v, Head(ts), env)
       IN IF r.ok THEN Res(TRUE, <<>>, warn \cup r.warn)
          ELSE ConfAny(v, Tail(ts), env, warn \cup r.warn)

ConfPairs(q, i, kt, vt, env, acc) ==
  IF i > Len(q) THEN acc
  ELSE LET rk == Conf(q[i][1], kt, env)
           rv == IF rk.ok THEN Conf(q[i][2], vt, env) ELSE Ok
           d  == IF ~rk.ok THEN <<<<"key", i - 1>>>> ELSE IF ~rv.ok THEN <<<<"val", i - 1>>>> ELSE <<>>
       IN ConfPairs(q, i + 1, kt, vt, env,
                    Res(acc.ok /\ rk.ok /\ rv.ok, acc.diag \o d, acc.warn \cup rk.warn \cup rv.warn))

ConfTD(q, i, ks, env) ==
  \* q: remaining pairs of the dictionary, ks: keys of the TypedDict not seen so far
  IF i > Len(q)
  THEN LET miss == SelectS(ks, LAMBDA e : e[3])
       IN Res(miss = <<>>, MapS(LAMBDA e : <<"missing", e[1]>>, miss), {})
  ELSE LET k  == q[i][1]
           hit == SelectS(ks, LAMBDA e : k = <<"str", e[1]>>)
           r  == IF hit = <<>> THEN Bad(<<"invalid", k>>)
                 ELSE LET c == Conf(q[i][2], hit[1][2], env)
                      IN IF c.ok THEN c ELSE Res(FALSE, <<<<"fail", hit[1][1]>>>>, c.warn)
           rest == ConfTD(q, i + 1, SelectS(ks, LAMBDA e : k # <<"str", e[1]>>), env)
       IN Res(r.ok /\ rest.ok, r.diag \o rest.diag, r.warn \cup rest.warn)

Conf(v, t, env) ==
  LET k == t[1] IN
  CASE k = "any"   -> Ok
    [] k = "unsup" -> Res(TRUE, <<>>, {t[2]})
    [] k = "cls"   -> IF IsInstance(v, t[2], env) THEN Ok ELSE Bad(<<"type">>)
    [] k = "lit"   -> IF Plain(v) \in Rng(t[2]) THEN Ok ELSE Bad(<<"literal">>)
    [] k = "union" -> ConfAny(v, t[2], env, {})
    [] k \in {"req", "nreq"} -> Conf(v, t[2], env)
    [] k = "list"  -> IF IsStruct(v, "list") THEN ConfAll(Items(v), 1, t[2], "idx", env, Ok) ELSE Bad(<<"struct">>)
    [] k = "set"   -> IF IsStruct(v, "set") THEN ConfAll(Items(v), 1, t[2], "", env, Ok) ELSE Bad(<<"struct">>)
    [] k = "tupv"  -> IF IsStruct(v, "tuple") THEN ConfAll(Items(v), 1, t[2], "idx", env, Ok) ELSE Bad(<<"struct">>)
    [] k = "tupany" -> IF IsStruct(v, "tuple") THEN Ok ELSE Bad(<<"struct">>)
    [] k = "seq"   -> IF IsStruct(v, "list") \/ IsStruct(v, "tuple")
                      THEN ConfAll(Items(v), 1, t[2], "idx", env, Ok)
                      ELSE IF IsStruct(v, "set") THEN ConfAll(Items(v), 1, t[2], "", env, Ok) ELSE Bad(<<"struct">>)
    [] k = "tup"   ->
         IF ~IsStruct(v, "tuple") THEN Bad(<<"struct">>)
         ELSE LET n == IF Len(Items(v)) < Len(t[2]) THEN Len(Items(v)) ELSE Len(t[2])
                  rs == [i \in 1..n |-> Conf(Items(v)[i], t[2][i], env)]
                  len == Len(Items(v)) = Len(t[2])
                  bad == SelectS([i \in 1..n |-> i], LAMBDA i : ~rs[i].ok)
              IN Res(len /\ bad = <<>>,
                     (IF len THEN <<>> ELSE <<<<"len">>>>) \o MapS(LAMBDA i : <<"idx", i - 1>>, bad),
                     UNION {rs[i].warn : i \in 1..n})
    [] k \in {"dict", "mapping"} ->
         IF IsStruct(v, "dict") \/ v[1] = "map" \/ (k = "mapping" /\ IsStruct(v, "mp"))
         THEN ConfPairs(IF v[1] = "map" THEN MapS(LAMBDA e : <<<<"str", e[1]>>, e[2]>>, v[2]) ELSE Items(v),
                        1, t[2], t[3], env, Ok)
         ELSE Bad(<<"struct">>)
    [] k = "td"    ->
         IF IsStruct(v, "dict") \/ v[1] = "map"
         THEN ConfTD(IF v[1] = "map" THEN MapS(LAMBDA e : <<<<"str", e[1]>>, e[2]>>, v[2]) ELSE Items(v),
                     1, TDKeys(t[2], env), env)
         ELSE Bad(<<"struct">>)

(***************************************************************************)
(* validate_types(types, values): types and values are sequences of pairs  *)
(* <<key, type>> and <<key, value>>.  The result maps the offending keys   *)
(* to what is wrong with them.                                             *)
(***************************************************************************)
ValidateTypes(types, values, ignoreExtra, ignoreMissing, env) ==
  LET tk == Keys(types)
      vk == Keys(values)
      rs == [k \in vk \cap tk |-> Conf(Lookup(values, k, NoneV), Lookup(types, k, <<"any">>), env)]
      bad == {k \in vk \cap tk : ~rs[k].ok}
      extra == IF ignoreExtra THEN {} ELSE vk \ tk
      miss == IF ignoreMissing THEN {} ELSE tk \ vk
  IN [ok |-> bad = {} /\ extra = {} /\ miss = {},
      bad |-> [k \in bad |-> rs[k].diag], extra |-> extra, missing |-> miss,
      warn |-> UNION {rs[k].warn : k \in vk \cap tk}]
=============================================================================
