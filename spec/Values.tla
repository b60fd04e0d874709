------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Encoding of Python values, shared by every module of the specification. *)
(*                                                                         *)
(* A value is a tuple <<tag, payload...>>; the tag comes first so that the *)
(* comparison of values of different kinds is decided by the tag:          *)
(*                                                                         *)
(*   <<"none">>              None                                          *)
(*   <<"c", n>>              a scripted value (n in 0..3 selects the row   *)
(*                           of the outcome tables of the callbacks)       *)
(*   <<"c", n, u>>           the same, made unique by u                    *)
(*   <<"L", v>>  <<"D", v>>  what a scripted field loads / dumps from v    *)
(*   <<"int", s>> <<"bool", s>> <<"float", s>> <<"str", s>> ...            *)
(*                           a scalar, s being its canonical text          *)
(*   <<"x", cls, s>>         an instance of a user defined class           *)
(*   <<"list", q>> <<"tuple", q>> <<"set", q>>   q a sequence of values    *)
(*   <<"dict", q>>           q a sequence of <<key value, value>>          *)
(*   <<"map", q>>            raw data of a (nested) schema, q a sequence   *)
(*                           of <<key string, value>>                      *)
(*   <<"obj", id>>           the schema instance id                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

Put(f, k, v) == (k :> v) @@ f
Has(f, k)     == k \in DOMAIN f
Rng(s)       == {s[i] : i \in DOMAIN s}
IsNone(v)    == v[1] = "none"
NoneV        == <<"none">>

RECURSIVE Code(_)
(* The row of an outcome table selected by a value. *)
Code(v) == CASE v[1] = "none" -> 0
             [] v[1] = "c"    -> v[2]
             [] v[1] \in {"L", "D"} -> Code(v[2])
             [] v[1] \in {"list", "tuple", "set", "dict", "map"} -> Len(v[2]) % 4
             [] v[1] = "obj"  -> 1
             [] v[1] = "x"    -> 2
             [] OTHER         -> Len(v[2]) % 4

FoldL(op(_, _), acc, s) == FoldLeft(op, acc, s)
SelectS(s, P(_)) == SelectSeq(s, P)
MapS(op(_), s) == [i \in 1..Len(s) |-> op(s[i])]

RECURSIVE Lookup(_, _, _)
(* The value of key k in a sequence of pairs, d if there is none. *)
Lookup(q, k, d) == IF q = <<>> THEN d
                   ELSE IF Head(q)[1] = k THEN Head(q)[2] ELSE Lookup(Tail(q), k, d)
Keys(q) == {q[i][1] : i \in DOMAIN q}
=============================================================================
