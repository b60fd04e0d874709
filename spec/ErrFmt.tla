------------------------------- MODULE ErrFmt -------------------------------
(***************************************************************************)
(* Validation errors as data: what is raised for given failures, the raw   *)
(* form and the text form.                                                 *)
(*                                                                         *)
(* Messages: <<"s", text>>; <<"o", text>> any other object and its text;   *)
(*   <<"l", q>> a list (or tuple) of messages; <<"set", q>> a set of them; *)
(*   <<"d", q>> a dictionary q of <<key, message>>;                        *)
(*   <<"nest", errs>> the errors of a nested schema *)
(* Failures: [key, msg, st]; errors: [key, fld, msg, st] (after            *)
(*   flattening), fld the name of the field                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

(* One failure with a sequence of messages counts as that many errors.     *)
Flat1(e) == IF e.msg[1] \in {"l", "set"} THEN [i \in 1..Len(e.msg[2]) |-> [e EXCEPT !.msg = e.msg[2][i]]] ELSE <<e>>

RECURSIVE NormMsg(_)
RECURSIVE Norm(_)
(* what the failures of a nested schema look like once raised *)
NormMsg(m) == IF m[1] = "nest" THEN <<"nest", Norm(m[2])>> ELSE m
Norm(fails) == FoldLeft(LAMBDA acc, e : acc \o Flat1([e EXCEPT !.msg = NormMsg(@)]), <<>>, fails)

Pos(s) == 1..Len(s)
(* s is a sequence of the same elements as t (each the same number of      *)
(* times, nested errors compared likewise)                                 *)
RECURSIVE SameErrs(_, _)
RECURSIVE SameMsg(_, _)
SameErr(a, b) == a.key = b.key /\ a.st = b.st /\ SameMsg(a.msg, b.msg)
SameMsg(a, b) == IF a[1] = "nest" /\ b[1] = "nest" THEN SameErrs(a[2], b[2]) ELSE a = b
SameErrs(s, t) ==
  /\ Len(s) = Len(t)
  /\ \A i \in Pos(s) : Cardinality({j \in Pos(t) : SameErr(s[i], t[j])}) = Cardinality({j \in Pos(s) : SameErr(s[i], s[j])})

(* The messages of one failure keep their order.                           *)
RECURSIVE InOrder(_, _)
InOrder(fails, errs) ==
  \A i \in Pos(fails) :
    /\ fails[i].msg[1] = "nest" => \E j \in Pos(errs) : errs[j].key = fails[i].key /\ errs[j].msg[1] = "nest" /\ InOrder(fails[i].msg[2], errs[j].msg[2])
    /\ fails[i].msg[1] = "l" =>
      \A a, b \in Pos(fails[i].msg[2]) :
        a < b => LET at(k) == {j \in Pos(errs) : errs[j].key = fails[i].key /\ errs[j].msg = fails[i].msg[2][k]}
                 IN at(a) # {} /\ at(b) # {} /\ \E x \in at(a), y \in at(b) : x < y

Flattened(fails, errs) == SameErrs(Norm(fails), errs) /\ InOrder(fails, errs)

(* The raw form: <<"s", text>>, <<"l", q>>, <<"d", q>>                     *)
KeysOf(errs) ==      \* in the order of their first error
  FoldLeft(LAMBDA acc, e : IF \E i \in Pos(acc) : acc[i] = e.key THEN acc ELSE Append(acc, e.key), <<>>, errs)
At(errs, k) == SelectSeq(errs, LAMBDA e : e.key = k)
RECURSIVE Raw(_)
RECURSIVE RawMsg(_)
RawMsg(m) ==
  CASE m[1] \in {"s", "o"} -> <<"s", m[2]>>
    [] m[1] = "l" -> <<"l", [i \in Pos(m[2]) |-> RawMsg(m[2][i])]>>
    [] m[1] = "d" -> <<"d", [i \in Pos(m[2]) |-> <<m[2][i][1], RawMsg(m[2][i][2])>>]>>
    [] m[1] = "nest" -> Raw(m[2])
Raw(errs) == LET ks == KeysOf(errs)
             IN <<"d", [i \in Pos(ks) |-> <<ks[i], <<"l", [j \in Pos(At(errs, ks[i])) |-> RawMsg(At(errs, ks[i])[j].msg)]>>>>]>>
(* dictionaries are equal whatever the order of their keys *)
RECURSIVE SameRaw(_, _)
SameRaw(a, b) ==
  /\ a[1] = b[1]
  /\ CASE a[1] = "s" -> a[2] = b[2]
       [] a[1] = "l" -> Len(a[2]) = Len(b[2]) /\ \A i \in Pos(a[2]) : SameRaw(a[2][i], b[2][i])
       [] a[1] = "d" -> /\ Len(a[2]) = Len(b[2])
                        /\ \A i \in Pos(a[2]) : \E j \in Pos(b[2]) : a[2][i][1] = b[2][j][1] /\ SameRaw(a[2][i][2], b[2][j][2])

(* The text form, as a sequence of <<level, "msg", text>> and              *)
(* <<level, "key", text, name of the field if it is another>>, in          *)
(* which the keys of one level may be permuted.                            *)
RECURSIVE Tokens(_, _)
Tokens(errs, lvl) ==
  LET ks == KeysOf(errs)
      one(e) == IF e.msg[1] = "nest" THEN Tokens(e.msg[2], lvl + 1)
                ELSE IF e.msg[1] \in {"s", "o"} THEN <<<<lvl, "msg", e.msg[2]>>>> ELSE <<>>
      \* the field is named, too, where its name is not the key
      nm(k) == LET f == Head(At(errs, k)).fld IN IF f = k THEN "" ELSE f
      grp(k) == FoldLeft(LAMBDA acc, e : acc \o one(e), <<<<lvl, "key", k, nm(k)>>>>, At(errs, k))
  IN FoldLeft(LAMBDA acc, k : acc \o grp(k), <<>>, ks)

(* every error is told by the raw form exactly once *)
RECURSIVE CountRaw(_)
CountRaw(errs) == FoldLeft(LAMBDA acc, k : acc + Len(At(errs, k)), 0, KeysOf(errs))
Law(errs) == CountRaw(errs) = Len(errs)
=============================================================================
