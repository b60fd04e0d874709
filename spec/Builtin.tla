------------------------------ MODULE Builtin ------------------------------
(***************************************************************************)
(* The validators that come with oblate.                                   *)
(*                                                                         *)
(* Validators:                                                             *)
(*   <<"range1", ub>>  <<"range2", lb, ub>>                                *)
(*   <<"std", start, stop, step>>     made from a standard range           *)
(*   <<"len", min, max, exact>>       lengths; -1 says not given           *)
(*   <<"excl", q>>                    q the values that are excluded       *)
(*   <<"or", q>>                      q validators                         *)
(*   <<"fn", q>>  <<"cls", q>>        user defined, accepts the values in  *)
(*                                    q and raises o otherwise             *)
(*   <<"boom">>                       raises something that is no failure  *)
(* Values here: <<"int", n>>, <<"sized", kind, n>> (a container of length  *)
(* n), <<"half", n>> (the number n + 1/2), <<"str", s>>.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Mem(q) == {q[i] : i \in DOMAIN q}
InStd(n, a, b, s) ==
  IF s > 0 THEN a <= n /\ n < b /\ (n - a) % s = 0
  ELSE b < n /\ n <= a /\ (a - n) % (0 - s) = 0
LenOf(v) == IF v[1] = "sized" THEN v[3] ELSE Len(v[2])

(* "ok", "fail" or "boom" *)
RECURSIVE Verdict(_, _)
RECURSIVE OrVerdict(_, _)
OrVerdict(q, v) ==
  IF q = <<>> THEN "fail"
  ELSE LET r == Verdict(Head(q), v)
       IN IF r \in {"ok", "boom"} THEN r ELSE OrVerdict(Tail(q), v)
B(b) == IF b THEN "ok" ELSE "fail"
Verdict(d, v) ==
  CASE d[1] = "range1" -> B(v[1] = "int" /\ 0 <= v[2] /\ v[2] <= d[2])
    [] d[1] = "range2" -> B(v[1] = "int" /\ d[2] <= v[2] /\ v[2] <= d[3])
    [] d[1] = "std"    -> B(v[1] = "int" /\ InStd(v[2], d[2], d[3], d[4]))
    [] d[1] = "len"    -> B(/\ (d[2] >= 0 => LenOf(v) >= d[2])
                            /\ (d[3] >= 0 => LenOf(v) <= d[3])
                            /\ (d[4] >= 0 => LenOf(v) = d[4]))
    [] d[1] = "excl"   -> B(v \notin Mem(d[2]))
    [] d[1] = "or"     -> OrVerdict(d[2], v)
    [] d[1] \in {"fn", "cls"} -> B(v \in Mem(d[2]))
    [] d[1] = "boom"   -> "boom"

(* configurations that are refused *)
Refused(d) ==
  \/ d[1] = "len" /\ (d[4] >= 0 => d[2] >= 0 \/ d[3] >= 0) /\ (d[4] < 0 => d[2] < 0 /\ d[3] < 0)
  \/ d[1] = "range0"

(* what has to hold of any correct definition *)
Laws(d, v) ==
  /\ d[1] = "range1" => Verdict(d, v) = Verdict(<<"range2", 0, d[2]>>, v)
  /\ d[1] = "range2" => Verdict(d, v) = Verdict(<<"std", d[2], d[3] + 1, 1>>, v)
  /\ d[1] = "std" => (Verdict(d, v) = "ok" => \E k \in 0..200 : v[2] = d[2] + k * d[4])
  /\ d[1] = "len" /\ d[2] >= 0 /\ d[2] = d[3] => Verdict(d, v) = Verdict(<<"len", 0 - 1, 0 - 1, d[2]>>, v)
  /\ d[1] = "or" => (Verdict(d, v) = "ok" <=> \E i \in DOMAIN d[2] : Verdict(d[2][i], v) = "ok" /\ \A j \in 1..(i-1) : Verdict(d[2][j], v) = "fail")
  /\ d[1] = "or" /\ Len(d[2]) = 1 => Verdict(d, v) = Verdict(d[2][1], v)
=============================================================================
