------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* A matching semantics of regular expressions, for the three modes of the *)
(* regex validator.  A string is a sequence of characters.                 *)
(*   <<"ch", c>>  <<"any">>  <<"cls", q, neg>>  <<"cat", r, s>>            *)
(*   <<"alt", r, s>>  <<"star", r>>  <<"plus", r>>  <<"opt", r>>           *)
(*   <<"bos">> (^)  <<"eos">> ($)  <<"eps">>                               *)
(* flags f: [i |-> ignore case, s |-> dot matches newline, m |-> multiline]*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Lower(c) == CASE c = "A" -> "a" [] c = "B" -> "b" [] OTHER -> c
Same(a, b, f) == a = b \/ (f.i /\ Lower(a) = Lower(b))

(* Ends(r, s, i, f): the positions where a match of r that begins at i can *)
(* end                                                                     *)
RECURSIVE Ends(_, _, _, _)
RECURSIVE Closure(_, _, _, _)
(* the positions that can be reached from those in S by repeating r *)
Closure(r, s, S, f) ==
  LET T == S \cup UNION {Ends(r, s, j, f) : j \in S}
  IN IF T = S THEN S ELSE Closure(r, s, T, f)
Ends(r, s, i, f) ==
  LET k == r[1]
      one(p) == IF i < Len(s) /\ p THEN {i + 1} ELSE {}
  IN CASE k = "eps"  -> {i}
       [] k = "ch"   -> IF i < Len(s) THEN IF Same(s[i + 1], r[2], f) THEN {i + 1} ELSE {} ELSE {}
       [] k = "any"  -> IF i < Len(s) THEN IF f.s \/ s[i + 1] # "\n" THEN {i + 1} ELSE {} ELSE {}
       [] k = "cls"  -> IF i < Len(s)
                        THEN IF (\E j \in DOMAIN r[2] : Same(s[i + 1], r[2][j], f)) # r[3] THEN {i + 1} ELSE {} ELSE {}
       [] k = "cat"  -> UNION {Ends(r[3], s, j, f) : j \in Ends(r[2], s, i, f)}
       [] k = "alt"  -> Ends(r[2], s, i, f) \cup Ends(r[3], s, i, f)
       [] k = "star" -> Closure(r[2], s, {i}, f)
       [] k = "plus" -> Closure(r[2], s, Ends(r[2], s, i, f), f)
       [] k = "opt"  -> {i} \cup Ends(r[2], s, i, f)
       [] k = "bos"  -> IF i = 0 \/ (f.m /\ s[i] = "\n") THEN {i} ELSE {}
       [] k = "eos"  -> IF i = Len(s) \/ (s[i + 1] = "\n" /\ (f.m \/ i + 1 = Len(s))) THEN {i} ELSE {}

Match(r, s, f)  == Ends(r, s, 0, f) # {}
Full(r, s, f)   == Len(s) \in Ends(r, s, 0, f)
Search(r, s, f) == \E i \in 0..Len(s) : Ends(r, s, i, f) # {}
Accepts(mode, r, s, f) == CASE mode = "match" -> Match(r, s, f) [] mode = "full" -> Full(r, s, f) [] mode = "search" -> Search(r, s, f)

Laws(r, s, f) == (Full(r, s, f) => Match(r, s, f)) /\ (Match(r, s, f) => Search(r, s, f))
=============================================================================
