------------------------------ MODULE MCRegex ------------------------------
(* Enumerates patterns and strings; one state for each pattern and flags.  *)
EXTENDS Regex, Json, IOUtils
A == {"a", "b", "A", "\n"}
MaxLen == IF IOEnv.DEEP = "1" THEN 4 ELSE 3
(* among the strings, the placeholders of the messages *)
Words == {<<"{", "v", "a", "l", "u", "e", "}">>, <<"{", "p", "a", "t", "t", "e", "r", "n", "}">>, <<"{", "}">>, <<"%", "s">>}
Strs == UNION {[1..n -> A] : n \in 0..MaxLen}
Atoms == {<<"ch", "a">>, <<"ch", "B">>, <<"any">>, <<"cls", <<"a", "\n">>, FALSE>>, <<"cls", <<"a">>, TRUE>>, <<"bos">>, <<"eos">>, <<"eps">>}
Chars == {<<"ch", "a">>, <<"ch", "B">>, <<"any">>, <<"cls", <<"a", "\n">>, FALSE>>, <<"cls", <<"a">>, TRUE>>}
R1 == Atoms \cup {<<k, r>> : k \in {"star", "plus", "opt"}, r \in Chars}
R2 == {<<"cat", r, s>> : r \in R1, s \in R1} \cup {<<"alt", r, s>> : r \in Chars, s \in Atoms}
      \cup {<<"alt", <<"cat", x, y>>, z>> : x \in Chars, y \in Chars, z \in {<<"ch", "a">>, <<"any">>}}
      \cup {<<"alt", z, <<"cat", x, y>>>> : x \in Chars, y \in Chars, z \in {<<"ch", "a">>, <<"any">>}}
R3 == {<<"cat", <<"alt", x, <<"cat", x, y>>>>, z>> : x \in Chars, y \in Chars, z \in {<<"eos">>, <<"ch", "b">>, <<"eps">>}}
      \cup {<<"star", <<"cat", x, y>>>> : x \in Chars, y \in Chars}
      \cup {<<"cat", <<"bos">>, <<"cat", x, <<"cat", y, <<"eos">>>>>>>> : x \in R1, y \in Chars}
Pats == R1 \cup R2 \cup R3
Flags == {[i |-> a, s |-> b, m |-> c] : a \in BOOLEAN, b \in BOOLEAN, c \in BOOLEAN}
UseFlags == IF IOEnv.DEEP = "1" THEN Flags ELSE {f \in Flags : Cardinality({x \in {"i", "s", "m"} : f[x]}) <= 1}

RECURSIVE Ord(_)
Ord(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Ord(S \ {x})
StrSeq == Ord(Strs)
VARIABLES r, f, done
Init == r \in Pats /\ f \in UseFlags /\ done = FALSE
Idx(mode) == {j \in 1..Len(StrSeq) : Accepts(mode, r, StrSeq[j], f)}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<r, f>>
        /\ PrintT(ToJson(<<"@", r, f, Idx("match"), Idx("full"), Idx("search")>>))
Spec == Init /\ [][Next]_<<r, f, done>>
Inv == \A j \in 1..Len(StrSeq) : Laws(r, StrSeq[j], f)
ASSUME PrintT(ToJson(<<"@", "strings", StrSeq>>))
=============================================================================
