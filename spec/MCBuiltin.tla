----------------------------- MODULE MCBuiltin -----------------------------
(***************************************************************************)
(* Enumerates every configuration of the menu with every value, and the    *)
(* cases of the file named by SCENARIOS (random, larger numbers).          *)
(***************************************************************************)
EXTENDS Builtin, Json, IOUtils

Deep == IOEnv.DEEP = "1"
N == IF Deep THEN 7 ELSE 4
Ints == {<<"int", n>> : n \in (0 - N - 1)..(N + 2)}
Kinds == {"str", "list", "tuple", "dict", "set", "bytes"}
Sized == {<<"sized", k, n>> : k \in Kinds, n \in 0..(IF Deep THEN 6 ELSE 4)}
Bound == (0 - N)..N
Opt == (0 - 1)..(IF Deep THEN 5 ELSE 3)

Ranges == {<<"range1", b>> : b \in Bound} \cup {<<"range2", a, b>> : a \in Bound, b \in Bound}
Stds == {<<"std", a, b, s>> : a \in Bound, b \in Bound, s \in {0 - 3, 0 - 2, 0 - 1, 1, 2, 3}}
Lens == {<<"len", a, b, c>> : a \in Opt, b \in Opt, c \in Opt}
Excls == {<<"excl", q>> : q \in {<<>>, <<<<"int", 0>>>>, <<<<"int", 2>>, <<"int", 0 - 1>>>>, <<<<"int", 1>>, <<"int", 2>>, <<"int", 3>>>>}}
Base == {<<"range1", 2>>, <<"range2", 0 - 2, 1>>, <<"range2", 3, 3>>, <<"std", 0, 5, 2>>, <<"excl", <<<<"int", 0>>, <<"int", 3>>>>>>,
         <<"fn", <<<<"int", 4>>, <<"int", 0 - 2>>>>>>, <<"cls", <<<<"int", 3>>>>>>, <<"fn", <<>>>>, <<"boom">>}
Or1 == {<<"or", q>> : q \in UNION {[1..k -> Base] : k \in 0..(IF Deep THEN 3 ELSE 2)}}
(* the order matters only where something booms *)
Or2 == {<<"or", <<x, <<"or", <<y, z>>>>>>>> : x \in Base, y \in Base, z \in Base}
Menu == (Ranges \X Ints) \cup (Stds \X Ints) \cup (Lens \X Sized) \cup (Excls \X Ints) \cup (Or1 \X Ints) \cup (IF Deep THEN Or2 \X Ints ELSE {})

File == IF IOEnv.SCENARIOS = "" THEN <<>> ELSE ndJsonDeserialize(IOEnv.SCENARIOS)

VARIABLES case, done
Init == /\ done = FALSE
        /\ \/ case \in Menu
           \/ \E i \in 1..Len(File) : case = <<File[i].d, File[i].v>>
Next == /\ ~done /\ done' = TRUE
        /\ UNCHANGED case
        /\ PrintT(ToJson(<<"@", case[1], case[2], IF Refused(case[1]) THEN "refused" ELSE Verdict(case[1], case[2])>>))
Spec == Init /\ [][Next]_<<case, done>>
Inv == Refused(case[1]) \/ Laws(case[1], case[2])
=============================================================================
