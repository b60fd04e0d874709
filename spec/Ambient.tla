------------------------------ MODULE Ambient ------------------------------
(***************************************************************************)
(* What an error is attributed to: the schema, key and context that are    *)
(* current where it is created.                                            *)
(*                                                                         *)
(* Strands (threads) execute operations.  An operation calls user code at  *)
(* its points, and this may fail (V: an error of the field, B: any other   *)
(* exception), carry out another operation or be suspended while another   *)
(* strand runs.  The nested operation runs in the same context, in a copy  *)
(* of it, or in a thread of its own (with an empty or a copied context).   *)
(*                                                                         *)
(* The specification is in two layers.  Declared says what is current at a *)
(* point, from nothing but the operations around it.  The variables cv and *)
(* toks are those of the implementation: context variables that are set on *)
(* entry and reset with tokens on exit, whichever way it takes.  Agree     *)
(* states that the implementation layer provides what is declared.         *)
(*                                                                         *)
(* Every behaviour is printed and replayed on the real code.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, Json

CONSTANTS Kinds,     \* of operations
          Modes,     \* of nesting
          Budget,    \* how often user code does something else than return
          Depth,     \* of nesting
          Strands

Void == <<"-", "-", <<"-">>>>              \* <<schema, key, context>>
Load(n, i) == <<"load", n, i>>
Dump(n, i) == <<"dump", n, i>>

(* Fields: a with a raw and an ordinary validator, b with a default        *)
(* factory, c required; o is the object field of another class.            *)
Points(k) == CASE k = "new"   -> <<"pre", "load", "def", "raw", "val", "post">>
               [] k = "miss"  -> <<"pre", "load", "def", "fmt", "raw", "val">>
               [] k \in {"upd", "set"} -> <<"raw", "load", "val">>
               [] k = "dump"  -> <<"dump">>
               [] k = "onew"  -> <<"pre", "sub", "post">>
               [] k = "odump" -> <<"sub">>
Sub(k) == IF k = "onew" THEN "new" ELSE "dump"
FieldPoints == {"raw", "load", "val", "dump"}

(***************************************************************************)
(* Declared: at point p of operation k on instance i, started where o was  *)
(* current                                                                 *)
(***************************************************************************)
Declared(k, i, p, o) ==
  CASE p \in {"pre", "post"} -> <<i, o[2], o[3]>>
    [] p \in {"raw", "load", "val"} -> <<i, "a", Load("a", i)>>
    [] p = "dump" -> <<i, "a", Dump("a", i)>>
    [] p = "def" -> <<i, "b", o[3]>>
    [] p = "fmt" -> <<i, "c", o[3]>>
    [] p = "sub" -> <<i, "o", IF k = "onew" THEN Load("o", i) ELSE Dump("o", i)>>

(***************************************************************************)
(* Implementation: assignments <<variable, value>> on entry                *)
(***************************************************************************)
Begin(k, i) == IF k = "set" THEN <<<<1, i>>, <<2, "a">>>> ELSE <<<<1, i>>>>
Enter(k, i, p) ==
  CASE p \in {"pre", "post"} -> <<>>
    [] p = "load" /\ k \in {"new", "miss"} -> <<<<2, "a">>, <<3, Load("a", i)>>>>
    [] p \in {"raw", "val"} /\ k \in {"new", "miss"} -> <<<<3, Load("a", i)>>, <<2, "a">>, <<1, i>>>>
    [] p \in {"raw", "load", "val"} /\ k = "upd" -> <<<<2, "a">>, <<3, Load("a", i)>>>>
    [] p \in {"raw", "load", "val"} /\ k = "set" -> <<<<3, Load("a", i)>>>>
    [] p = "dump" -> <<<<2, "a">>, <<3, Dump("a", i)>>>>
    [] p = "def" -> <<<<2, "b">>>>
    [] p = "fmt" -> <<<<2, "c">>>>
    [] p = "sub" -> <<<<2, "o">>, <<3, IF k = "onew" THEN Load("o", i) ELSE Dump("o", i)>>>>

(* cv and the tokens after assignments; tokens are <<variable, old>>       *)
Sets(cv, as) == FoldLeft(LAMBDA s, a : [cv |-> [s.cv EXCEPT ![a[1]] = a[2]], toks |-> Append(s.toks, <<a[1], s.cv[a[1]]>>)],
                         [cv |-> cv, toks |-> <<>>], as)
Resets(cv, toks) == FoldRight(LAMBDA t, c : [c EXCEPT ![t[1]] = t[2]], toks, cv)

VARIABLES stk,   \* of each strand: the operations, innermost last
          cv,    \* of each strand: the context variables
          cur,   \* the strand that runs
          began, \* the strands that have begun
          left,  \* budget left
          n,     \* instances so far
          ds,    \* what user code did, in order
          tr     \* what is observed
vars == <<stk, cv, cur, began, left, n, ds, tr>>

Top(t) == stk[t][Len(stk[t])]
SetTop(t, f) == [stk EXCEPT ![t][Len(stk[t])] = f]
Frame(k, i, o, b, mode, back) ==
  [k |-> k, i |-> i, p |-> 1, at |-> FALSE, outer |-> o, toks |-> b.toks, pt |-> <<>>, errs |-> <<>>, skip |-> FALSE,
   boom |-> FALSE, mode |-> mode, back |-> back]

Init == /\ stk = [t \in 1..Strands |-> <<>>] /\ cv = [t \in 1..Strands |-> Void]
        /\ cur = 1 /\ began = {} /\ left = Budget /\ n = 0 /\ ds = <<>> /\ tr = <<>>

(* a strand begins its operation *)
Start(k) ==
  /\ stk[cur] = <<>> /\ cur \notin began
  /\ LET b == Sets(Void, Begin(k, n + 1))
     IN /\ stk' = [stk EXCEPT ![cur] = <<Frame(k, n + 1, Void, b, "same", Void)>>]
        /\ cv' = [cv EXCEPT ![cur] = b.cv]
  /\ began' = began \cup {cur} /\ n' = n + 1
  /\ ds' = Append(ds, <<"op", k>>)
  /\ UNCHANGED <<cur, left, tr>>

Running == stk[cur] # <<>>
PointName(f) == Points(f.k)[f.p]
(* what remains to be called of f *)
Due(f) == /\ ~f.boom /\ f.p <= Len(Points(f.k))
          /\ PointName(f) = "post" => f.errs = <<>>
Skipped(f) == f.skip /\ PointName(f) = "val"

Skip == /\ Running /\ LET f == Top(cur)
           IN /\ ~f.at /\ Due(f) /\ Skipped(f)
              /\ stk' = SetTop(cur, [f EXCEPT !.p = @ + 1])
        /\ UNCHANGED <<cv, cur, began, left, n, ds, tr>>

(* user code is called *)
Call ==
  /\ Running
  /\ LET f == Top(cur)
         s == Sets(cv[cur], Enter(f.k, f.i, PointName(f)))
     IN /\ ~f.at /\ Due(f) /\ ~Skipped(f)
        /\ cv' = [cv EXCEPT ![cur] = s.cv]
        /\ stk' = SetTop(cur, [f EXCEPT !.at = TRUE, !.pt = s.toks])
        /\ tr' = IF PointName(f) = "sub" THEN tr ELSE Append(tr, <<"call", cur, f.i, PointName(f), Declared(f.k, f.i, PointName(f), f.outer)>>)
  /\ UNCHANGED <<cur, began, left, n, ds>>

(* the point is left with frame f *)
Leave(f) == /\ cv' = [cv EXCEPT ![cur] = Resets(@, f.pt)]
            /\ stk' = SetTop(cur, [f EXCEPT !.at = FALSE, !.pt = <<>>, !.p = @ + 1])
AtPoint == Running /\ Top(cur).at
ErrHere(f) == <<IF PointName(f) = "fmt" THEN "c" ELSE "a", Declared(f.k, f.i, PointName(f), f.outer)[3]>>

Return ==
  /\ AtPoint
  /\ LET f == Top(cur)
     IN /\ PointName(f) # "sub"
        \* the formatter is called for an error
        /\ Leave(IF PointName(f) = "fmt" THEN [f EXCEPT !.errs = Append(@, ErrHere(f))] ELSE f)
        /\ ds' = Append(ds, <<"ret">>)
  /\ UNCHANGED <<cur, began, left, n, tr>>
Fail ==
  /\ AtPoint /\ left > 0
  /\ LET f == Top(cur)
     IN /\ PointName(f) \in FieldPoints
        /\ Leave([f EXCEPT !.errs = Append(@, ErrHere(f)), !.skip = @ \/ PointName(f) = "load"])
        /\ ds' = Append(ds, <<"V">>)
  /\ left' = left - 1
  /\ UNCHANGED <<cur, began, n, tr>>
Boom ==
  /\ AtPoint /\ left > 0
  /\ LET f == Top(cur)
     IN /\ PointName(f) # "sub"
        /\ Leave([f EXCEPT !.boom = TRUE])
        /\ ds' = Append(ds, <<"B">>)
  /\ left' = left - 1
  /\ UNCHANGED <<cur, began, n, tr>>

(* the operation that runs in the middle of the one at the top *)
Push(k, mode) ==
  LET f == Top(cur)
      c0 == IF mode = "thread" THEN Void ELSE cv[cur]
      b == Sets(c0, Begin(k, n + 1))
      o == IF mode = "thread" THEN Void ELSE Declared(f.k, f.i, PointName(f), f.outer)
  IN /\ stk' = [stk EXCEPT ![cur] = Append(@, Frame(k, n + 1, o, b, mode, cv[cur]))]
     /\ cv' = [cv EXCEPT ![cur] = b.cv]
     /\ n' = n + 1
Nest(k, mode) ==
  /\ AtPoint /\ left > 0 /\ PointName(Top(cur)) # "sub" /\ Len(stk[cur]) < Depth
  /\ Push(k, mode)
  /\ ds' = Append(ds, <<"nest", k, mode>>) /\ left' = left - 1
  /\ UNCHANGED <<cur, began, tr>>
SubOp ==
  /\ AtPoint /\ PointName(Top(cur)) = "sub"
  /\ Push(Sub(Top(cur).k), "same")
  /\ UNCHANGED <<cur, began, left, ds, tr>>
(* a strand that was suspended goes on *)
Resumed(t) == IF stk[t] = <<>> THEN tr
              ELSE LET f == Top(t) IN Append(tr, <<"back", t, f.i, PointName(f), Declared(f.k, f.i, PointName(f), f.outer)>>)
Switch(t) ==
  /\ AtPoint /\ left > 0 /\ PointName(Top(cur)) # "sub" /\ t # cur
  /\ t \notin began \/ stk[t] # <<>>
  /\ cur' = t /\ left' = left - 1 /\ ds' = Append(ds, <<"switch", t>>)
  /\ tr' = Resumed(t)
  /\ UNCHANGED <<stk, cv, began, n>>

(* the operation at the top ends *)
Result(f) == IF f.boom THEN "B" ELSE IF f.errs # <<>> THEN "verr" ELSE "ok"
End ==
  /\ Running
  /\ LET f == Top(cur)
         s == stk[cur]
         m == Len(s)
         c1 == Resets(cv[cur], f.toks)
         res == Result(f)
         told == <<"end", cur, f.i, res, IF f.boom THEN <<>> ELSE f.errs>>
     IN /\ ~f.at /\ ~Due(f)
        /\ IF m = 1
           THEN /\ stk' = [stk EXCEPT ![cur] = <<>>]
                /\ cv' = [cv EXCEPT ![cur] = c1]
                /\ tr' = Append(tr, told)
           ELSE LET g == s[m - 1]
                IN IF PointName(g) = "sub"
                   THEN \* the object field turns the errors of the nested schema into one
                        LET g1 == [g EXCEPT !.at = FALSE, !.pt = <<>>, !.p = @ + 1, !.boom = f.boom,
                                            !.errs = IF res = "verr" THEN Append(@, <<"o", Declared(g.k, g.i, "sub", g.outer)[3]>>) ELSE @]
                        IN /\ stk' = [stk EXCEPT ![cur] = Append(SubSeq(s, 1, m - 2), g1)]
                           /\ cv' = [cv EXCEPT ![cur] = Resets(c1, g.pt)]
                           /\ tr' = tr
                   ELSE \* user code goes on; a context of its own is gone
                        /\ stk' = [stk EXCEPT ![cur] = SubSeq(s, 1, m - 1)]
                        /\ cv' = [cv EXCEPT ![cur] = IF f.mode = "same" THEN c1 ELSE f.back]
                        /\ tr' = Append(Append(tr, told), <<"back", cur, g.i, PointName(g), Declared(g.k, g.i, PointName(g), g.outer)>>)
  /\ UNCHANGED <<cur, began, left, n, ds>>

(* a strand that is done hands over *)
Over == /\ stk[cur] = <<>> /\ cur \in began
        /\ \E t \in 1..Strands : /\ t \notin began \/ stk[t] # <<>>
                                 /\ \A u \in 1..Strands : (u \notin began \/ stk[u] # <<>>) => t <= u
                                 /\ cur' = t /\ tr' = Resumed(t)
        /\ UNCHANGED <<stk, cv, began, left, n, ds>>

Done == began = 1..Strands /\ \A t \in 1..Strands : stk[t] = <<>>
Report == /\ Done /\ n > 0
          /\ PrintT(ToJson(<<"@", ds, tr>>))
          /\ n' = 0 /\ UNCHANGED <<stk, cv, cur, began, left, ds, tr>>

Next == \/ \E k \in Kinds : Start(k)
        \/ Skip \/ Call \/ Return \/ Fail \/ Boom \/ SubOp \/ End \/ Over \/ Report
        \/ \E k \in Kinds, mode \in Modes : Nest(k, mode)
        \/ \E t \in 1..Strands : Switch(t)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The properties                                                          *)
(***************************************************************************)
(* at every point of user code of every strand that runs, and while it is  *)
(* suspended there, what is declared is current                            *)
Agree == \A t \in 1..Strands :
           stk[t] # <<>> /\ Top(t).at =>
             LET f == Top(t) IN cv[t] = Declared(f.k, f.i, PointName(f), f.outer)
(* a strand that executes nothing has nothing current *)
AtRest == \A t \in 1..Strands : stk[t] = <<>> => cv[t] = Void
(* what is current in an operation is its own instance *)
Own == \A t \in 1..Strands : stk[t] # <<>> => cv[t][1] = Top(t).i
Inv == Agree /\ AtRest /\ Own
=============================================================================
