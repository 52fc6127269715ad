------------------------------ MODULE OmBisect ------------------------------
(***************************************************************************)
(* Implicit outputs that are found by bisection, and by Newton's method    *)
(* from a given side.                                                      *)
(*                                                                         *)
(* A component has outputs; each has elements; each element has a bracket  *)
(* of its own (whose ends may be given in either order), a residual that   *)
(* rises or falls, and one root inside the bracket.  The bracket is        *)
(* divided into U = 2^(M+2) units, where M is the number of iterations;    *)
(* the root is at an odd unit, so that no midpoint ever hits it (with the  *)
(* default number of iterations it may also be at an end).  Bisection      *)
(* keeps, for each element, an end p where the residual is not negative    *)
(* and an end n where it is.  An output may be coupled with the result of  *)
(* another one (its residual contains it); the couplings are acyclic, in   *)
(* any order of definition.                                                *)
(*                                                                         *)
(* M = -1 stands for the default number of iterations, with which only the *)
(* root itself is specified.                                               *)
(*                                                                         *)
(* Without brackets (kind "newton") the residual of an element has two     *)
(* roots; which one is found depends on the side of their middle where the *)
(* iteration starts.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxOuts, Exhaustive

VARIABLES kind, M, outs, run, k, ivl, res, phase
vars == <<kind, M, outs, run, k, ivl, res, phase>>

Draw(S) == {RandomElement(S)}
Twice(n) == 2 ^ n
U == IF M < 0 THEN 8 ELSE Twice(M + 2)
Odd(n) == {i \in 1..n : i % 2 = 1}
Abs2(i) == IF i < 0 THEN -i ELSE i

Shapes == <<<<1>>, <<1>>, <<2>>, <<3>>, <<2, 2>>, <<4>>, <<1, 3>>, <<2, 1, 2>>>>
SizeOf(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Forms == {"lin", "cube", "tanh", "exp", "poly", "quad", "scaled"}

\* one element: sign of the slope, order of the ends, position of the root in the first and the second run
Elem(R) == [s : {1, -1}, up : BOOLEAN, r1 : R, r2 : R]
\* with the default number of iterations the root may also be where a midpoint or an end is
Roots == IF kind = "bracket" /\ M < 0 /\ RandomElement(1..3) = 1 THEN 0..U ELSE Odd(U)

-----------------------------------------------------------------------------
(* components                                                              *)
Start == /\ phase = "start"
         /\ \E K \in Draw({"bracket", "bracket", "bracket", "newton"}), m \in Draw(-1..6) :
              kind' = K /\ M' = IF K = "newton" THEN -1 ELSE m
         /\ phase' = "write"
         /\ UNCHANGED <<outs, run, k, ivl, res>>

\* outputs that output number o can use: none that uses o
RECURSIVE UsesOf(_, _)
UsesOf(os, j) == IF os[j].cp = 0 THEN {j} ELSE {j} \cup UsesOf(os, os[j].cp)

AddOut ==
    /\ phase = "write" /\ Len(outs) < MaxOuts
    /\ \E i \in Draw(1..Len(Shapes)), f \in Draw(Forms), b \in Draw({"scalar", "array", "list", "mixed"}) :
         \E s \in {Shapes[i]} :
           \E e0 \in {[j \in 1..SizeOf(s) |-> RandomElement(Elem(Roots))]} :
             \E first \in {[s |-> e0[1].s, up |-> e0[1].up]} :
               \* scalar ends: the same bracket for all elements
               \E e \in {IF b = "array" \/ b = "list" THEN e0 ELSE [j \in 1..SizeOf(s) |-> [e0[j] EXCEPT !.up = first.up]]} :
                 \E c \in Draw(0..Len(outs)) :
                   \E cc \in {IF c = 0 THEN 0 ELSE IF outs[c].sh = s \/ outs[c].sh = <<1>> THEN c ELSE 0} :
                     outs' = Append(outs, [sh |-> s, form |-> f, br |-> b, el |-> e, cp |-> cc])
    /\ UNCHANGED <<kind, M, run, k, ivl, res, phase>>

Enough == /\ phase = "write" /\ Len(outs) > 0
          /\ (Len(outs) = MaxOuts \/ RandomElement(1..2) = 1)
          /\ phase' = "solve" /\ run' = 1 /\ k' = 0
          /\ ivl' = [o \in 1..Len(outs) |-> [e \in 1..Len(outs[o].el) |->
                        IF outs[o].el[e].s = 1 THEN [p |-> U, n |-> 0] ELSE [p |-> 0, n |-> U]]]
          /\ UNCHANGED <<kind, M, outs, res>>

-----------------------------------------------------------------------------
(* bisection                                                               *)
Root(o, e) == IF run = 1 THEN outs[o].el[e].r1 ELSE outs[o].el[e].r2
Mid(i) == (i.p + i.n) \div 2
NotNegative(o, e, x) == outs[o].el[e].s * (x - Root(o, e)) >= 0

Step == /\ phase = "solve" /\ k < M
        /\ ivl' = [o \in 1..Len(outs) |-> [e \in 1..Len(outs[o].el) |->
                     LET i == ivl[o][e] IN
                     IF NotNegative(o, e, Mid(i)) THEN [i EXCEPT !.p = Mid(i)] ELSE [i EXCEPT !.n = Mid(i)]]]
        /\ k' = k + 1
        /\ UNCHANGED <<kind, M, outs, run, res, phase>>

Results == [o \in 1..Len(outs) |-> [e \in 1..Len(outs[o].el) |-> IF M < 0 THEN Root(o, e) ELSE Mid(ivl[o][e])]]
Solved == /\ phase = "solve" /\ (M < 0 \/ k = M)
          /\ res' = Append(res, Results)
          /\ IF run = 1
             THEN /\ run' = 2 /\ k' = 0
                  /\ ivl' = [o \in 1..Len(outs) |-> [e \in 1..Len(outs[o].el) |->
                                IF outs[o].el[e].s = 1 THEN [p |-> U, n |-> 0] ELSE [p |-> 0, n |-> U]]]
                  /\ UNCHANGED phase
             ELSE phase' = "report" /\ UNCHANGED <<run, k, ivl>>
          /\ UNCHANGED <<kind, M, outs>>

Report == /\ phase = "report"
          /\ PrintT("J" \o ToJson([kind |-> kind, m |-> M, u |-> U, outs |-> outs, res |-> res]))
          /\ phase' = "end"
          /\ UNCHANGED <<kind, M, outs, run, k, ivl, res>>

Init == /\ kind = "bracket" /\ M = 0 /\ outs = <<>> /\ run = 0 /\ k = 0 /\ ivl = <<>> /\ res = <<>> /\ phase = "start"

\* exhaustively: one output of one element, every bracket order, slope and pair of roots
One == /\ phase = "start" /\ Exhaustive
       /\ \E m \in 0..4 : M' = m
       /\ phase' = "one"
       /\ UNCHANGED <<kind, outs, run, k, ivl, res>>
OneElem == /\ phase = "one"
           /\ \E e \in [s : {1, -1}, up : BOOLEAN, r1 : Odd(U), r2 : {1, U - 1}] :
                outs' = <<[sh |-> <<1>>, form |-> "lin", br |-> "array", el |-> <<e>>, cp |-> 0]>>
           /\ phase' = "solve" /\ run' = 1 /\ k' = 0
           /\ ivl' = <<<<IF outs'[1].el[1].s = 1 THEN [p |-> U, n |-> 0] ELSE [p |-> 0, n |-> U]>>>>
           /\ UNCHANGED <<kind, M, res>>

Next == \/ (~Exhaustive /\ Start) \/ AddOut \/ Enough \/ One \/ OneElem \/ Step \/ Solved \/ Report
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
All(Q(_, _)) == \A o \in 1..Len(outs) : \A e \in 1..Len(outs[o].el) : Q(o, e)
InsideBracket == phase = "solve" => LET Q(o, e) == ivl[o][e].p \in 0..U /\ ivl[o][e].n \in 0..U IN All(Q)
RootBetween == phase = "solve" => LET Q(o, e) == (ivl[o][e].p - Root(o, e)) * (ivl[o][e].n - Root(o, e)) < (IF M < 0 THEN 1 ELSE 0) IN All(Q)
Halves == phase = "solve" /\ M >= 0 => LET Q(o, e) == Abs2(ivl[o][e].p - ivl[o][e].n) * Twice(k) = U IN All(Q)
Signs == phase = "solve" /\ M >= 0 => LET Q(o, e) == NotNegative(o, e, ivl[o][e].p) /\ ~NotNegative(o, e, ivl[o][e].n) IN All(Q)
\* the result is at most half of the last interval away from the root
Accurate == phase \in {"report", "end"} /\ M >= 0 =>
    \A i \in 1..2 : LET Q(o, e) == Abs2(res[i][o][e] - (IF i = 1 THEN outs[o].el[e].r1 ELSE outs[o].el[e].r2)) <= 2 IN All(Q)
Triangular == \A o \in 1..Len(outs) : outs[o].cp < o
=============================================================================
