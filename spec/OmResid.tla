------------------------------ MODULE OmResid ------------------------------
(***************************************************************************)
(* Statements of an implicit component.                                    *)
(*                                                                         *)
(* Implicit outputs are created under names with a shape and defined by    *)
(* residuals; other outputs may stand beside them.  A sequence is ill      *)
(* formed as soon as two different outputs have one name, an output is     *)
(* defined twice, by itself, by an expression of another shape or by an    *)
(* expression that defines another output, an input is registered, or an   *)
(* output is never defined.  A statement that is rejected changes nothing: *)
(* when the user catches the exception (Forgiven times at most), the       *)
(* component is that of the other statements.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, Names, Sizes, Forgiven

VARIABLES hist, outs, ill
vars == <<hist, outs, ill>>

Implicit == {i \in 1..Len(outs) : outs[i].kind = "implicit"}
Named(n) == {i \in 1..Len(outs) : outs[i].name = n}
Caught == Cardinality({k \in 1..Len(hist) : hist[k].v # "ok"})
\* h is well formed (r = "ok") or not; then the outputs stay as they are if the user catches the exception
Note(h, r, new) ==
    \/ /\ hist' = Append(hist, [v |-> "ok"] @@ h)
       /\ ill' = IF ill # "ok" THEN ill ELSE r
       /\ outs' = new
    \/ /\ r \notin {"ok", "name"} /\ Caught < Forgiven
       /\ hist' = Append(hist, [v |-> r] @@ h)
       /\ UNCHANGED <<outs, ill>>
H(s, n, i, z, w) == [s |-> s, n |-> n, i |-> i, z |-> z, w |-> w]

\* an implicit output, or another output with (or without) a definition.  What
\* the other outputs of a component are called among themselves is of no account
Create == \E n \in Names, z \in Sizes, k \in {"implicit", "out", "empty", "reg"} :
             /\ k # "implicit" => z = 2 /\ ~\E i \in Named(n) : outs[i].kind # "implicit"
             /\ Note(H(k, n, 0, z, "-"),
                     IF \E i \in Named(n) : outs[i].kind = "implicit" \/ k = "implicit" THEN "name" ELSE "ok",
                     Append(outs, [name |-> n, kind |-> k, z |-> z, def |-> k \in {"out", "reg"}]))
Ways == {"plain", "bracketed"}
\* output i gets a residual of z elements, in terms of itself and an input
Define == \E i \in Implicit, z \in Sizes, w \in Ways :
             /\ Note(H("residual", outs[i].name, i, z, w),
                     IF outs[i].def THEN "twice" ELSE IF outs[i].z # z THEN "shape" ELSE "ok",
                     [outs EXCEPT ![i].def = TRUE])
\* by itself
Itself == \E i \in Implicit, w \in Ways :
             /\ Note(H("itself", outs[i].name, i, outs[i].z, w), "self", [outs EXCEPT ![i].def = TRUE])
\* by the residual of output j
Shared == \E i \in Implicit, j \in Implicit, w \in Ways :
             /\ i # j /\ outs[j].def /\ ~outs[i].def /\ outs[i].z = outs[j].z
             /\ Note(H("shared", outs[i].name, i, j, w), "registered", [outs EXCEPT ![i].def = TRUE])
Register == \/ \E n \in Names : Note(H("input", n, 0, 0, "-"), "input", outs)
            \/ \E n \in Names, i \in Implicit : /\ outs[i].def
                                                /\ Note(H("again", n, i, 0, "-"), "registered", outs)

Verdict == IF ill # "ok" THEN ill ELSE IF \E i \in 1..Len(outs) : ~outs[i].def THEN "undefined" ELSE "ok"

Init == hist = <<>> /\ outs = <<>> /\ ill = "ok"
Next == /\ Len(hist) < MaxLen
        /\ ill = "ok"
        /\ Create \/ Define \/ Itself \/ Shared \/ Register
        /\ IF \E i \in 1..Len(outs') : outs'[i].kind = "implicit"
           THEN PrintT("J" \o ToJson([hist |-> hist', verdict |-> Verdict'])) ELSE TRUE
Spec == Init /\ [][Next]_vars

\* a well-formed component: each implicit output has its name and one residual of its shape
OneResidual == Verdict = "ok" =>
    \A i \in Implicit :
        /\ Named(outs[i].name) = {i}
        /\ Cardinality({k \in 1..Len(hist) : hist[k].s \in {"residual", "itself", "shared"} /\ hist[k].i = i /\ hist[k].v = "ok"}) = 1
        /\ \A k \in 1..Len(hist) : hist[k].s = "residual" /\ hist[k].i = i /\ hist[k].v = "ok" => hist[k].z = outs[i].z
=============================================================================
