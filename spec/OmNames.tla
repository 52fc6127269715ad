------------------------------ MODULE OmNames -----------------------------
(***************************************************************************)
(* Names of outputs and registration in one group.                         *)
(*                                                                         *)
(* Every behaviour is a sequence of statements that create or register     *)
(* outputs under names of a small set.  It is ill formed as soon as two    *)
(* different outputs have one name, an input or an expression that is an   *)
(* output already is registered, or an output is never defined.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, Names

VARIABLES hist,    \* statements
          outs,    \* sequence of outputs: [name, kind, def]
          ill      \* reason, or "ok"
vars == <<hist, outs, ill>>

Taken(n) == \E i \in 1..Len(outs) : outs[i].name = n
Note(h, r) == /\ hist' = Append(hist, h)
              /\ ill' = IF ill # "ok" THEN ill ELSE r

New(n, kind, def) == outs' = Append(outs, [name |-> n, kind |-> kind, def |-> def])

\* statements that create an output called n
Create == \E n \in Names, k \in {"indep", "out", "cyc", "empty", "reg", "regget", "sub"} :
             /\ New(n, k, k # "empty")
             /\ Note([s |-> k, n |-> n, i |-> 0], IF Taken(n) THEN "name" ELSE "ok")
\* registering output i again, under the same or another name
Again == \E i \in 1..Len(outs), n \in Names :
            /\ outs[i].kind \in {"indep", "out", "cyc", "reg", "regget"}
            /\ Note([s |-> "again", n |-> n, i |-> i], "twice")
            /\ UNCHANGED outs
\* registering an input
Input == \E n \in Names : Note([s |-> "input", n |-> n, i |-> 0], "input") /\ UNCHANGED outs
\* a late definition, by elements or by an expression that may be of the output itself
Late == \E i \in 1..Len(outs), s \in {"late", "latecyc"} :
           /\ ~outs[i].def
           /\ outs' = [outs EXCEPT ![i].def = TRUE]
           /\ Note([s |-> s, n |-> outs[i].name, i |-> i], "ok")
\* an output of the kinds that can be defined is defined again
Redefine == \E i \in 1..Len(outs), s \in {"late", "latecyc"} :
               /\ outs[i].def /\ outs[i].kind \in {"out", "cyc", "empty"}
               /\ Note([s |-> s, n |-> outs[i].name, i |-> i], "twice")
               /\ UNCHANGED outs
\* or by itself
Itself == \E i \in 1..Len(outs) :
             /\ ~outs[i].def
             /\ outs' = [outs EXCEPT ![i].def = TRUE]
             /\ Note([s |-> "itself", n |-> outs[i].name, i |-> i], "self")

Verdict == IF ill # "ok" THEN ill ELSE IF \E i \in 1..Len(outs) : ~outs[i].def THEN "undefined" ELSE "ok"

Init == hist = <<>> /\ outs = <<>> /\ ill = "ok"
Next == /\ Len(hist) < MaxLen
        /\ ill = "ok"
        /\ Create \/ Again \/ Input \/ Late \/ Redefine \/ Itself
        /\ PrintT("J" \o ToJson([hist |-> hist', verdict |-> Verdict']))
Spec == Init /\ [][Next]_vars

\* in a well-formed program every output has its own name
OwnNames == Verdict = "ok" => \A i, j \in 1..Len(outs) : i # j => outs[i].name # outs[j].name
=============================================================================
