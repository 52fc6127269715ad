------------------------------ MODULE OmAssign -----------------------------
(***************************************************************************)
(* Assigning the elements of one output: y[key] = e, and y.define(e).      *)
(*                                                                         *)
(* The state is what has been assigned so far.  Every attempt is either    *)
(* accepted, and then the elements that the key selects are those of the   *)
(* expression from there on, or it is rejected for one of the reasons      *)
(* below with an exception.  The exception ends the program, or the user   *)
(* catches it (at most Forgiven times) and goes on: a rejected attempt     *)
(* changes nothing.  All histories of at most MaxLen attempts are explored *)
(* and printed with their verdict and the elements of the output.          *)
(***************************************************************************)
EXTENDS OmOps, Json

CONSTANTS MaxLen, Shapes, Rich, Forgiven    \* Shapes: which of AllShapes

VARIABLES ysh,      \* shape of the output
          elems,    \* flat index -> <<attempt, element>> for assigned elements
          used,     \* expressions that were assigned
          how,      \* "none", "set", "define"
          hist,     \* the attempts, each with its verdict
          verdict   \* of the last attempt: "ok" or the reason of the rejection
vars == <<ysh, elems, used, how, hist, verdict>>

AllShapes == <<<<3>>, <<4>>, <<2, 2>>, <<3, 1>>, <<2, 3>>, <<1>>, <<5>>>>

\* expressions the program has: two of each shape that fits somewhere, and one that fits nowhere
ExprShapes == <<<<1>>, <<1>>, <<2>>, <<2>>, <<3>>, <<2, 1>>, <<1, 2>>, <<2, 2>>, <<5>>, <<1, 1>>>>
Exprs == 1..Len(ExprShapes)

Slices(n) == {<<a, b, s>> \in (0..n) \X (1..(n + 1)) \X (1..2) : a < b /\ (s = 1 \/ a + s < b)}
\* keys, out of range ones included
Keys(sh) ==
    IF Len(sh) = 1
    THEN {[k |-> "i", i |-> n] : n \in 0..(sh[1] + 1)}
         \cup {[k |-> "s", s |-> s] : s \in Slices(sh[1])}
         \cup (IF Rich THEN {[k |-> "t", t |-> <<s>>] : s \in Slices(sh[1])} ELSE {})
    ELSE {[k |-> "t", t |-> t] : t \in {u \in [1..Len(sh) -> UNION {Slices(sh[a]) : a \in 1..Len(sh)}] :
                                        \A a \in 1..Len(sh) : u[a] \in Slices(sh[a])}}

Grid(sh, key) == GridOf(key)
\* shape of the selection; elements may lie outside of the output
SelShape(key) == GridShape(GridOf(key))

Reason(key, e) ==
    IF how = "define" THEN "defined"
    ELSE IF SelShape(key) # ExprShapes[e] THEN "shape"
    ELSE IF ~KeyInRange(ysh, key) THEN "range"
    ELSE IF e \in used THEN "reuse"
    ELSE IF Range(Selected(ysh, key).flat) \cap DOMAIN elems # {} THEN "overlap"
    ELSE "ok"

Show(h, v, el) == PrintT("J" \o ToJson([sh |-> ysh, hist |-> h, verdict |-> v,
                                        el |-> [f \in 1..Size(ysh) |-> IF f - 1 \in DOMAIN el THEN el[f - 1] ELSE <<0, 0>>]]))

\* wrong shapes: one representative expression for each key is enough
Relevant(key, e) == SelShape(key) = ExprShapes[e] \/ e \in (IF Forgiven = 0 THEN {1, 5, 6} ELSE {1, 5})

Rejections == Cardinality({i \in 1..Len(hist) : hist[i].v # "ok"})
\* the program goes on, after a rejection when the user catches the exception
GoesOn == /\ Len(hist) < MaxLen
          /\ verdict # "undefined"
          /\ Rejections <= Forgiven

Set == /\ GoesOn
       /\ \E key \in Keys(ysh), e \in Exprs :
            /\ Relevant(key, e)
            \* expressions of the same shape are interchangeable: the first unused one first
            /\ e = 2 => 1 \in used
            /\ e = 4 => 3 \in used
            /\ \E r \in {Reason(key, e)} :
                 /\ hist' = Append(hist, [a |-> "set", key |-> key, e |-> e, v |-> r])
                 /\ verdict' = r
                 /\ IF r # "ok" THEN UNCHANGED <<elems, used, how>>
                    ELSE LET fl == Selected(ysh, key).flat IN
                         /\ elems' = [f \in DOMAIN elems \cup Range(fl) |->
                                        IF f \in DOMAIN elems THEN elems[f]
                                        ELSE <<e, CHOOSE i \in 1..Len(fl) : fl[i] = f>>]
                         /\ used' = used \cup {e}
                         /\ how' = "set"
                 /\ Show(hist', verdict', elems')
       /\ UNCHANGED ysh

\* e = 0: the output itself
Define == /\ GoesOn
          /\ \E e \in {0} \cup {x \in Exprs : ExprShapes[x] = ysh \/ x \in {1, 5}} :
               \E r \in {IF e = 0 THEN "self" ELSE IF how # "none" THEN "defined"
                         ELSE IF ExprShapes[e] # ysh THEN "shape" ELSE "ok"} :
                 /\ hist' = Append(hist, [a |-> "define", key |-> [k |-> "none"], e |-> e, v |-> r])
                 /\ verdict' = r
                 /\ IF r # "ok" THEN UNCHANGED <<elems, used, how>>
                    ELSE /\ elems' = [f \in 0..(Size(ysh) - 1) |-> <<e, f + 1>>]
                         /\ used' = used \cup {e}
                         /\ how' = "define"
                 /\ Show(hist', verdict', elems')
          /\ UNCHANGED ysh

\* nothing assigned at all
Leave == /\ hist = <<>> /\ verdict = "ok"
         /\ verdict' = "undefined"
         /\ Show(hist, verdict', elems)
         /\ UNCHANGED <<ysh, elems, used, how, hist>>

Init == /\ \E i \in Shapes : ysh = AllShapes[i]
        /\ elems = <<>> /\ used = {} /\ how = "none" /\ hist = <<>> /\ verdict = "ok"
Next == Set \/ Define \/ Leave
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* each element comes from at most one attempt, and every element of an accepted expression is somewhere
NeverAmbiguous ==
      /\ DOMAIN elems \subseteq 0..(Size(ysh) - 1)
      /\ \A i \in 1..Len(hist) : hist[i].a = "set" /\ hist[i].v = "ok" =>
            {<<hist[i].e, j>> : j \in 1..Size(ExprShapes[hist[i].e])} \subseteq {elems[f] : f \in DOMAIN elems}
      /\ Cardinality({elems[f] : f \in DOMAIN elems}) = Cardinality(DOMAIN elems)
\* what was assigned stays as it was
Stable == [][\A f \in DOMAIN elems : f \in DOMAIN elems' /\ elems'[f] = elems[f]]_vars
\* the meaning of an accepted history agrees with the operation "assemble"
AgreesWithAssemble ==
    how = "set" =>
      LET ok == SelectSeq(hist, LAMBDA h : h.v = "ok")
          den == Den("assemble", [i \in 1..Len(ok) |-> ExprShapes[ok[i].e]],
                   [shape |-> ysh, keys |-> [i \in 1..Len(ok) |-> ok[i].key]])
      IN \A f \in 0..(Size(ysh) - 1) :
           den.el[f + 1] = IF f \in DOMAIN elems
                         THEN XF(CHOOSE i \in 1..Len(ok) : ok[i].e = elems[f][1], elems[f][2] - 1)
                         ELSE One
\* a rejected attempt changes nothing
RejectedIsNothing == [][verdict' # "ok" => UNCHANGED <<elems, used, how>>]_vars
=============================================================================
