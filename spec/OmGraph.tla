------------------------------ MODULE OmGraph -------------------------------
(***************************************************************************)
(* What a program requires of the model that is built from it.             *)
(*                                                                         *)
(* A program P is a record                                                 *)
(*   nd  sequence of nodes (expressions).  Fields of a node:               *)
(*         k   "in" (declared input), "alias" (declared input that another *)
(*             group or component computes), "indep", "op", "get", "out"   *)
(*         a   the nodes it is computed from (for "out": what is assigned) *)
(*         g   the group it belongs to                                     *)
(*         af  for inputs: how many subsystems its group had when it was   *)
(*             declared                                                    *)
(*         def for "out": node given to define(), 0 if elements are        *)
(*             assigned                                                    *)
(*   gr  sequence of groups; group 1 is the model.  Fields of a group:     *)
(*         up  the parent (0 for the model), no its number in the parent   *)
(*         before  nodes registered or created in the parent earlier       *)
(*   reg set of nodes that are registered                                  *)
(*                                                                         *)
(* The model of group g consists of units:                                 *)
(*   <<"c", n>>  the component that computes node n                        *)
(*   <<"s", k>>  child group k                                             *)
(* One component may extract several sets of elements of the same node.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Nodes(P) == 1..Len(P.nd)
IsInput(P, n) == P.nd[n].k \in {"in", "alias"}

\* the nodes that node n is computed from, transitively (n included)
RECURSIVE Closure(_, _, _)
Closure(P, todo, seen) ==
    IF todo = {} THEN seen
    ELSE LET n == CHOOSE n \in todo : TRUE
             new == Range(P.nd[n].a) \ (seen \cup todo)
         IN Closure(P, (todo \ {n}) \cup new, seen \cup {n})
DependsOn(P, S) == Closure(P, S, {})

Child(P, g, no) == CHOOSE k \in 1..Len(P.gr) : P.gr[k].up = g /\ P.gr[k].no = no
Children(P, g) == {k \in 1..Len(P.gr) : P.gr[k].up = g}

\* the unit that computes node n, as a set (empty for inputs)
Unit(P, n) == IF IsInput(P, n) THEN {} ELSE {<<"c", n>>}

\* nodes that the user asked for in group g
Roots(P, g) == {n \in Nodes(P) : P.nd[n].g = g /\ (P.nd[n].k \in {"out", "indep"} \/ n \in P.reg)}

\* the units of the model of group g: all that is needed, nothing else
Needed(P, g) == UNION {Unit(P, n) : n \in {m \in DependsOn(P, Roots(P, g)) : P.nd[m].g = g}}
                \cup {<<"s", k>> : k \in Children(P, g)}

\* nodes that one component computes along with node n: all elements extracted from one expression
Together(P, n) == IF P.nd[n].k = "get" THEN {m \in Nodes(P) : P.nd[m].k = "get" /\ P.nd[m].a = P.nd[n].a} ELSE {n}
\* y is defined by an expression that uses node n: reads of y by n close a cycle
ClosesCycle(P, n, y) == /\ P.nd[y].k = "out"
                        /\ P.nd[y].def # 0
                        /\ y \in Range(P.nd[n].a)
                        /\ Together(P, n) \cap DependsOn(P, {P.nd[y].def}) # {}

\* units that must run before something that uses node n directly
Source(P, n) == IF IsInput(P, n)
                THEN IF P.nd[n].af = 0 THEN {} ELSE {<<"s", Child(P, P.nd[n].g, P.nd[n].af)>>}
                ELSE Unit(P, n)

\* the nodes whose values unit u uses, except where that closes a cycle
Reads(P, u) == IF u[1] = "c" THEN {m \in Range(P.nd[u[2]].a) : ~ClosesCycle(P, u[2], m)} ELSE {}

ReadsFirst(P, u) == UNION {Source(P, m) : m \in Reads(P, u)} \ {u}

\* a child runs after what was registered or created before it was added
BarrierFirst(P, g, u) ==
    IF u[1] = "s" THEN UNION {Unit(P, n) : n \in P.gr[u[2]].before}
                       \cup {<<"s", k>> : k \in {c \in Children(P, g) : P.gr[c].no < P.gr[u[2]].no}}
    ELSE {}

Indeps(P, g) == {<<"c", n>> : n \in {m \in Nodes(P) : P.nd[m].k = "indep" /\ P.nd[m].g = g}}
IndepsFirst(P, g, u) == IF u \in Indeps(P, g) THEN {} ELSE Indeps(P, g)

-----------------------------------------------------------------------------
(* Emission: the units of a group are added to its model one by one.       *)
(* done is the set of units added so far.                                  *)
EmitNeeded(P, g, done, u)  == u \in Needed(P, g)
EmitOnce(P, g, done, u)    == u \notin done
EmitReads(P, g, done, u)   == ReadsFirst(P, u) \subseteq done
EmitBarrier(P, g, done, u) == BarrierFirst(P, g, u) \subseteq done
EmitIndeps(P, g, done, u)  == IndepsFirst(P, g, u) \subseteq done
CanEmit(P, g, done, u) == /\ EmitNeeded(P, g, done, u)
                          /\ EmitOnce(P, g, done, u)
                          /\ EmitReads(P, g, done, u)
                          /\ EmitBarrier(P, g, done, u)
                          /\ EmitIndeps(P, g, done, u)
Enabled(P, g, done) == {u \in Needed(P, g) : CanEmit(P, g, done, u)}
=============================================================================
