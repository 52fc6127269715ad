---------------------------- MODULE OmPipeline ----------------------------
(***************************************************************************)
(* How a group is built: the algorithm, for every program of OmSmall.      *)
(*                                                                         *)
(* OmGraph says what the model of a program must be like; this machine     *)
(* says how omtools gets there, and TLC checks that it does, whatever the  *)
(* order in which sets are iterated and branches are sorted:               *)
(*                                                                         *)
(*   link    the graph: expressions depend on what they are computed from, *)
(*           declared inputs on the last subsystem added before, subsystems*)
(*           on everything that was registered or created before, the root *)
(*           on what was registered, created or added; all nodes depend on *)
(*           the independent variables                                     *)
(*   reduce  node after node, dependencies that are also dependencies of   *)
(*           another dependency are removed                                *)
(*   sort    depth-first search from the root with a stack; a node is      *)
(*           passed when it has been visited once for each node that       *)
(*           depends on it                                                 *)
(*   emit    in the reverse order, what has a component is added           *)
(*                                                                         *)
(* The real models are compared with OmGraph by OmTrace, not with this     *)
(* machine: any other algorithm that meets the requirements is as good.    *)
(***************************************************************************)
EXTENDS OmSmall

VARIABLES stage,   \* "program", "reduce", "sort", "emit"
          deps,    \* vertex -> set of vertices it depends on
          left,    \* vertices not yet reduced
          stack,   \* of the search
          visits,  \* vertex -> number of visits
          sorted   \* vertices passed; consumed from its end when emitting
pvars == <<stage, deps, left, stack, visits, sorted>>

Root == <<"root", 0>>
V(n) == <<"n", n>>
Sub(k) == <<"s", k>>
Dec(n) == <<"d", n>>      \* the component that extracts elements of node n
Mine == {n \in Nodes(P) : nd[n].g = 1}
IndepVertices == {V(n) : n \in {m \in Mine : nd[m].k = "indep"}}

\* dependencies as the statements create them
LinkNode(n) == CASE nd[n].k = "get" -> {Dec(nd[n].a[1])}
                 [] IsInput(P, n) -> IF nd[n].af = 0 THEN {} ELSE {Sub(Child(P, 1, nd[n].af))}
                 [] OTHER -> {V(m) : m \in Range(nd[n].a)}
\* (an independent variable created later is added to the last subsystem)
LinkSub(k) == {V(n) : n \in gr[k].before} \cup {Sub(c) : c \in {h \in Children(P, 1) : gr[h].no < gr[k].no}}
              \cup {V(n) : n \in {m \in Mine : nd[m].k = "indep" /\ nd[m].af = gr[k].no}}
LinkRoot == {V(n) : n \in Roots(P, 1)} \cup {Sub(k) : k \in Children(P, 1)}
Link(v) == CASE v[1] = "root" -> LinkRoot [] v[1] = "n" -> LinkNode(v[2]) [] v[1] = "s" -> LinkSub(v[2]) [] v[1] = "d" -> {V(v[2])}

RECURSIVE Reach(_, _)
Reach(todo, seen) == IF todo = {} THEN seen
                     ELSE LET v == CHOOSE v \in todo : TRUE
                          IN Reach((todo \ {v}) \cup (Link(v) \ (seen \cup todo)), seen \cup {v})
\* what is reachable from the root takes part
Graph == Reach({Root}, {})
\* independent variables before everything else
Linked(v) == Link(v) \cup (IF v \in IndepVertices \cup {Root} THEN {} ELSE IndepVertices)

Finished == /\ stage = "program" /\ st = "building" /\ Worth
            /\ stage' = "reduce"
            /\ LET G == TLCEval(Graph) IN
               /\ deps' = TLCEval([v \in G |-> Linked(v)])
               /\ left' = G \ {Root}
               /\ visits' = [v \in G |-> 0]
            /\ stack' = <<>> /\ sorted' = <<>>
            /\ UNCHANGED vars

\* direct dependencies that are dependencies of a dependency as well
Indirect(v) == {w \in deps[v] : \E c \in deps[v] : w \in deps[c]}
Reduce == /\ stage = "reduce" /\ left # {}
          /\ \E v \in left :
               /\ left' = left \ {v}
               /\ IF deps[v] # {} /\ Indirect(v) = deps[v]
                  THEN \E keep \in deps[v] : deps' = [deps EXCEPT ![v] = {keep}]
                  ELSE deps' = [deps EXCEPT ![v] = @ \ Indirect(v)]
          /\ UNCHANGED <<stage, stack, visits, sorted>> /\ UNCHANGED vars
EndReduce == /\ stage = "reduce" /\ left = {}
           /\ stage' = "sort" /\ stack' = <<Root>>
           /\ UNCHANGED <<deps, left, visits, sorted>> /\ UNCHANGED vars

Dependents(v) == Cardinality({u \in DOMAIN deps : v \in deps[u]})
Visit == /\ stage = "sort" /\ stack # <<>>
         /\ LET v == stack[Len(stack)]
                below == SubSeq(stack, 1, Len(stack) - 1)
                times == visits[v] + 1
            IN IF visits[v] > Dependents(v)
               THEN stack' = below /\ UNCHANGED <<visits, sorted>>
               ELSE /\ visits' = [visits EXCEPT ![v] = times]
                    \* branches in any order
                    /\ IF times >= Dependents(v)
                       THEN \E o \in SetToSeqs(deps[v]) : stack' = below \o o
                       ELSE stack' = below
                    /\ sorted' = IF times = Dependents(v) THEN Append(sorted, v) ELSE sorted
         /\ UNCHANGED <<stage, deps, left>> /\ UNCHANGED vars
Sorted == /\ stage = "sort" /\ stack = <<>>
          /\ stage' = "emit"
          /\ UNCHANGED <<deps, left, stack, visits, sorted>> /\ UNCHANGED vars

\* the units that a vertex adds to the model
UnitsOf(v) == CASE v[1] = "s" -> {<<"s", v[2]>>}
                [] v[1] = "d" -> {<<"c", n>> : n \in {m \in Mine : nd[m].k = "get" /\ nd[m].a[1] = v[2] /\ V(m) \in DOMAIN deps}}
                [] v[1] = "n" -> IF nd[v[2]].k = "get" THEN {} ELSE Unit(P, v[2])
                [] OTHER -> {}
EmitNext == /\ stage = "emit" /\ sorted # <<>>
            /\ done' = [done EXCEPT ![1] = @ \cup UnitsOf(sorted[Len(sorted)])]
            /\ sorted' = SubSeq(sorted, 1, Len(sorted) - 1)
            /\ UNCHANGED <<stage, deps, left, stack, visits>>
            /\ UNCHANGED <<nd, gr, pr, reg, cur, st, fuel>>

PipeInit == /\ Init /\ stage = "program" /\ deps = <<>> /\ left = {} /\ stack = <<>> /\ visits = <<>> /\ sorted = <<>>
PipeNext == (stage = "program" /\ SmallStep /\ UNCHANGED pvars) \/ Finished \/ Reduce \/ EndReduce \/ Visit \/ Sorted \/ EmitNext
PipeSpec == PipeInit /\ [][PipeNext]_<<vars, pvars>>

-----------------------------------------------------------------------------
\* every step of the emission is one that OmGraph admits
Admitted == stage = "emit" /\ sorted # <<>> => \A u \in UnitsOf(sorted[Len(sorted)]) : CanEmit(P, 1, done[1], u)
\* in the end everything that is needed has been emitted
AllEmitted == stage = "emit" /\ sorted = <<>> => done[1] = Needed(P, 1)
\* nodes are passed once, after all that depend on them
PassedOnce == \A i, j \in 1..Len(sorted) : sorted[i] = sorted[j] => i = j
AfterDependents == stage = "sort" =>
    \A i \in 1..Len(sorted) : \A u \in DOMAIN deps \ {Root} : sorted[i] \in deps[u] => \E j \in 1..(i - 1) : sorted[j] = u
\* removing indirect dependencies keeps the order that they imply
RECURSIVE Below(_, _)
Below(todo, seen) == IF todo = {} THEN seen
                     ELSE LET v == CHOOSE v \in todo : TRUE
                          IN Below((todo \ {v}) \cup (deps[v] \ (seen \cup todo)), seen \cup {v})
OrderKept == stage = "reduce" => \A v \in DOMAIN deps : Linked(v) \subseteq Below(deps[v], {})
=============================================================================
