------------------------------- MODULE OmTrace ------------------------------
(***************************************************************************)
(* Validation of models that the implementation built.                     *)
(*                                                                         *)
(* The file trace.json holds a sequence of records                         *)
(*    nd, gr, reg   the program (see OmGraph)                              *)
(*    obs           for each group, the sequence of the subsystems of its  *)
(*                  model in execution order, each a record                *)
(*         t   "c" (component), "s" (child group) or "h" (helper: computes *)
(*             no node, but others read it)                                *)
(*         n   for "c": the nodes whose values it outputs (0: unknown)     *)
(*             for "s": the child group, as a sequence of length one       *)
(*             for "h": the number of the helper (negative)                *)
(*         rd  the nodes whose values are connected to its inputs, directly*)
(*             or through helpers, and those helpers (0: unknown)          *)
(* Each step consumes one subsystem of one group by the emission action of *)
(* OmGraph.  A subsystem that the action does not allow is reported with   *)
(* the clauses that fail, and validation goes on.                          *)
(***************************************************************************)
EXTENDS OmGraph, Json

CONSTANT File
Traces == JsonDeserialize(File)

VARIABLES t,       \* trace
          g,       \* group
          l,       \* subsystems of the group consumed so far
          done,    \* units emitted so far
          bad      \* clauses that failed in this group
vars == <<t, g, l, done, bad>>

SetOf(s) == Range(s)
Raw(i) == Traces[i]
P == [nd |-> Raw(t).nd, gr |-> [k \in 1..Len(Raw(t).gr) |-> [up |-> Raw(t).gr[k].up, no |-> Raw(t).gr[k].no,
                                                         before |-> SetOf(Raw(t).gr[k].before)]],
      reg |-> SetOf(Raw(t).reg)]
Obs == Raw(t).obs[g]

\* child of group h that contains group k, as a set of units
RECURSIVE Within(_, _, _)
Within(p, h, k) == IF k = 0 THEN {} ELSE IF p.gr[k].up = h THEN {<<"s", k>>} ELSE Within(p, h, p.gr[k].up)
\* the unit of group h that computes node m, if it is inside
UnitIn(p, h, m) == IF p.nd[m].g = h THEN Unit(p, m) ELSE Within(p, h, p.nd[m].g)

\* the node whose value an argument stands for
Resolve(p, m) == IF p.nd[m].k = "alias" THEN p.nd[m].a[1] ELSE m

\* nodes of a component that are needed; extracted elements that are not needed
\* may be computed along with others of the same expression
UsefulNodes(p, h, ns) == {n \in ns : <<"c", n>> \in Needed(p, h)}
RidesAlong(p, h, ns, n) == /\ p.nd[n].k = "get"
                           /\ \E m \in UsefulNodes(p, h, ns) : p.nd[m].k = "get" /\ p.nd[m].a = p.nd[n].a

\* the nodes of the components that read helper k
UsedBy(k) == UNION {SetOf(Obs[i].n) : i \in {j \in 1..Len(Obs) : Obs[j].t = "c" /\ k \in SetOf(Obs[j].rd)}}

Failed(p, h, o, dn) ==
    LET ns == SetOf(o.n)
        us == IF o.t = "c" THEN {<<"c", n>> : n \in UsefulNodes(p, h, ns \ {0})} ELSE {<<o.t, o.n[1]>>}
        rd == {m \in SetOf(o.rd) : m > 0}
    IN (IF o.t = "c" /\ 0 \in ns THEN {"known"} ELSE {})
       \cup (IF o.t = "c" /\ \E n \in ns \ {0} : p.nd[n].g # h THEN {"group"} ELSE {})
       \cup (IF o.t = "c" /\ \E n \in ns \ {0} : <<"c", n>> \notin Needed(p, h) /\ ~RidesAlong(p, h, ns \ {0}, n) THEN {"needed"} ELSE {})
       \cup (IF o.t = "s" /\ ~EmitNeeded(p, h, dn, <<"s", o.n[1]>>) THEN {"needed"} ELSE {})
       \cup (IF \E m \in SetOf(o.rd) : m < 0 /\ <<"h", m>> \notin dn THEN {"feedback"} ELSE {})
       \cup (IF \E u \in us : ~EmitOnce(p, h, dn, u) THEN {"once"} ELSE {})
       \cup (IF \E u \in us : ~EmitReads(p, h, dn, u) THEN {"reads"} ELSE {})
       \cup (IF \E u \in us : ~EmitBarrier(p, h, dn, u) THEN {"barrier"} ELSE {})
       \cup (IF \E u \in us : ~EmitIndeps(p, h, dn, u) THEN {"indeps"} ELSE {})
       \* the connections that were really made
       \cup (IF 0 \in SetOf(o.rd) THEN {"source"} ELSE {})
       \cup (IF \E m \in rd : /\ ~IsInput(p, m)
                              /\ ~(UnitIn(p, h, m) \subseteq dn \cup us)
                              /\ ~(o.t = "c" /\ \A n \in ns \ {0} : ClosesCycle(p, n, m))
                              /\ ~(o.t = "h" /\ \A n \in UsedBy(o.n[1]) : ClosesCycle(p, n, m))
             THEN {"feedback"} ELSE {})
       \cup (IF o.t = "c" /\ 0 \notin ns /\ rd # {Resolve(p, m) : m \in UNION {SetOf(p.nd[n].a) : n \in ns}}
             THEN {"wiring"} ELSE {})

Emitted(o) == IF o.t = "c" THEN {<<"c", n>> : n \in SetOf(o.n) \ {0}} ELSE {<<o.t, o.n[1]>>}

Init == /\ t \in 1..Len(Traces) /\ g = 1 /\ l = 0 /\ done = {} /\ bad = {}

Consume ==
    /\ g <= Len(Raw(t).gr) /\ l < Len(Obs)
    /\ \E o \in {Obs[l + 1]} : \E p \in {TLCEval(P)} :
         /\ bad' = bad \cup {<<c, l + 1>> : c \in Failed(p, g, o, done)}
         /\ done' = done \cup Emitted(o)
    /\ l' = l + 1
    /\ UNCHANGED <<t, g>>

Finish ==
    /\ g <= Len(Raw(t).gr) /\ l = Len(Obs)
    /\ \E all \in {bad \cup {<<"complete", u>> : u \in Needed(P, g) \ done}} :
         IF all = {} THEN TRUE ELSE PrintT("J" \o ToJson([t |-> t, g |-> g, bad |-> all]))
    /\ g' = g + 1 /\ l' = 0 /\ done' = {} /\ bad' = {}
    /\ UNCHANGED t

\* all groups of the trace were consumed
Accept == /\ g = Len(Raw(t).gr) + 1
          /\ g' = g + 1
          /\ PrintT("J" \o ToJson([t |-> t, g |-> 0, bad |-> {}]))
          /\ UNCHANGED <<t, l, done, bad>>

Next == Consume \/ Finish \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
