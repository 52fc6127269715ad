------------------------------ MODULE OmSmall ------------------------------
(***************************************************************************)
(* Every program of a small scope, exhaustively.                           *)
(*                                                                         *)
(* The statements are those of OmProg, reduced to what decides the shape   *)
(* of the graph and the order of the model: one- and two-operand           *)
(* expressions, extraction of elements, an output whose elements are       *)
(* assigned, a defined output, an independent variable, an inner group     *)
(* that reads one visible value and computes one output, a declared input  *)
(* that refers to such an output, and registration at any moment.          *)
(*                                                                         *)
(* All sequences of at most MaxUnits creating statements and MaxRegs       *)
(* registrations are states of this machine; every state in which at least *)
(* one output exists is printed for replay.  The emission requirements of  *)
(* OmGraph are checked in each: units can be emitted, one after the other, *)
(* whatever has been emitted before.                                       *)
(***************************************************************************)
EXTENDS OmProg

CONSTANTS MaxUnits, MaxRegs

S1 == <<1>>
S2 == <<2>>
Cost == Len(SelectSeq(pr, LAMBDA s : s.s \in {"node", "create"} /\ nd[s.n].g = 1)) + Cardinality({k \in 1..Len(gr) : k > 1}) - 1
Regs == Cardinality({n \in reg : nd[n].g = 1})
Out1 == 1..Len(nd)

OneIn == /\ nd = <<>>
         /\ Add(Node("in", "in", <<>>, NoP, S1, "pos"))
         /\ UNCHANGED <<gr, reg, cur>>

SmallOps == \E n \in Scope :
    \/ Sh(n) = S1 /\ Add(Node("op", "sin", <<n>>, NoP, S1, "any"))
    \/ \E m \in Scope : n <= m /\ Sh(n) = Sh(m) /\ Add(Node("op", "mul", <<n, m>>, NoP, Sh(n), "any"))
    \/ Sh(n) = S2 /\ \E i \in 0..1 : /\ ~\E m \in Scope : nd[m].k = "get" /\ nd[m].a = <<n>> /\ nd[m].p.key.i = i
                                     /\ Add(Node("get", "get", <<n>>, [key |-> [k |-> "i", i |-> i]], S1, "any"))

SmallOut == \E n, m \in Scope : n < m /\ Sh(n) = S1 /\ Sh(m) = S1
    /\ \E o \in {<<n, m>>, <<m, n>>} :
       /\ nd' = Append(nd, Node("out", "assemble", o, [shape |-> S2, keys |-> <<[k |-> "i", i |-> 0], [k |-> "i", i |-> 1]>>], S2, "any"))
       /\ pr' = pr \o <<[s |-> "create", n |-> Len(nd) + 1], [s |-> "set", n |-> Len(nd) + 1, i |-> 1], [s |-> "set", n |-> Len(nd) + 1, i |-> 2]>>

SmallDefine == \E e \in Scope :
    /\ nd' = Append(nd, [Node("out", "wire", <<e>>, NoP, Sh(e), "any") EXCEPT !.def = e])
    /\ pr' = pr \o <<[s |-> "create", n |-> Len(nd) + 1], [s |-> "define", n |-> Len(nd) + 1]>>

SmallIndep == /\ ~\E n \in Scope : nd[n].k = "indep"
              /\ Add([Node("indep", "indep", <<>>, [dv |-> FALSE], S1, "pos") EXCEPT !.af = 0])

\* an inner group with one output (in one go), not the last thing of the program
SmallSub == /\ Len(gr) <= MaxGroups
            /\ \E n \in {m \in Scope : m \in reg \/ nd[m].k \in {"out", "indep", "in"}}, st2 \in {"object", "with"} :
                 LET f == Len(nd) + 1
                     k == Len(gr) + 1
                 IN /\ nd' = nd \o <<[Node("alias", "wire", <<n>>, NoP, Sh(n), "any") EXCEPT !.g = k, !.af = 0],
                                     [Node("op", "mulc", <<f>>, LitRec(<<"int", <<3, 1>>>>), Sh(n), "any") EXCEPT !.g = k, !.af = 0]>>
                    /\ gr' = Append(gr, [up |-> 1, no |-> Len(gr), style |-> st2, before |-> Roots(P, 1)])
                    /\ reg' = reg \cup {f + 1}
                    /\ pr' = pr \o <<[s |-> "open", g |-> k], [s |-> "node", n |-> f], [s |-> "node", n |-> f + 1], [s |-> "reg", n |-> f + 1], [s |-> "close"]>>

SmallAlias == \E n \in {m \in Out1 : nd[m].g # 1 /\ m \in reg /\ ~\E a \in Scope : nd[a].k = "alias" /\ nd[a].a = <<m>>} :
                 Add(Node("alias", "wire", <<n>>, NoP, nd[n].sh, "any"))

SmallReg == /\ Regs < MaxRegs
            /\ \E n \in {m \in Scope : nd[m].k \in {"op", "get"} /\ m \notin reg} :
                 /\ reg' = reg \cup {n}
                 /\ pr' = Append(pr, [s |-> "reg", n |-> n])

SmallStep == /\ st = "building"
             /\ \/ OneIn
                \/ nd # <<>> /\ Cost < MaxUnits /\ SmallOps /\ UNCHANGED <<gr, reg, cur>>
                \/ "set" \in Feats /\ Cost < MaxUnits /\ SmallOut /\ UNCHANGED <<gr, reg, cur>>
                \/ "define" \in Feats /\ Cost < MaxUnits /\ nd # <<>> /\ SmallDefine /\ UNCHANGED <<gr, reg, cur>>
                \/ "indep" \in Feats /\ Cost < MaxUnits /\ nd # <<>> /\ SmallIndep /\ UNCHANGED <<gr, reg, cur>>
                \/ "group" \in Feats /\ Cost < MaxUnits /\ nd # <<>> /\ SmallSub /\ UNCHANGED cur
                \/ Cost < MaxUnits /\ SmallAlias /\ UNCHANGED <<gr, reg, cur>>
                \/ SmallReg /\ UNCHANGED <<nd, gr, cur>>
             /\ UNCHANGED <<st, fuel, done>>

\* programs that end in something that matters: no trailing unused expression
Worth == /\ \E n \in Scope : n \in reg \/ nd[n].k = "out"
         /\ \A n \in Scope : nd[n].k = "alias" => \E m \in Scope : n \in Range(nd[m].a)
Report == /\ st = "building" /\ Worth
         /\ st' = "complete"
         /\ PrintT("J" \o ToJson([nd |-> nd, gr |-> gr, pr |-> pr, reg |-> reg,
                         den |-> TLCEval([n \in 1..Len(nd) |-> Denotation(n)])]))
         /\ UNCHANGED <<nd, gr, pr, reg, cur, fuel, done>>

\* emission, exhaustively, of the model itself (inner groups here have one unit)
SmallEmit == /\ st = "complete"
             /\ \E u \in Enabled(P, 1, done[1]) : done' = [done EXCEPT ![1] = @ \cup {u}]
             /\ UNCHANGED <<nd, gr, pr, reg, cur, st, fuel>>
SmallNext == SmallStep \/ Report \/ SmallEmit
SmallSpec == Init /\ [][SmallNext]_vars
SmallStuck == st = "complete" => Needed(P, 1) = done[1] \/ Enabled(P, 1, done[1]) # {}
=============================================================================
