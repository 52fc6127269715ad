------------------------------- MODULE OmEqn --------------------------------
(***************************************************************************)
(* Programs with equations: unknowns y (explicit outputs defined by an     *)
(* expression that uses them, or implicit outputs with a residual) and the *)
(* expressions f(y, x) that define them.                                   *)
(*                                                                         *)
(* An unknown is a node that exists before its definition.  The machine    *)
(* writes expressions with OmProg's operations and keeps, for each node, a *)
(* bound of its magnitude and of how fast it changes with each unknown     *)
(* (in the maximum norm, in units of 1/256).  An unknown may be defined    *)
(* only by an expression that is a contraction with factor MaxLip/256, so  *)
(* the equations of every generated program have exactly one solution, and *)
(* the iterations of block Gauss-Seidel and (for factors of at most a      *)
(* quarter) Newton converge to it from anywhere.                           *)
(*                                                                         *)
(* Kind = "cycle":   y = create_output; ...; y.define(f).  Cycles are not  *)
(*                   coupled mutually, but one may use the result of       *)
(*                   another.                                              *)
(* Kind = "residual": y = create_implicit_output; ...;                     *)
(*                   y.define_residual(r), where r is zero exactly if      *)
(*                   y = f: y - f, f - y, or a multiple.  Unknowns may be  *)
(*                   coupled in any way.                                   *)
(***************************************************************************)
EXTENDS OmProg

CONSTANTS Kind, MaxUnk, MaxLip,
          Mix    \* TRUE: prefer definitions in which the elements of an unknown depend on each other

VARIABLES lip,    \* for each node: b bound, L rate by unknown (absent: does not depend on it)
          unk     \* unknowns: n the node, f its expression (0: open), e what is given to define
evars == <<nd, gr, pr, reg, cur, st, fuel, done, lip, unk>>

Inf == 1000000
Absl(i) == IF i < 0 THEN -i ELSE i
Sat(x) == IF x > Inf THEN Inf ELSE x
Mulf(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a >= Inf \/ b >= Inf THEN Inf
              ELSE IF a > 40000 \/ b > 40000 THEN Inf ELSE Sat(((a * b) + 255) \div 256)
Times(k, a) == IF a >= Inf THEN Inf ELSE Sat(k * a)
Plus(a, b) == Sat(a + b)

\* largest magnitude of the literals of an operation, and of their reciprocals, in 1/256
LitMax(p) == Max({((Absl(p.c[i][1]) * 256) + p.c[i][2] - 1) \div p.c[i][2] : i \in 1..Len(p.c)})
LitInv(p) == Max({((p.c[i][2] * 256) + Absl(p.c[i][1]) - 1) \div Absl(p.c[i][1]) : i \in {j \in 1..Len(p.c) : p.c[j][1] # 0}})

Deps(c) == UNION {DOMAIN lip[c.a[i]].L : i \in 1..Len(c.a)}
Rate(n, u) == IF u \in DOMAIN lip[n].L THEN lip[n].L[u] ELSE 0
Bnd(n) == lip[n].b

\* rate of the result given the rates of the operands
RateOf(c, u) ==
    LET n == c.a[1]
        L == Rate(n, u)
        M == IF Len(c.a) > 1 THEN Rate(c.a[2], u) ELSE 0
        B == Bnd(n)
        C2 == IF Len(c.a) > 1 THEN Bnd(c.a[2]) ELSE 0
        prod == Plus(Mulf(B, M), Mulf(C2, L))
    IN CASE c.op \in {"neg", "get", "reshape", "transpose", "reorder", "expand", "wire", "sin", "cos", "tanh", "arctan", "sech", "rotmat",
                      "addc", "raddc", "subc", "rsubc"} -> L
         [] c.op \in {"exp"} -> IF B <= 256 THEN Times(3, L) ELSE Inf
         [] c.op \in {"sinh", "cosh"} -> IF B <= 256 THEN Times(2, L) ELSE Inf
         [] c.op \in {"add", "sub", "average", "max", "min"} -> Plus(L, M)
         [] c.op = "sum" -> Times(Size(Sh(n)), Plus(L, M))
         [] c.op \in {"mulc", "rmulc"} -> Mulf(LitMax(c.p), L)
         [] c.op = "divc" -> Mulf(LitInv(c.p), L)
         [] c.op \in {"mul", "outer"} -> prod
         [] c.op \in {"dot", "inner", "matvec", "matmat", "einsum"} -> Times(Size(Sh(n)), prod)
         [] c.op = "cross" -> Times(2, prod)
         [] c.op = "powc" /\ c.p.c[1] = <<1, 1>> -> L
         [] c.op = "powc" /\ c.p.c[1] = <<2, 1>> -> Times(2, Mulf(B, L))
         [] c.op = "powc" /\ c.p.c[1] = <<3, 1>> -> Times(3, Mulf(B, Mulf(B, L)))
         [] c.op = "if_else" -> IF L > 0 THEN Inf ELSE Plus(M, Rate(c.a[3], u))
         [] OTHER -> Inf

BoundOf(c) ==
    LET B == Bnd(c.a[1])
        C2 == IF Len(c.a) > 1 THEN Bnd(c.a[2]) ELSE 0
    IN CASE c.op \in {"neg", "get", "reshape", "transpose", "reorder", "expand", "wire"} -> B
         [] c.op \in {"sin", "cos", "tanh", "sech", "rotmat"} -> 256
         [] c.op = "arctan" -> 403
         [] c.op = "exp" -> IF B <= 256 THEN 700 ELSE Inf
         [] c.op \in {"sinh", "cosh"} -> IF B <= 256 THEN 400 ELSE Inf
         [] c.op \in {"add", "sub", "average"} -> Plus(B, C2)
         [] c.op \in {"max", "min"} -> Plus(Plus(B, C2), 512)
         [] c.op \in {"addc", "raddc", "subc", "rsubc"} -> Plus(B, LitMax(c.p))
         [] c.op = "sum" -> Times(Size(Sh(c.a[1])), Plus(B, C2))
         [] c.op \in {"mulc", "rmulc"} -> Mulf(LitMax(c.p), B)
         [] c.op = "divc" -> Mulf(LitInv(c.p), B)
         [] c.op \in {"mul", "outer"} -> Mulf(B, C2)
         [] c.op \in {"dot", "inner", "matvec", "matmat", "einsum"} -> Times(Size(Sh(c.a[1])), Mulf(B, C2))
         [] c.op = "cross" -> Times(2, Mulf(B, C2))
         [] c.op = "powc" /\ c.p.c[1] = <<1, 1>> -> B
         [] c.op = "powc" /\ c.p.c[1] = <<2, 1>> -> Mulf(B, B)
         [] c.op = "powc" /\ c.p.c[1] = <<3, 1>> -> Mulf(B, Mulf(B, B))
         [] c.op = "if_else" -> Plus(C2, Bnd(c.a[3]))
         [] OTHER -> Inf

LipOf(c) == [b |-> BoundOf(c), L |-> [u \in Deps(c) |-> RateOf(c, u)]]
Polynomial == {"mul", "powc", "dot", "inner", "outer", "matvec", "matmat", "cross", "einsum", "sum"}
\* what depends on unknowns stays defined while they are being found
Tame(c) == \/ Deps(c) = {}
           \/ \A u \in Deps(c) : RateOf(c, u) < Inf
           \/ c.op \in Polynomial /\ (c.op = "powc" => c.p.c[1] \in {<<1, 1>>, <<2, 1>>, <<3, 1>>})

Push(node, l) == /\ Add(node) /\ lip' = Append(lip, l)
PushC(c) == Push(Node(IF c.op = "get" THEN "get" ELSE "op", c.op, c.a, c.p, OutShape(c), c.cls), LipOf(c))
Leaf == [b |-> 410, L |-> <<>>]

-----------------------------------------------------------------------------
EInput == \E i \in Pick1(1..Len(InShapes)), c \in Pick1(1..3), k \in Pick1(IF Kind = "cycle" THEN {"in", "indep"} ELSE {"in", "in", "inner"}) :
    /\ Push([Node(k, k, <<>>, [dv |-> FALSE], InShapes[i], ClsSeq[c]) EXCEPT !.af = 0], Leaf)
    /\ UNCHANGED <<gr, reg, cur, unk>>

EUnknown == \E s \in Pick1(IF Mix THEN {<<3>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<4>>} ELSE IF Scope # {} /\ Chance(2, 3) THEN {sh \in {Sh(n) : n \in Scope} : Size(sh) <= 6} \cup {<<1>>} ELSE {InShapes[i] : i \in 1..Len(InShapes)}) :
    /\ nd' = Append(nd, Node("out", "wire", <<>>, NoP, s, "any"))
    /\ pr' = Append(pr, [s |-> "create", n |-> Len(nd) + 1])
    /\ lip' = Append(lip, [b |-> Inf, L |-> (Len(nd) + 1 :> 256)])
    /\ unk' = Append(unk, [n |-> Len(nd) + 1, f |-> 0, e |-> 0])
    /\ UNCHANGED <<gr, reg, cur>>

EKinds == <<"un", "un", "un", "bin", "bin", "bin", "bin", "lit", "lit", "lit", "pow", "red", "ext", "mat", "shape", "cond", "get", "get", "dot", "ein">>
MixKinds == <<"un", "bin", "bin", "lit", "red", "shape", "shape", "dot", "mat", "ein", "get">>
\* the elements of the result depend on other elements of an unknown
MixOps == {"sum", "average", "max", "min", "transpose", "reorder", "reshape", "cross", "dot", "inner", "outer", "matvec", "matmat", "einsum", "expand"}
Mixed(n) == \E m \in DependsOn(P, {n}) : nd[m].op \in MixOps /\ DOMAIN lip[m].L # {}
Preferred(S) == IF Mix /\ (\E x \in S : Mixed(x[2])) THEN {x \in S : Mixed(x[2])} ELSE S
EOpKinds == IF Mix THEN MixKinds ELSE EKinds
ESome == IF Chance(2, 3) /\ {n \in Scope : DOMAIN lip[n].L # {}} # {} THEN RandomElement({n \in Scope : DOMAIN lip[n].L # {}}) ELSE SomeNode
EApply ==
    /\ Scope # {}
    /\ \E kind \in {EOpKinds[RandomElement(1..Len(EOpKinds))]}, n \in {ESome} :
         \E S \in {TLCEval({c \in Cands(kind, n) : Good(c) /\ Tame(c)})} :
           IF S = {} THEN UNCHANGED <<nd, gr, pr, reg, cur, lip, unk>>
           ELSE \E c \in Pick1(S) :
                  \E s \in {TLCEval(OutShape(c))} :
                    IF Size(s) > 9 \/ Len(s) > 3 THEN UNCHANGED <<nd, gr, pr, reg, cur, lip, unk>>
                    ELSE PushC(c) /\ UNCHANGED <<gr, reg, cur, unk>>

ERegister ==
    \E S \in {{n \in Scope : nd[n].k \in {"op", "get"} /\ n \notin reg}} :
      IF S = {} THEN UNCHANGED <<nd, gr, pr, reg, cur, lip, unk>>
      ELSE \E n \in Pick1(S) :
        /\ reg' = reg \cup {n}
        /\ pr' = Append(pr, [s |-> "reg", n |-> n])
        /\ UNCHANGED <<nd, gr, cur, lip, unk>>

\* node n may define unknown u, after multiplication by a power of two
Total(n) == IF Kind = "cycle" THEN 0 ELSE LET S == DOMAIN lip[n].L IN
            LET RECURSIVE Go(_)
                Go(T) == IF T = {} THEN 0 ELSE LET u == CHOOSE u \in T : TRUE IN Plus(lip[n].L[u], Go(T \ {u}))
            IN Go(S)
Weight(i, n) == IF Kind = "cycle" THEN Rate(n, unk[i].n) ELSE Total(n)
\* unknowns that node n depends on, through definitions already given
Reach(n) == {m \in DependsOn(P, {n}) : nd[m].k = "out"}
MayDefine(i, n) ==
    /\ Sh(n) = Sh(unk[i].n) /\ n # unk[i].n
    /\ Weight(i, n) <= 128 * MaxLip
    /\ Kind = "cycle" => /\ Rate(n, unk[i].n) > 0
                         /\ \A v \in Reach(n) \ {unk[i].n} : unk[i].n \notin Reach(v)
Scale(w) == IF w <= MaxLip THEN 1 ELSE CHOOSE k \in {2, 4, 8, 16, 32, 64, 128} :
                /\ w <= k * MaxLip /\ w > (k \div 2) * MaxLip
Open_ == {i \in 1..Len(unk) : unk[i].f = 0}

\* define unknown i by node n times 1/k; as a residual, in one of several forms
DefineBy(i, n) ==
    LET k == Scale(Weight(i, n))
        y == unk[i].n
        N0 == Len(nd)
        sc == C("mulc", <<n>>, [lk |-> "float", c |-> <<<<1, k>>>>], "any")
        scaled == IF k = 1 THEN <<>> ELSE <<Node("op", "mulc", <<n>>, sc.p, Sh(n), "any")>>
        partners == {m \in Scope : /\ Sh(m) = Sh(n)
                                   /\ IF Kind = "cycle"
                                      THEN y \notin Reach(m) /\ \A v \in Reach(m) : y \notin Reach(v)
                                      ELSE DOMAIN lip[m].L = {}}
        m0 == IF partners = {} \/ Chance(1, 4) THEN 0 ELSE RandomElement(partners)
    IN \E m \in {m0} :
    LET g0 == IF k = 1 THEN n ELSE N0 + 1
        nodes1 == scaled \o IF m = 0 THEN <<>> ELSE <<Node("op", "add", <<m, g0>>, NoP, Sh(n), "any")>>
        f0 == IF m = 0 THEN g0 ELSE N0 + Len(nodes1)
        \* rates of f0; those of the averages are not larger
        lf == IF m = 0 THEN IF k = 1 THEN lip[n] ELSE LipOf(sc)
              ELSE [b |-> Plus(Bnd(m), BoundOf(sc)),
                    L |-> [u \in DOMAIN lip[n].L \cup DOMAIN lip[m].L |->
                             Plus(Rate(m, u), IF u \in DOMAIN lip[n].L THEN (IF k = 1 THEN Rate(n, u) ELSE RateOf(sc, u)) ELSE 0)]]
        M0 == N0 + Len(nodes1)
    IN \E mean \in {Mix /\ Size(Sh(n)) > 1 /\ Chance(2, 3)} :
    LET \* the average of f0 and of the mean of all of its elements
        mixed == IF ~mean THEN <<>>
                 ELSE <<Node("op", "average", <<f0>>, [axes |-> <<>>], <<1>>, "any"),
                        Node("op", "expand", <<M0 + 1>>, [shape |-> Sh(n), pos |-> <<>>], Sh(n), "any"),
                        Node("op", "average", <<f0, M0 + 2>>, [axes |-> <<>>], Sh(n), "any")>>
        f == IF mean THEN M0 + 3 ELSE f0
        N1 == M0 + Len(mixed)
        weights == {q \in Scope : Sh(q) = Sh(n) /\ Pos(q) /\ DOMAIN lip[q].L = {}}
    IN \E form \in Pick1(IF Kind = "cycle" THEN {"f"} ELSE {"y-f", "f-y", "3(y-f)", "w(y-f)", "y+(-f)"}),
          w \in IF weights = {} THEN {0} ELSE Pick1(weights) :
         LET d == CASE form = "f" -> <<>>
                    [] form = "f-y" -> <<Node("op", "sub", <<f, y>>, NoP, Sh(n), "any")>>
                    [] form = "y+(-f)" -> <<Node("op", "neg", <<f>>, NoP, Sh(n), "any"), Node("op", "add", <<y, N1 + 1>>, NoP, Sh(n), "any")>>
                    [] OTHER -> <<Node("op", "sub", <<y, f>>, NoP, Sh(n), "any")>>
                                \o (IF form = "y-f" \/ (form = "w(y-f)" /\ w = 0) THEN <<>>
                                    ELSE IF form = "3(y-f)" THEN <<Node("op", "rmulc", <<N1 + 1>>, LitRec(<<"int", <<3, 1>>>>), Sh(n), "any")>>
                                    ELSE <<Node("op", "mul", <<w, N1 + 1>>, NoP, Sh(n), "any")>>)
             e == IF form = "f" THEN f ELSE N1 + Len(d)
             all == nd \o nodes1 \o mixed \o d
         IN /\ nd' = IF Kind = "cycle" THEN [all EXCEPT ![y].a = <<f>>, ![y].def = f] ELSE all
            /\ pr' = pr \o [j \in 1..(N1 + Len(d) - N0) |-> [s |-> "node", n |-> N0 + j]]
                        \o <<[s |-> IF Kind = "cycle" THEN "define" ELSE "residual", n |-> y, e |-> e]>>
            \* intermediate results of a definition are not used elsewhere in unbounded ways
            /\ lip' = lip \o [j \in 1..(N1 + Len(d) - N0) |->
                         IF j <= Len(scaled) THEN LipOf(sc)
                         ELSE IF N0 + j <= N1 THEN lf
                         ELSE [b |-> Inf, L |-> [u \in DOMAIN lip[n].L \cup {y} |-> Inf]]]
            /\ unk' = [unk EXCEPT ![i].f = f, ![i].e = e]
            /\ UNCHANGED <<gr, reg, cur>>

EDefine ==
    \E S \in {TLCEval(Preferred(UNION {{<<i, n>> : n \in {m \in Scope : MayDefine(i, m) /\ Weight(i, m) > 0}} : i \in Open_}))} :
      IF S = {} THEN UNCHANGED <<nd, gr, pr, reg, cur, lip, unk>>
      ELSE \E x \in Pick1(IF Chance(2, 3) THEN {z \in S : \A w \in S : w[2] <= z[2]} ELSE S) : DefineBy(x[1], x[2])

EStatement ==
    \E d \in Pick1(1..20) :
      CASE nd = <<>> -> EInput
        [] Len(unk) = 0 -> EUnknown
        [] d \in {1, 2} -> EInput
        [] d \in {3, 4, 5} -> IF Len(unk) < MaxUnk THEN EUnknown ELSE EApply
        [] d \in {6, 7} -> EDefine
        [] d = 8 /\ Kind = "cycle" -> ERegister
        [] OTHER -> EApply

EBuild == /\ st = "building"
          /\ fuel > 0 /\ Len(nd) < MaxNodes
          /\ fuel' = fuel - 1
          /\ EStatement
          /\ UNCHANGED <<st, done>>

\* finish: every unknown is defined, if need be by something simple
EWindUp ==
    /\ st = "building"
    /\ fuel = 0 \/ Len(nd) >= MaxNodes
    /\ IF Len(unk) = 0 THEN EUnknown /\ UNCHANGED st
       ELSE IF Open_ # {}
            THEN LET i == Min(Open_)
                     y == unk[i].n
                     S == {x[2] : x \in Preferred({<<i, m>> : m \in {m \in Scope : MayDefine(i, m) /\ Weight(i, m) > 0}})}
                 IN IF S # {} THEN (\E n \in Pick1(S) : DefineBy(i, n)) /\ UNCHANGED st
                    ELSE PushC(C("cos", <<y>>, NoP, "any")) /\ UNCHANGED <<gr, reg, cur, unk, st>>
       ELSE IF Kind = "cycle" /\ Cardinality(reg) < 3 /\ (\E n \in Scope : nd[n].k \in {"op", "get"} /\ n \notin reg) /\ Chance(2, 3)
            THEN ERegister /\ UNCHANGED st
       ELSE st' = "complete" /\ UNCHANGED <<nd, gr, pr, reg, cur, lip, unk>>
    /\ UNCHANGED <<fuel, done>>

-----------------------------------------------------------------------------
\* the nodes that read the previous value of an unknown when the model runs once:
\* those inside the expression that defines it
ReadsOld(n) == {y \in Range(nd[n].a) : ClosesCycle(P, n, y)}

EDenotation(n) == IF nd[n].k \in {"in", "indep", "inner"} \/ (nd[n].k = "out" /\ nd[n].a = <<>>)
                  THEN [shape |-> nd[n].sh, el |-> <<>>, jac |-> <<>>]
                  ELSE Full(nd[n].op, [i \in 1..Len(nd[n].a) |-> Sh(nd[n].a[i])], nd[n].p)

EFinish == /\ st = "complete"
           /\ st' = IF Kind = "cycle" THEN "emitting" ELSE "end"
           /\ PrintT("J" \o ToJson([nd |-> nd, gr |-> gr, pr |-> pr, reg |-> reg, unk |-> unk,
                                    old |-> TLCEval([n \in 1..Len(nd) |-> ReadsOld(n)]),
                                    den |-> TLCEval([n \in 1..Len(nd) |-> EDenotation(n)])]))
           /\ UNCHANGED <<nd, gr, pr, reg, cur, fuel, done, lip, unk>>

EInit == Init /\ lip = <<>> /\ unk = <<>>
ENext == EBuild \/ EWindUp \/ EFinish \/ (Emit /\ UNCHANGED <<lip, unk>>)
ESpec == EInit /\ [][ENext]_evars

-----------------------------------------------------------------------------
\* every definition is a contraction (rates are rounded up, one by one)
Contraction == \A i \in 1..Len(unk) : unk[i].f # 0 =>
    IF Kind = "cycle" THEN Rate(unk[i].f, unk[i].n) \in 1..MaxLip
    ELSE Total(unk[i].f) <= MaxLip + Len(unk)
\* without the reads that close cycles, nothing depends on itself
Unrolled == [P EXCEPT !.nd = [n \in 1..Len(nd) |-> [nd[n] EXCEPT !.a = SelectSeq(@, LAMBDA y : ~ClosesCycle(P, n, y))]]]
AcyclicUnrolled == st = "complete" /\ Kind = "cycle" =>
    \A n \in 1..Len(nd) : \A m \in Range(Unrolled.nd[n].a) : n \notin DependsOn(Unrolled, {m})
\* only the defining expression reads the previous value
OldInside == st = "complete" => \A n \in 1..Len(nd) : \A y \in ReadsOld(n) : \E m \in Together(P, n) : m \in DependsOn(P, {nd[y].def})
AllDefined == st \in {"complete", "emitting", "end"} => Open_ = {}
=============================================================================
