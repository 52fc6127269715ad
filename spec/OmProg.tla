------------------------------- MODULE OmProg -------------------------------
(***************************************************************************)
(* The machine that writes omtools programs, one API call at a time, and   *)
(* then builds their models, one unit at a time.                           *)
(*                                                                         *)
(* Every behaviour is one program: a sequence of statements (declare an    *)
(* input, create an independent variable, apply an operation, take or      *)
(* assign elements, define an output, register an output under a name,     *)
(* open and close child groups), followed by an emission of the units of   *)
(* each group in an order that OmGraph allows.  When the program is        *)
(* complete it is printed together with the meaning of each of its nodes,  *)
(* for replay on the implementation.                                       *)
(*                                                                         *)
(* Explored with TLC -simulate: the alternatives of a statement are drawn  *)
(* at random, so that a step of the simulation is cheap.                   *)
(***************************************************************************)
EXTENDS OmOps, OmGraph, Json

CONSTANTS MaxNodes,   \* statements that create nodes
          MaxGroups,  \* child groups
          Ops,        \* "all" or "light"
          Feats       \* allowed features: subset of {"indep","group","set","define","get","again"}

VARIABLES nd, gr, pr, reg, cur, st, fuel, done
vars == <<nd, gr, pr, reg, cur, st, fuel, done>>

P == [nd |-> nd, gr |-> gr, reg |-> reg]

Pick1(S) == {RandomElement(S)}      \* \E x \in Pick1(S) draws one element
Chance(n, m) == RandomElement(1..m) <= n

-----------------------------------------------------------------------------
(* keys for elements of arrays, with the shape and the set they select     *)
KSlices(n) == {<<a, b, s>> \in (0..(n - 1)) \X (1..n) \X (1..2) : a < b /\ (s = 1 \/ a + s < b)}
KShapes == {<<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<6>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 1>>, <<1, 3>>, <<2, 1, 2>>}
KeysOf(sh) ==
    IF Len(sh) = 1
    THEN {[k |-> "i", i |-> n] : n \in 0..(sh[1] - 1)}
         \cup {[k |-> "s", s |-> s] : s \in KSlices(sh[1])}
         \cup {[k |-> "t", t |-> <<s>>] : s \in KSlices(sh[1])}
    ELSE {[k |-> "t", t |-> t] :
            t \in {u \in [1..Len(sh) -> UNION {KSlices(sh[a]) : a \in 1..Len(sh)}] :
                     \A a \in 1..Len(sh) : u[a] \in KSlices(sh[a])}}
KeyTab == [sh \in KShapes |->
             {[key |-> key, sel |-> Selected(sh, key).shape, els |-> Range(Selected(sh, key).flat)]
              : key \in KeysOf(sh)}]

-----------------------------------------------------------------------------
(* operations that can be applied to nodes of given shapes and classes     *)
Sh(n) == nd[n].sh
Pos(n) == nd[n].cls = "pos"
Here(n) == nd[n].g = cur
Scope == {n \in 1..Len(nd) : Here(n)}
SameSh(n) == {m \in Scope : Sh(m) = Sh(n)}

UnaryAny == {"neg", "sin", "cos", "tanh", "arctan", "exp", "sech", "sinh", "cosh"}
UnaryPos == UnaryAny \cup {"log", "log10", "cotanh", "cosech", "cosec"}
Lits == {<<"int", <<3, 1>>>>, <<"int", <<-2, 1>>>>, <<"float", <<5, 2>>>>, <<"float", <<-1, 4>>>>,
         <<"npfloat", <<7, 4>>>>, <<"npint", <<2, 1>>>>}
LitPool == <<<<2, 1>>, <<-1, 2>>, <<3, 4>>, <<-3, 1>>, <<5, 4>>, <<1, 8>>>>
ArrLit(s, k) == [lk |-> "array", c |-> TLCEval([i \in 1..Size(s) |-> LitPool[((i + k) % 6) + 1]])]
LitRec(l) == [lk |-> l[1], c |-> <<l[2]>>]
AnyLit(s) == {LitRec(l) : l \in Lits}
LitPos(p) == \A i \in 1..Len(p.c) : p.c[i][1] > 0

AxSub(n) == {SetToSortSeq(x, <) : x \in {y \in SUBSET (0..(n - 1)) : y # {} /\ Cardinality(y) < n}}
PermsOf(n) == {s \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => s[a] # s[b]}
Factor(n) == {s \in UNION {[1..k -> {1, 2, 3, 4, 6, 8, 9, 12} \cap 1..n] : k \in 1..3} : Size(s) = n /\ (Len(s) < 3 \/ \A i \in 1..3 : s[i] > 1)}
ExpandTo(s) == UNION {{<<t, pos>> : pos \in {SetToSortSeq(x, <) : x \in kSubset(Len(s), 1..Len(t))}}
                      : t \in {u \in {<<2, 3>>, <<3, 2>>, <<2, 2>>, <<2, 2, 2>>, <<1, 3>>, <<2, 3, 2>>} : Len(u) > Len(s)}}

\* kinds of operations, the frequent ones several times
OpKinds == IF Ops = "light" THEN <<"un", "bin", "bin", "lit", "get">>
           ELSE <<"un", "un", "un", "bin", "bin", "bin", "lit", "lit", "pow", "red", "ext", "pnorm", "dot", "mat",
                  "shape", "cond", "ein", "rot", "get", "get">>

\* one candidate application: op, arguments, parameters, class of the result
C(op, a, p, cls) == [op |-> op, a |-> a, p |-> p, cls |-> cls]
Cls(b) == IF b THEN "pos" ELSE "any"
OneP == NoP

Cands(kind, n) ==
    CASE kind = "un" ->
            {C(op, <<n>>, NoP, Cls(op \in {"exp", "sech", "cosh"} \/ (Pos(n) /\ op \in {"tanh", "arctan", "sinh", "cotanh", "cosech"})))
               : op \in IF Pos(n) THEN UnaryPos \ {"cosec"} ELSE UnaryAny}
      [] kind = "bin" ->
            UNION {{C(op, <<n, m>>, NoP, Cls(Pos(n) /\ Pos(m) /\ op # "sub"))
                      : op \in {"add", "sub", "mul"} \cup IF Pos(m) THEN {"div"} ELSE {}} : m \in SameSh(n)}
      [] kind = "lit" ->
            UNION {{C(op, <<n>>, p, Cls(Pos(n) /\ LitPos(p) /\ op \in {"addc", "raddc", "mulc", "rmulc", "divc", "rdivc"}))
                      : op \in {"addc", "raddc", "subc", "rsubc", "mulc", "rmulc", "divc"} \cup IF Pos(n) THEN {"rdivc"} ELSE {}}
                   : p \in AnyLit(Sh(n))}
            \cup {C(op, <<n>>, ArrLit(Sh(n), 0), "any") : op \in {"addc", "subc", "mulc", "divc"}}
      [] kind = "pow" ->
            {C("powc", <<n>>, LitRec(<<"int", <<q, 1>>>>), Cls(Pos(n))) : q \in {1, 2, 3}}
            \cup (IF Pos(n) THEN {C("powc", <<n>>, LitRec(<<"float", q>>), "pos") : q \in {<<1, 2>>, <<-1, 2>>, <<3, 2>>, <<-1, 1>>}} ELSE {})
      [] kind = "red" ->
            {C(op, <<n>>, [axes |-> ax], Cls(Pos(n))) : op \in {"sum", "average"}, ax \in {<<>>} \cup AxSub(Len(Sh(n)))}
            \cup {C(op, <<n, m>>, [axes |-> <<>>], Cls(Pos(n) /\ Pos(m))) : op \in {"sum", "average"}, m \in SameSh(n)}
      [] kind = "ext" ->
            {C(op, <<n>>, [axis |-> ax, rho |-> r], Cls(Pos(n) /\ op = "max"))
               : op \in {"max", "min"}, r \in {20, 3},
                 ax \in {<<>>} \cup (IF Len(Sh(n)) > 1 THEN {<<b>> : b \in 0..(Len(Sh(n)) - 1)} ELSE {})}
            \cup {C(op, <<n, m>>, [axis |-> <<>>, rho |-> 20], Cls(Pos(n) /\ Pos(m) /\ op = "max")) : op \in {"max", "min"}, m \in SameSh(n)}
      [] kind = "pnorm" ->
            {C("pnorm", <<n>>, [p |-> q, axis |-> <<>>, ak |-> "none"], "pos") : q \in {2, 4}}
            \cup {C("pnorm", <<n>>, [p |-> q, axis |-> ax, ak |-> "tuple"], "pos") : q \in {2, 4}, ax \in AxSub(Len(Sh(n)))}
      [] kind = "dot" ->
            UNION {(IF Len(Sh(n)) = 1 THEN {C("dot", <<n, m>>, [axis |-> 0], Cls(Pos(n) /\ Pos(m))),
                                            C("inner", <<n, m>>, [axes |-> <<<<0>>, <<0>>>>], Cls(Pos(n) /\ Pos(m)))} ELSE {})
                   \cup (IF 3 \in Range(Sh(n)) THEN {C("cross", <<n, m>>, [axis |-> a - 1], "any") : a \in {b \in 1..Len(Sh(n)) : Sh(n)[b] = 3}} ELSE {})
                   \cup (IF Len(Sh(n)) > 1 /\ 3 \in Range(Sh(n))
                         THEN {C("dot", <<n, m>>, [axis |-> a - 1], Cls(Pos(n) /\ Pos(m))) : a \in {b \in 1..Len(Sh(n)) : Sh(n)[b] = 3}} ELSE {})
                   : m \in SameSh(n)}
            \cup {C("outer", <<n, m>>, NoP, Cls(Pos(n) /\ Pos(m))) : m \in {k \in Scope : Size(Sh(k)) * Size(Sh(n)) <= 9}}
      [] kind = "mat" ->
            IF Len(Sh(n)) # 2 THEN {}
            ELSE {C("matmat", <<n, m>>, NoP, Cls(Pos(n) /\ Pos(m))) : m \in {k \in Scope : Len(Sh(k)) = 2 /\ Sh(k)[1] = Sh(n)[2] /\ Size(Sh(k)) <= 9}}
                 \cup {C(op, <<n, m>>, NoP, Cls(Pos(n) /\ Pos(m))) : op \in {"matvec", "matmat"}, m \in {k \in Scope : Sh(k) = <<Sh(n)[2]>>}}
                 \cup UNION {{C("inner", <<n, m>>, [axes |-> <<<<a - 1>>, <<b - 1>>>>], Cls(Pos(n) /\ Pos(m)))
                              : a \in 1..2, b \in {b \in 1..Len(Sh(m)) : TRUE}} : m \in {k \in Scope : Len(Sh(k)) <= 2}}
      [] kind = "shape" ->
            {C("reshape", <<n>>, [shape |-> s], nd[n].cls) : s \in Factor(Size(Sh(n)))}
            \cup (IF Len(Sh(n)) > 1 THEN {C("transpose", <<n>>, NoP, nd[n].cls)} \cup {C("reorder", <<n>>, [perm |-> q], nd[n].cls) : q \in PermsOf(Len(Sh(n)))} ELSE {})
            \cup (IF Sh(n) = <<1>> THEN {C("expand", <<n>>, [shape |-> s, pos |-> <<>>], nd[n].cls) : s \in {<<3>>, <<2, 2>>, <<2, 3>>, <<4>>}}
                  ELSE {C("expand", <<n>>, [shape |-> t[1], pos |-> t[2]], nd[n].cls) : t \in {u \in ExpandTo(Sh(n)) : Pick(u[1], u[2]) = Sh(n) /\ Len(u[1]) > Len(Sh(n))}})
      [] kind = "cond" ->
            UNION {{C("if_else", <<c, n, m>>, NoP, Cls(Pos(n) /\ Pos(m))) : m \in SameSh(n)} : c \in {k \in Scope : Sh(k) = <<1>>}}
      [] kind = "ein" ->
            UNION {{C("einsum", <<n, m>>, [ins |-> <<l1, l2>>, out |-> o], Cls(Pos(n) /\ Pos(m)))
                     : l1 \in {[i \in 1..Len(Sh(n)) |-> i]},
                       l2 \in {[i \in 1..Len(Sh(m)) |-> i], [i \in 1..Len(Sh(m)) |-> i + 1], [i \in 1..Len(Sh(m)) |-> Len(Sh(m)) + 1 - i]},
                       o \in {<<1>>, <<2, 1>>, <<2>>, <<>>, <<1, 2>>, <<1, 3>>}}
                   : m \in {k \in Scope : Len(Sh(k)) <= 2}}
      [] kind = "rot" ->
            IF Len(Sh(n)) = 1 /\ Size(Sh(n)) <= 2 THEN {C("rotmat", <<n>>, [axis |-> x], "any") : x \in {"x", "y", "z"}} ELSE {}
      [] kind = "get" ->
            IF Sh(n) \in KShapes /\ "get" \in Feats
            THEN {C("get", <<n>>, [key |-> t.key], nd[n].cls) : t \in KeyTab[Sh(n)]} ELSE {}

\* remaining side conditions of a candidate
Arg(c, i) == Sh(c.a[i])
Good(c) ==
    CASE c.op = "inner" -> /\ Arg(c, 1)[c.p.axes[1][1] + 1] = Arg(c, 2)[c.p.axes[2][1] + 1]
                           /\ Size(Arg(c, 1)) * Size(Arg(c, 2)) <= 36
      [] c.op = "einsum" -> /\ Range(c.p.out) \subseteq Labels(c.p.ins)
                            /\ Consistent(<<Arg(c, 1), Arg(c, 2)>>, c.p.ins)
                            /\ Size(Arg(c, 1)) * Size(Arg(c, 2)) <= 36
      [] c.op = "get" -> \* taking the same elements again yields the same expression
                         ~\E m \in 1..Len(nd) :
                              /\ nd[m].k = "get" /\ nd[m].a = c.a
                              /\ Selected(Arg(c, 1), nd[m].p.key).flat = Selected(Arg(c, 1), c.p.key).flat
      [] OTHER -> TRUE

OutShape(c) == Den(c.op, [i \in 1..Len(c.a) |-> Sh(c.a[i])], c.p).shape

-----------------------------------------------------------------------------
(* statements                                                              *)
Node(k, op, a, p, sh, cls) ==
    [k |-> k, op |-> op, a |-> a, p |-> p, sh |-> sh, cls |-> cls, g |-> cur, af |-> Cardinality(Children(P, cur)), def |-> 0]
Add(node) == /\ nd' = Append(nd, node)
             /\ pr' = Append(pr, [s |-> "node", n |-> Len(nd) + 1])

InShapes == <<<<1>>, <<1>>, <<3>>, <<3>>, <<2, 2>>, <<2, 3>>, <<4>>, <<3, 1>>, <<3, 2>>>>
ClsSeq == <<"any", "pos", "pos">>

\* what a declared input of this group can refer to: outputs of other groups,
\* and inputs that other groups declare; an input may be declared again
\* outputs of this group may be declared as inputs once a child was added after them;
\* independent variables at any time
Before(n) == nd[n].k \in {"in", "indep"} \/ \E q \in Children(P, cur) : n \in gr[q].before
Visible == {n \in 1..Len(nd) : /\ ~Here(n) \/ ("again" \in Feats /\ Before(n))
                               /\ n \in reg \/ nd[n].k \in {"out", "indep", "in"}
                               /\ "again" \in Feats \/ ~\E m \in Scope : nd[m].k = "alias" /\ nd[m].a = <<n>>}

DeclareInput ==
    \E i \in Pick1(1..Len(InShapes)), c \in Pick1(1..3) :
        Add(Node("in", "in", <<>>, NoP, InShapes[i], ClsSeq[c])) /\ UNCHANGED <<gr, reg, cur>>

CreateIndep ==
    \E i \in Pick1(1..Len(InShapes)), c \in Pick1(1..3), dv \in Pick1(BOOLEAN) :
        Add([Node("indep", "indep", <<>>, [dv |-> dv], InShapes[i], ClsSeq[c]) EXCEPT !.af = 0]) /\ UNCHANGED <<gr, reg, cur>>

DeclareAlias ==
    /\ Visible # {}
    /\ \E n \in Pick1(Visible) :
        Add([Node("alias", "wire", <<n>>, NoP, nd[n].sh, nd[n].cls) EXCEPT !.op = "wire"]) /\ UNCHANGED <<gr, reg, cur>>

\* prefer recent nodes: programs become deep
SomeNode == IF Chance(1, 2) /\ {n \in Scope : n > Len(nd) - 3} # {} THEN RandomElement({n \in Scope : n > Len(nd) - 3})
            ELSE RandomElement(Scope)

Apply ==
    /\ Scope # {}
    /\ \E kind \in {OpKinds[RandomElement(1..Len(OpKinds))]}, n \in {SomeNode} :
         \E S \in {TLCEval({c \in Cands(kind, n) : Good(c)})} :
           IF S = {} THEN UNCHANGED <<nd, gr, pr, reg, cur>>
           ELSE \E c \in Pick1(S) :
                  \E s \in {TLCEval(OutShape(c))} :
                    IF Size(s) > 18 \/ Len(s) > 4 THEN UNCHANGED <<nd, gr, pr, reg, cur>>
                    ELSE Add(Node(IF c.op = "get" THEN "get" ELSE "op", c.op, c.a, c.p, s, c.cls))
                         /\ UNCHANGED <<gr, reg, cur>>

\* the number of subsystems of its group that node n runs after
AfterSub(n) == LET S == {nd[m].af : m \in {k \in DependsOn(P, {n}) : IsInput(P, k) /\ nd[k].g = nd[n].g}}
               IN IF S = {} THEN 0 ELSE Max(S)

\* an output whose elements are assigned; the first assignment follows at once
OutShapes == {<<1>>, <<3>>, <<4>>, <<5>>, <<2, 2>>, <<2, 3>>, <<3, 1>>}
Assigned(y) == UNION {Range(Selected(nd[y].sh, nd[y].p.keys[i]).flat) : i \in 1..Len(nd[y].a)}
CreateOut ==
    /\ Scope # {}
    /\ \E e \in Pick1(Scope), sh \in Pick1(OutShapes) :
         \E S \in {{t \in KeyTab[sh] : t.sel = Sh(e)}} :
           IF S = {} THEN UNCHANGED <<nd, gr, pr, reg, cur>>
           ELSE \E t \in Pick1(S) :
                  /\ nd' = Append(nd, Node("out", "assemble", <<e>>, [shape |-> sh, keys |-> <<t.key>>], sh, nd[e].cls))
                  /\ pr' = pr \o <<[s |-> "create", n |-> Len(nd) + 1],
                                   [s |-> "set", n |-> Len(nd) + 1, i |-> 1]>>
                  /\ UNCHANGED <<gr, reg, cur>>

SetItem ==
    \E S \in {{y \in Scope : nd[y].k = "out" /\ nd[y].def = 0}} :
      IF S = {} THEN UNCHANGED <<nd, gr, pr, reg, cur>>
      ELSE \E y \in Pick1(S) :
        \E T \in {UNION {{<<e, t>> : t \in {u \in KeyTab[nd[y].sh] : u.sel = Sh(e) /\ u.els \cap Assigned(y) = {}}}
                         : e \in {m \in Scope : /\ m \notin Range(nd[y].a)
                                                /\ y \notin DependsOn(P, {m})
                                                /\ AfterSub(m) <= nd[y].af}}} :
          IF T = {} THEN UNCHANGED <<nd, gr, pr, reg, cur>>
          ELSE \E c \in Pick1(T) :
            /\ nd' = [nd EXCEPT ![y].a = Append(@, c[1]),
                                ![y].p.keys = Append(@, c[2].key),
                                ![y].cls = IF nd[c[1]].cls = "pos" THEN @ ELSE "any"]
            /\ pr' = Append(pr, [s |-> "set", n |-> y, i |-> Len(nd[y].a) + 1])
            /\ UNCHANGED <<gr, reg, cur>>

\* y = create_output(...), y.define(e): without a cycle, a copy of e
Define ==
    /\ Scope # {}
    /\ \E e \in Pick1(Scope) :
         /\ nd' = Append(nd, [Node("out", "wire", <<e>>, NoP, Sh(e), nd[e].cls) EXCEPT !.def = e])
         /\ pr' = pr \o <<[s |-> "create", n |-> Len(nd) + 1], [s |-> "define", n |-> Len(nd) + 1]>>
         /\ UNCHANGED <<gr, reg, cur>>

Register ==
    \E S \in {{n \in Scope : nd[n].k \in {"op", "get"} /\ n \notin reg}} :
      IF S = {} THEN UNCHANGED <<nd, gr, pr, reg, cur>>
      ELSE \E n \in Pick1(S) :
        /\ reg' = reg \cup {n}
        /\ pr' = Append(pr, [s |-> "reg", n |-> n])
        /\ UNCHANGED <<nd, gr, cur>>

Styles == {"class", "object", "with", "om"}
Open ==
    /\ Len(gr) <= MaxGroups
    /\ \E style \in Pick1(IF Visible \cup Scope # {} THEN Styles ELSE Styles \ {"om"}) :
         /\ gr' = Append(gr, [up |-> cur, no |-> Cardinality(Children(P, cur)) + 1, style |-> style,
                              before |-> Roots(P, cur)])
         /\ cur' = Len(gr) + 1
         /\ pr' = Append(pr, [s |-> "open", g |-> Len(gr) + 1])
         /\ UNCHANGED <<nd, reg>>

\* a group made of an OpenMDAO component has one input and one output, three times the input
OmBody ==
    LET v == {n \in 1..Len(nd) : n \in reg \/ nd[n].k \in {"out", "indep", "in"}}
        first == Len(nd) + 1
    IN \E n \in IF v = {} THEN {0} ELSE Pick1(v) :
         LET x == IF n = 0 THEN [Node("in", "in", <<>>, NoP, <<3>>, "any") EXCEPT !.af = 0]
                  ELSE [Node("alias", "wire", <<n>>, NoP, nd[n].sh, nd[n].cls) EXCEPT !.af = 0]
             y == [Node("op", "mulc", <<first>>, LitRec(<<"int", <<3, 1>>>>), x.sh, x.cls) EXCEPT !.af = 0]
         IN /\ nd' = nd \o <<x, y>>
            /\ reg' = reg \cup {first + 1}
            /\ pr' = pr \o <<[s |-> "node", n |-> first], [s |-> "node", n |-> first + 1],
                             [s |-> "reg", n |-> first + 1], [s |-> "close"]>>
            /\ cur' = gr[cur].up
            /\ UNCHANGED gr

Close == /\ cur # 1
         /\ cur' = gr[cur].up
         /\ pr' = Append(pr, [s |-> "close"])
         /\ UNCHANGED <<nd, gr, reg>>

\* before a group is closed, something in it is registered
LastHere == {n \in Scope : nd[n].k \in {"op", "get"} /\ n \notin reg}
HasOutput == \E n \in Scope : n \in reg \/ nd[n].k = "out"

-----------------------------------------------------------------------------
Statement ==
    \E d \in Pick1(1..20) :
      CASE Scope = {} -> (IF cur # 1 /\ Visible # {} THEN DeclareAlias
                          ELSE IF "indep" \in Feats /\ d <= 8 THEN CreateIndep ELSE DeclareInput)
        [] d = 1 -> DeclareInput
        [] d = 2 -> IF "indep" \in Feats THEN CreateIndep ELSE DeclareInput
        [] d \in {3, 4} -> IF Visible # {} THEN DeclareAlias ELSE Apply
        [] d \in {5, 6} -> IF "group" \in Feats /\ Len(gr) <= MaxGroups THEN Open ELSE Apply
        [] d = 7 /\ cur # 1 /\ HasOutput -> Close
        [] d \in {8, 9} -> Register
        [] d = 10 -> IF "set" \in Feats THEN CreateOut ELSE Apply
        [] d = 11 -> IF "set" \in Feats THEN SetItem ELSE Apply
        [] d = 12 -> IF "define" \in Feats THEN Define ELSE Apply
        [] OTHER -> Apply

Build ==
    /\ st = "building"
    /\ fuel > 0 /\ Len(nd) < MaxNodes
    /\ fuel' = fuel - 1
    /\ IF cur # 1 /\ gr[cur].style = "om" THEN OmBody ELSE Statement
    /\ UNCHANGED <<st, done>>

\* finish: every group, then the model, gets at least one output; groups are closed
WindUp ==
    /\ st = "building"
    /\ fuel = 0 \/ Len(nd) >= MaxNodes
    /\ IF cur # 1 /\ gr[cur].style = "om" THEN OmBody /\ UNCHANGED st
       ELSE IF Scope = {} THEN (IF Visible # {} THEN DeclareAlias ELSE DeclareInput) /\ UNCHANGED st
       ELSE IF ~HasOutput /\ LastHere = {}
            THEN Add(Node("op", "rmulc", <<Max(Scope)>>, LitRec(<<"int", <<3, 1>>>>), Sh(Max(Scope)), "any"))
                 /\ UNCHANGED <<gr, reg, cur, st>>
       ELSE IF ~HasOutput \/ (LastHere # {} /\ Chance(1, 2) /\ Max(LastHere) >= Len(nd) - 1)
            THEN /\ reg' = reg \cup {Max(LastHere)}
                 /\ pr' = Append(pr, [s |-> "reg", n |-> Max(LastHere)])
                 /\ UNCHANGED <<nd, gr, cur, st>>
       ELSE IF cur # 1 THEN Close /\ UNCHANGED st
       ELSE st' = "complete" /\ UNCHANGED <<nd, gr, pr, reg, cur>>
    /\ UNCHANGED <<fuel, done>>

Denotation(n) == IF nd[n].k \in {"in", "indep"} THEN [shape |-> nd[n].sh, el |-> <<>>, jac |-> <<>>]
                 ELSE Full(nd[n].op, [i \in 1..Len(nd[n].a) |-> Sh(nd[n].a[i])], nd[n].p)

Finish == /\ st = "complete"
         /\ st' = "emitting"
         /\ PrintT("J" \o ToJson([nd |-> nd, gr |-> gr, pr |-> pr, reg |-> reg,
                                  den |-> TLCEval([n \in 1..Len(nd) |-> Denotation(n)])]))
         /\ UNCHANGED <<nd, gr, pr, reg, cur, fuel, done>>

Emit == /\ st = "emitting"
        /\ \E g \in 1..Len(gr) :
             /\ \A h \in 1..(g - 1) : Needed(P, h) = done[h]
             /\ Needed(P, g) # done[g]
             /\ \E u \in Pick1(Enabled(P, g, done[g])) : done' = [done EXCEPT ![g] = @ \cup {u}]
        /\ UNCHANGED <<nd, gr, pr, reg, cur, st, fuel>>

Init == /\ nd = <<>> /\ pr = <<>> /\ reg = {} /\ cur = 1 /\ st = "building"
        /\ gr = <<[up |-> 0, no |-> 0, style |-> "model", before |-> {}]>>
        /\ fuel = 3 * MaxNodes
        /\ done = [g \in 1..(MaxGroups + 1) |-> {}]
Next == Build \/ WindUp \/ Finish \/ Emit
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* properties of the programs and of their emission                        *)
\* arguments come from the same group, and were created earlier or assigned to an output
WellScoped == \A n \in 1..Len(nd) : nd[n].k \in {"op", "get", "out"} =>
                \A i \in 1..Len(nd[n].a) : nd[nd[n].a[i]].g = nd[n].g
\* no expression depends on itself (outputs defined by a cycle are not in this machine)
Acyclic == \A n \in 1..Len(nd) : \A i \in 1..Len(nd[n].a) : n \notin DependsOn(P, {nd[n].a[i]})
\* some unit can always be emitted until all are: the requirements never conflict
NeverStuck == st = "emitting" => \A g \in 1..Len(gr) : Needed(P, g) = done[g] \/ Enabled(P, g, done[g]) # {}
\* everything a child group reads from its surroundings is computed before the child is added
ChildReadsBefore == \A n \in 1..Len(nd) :
    nd[n].k = "alias" /\ gr[nd[n].g].up = nd[nd[n].a[1]].g /\ ~IsInput(P, nd[n].a[1])
        => nd[n].a[1] \in gr[nd[n].g].before
\* the requirements on what is emitted, stated directly
EmittedInOrder == st = "emitting" => \A g \in 1..Len(gr) : \A u \in done[g] :
    /\ u \in Needed(P, g)
    /\ ReadsFirst(P, u) \subseteq done[g]
    /\ Indeps(P, g) \subseteq done[g] \/ u \in Indeps(P, g)
=============================================================================
