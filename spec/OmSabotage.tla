----------------------------- MODULE OmSabotage ----------------------------
(***************************************************************************)
(* One mistake in a well-formed program.                                   *)
(*                                                                         *)
(* The machine OmProg writes a program; then mistakes of every kind are    *)
(* drawn for it.  A mistake is one more statement, somewhere in the        *)
(* program, or a definition that is left out; everything around it stays   *)
(* as it was.  The program with the mistake is ill formed and must be      *)
(* rejected; without it, it is accepted.                                   *)
(*                                                                         *)
(* Where the statement itself is rejected and the user catches the         *)
(* exception, the program goes on as if the statement was not there.  An   *)
(* output that the mistake created before the rejected statement (Leaves)  *)
(* is still there, and is left undefined.                                  *)
(***************************************************************************)
EXTENDS OmProg, OmWell

\* the group that is open after statement k; groups of OpenMDAO have no statements of ours
CurAt == LET f[k \in 0..Len(pr)] ==
               IF k = 0 THEN 1
               ELSE IF pr[k].s = "open" THEN pr[k].g
               ELSE IF pr[k].s = "close" THEN gr[f[k - 1]].up
               ELSE f[k - 1]
         IN TLCEval(f)
Spots == {k \in 0..Len(pr) : gr[CurAt[k]].style # "om"}

\* where a node was created
At == TLCEval([n \in 1..Len(nd) |-> CHOOSE k \in 1..Len(pr) : pr[k].s \in {"node", "create"} /\ pr[k].n = n])
Known(k) == {n \in 1..Len(nd) : nd[n].g = CurAt[k] /\ At[n] <= k}
\* outputs that have been registered, or assigned to, or defined by then
Named(n) == nd[n].k \in {"out", "indep"} \/ n \in reg
IsReg(n, k) == \/ nd[n].k \in {"out", "indep"}
               \/ \E j \in 1..k : pr[j].s = "reg" /\ pr[j].n = n
IsDef(n, k) == \E j \in 1..k : pr[j].s \in {"set", "define"} /\ pr[j].n = n

\* ill-formed applications of the operations to nodes n and m
InShapesSet == Range(InShapes)
BadKinds == {"str", "none", "list", "dict", "object", "type"}
Applications(kind, n, m) ==
    LET two == <<Sh(n), Sh(m)>>
        one == <<Sh(n)>>
    IN {x \in
          CASE kind = "elementwise" -> {E(op, two, NoP) : op \in Elementwise2}
            [] kind = "branches" -> {E("if_else", <<<<1>>>> \o two, NoP)}
            [] kind = "matrix" -> {E(op, two, NoP) : op \in IF Len(Sh(n)) = 2 /\ Len(Sh(m)) \in {1, 2} THEN {"matmat", "matvec"} ELSE {}}
            [] kind = "dot" -> {E(op, two, [axis |-> x]) : op \in {"dot", "cross"}, x \in 0..2}
            [] kind = "inner" -> {E("inner", two, [axes |-> <<<<i>>, <<j>>>>]) : i \in 0..2, j \in 0..2}
            [] kind = "pnorm" -> {E("pnorm", one, [p |-> q]) : q \in {-4, -2, -1, 0, 1, 3, 5, 7}}
            [] kind = "reshape" -> {E("reshape", one, [shape |-> t]) : t \in InShapesSet \cup {<<5>>, <<2, 2, 2>>}}
            [] kind = "expand" -> {E("expand", one, [shape |-> t, pos |-> q]) :
                                    t \in {<<2, 3>>, <<3, 2>>, <<2, 2>>, <<2, 3, 2>>, <<4, 3, 4>>},
                                    q \in {<<>>, <<1>>, <<2>>, <<3>>, <<1, 2>>, <<2, 3>>, <<1, 3>>, <<2, 1>>}}
            [] kind = "divzero" -> {E("divzero", one, [kind |-> z]) : z \in {"int", "float", "npint", "npfloat", "negzero"}}
            [] kind = "constant" -> {E(op, one, [cs |-> t]) : op \in {"addc", "subc", "mulc", "divc", "powc"}, t \in InShapesSet \ {<<1>>}}
            [] kind = "operand" -> {E("kind", one, [f |-> f, kind |-> b]) :
                                    f \in {"add", "sub", "mul", "div", "radd", "rsub", "rmul", "rdiv", "pow"}, b \in BadKinds}
        : Decided(x) /\ ~Admits(x)}
OpMistakes == {"elementwise", "branches", "matrix", "dot", "inner", "pnorm", "reshape", "expand", "divzero", "constant", "operand"}
Uses == {"reg", "expr", "whole", "parts"}

\* keys outside of an expression: one axis is left by one element
Outside(sh) == IF Len(sh) = 1 THEN {[k |-> "i", i |-> sh[1]], [k |-> "s", s |-> <<0, sh[1] + 1, 1>>], [k |-> "t", t |-> <<<<sh[1], sh[1] + 1, 1>>>>]}
               ELSE {[k |-> "t", t |-> [a \in 1..Len(sh) |-> IF a = b THEN <<sh[a], sh[a] + 1, 1>> ELSE <<0, sh[a], 1>>]] : b \in 1..Len(sh)}

M(s, k, n, m, x) == [s |-> s, at |-> k, n |-> n, m |-> m, x |-> x]
NoX == NoP

Mistakes(kind, k) ==
    LET S == Known(k)
    IN CASE kind \in OpMistakes ->
               UNION {UNION {{M("apply", k, n, m, [e |-> x, use |-> u]) : x \in Applications(kind, n, m), u \in Pick1(Uses)}
                             : m \in S} : n \in S}
         [] kind = "again" -> {M("again", k, n, 0, NoX) : n \in {a \in S : IsReg(a, k)}}
         [] kind = "input" -> {M("input", k, n, 0, NoX) : n \in {a \in S : nd[a].k \in {"in", "alias"}}}
         [] kind = "name" -> {M("name", k, n, 0, [way |-> w]) : n \in {a \in 1..Len(nd) : Named(a)}, w \in {"reg", "out", "indep"}}
         [] kind = "undefined" -> {M("undefined", k, 0, 0, NoX)}
         [] kind = "redefine" -> {M(w, k, n, 0, NoX) : w \in {"define", "overlap"}, n \in {a \in S : nd[a].k = "out" /\ IsDef(a, k)}}
         [] kind = "self" -> {M(w, k, 0, 0, [shape |-> s]) : w \in {"self", "selfset"}, s \in InShapesSet}
         [] kind = "shape" -> {M(w, k, n, 0, [shape |-> s]) : w \in {"defshape", "setshape"}, n \in S, s \in InShapesSet}
         [] kind = "index" -> UNION {{M("index", k, n, 0, [key |-> y]) : y \in Outside(Sh(n))} : n \in S}
         [] kind = "drop" -> {M("drop", 0, n, 0, NoX) : n \in {a \in 1..Len(nd) : nd[a].k = "out"}}
\* an output of this shape is not defined by a node of that shape
Wrong(x) == x.s \in {"defshape", "setshape"} => Sh(x.n) # x.x.shape

AllKinds == OpMistakes \cup {"again", "input", "name", "undefined", "redefine", "self", "shape", "index", "drop"}
Leaves(x) == x.s \in {"undefined", "self", "selfset", "defshape", "setshape"}
Some1(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

SabFinish == /\ st = "complete"
             /\ st' = "over"
             /\ PrintT("J" \o ToJson([nd |-> nd, gr |-> gr, pr |-> pr, reg |-> reg,
                    den |-> TLCEval([n \in 1..Len(nd) |-> Denotation(n)]),
                    mis |-> {[leaves |-> Leaves(x)] @@ x : x \in
                        UNION {UNION {Some1({x \in Mistakes(kind, k) : Wrong(x)}) : k \in Pick1(Spots)} : kind \in AllKinds}}]))
             /\ UNCHANGED <<nd, gr, pr, reg, cur, fuel, done>>
SabSpec == Init /\ [][Build \/ WindUp \/ SabFinish]_vars
=============================================================================
