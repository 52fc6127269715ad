----------------------------- MODULE OmCatalog ------------------------------
(***************************************************************************)
(* Enumeration of single operations: every operation of a family with all  *)
(* small operand shapes, axes, parameters, literals and repeated operands. *)
(* Each catalog entry is one transition of the machine: from "chosen" to   *)
(* "evaluated".  In the second state the meaning of the operation (shape,  *)
(* elements, derivatives) is known, and is written out for replay on the   *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS OmOps, Json

CONSTANTS Family,    \* "arith", "std", "array", "einsum", "index", "cond", "assemble", "all"
          Deep,      \* FALSE: quick catalog, TRUE: thorough catalog
          Rot        \* rotates the places that operands come from

VARIABLES i,        \* number of the entry
          en,       \* the entry
          st, shapeOK
vars == <<i, en, st, shapeOK>>

\* map over the elements of a set of tuples, as a sequence
MapSet(S, f(_)) == LET q == SetToSeq(S) IN [n \in 1..Len(q) |-> f(q[n])]
In(sh, dom) == [sh |-> sh, dom |-> dom]
E(op, ins, args, p) == [op |-> op, ins |-> ins, args |-> args, p |-> p]

-----------------------------------------------------------------------------
(* arithmetic *)
AShapes == {<<1>>, <<3>>, <<2, 3>>} \cup
           (IF Deep THEN {<<2>>, <<1, 1>>, <<1, 3>>, <<3, 1>>, <<2, 1, 2>>, <<2, 2, 2>>, <<1, 2, 1, 3>>}
            ELSE {<<2, 1, 2>>})

Pat(n, pool) == [k \in 1..n |-> pool[((k - 1) % Len(pool)) + 1]]

NumLits == {<<"int", <<3, 1>>>>, <<"int", <<-2, 1>>>>, <<"float", <<5, 2>>>>, <<"float", <<-1, 4>>>>,
            <<"npfloat", <<7, 4>>>>, <<"npint", <<4, 1>>>>, <<"npint", <<-3, 1>>>>}
           \cup (IF Deep THEN {<<"int", <<1, 1>>>>, <<"int", <<-1, 1>>>>, <<"float", <<1000000, 1>>>>,
                               <<"float", <<1, 1024>>>>, <<"npfloat", <<-9, 8>>>>} ELSE {})
LitP(l) == [lk |-> l[1], c |-> <<l[2]>>]
ArrP(s, pool) == [lk |-> "array", c |-> Pat(Size(s), pool)]
Pool1 == <<<<2, 1>>, <<-1, 2>>, <<3, 4>>, <<-3, 1>>, <<5, 1>>>>
PowPool == <<<<2, 1>>, <<3, 1>>, <<1, 1>>, <<-1, 1>>, <<1, 2>>>>
IntPowPool == <<<<2, 1>>, <<0, 1>>, <<3, 1>>, <<1, 1>>>>

LitOps == {"addc", "raddc", "subc", "rsubc", "mulc", "rmulc", "divc", "rdivc"}
ArrOps == {"addc", "subc", "mulc", "divc"}
DomOf(op) == IF op \in {"div", "rdivc"} THEN "nz" ELSE "any"

ArithSeq ==
       MapSet({"pos", "neg"} \X AShapes, LAMBDA t : E(t[1], <<In(t[2], "any")>>, <<1>>, NoP))
    \o MapSet({"add", "sub", "mul", "div"} \X AShapes,
              LAMBDA t : E(t[1], <<In(t[2], "any"), In(t[2], DomOf(t[1]))>>, <<1, 2>>, NoP))
    \o MapSet({"add", "sub", "mul", "div"} \X AShapes,
              LAMBDA t : E(t[1], <<In(t[2], DomOf(t[1]))>>, <<1, 1>>, NoP))
    \o MapSet(LitOps \X AShapes \X NumLits,
              LAMBDA t : E(t[1], <<In(t[2], DomOf(t[1]))>>, <<1>>, LitP(t[3])))
    \o MapSet({"addc", "raddc", "subc", "rsubc", "mulc", "rmulc", "rdivc"} \X AShapes,
              LAMBDA t : E(t[1], <<In(t[2], DomOf(t[1]))>>, <<1>>, LitP(<<"int", <<0, 1>>>>)))
    \* units: a new expression all the same
    \o MapSet({"mulc", "rmulc", "divc", "rdivc", "subc"} \X AShapes \X {<<"int", <<1, 1>>>>, <<"int", <<-1, 1>>>>, <<"float", <<1, 1>>>>},
              LAMBDA t : E(t[1], <<In(t[2], DomOf(t[1]))>>, <<1>>, LitP(t[3])))
    \o MapSet(ArrOps \X AShapes,
              LAMBDA t : E(t[1], <<In(t[2], "any")>>, <<1>>, ArrP(t[2], Pool1)))
    \o MapSet(AShapes \X {0, 1, 2, 3, 4, 5},
              LAMBDA t : E("powc", <<In(t[1], "anyz")>>, <<1>>, LitP(<<"int", <<t[2], 1>>>>)))
    \o MapSet(AShapes \X {0, -1, -2, -3},
              LAMBDA t : E("powc", <<In(t[1], "nz")>>, <<1>>, LitP(<<"int", <<t[2], 1>>>>)))
    \o MapSet(AShapes \X {<<1, 2>>, <<-1, 2>>, <<3, 2>>, <<1, 4>>, <<5, 4>>, <<-7, 4>>},
              LAMBDA t : E("powc", <<In(t[1], "pos")>>, <<1>>, LitP(<<"float", t[2]>>)))
    \o MapSet(AShapes \X {<<3, 2>>, <<5, 4>>, <<0, 1>>},
              LAMBDA t : E("powc", <<In(t[1], "posz")>>, <<1>>, LitP(<<"float", t[2]>>)))
    \o MapSet(AShapes \X {<<"npint", <<2, 1>>>>, <<"npint", <<3, 1>>>>, <<"float", <<2, 1>>>>, <<"npfloat", <<3, 1>>>>},
              LAMBDA t : E("powc", <<In(t[1], "any")>>, <<1>>, LitP(t[2])))
    \o MapSet(AShapes, LAMBDA s : E("powc", <<In(s, "pos")>>, <<1>>, ArrP(s, PowPool)))
    \o MapSet(AShapes, LAMBDA s : E("powc", <<In(s, "anyz")>>, <<1>>, ArrP(s, IntPowPool)))

-----------------------------------------------------------------------------
(* standard functions *)
FDom(f) == CASE f \in {"tan", "sec"} -> "offcos"
             [] f \in {"cotan", "cosec"} -> "offsin"
             [] f \in {"arcsin", "arccos"} -> "unit"
             [] f \in {"cosech", "cotanh"} -> "nz"
             [] f \in {"log", "log10"} -> "posw"
             [] f \in {"arctan", "sin", "cos"} -> "wide"
             [] OTHER -> "any"
StdSeq ==
    MapSet(Functions \X ({<<1>>, <<4>>, <<2, 3>>, <<2, 1, 2>>} \cup
                         (IF Deep THEN {<<1, 1>>, <<3, 1>>, <<2, 2, 2>>, <<1, 2, 1, 2>>, <<7>>} ELSE {})),
           LAMBDA t : E(t[1], <<In(t[2], FDom(t[1]))>>, <<1>>, NoP))
    \* far from zero, and close to the end of the domain
    \o MapSet({"tanh", "sech", "cosech", "cotanh", "arctan", "sin", "cos"} \X {<<1>>, <<3>>, <<2, 2>>},
              LAMBDA t : E(t[1], <<In(t[2], "huge")>>, <<1>>, NoP))
    \o MapSet({"exp", "sinh", "cosh"} \X {<<1>>, <<2>>}, LAMBDA t : E(t[1], <<In(t[2], "hugexp")>>, <<1>>, NoP))
    \o MapSet({"log", "log10"} \X {<<1>>, <<2>>}, LAMBDA t : E(t[1], <<In(t[2], "hugpos")>>, <<1>>, NoP))
    \o MapSet({"arcsin", "arccos"} \X {<<1>>, <<3>>}, LAMBDA t : E(t[1], <<In(t[2], "edge")>>, <<1>>, NoP))

-----------------------------------------------------------------------------
(* array functions *)
TShapes == {<<3>>, <<2, 3>>, <<2, 2>>, <<2, 3, 2>>} \cup
           (IF Deep THEN {<<1>>, <<4>>, <<1, 3>>, <<3, 1>>, <<3, 3>>, <<2, 1, 3>>, <<3, 2, 3>>, <<2, 2, 2>>, <<2, 3, 1, 2>>}
            ELSE {<<3, 1>>})

\* increasing sequences of axes (from 0), at least one and possibly all
AxSubsets(n) == {SetToSortSeq(x, <) : x \in (SUBSET (0..(n - 1))) \ {{}}}
\* variants: reversed, counted from the last axis
AxVariants(n) ==
    LET S == AxSubsets(n) IN
    S \cup {Reverse(s) : s \in S} \cup {[k \in 1..Len(s) |-> s[k] - n] : s \in S}
SingleAx(n) == (0..(n - 1)) \cup (IF n = 0 THEN {} ELSE (-n)..(-1))
ShAx == UNION {{<<s, a>> : a \in AxVariants(Len(s))} : s \in TShapes}
ShAx1 == UNION {{<<s, a>> : a \in SingleAx(Len(s))} : s \in TShapes}
ArgPats == {<<1>>, <<1, 2>>, <<1, 1>>, <<1, 2, 3>>, <<1, 2, 1>>, <<1, 1, 1>>, <<1, 2, 1, 2>>, <<1, 2, 3, 4>>}
InsFor(args, s, dom) == [k \in 1..Max(Range(args)) |-> In(s, dom)]

RedSeq ==
       MapSet({"sum", "average"} \X TShapes \X ArgPats,
              LAMBDA t : E(t[1], InsFor(t[3], t[2], "any"), t[3], [axes |-> <<>>]))
    \o MapSet({"sum", "average"} \X {<<1>>, <<1, 1>>} \X {<<1>>, <<1, 2>>, <<1, 1>>} \X {<<>>, <<0>>, <<-1>>},
              LAMBDA t : E(t[1], InsFor(t[3], t[2], "any"), t[3], [axes |-> t[4]]))
    \o MapSet({"max", "min"} \X {<<1>>, <<1, 1>>} \X {<<>>, <<0>>},
              LAMBDA t : E(t[1], <<In(t[2], "any")>>, <<1>>, [axis |-> t[3], rho |-> 20]))
    \o MapSet({<<1>>, <<1, 1>>} \X {2, 4},
              LAMBDA t : E("pnorm", <<In(t[1], "any")>>, <<1>>, [p |-> t[2], axis |-> <<>>, ak |-> "none"]))
    \o MapSet({"sum", "average"} \X ShAx \X {<<1>>, <<1, 2>>, <<1, 1>>, <<1, 2, 1>>, <<1, 2, 3>>},
              LAMBDA t : E(t[1], InsFor(t[3], t[2][1], "any"), t[3], [axes |-> t[2][2]]))
    \o MapSet({"max", "min"} \X TShapes \X ArgPats \X {20},
              LAMBDA t : E(t[1], InsFor(t[3], t[2], "any"), t[3], [axis |-> <<>>, rho |-> t[4]]))
    \o MapSet({"max", "min"} \X TShapes \X {<<1>>, <<1, 2>>} \X {1, 5, 60},
              LAMBDA t : E(t[1], InsFor(t[3], t[2], "any"), t[3], [axis |-> <<>>, rho |-> t[4]]))
    \o MapSet({"max", "min"} \X ShAx1 \X {20, 3},
              LAMBDA t : E(t[1], <<In(t[2][1], "any")>>, <<1>>, [axis |-> <<t[2][2]>>, rho |-> t[3]]))
    \o MapSet(TShapes \X {2, 4, 6, 8},
              LAMBDA t : E("pnorm", <<In(t[1], "any")>>, <<1>>, [p |-> t[2], axis |-> <<>>, ak |-> "none"]))
    \o MapSet(ShAx1 \X {2, 4},
              LAMBDA t : E("pnorm", <<In(t[1][1], "any")>>, <<1>>, [p |-> t[2], axis |-> <<t[1][2]>>, ak |-> "int"]))
    \o MapSet(ShAx \X {2, 6},
              LAMBDA t : E("pnorm", <<In(t[1][1], "any")>>, <<1>>, [p |-> t[2], axis |-> t[1][2], ak |-> "tuple"]))

S3 == {<<3>>, <<3, 2>>, <<2, 3>>, <<3, 3>>, <<2, 3, 2>>} \cup
      (IF Deep THEN {<<1, 3>>, <<3, 1>>, <<3, 2, 2>>, <<2, 2, 3>>, <<3, 3, 2>>, <<2, 3, 3>>, <<2, 1, 3, 2>>} ELSE {})
ShAx3 == UNION {{<<s, a>> : a \in {b \in SingleAx(Len(s)) : s[Axis(Len(s), b)] = 3}} : s \in S3}

\* sequences of n different axes
AxSeqs(r, n) == {s \in [1..n -> 0..(r - 1)] : \A a, b \in 1..n : a # b => s[a] # s[b]}
IShapes == {<<3>>, <<2, 3>>, <<3, 2>>, <<2, 2>>, <<2, 3, 2>>} \cup (IF Deep THEN {<<2>>, <<3, 3>>, <<2, 2, 3>>, <<3, 1, 2>>} ELSE {})
InnerSet == {<<s1, s2, a1, a2>> \in
               UNION {UNION {{<<s1, s2, a1, a2>> : a1 \in AxSeqs(Len(s1), n), a2 \in AxSeqs(Len(s2), n)}
                             : n \in {k \in 1..2 : k <= Len(s1) /\ k <= Len(s2)}}
                      : s1 \in IShapes, s2 \in IShapes}
             : /\ \A k \in 1..Len(a1) : s1[a1[k] + 1] = s2[a2[k] + 1]
               /\ Len(s1) + Len(s2) > 2
               /\ Size(s1) * Size(s2) <= 144}
InnerNeg == {t \in InnerSet : Len(t[1]) = 2 \/ Len(t[2]) = 3}
Shift(a, n) == [k \in 1..Len(a) |-> a[k] - n]

Two(s1, s2) == <<In(s1, "any"), In(s2, "any")>>
ProdSeq ==
       MapSet(1..4, LAMBDA n : E("dot", Two(<<n>>, <<n>>), <<1, 2>>, [axis |-> 0]))
    \o MapSet(1..4, LAMBDA n : E("dot", <<In(<<n>>, "any")>>, <<1, 1>>, [axis |-> 0]))
    \o MapSet({t \in ShAx3 : Len(t[1]) > 1} \X {<<1, 2>>, <<1, 1>>},
              LAMBDA t : E("dot", InsFor(t[2], t[1][1], "any"), t[2], [axis |-> t[1][2]]))
    \o MapSet(ShAx3 \X {<<1, 2>>, <<1, 1>>},
              LAMBDA t : E("cross", InsFor(t[2], t[1][1], "any"), t[2], [axis |-> t[1][2]]))
    \o MapSet(1..4, LAMBDA n : E("inner", Two(<<n>>, <<n>>), <<1, 2>>, [axes |-> <<<<0>>, <<0>>>>]))
    \o MapSet(1..3, LAMBDA n : E("inner", <<In(<<n>>, "any")>>, <<1, 1>>, [axes |-> <<<<0>>, <<0>>>>]))
    \o MapSet(InnerSet, LAMBDA t : E("inner", Two(t[1], t[2]), <<1, 2>>, [axes |-> <<t[3], t[4]>>]))
    \o MapSet(InnerNeg, LAMBDA t : E("inner", Two(t[1], t[2]), <<1, 2>>,
                                     [axes |-> <<Shift(t[3], Len(t[1])), Shift(t[4], Len(t[2]))>>]))
    \o MapSet({t \in InnerSet : t[1] = t[2]},
              LAMBDA t : E("inner", <<In(t[1], "any")>>, <<1, 1>>, [axes |-> <<t[3], t[4]>>]))
    \o MapSet({<<a, b>> \in TShapes \X TShapes : Size(a) * Size(b) <= 48},
              LAMBDA t : E("outer", Two(t[1], t[2]), <<1, 2>>, NoP))
    \o MapSet({s \in TShapes : Size(s) <= 4}, LAMBDA s : E("outer", <<In(s, "any")>>, <<1, 1>>, NoP))
    \o MapSet({1, 2, 3} \X {1, 2, 3} \X {1, 2, 3},
              LAMBDA t : E("matmat", Two(<<t[1], t[2]>>, <<t[2], t[3]>>), <<1, 2>>, NoP))
    \o MapSet({1, 2, 3}, LAMBDA n : E("matmat", <<In(<<n, n>>, "any")>>, <<1, 1>>, NoP))
    \o MapSet({"matmat", "matvec"} \X {1, 2, 3} \X {1, 2, 3},
              LAMBDA t : E(t[1], Two(<<t[2], t[3]>>, <<t[3]>>), <<1, 2>>, NoP))

Perms(n) == {s \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => s[a] # s[b]}
RShapes == {<<2, 3>>, <<3, 2>>, <<2, 3, 2>>, <<2, 1, 3>>} \cup (IF Deep THEN {<<3, 3>>, <<1, 3>>, <<2, 3, 4>>, <<2, 3, 1, 2>>} ELSE {})
Factorings == {<<1>>, <<2>>, <<6>>, <<1, 6>>, <<6, 1>>, <<2, 3>>, <<3, 2>>, <<1, 2, 3>>, <<3, 1, 2>>,
               <<12>>, <<2, 3, 2>>, <<3, 4>>, <<2, 6>>, <<4>>, <<2, 2>>, <<1, 1>>, <<2, 1>>, <<1, 1, 1>>, <<1, 4, 1>>}
\* shapes with axes inserted: <<shape of operand, shape of result, positions of operand axes>>
EShapes == {<<2, 3, 2>>, <<3, 2>>, <<2, 2, 2>>} \cup (IF Deep THEN {<<2, 3, 4>>, <<2, 3, 2, 2>>, <<1, 3, 2>>, <<3, 1>>} ELSE {})
ExpandSet == UNION {{<<Pick(s, pos), s, pos>> : pos \in {SetToSortSeq(x, <) : x \in (SUBSET (1..Len(s))) \ {{}}}}
                    : s \in EShapes}
ShapeSeq ==
       MapSet({<<1>>, <<1, 1>>, <<3>>, <<1, 3>>, <<3, 1>>, <<2, 3>>, <<3, 3>>, <<2, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1, 2>>},
              LAMBDA s : E("transpose", <<In(s, "any")>>, <<1>>, NoP))
    \o MapSet(UNION {{<<s, q>> : q \in Perms(Len(s))} : s \in RShapes},
              LAMBDA t : E("reorder", <<In(t[1], "any")>>, <<1>>, [perm |-> t[2]]))
    \o MapSet({t \in Factorings \X Factorings : Size(t[1]) = Size(t[2])},
              LAMBDA t : E("reshape", <<In(t[1], "any")>>, <<1>>, [shape |-> t[2]]))
    \o MapSet({t \in ExpandSet : t[1] # <<1>>},
              LAMBDA t : E("expand", <<In(t[1], "any")>>, <<1>>, [shape |-> t[2], pos |-> t[3]]))
    \o MapSet({<<1>>, <<3>>, <<2, 3>>, <<2, 2, 2>>, <<1, 1>>},
              LAMBDA s : E("expand", <<In(<<1>>, "any")>>, <<1>>, [shape |-> s, pos |-> <<>>]))
    \o MapSet({<<1>>, <<2>>, <<3>>, <<2, 2>>, <<1, 1>>, <<2, 1, 2>>} \X {"x", "y", "z"},
              LAMBDA t : E("rotmat", <<In(t[1], "wide")>>, <<1>>, [axis |-> t[2]]))

-----------------------------------------------------------------------------
(* Einstein sums.  Labels are numbers; label l has size LDim[l]            *)
LDim == <<2, 3, 2>>
OneOp == {<<1>>, <<1, 2>>, <<1, 2, 3>>, <<2, 1>>, <<3, 1, 2>>}
TwoOps == {<<a, b>> \in {<<1>>, <<1, 2>>, <<2, 1>>, <<1, 2, 3>>} \X
                        {<<1>>, <<2>>, <<3>>, <<1, 2>>, <<2, 1>>, <<2, 3>>, <<3, 2>>, <<1, 3>>, <<3, 1>>, <<3, 2, 1>>} :
            Len(a) + Len(b) <= (IF Deep THEN 6 ELSE 4)}
ThreeOps == {<<<<1>>, <<1, 2>>, <<2>>>>, <<<<1, 2>>, <<2, 3>>, <<3, 1>>>>, <<<<1, 2>>, <<2>>, <<1, 2>>>>,
             <<<<1>>, <<2>>, <<3>>>>, <<<<1, 2>>, <<1>>, <<3>>>>, <<<<1, 2>>, <<1, 2>>, <<1, 2>>>>}
Subsets(ins) == {s \in UNION {[1..n -> Labels(ins)] : n \in 0..Cardinality(Labels(ins))} :
                    \A a, b \in 1..Len(s) : a # b => s[a] # s[b]}
EinSet(I) == UNION {{<<ins, out>> : out \in Subsets(ins)} : ins \in I}
EinShape(l) == [a \in 1..Len(l) |-> LDim[l[a]]]
EinE(ins, out, args, nin) ==
    E("einsum",
      [k \in 1..nin |-> In(EinShape(ins[CHOOSE m \in 1..Len(ins) : args[m] = k]), "any")],
      args, [ins |-> ins, out |-> out])
SamePat == {t \in EinSet({<<a, b>> \in {<<1, 3>>, <<1>>, <<1, 2>>} \X {<<1, 3>>, <<3, 1>>, <<1>>, <<3>>, <<1, 2>>} :
                            EinShape(a) = EinShape(b)}) : TRUE}
SamePat3 == EinSet({<<<<1>>, <<1, 3>>, <<3>>>>, <<<<1>>, <<1, 3>>, <<1>>>>, <<<<1, 3>>, <<1>>, <<3, 1>>>>})
\* a label more than once in one operand: diagonals and traces
Diag1 == {<<1, 1>>, <<2, 2>>, <<1, 1, 2>>, <<1, 2, 1>>, <<2, 1, 1>>, <<1, 1, 1>>, <<1, 3, 1>>, <<1, 1, 3, 3>>, <<1, 3, 1, 3>>}
Diag2 == {<<<<1, 1>>, <<1>>>>, <<<<1, 1>>, <<1, 2>>>>, <<<<2>>, <<2, 2>>>>, <<<<1, 1>>, <<3, 3>>>>, <<<<1, 1>>, <<1, 1>>>>,
          <<<<1, 1, 2>>, <<2, 1>>>>, <<<<1, 2>>, <<2, 1, 2>>>>, <<<<1, 1>>, <<2>>>>, <<<<1, 3, 1>>, <<3>>>>}
DiagSeq ==
       MapSet(EinSet({<<a>> : a \in Diag1}), LAMBDA t : EinE(t[1], t[2], <<1>>, 1))
    \o MapSet(EinSet(Diag2), LAMBDA t : EinE(t[1], t[2], <<1, 2>>, 2))
    \o MapSet(EinSet({<<<<1, 1>>, <<1, 3>>>>, <<<<1, 1>>, <<3, 3>>>>, <<<<1, 1>>, <<1, 1>>>>, <<<<1, 3>>, <<3, 3>>>>}), LAMBDA t : EinE(t[1], t[2], <<1, 1>>, 1))
    \o MapSet(EinSet({<<<<1, 1>>, <<1, 2>>, <<2, 2>>>>}), LAMBDA t : EinE(t[1], t[2], <<1, 2, 3>>, 3))
    \o MapSet(EinSet({<<<<1, 1>>, <<3>>, <<1, 3>>>>}), LAMBDA t : EinE(t[1], t[2], <<1, 2, 1>>, 2))
EinSeq ==
       DiagSeq
    \o MapSet(EinSet({<<a>> : a \in OneOp}), LAMBDA t : EinE(t[1], t[2], <<1>>, 1))
    \o MapSet(EinSet(TwoOps), LAMBDA t : EinE(t[1], t[2], <<1, 2>>, 2))
    \o MapSet(EinSet(ThreeOps), LAMBDA t : EinE(t[1], t[2], <<1, 2, 3>>, 3))
    \o MapSet(SamePat, LAMBDA t : EinE(t[1], t[2], <<1, 1>>, 1))
    \o MapSet({t \in SamePat3 : EinShape(t[1][1]) = EinShape(t[1][3])},
              LAMBDA t : EinE(t[1], t[2], <<1, 2, 1>>, 2))
    \o MapSet({<<<<1, 3>>, <<3, 1>>, <<1>>>>, <<<<1>>, <<3>>, <<1, 3>>>>} \X {<<>>, <<1>>, <<3>>, <<1, 3>>, <<3, 1>>},
              LAMBDA t : EinE(t[1], t[2], <<1, 1, 2>>, 2))
    \o MapSet(EinSet({<<<<1>>, <<1>>, <<1>>>>, <<<<1>>, <<3>>, <<1>>>>, <<<<1>>, <<1>>, <<3>>>>,
                      <<<<1, 3>>, <<3, 1>>, <<1, 3>>>>, <<<<1, 3>>, <<1, 3>>, <<1, 3>>>>}),
              LAMBDA t : EinE(t[1], t[2], <<1, 1, 1>>, 1))
    \o MapSet(EinSet({<<<<1>>, <<3>>, <<1, 2>>, <<1>>>>, <<<<1>>, <<1>>, <<1, 2>>, <<3>>>>}),
              LAMBDA t : EinE(t[1], t[2], <<1, 1, 2, 1>>, 2))
    \o MapSet({<<<<1>>, <<1>>, <<3>>, <<3>>>>, <<<<1>>, <<3>>, <<1>>, <<3>>>>} \X {<<>>, <<1>>, <<1, 3>>, <<3, 1>>} \X
              {<<1, 1, 1, 1>>, <<1, 2, 1, 2>>, <<1, 2, 2, 1>>, <<1, 1, 2, 2>>, <<2, 1, 1, 1>>},
              LAMBDA t : EinE(t[1], t[2], t[3], IF t[3] = <<1, 1, 1, 1>> THEN 1 ELSE 2))
    \o MapSet({<<<<1>>, <<1, 3>>, <<3, 1>>>>, <<<<3>>, <<1, 3>>, <<1, 3>>>>} \X {<<>>, <<1>>, <<3>>, <<1, 3>>},
              LAMBDA t : EinE(t[1], t[2], <<1, 2, 2>>, 2))

-----------------------------------------------------------------------------
(* selections *)
Slices(n) == {<<a, b, s>> \in (0..(n - 1)) \X (1..n) \X (1..3) : a < b /\ (s = 1 \/ a + s < b)}
TKeys(sh) == {t \in [1..Len(sh) -> UNION {Slices(sh[a]) : a \in 1..Len(sh)}] :
                \A a \in 1..Len(sh) : t[a] \in Slices(sh[a])}
KeyI(n) == [k |-> "i", i |-> n]
KeyS(s) == [k |-> "s", s |-> s]
KeyT(t) == [k |-> "t", t |-> t]
GetE(sh, key) == E("get", <<In(sh, "any")>>, <<1>>, [key |-> key])
G3 == IF Deep THEN <<2, 3, 2>> ELSE <<2, 2, 2>>
IndexSeq ==
       MapSet(0..4, LAMBDA n : GetE(<<5>>, KeyI(n)))
    \o MapSet(Slices(5), LAMBDA s : GetE(<<5>>, KeyS(s)))
    \o MapSet(Slices(5), LAMBDA s : GetE(<<5>>, KeyT(<<s>>)))
    \o MapSet(TKeys(<<2, 3>>), LAMBDA t : GetE(<<2, 3>>, KeyT(t)))
    \o MapSet({t \in TKeys(<<3, 2>>) : Deep \/ t[1][3] = 1}, LAMBDA t : GetE(<<3, 2>>, KeyT(t)))
    \o MapSet(TKeys(G3), LAMBDA t : GetE(G3, KeyT(t)))
    \o MapSet(TKeys(<<1, 4>>), LAMBDA t : GetE(<<1, 4>>, KeyT(t)))

-----------------------------------------------------------------------------
CondSeq ==
    MapSet({<<1>>, <<3>>, <<2, 3>>, <<2, 1, 2>>} \X {"neg1", "zero1", "pos1", "cond1"} \X {<<1, 2, 3>>, <<1, 2, 2>>},
           LAMBDA t : E("if_else", [k \in 1..Max(Range(t[3])) |-> In(IF k = 1 THEN <<1>> ELSE t[1], IF k = 1 THEN t[2] ELSE "any")],
                        t[3], NoP))
    \o MapSet({"neg1", "zero1", "pos1", "cond1"} \X {<<1, 1, 2>>, <<1, 2, 1>>},
           LAMBDA t : E("if_else", [k \in 1..2 |-> In(<<1>>, IF k = 1 THEN t[1] ELSE "any")], t[2], NoP))

(* a few larger operands of every family *)
Big == {<<11>>, <<4, 5>>, <<2, 3, 2, 2>>}
BigArith ==
       MapSet({"add", "sub", "mul", "div"} \X Big, LAMBDA t : E(t[1], <<In(t[2], "any"), In(t[2], DomOf(t[1]))>>, <<1, 2>>, NoP))
    \o MapSet(LitOps \X Big, LAMBDA t : E(t[1], <<In(t[2], DomOf(t[1]))>>, <<1>>, LitP(<<"float", <<5, 2>>>>)))
    \o MapSet(ArrOps \X Big, LAMBDA t : E(t[1], <<In(t[2], "any")>>, <<1>>, ArrP(t[2], Pool1)))
    \o MapSet(Big \X {2, 7}, LAMBDA t : E("powc", <<In(t[1], "any")>>, <<1>>, LitP(<<"int", <<t[2], 1>>>>)))
    \o MapSet(Big, LAMBDA s : E("powc", <<In(s, "pos")>>, <<1>>, ArrP(s, PowPool)))
BigStd == MapSet(Functions \X {<<13>>, <<2, 3, 2, 2>>}, LAMBDA t : E(t[1], <<In(t[2], FDom(t[1]))>>, <<1>>, NoP))
BigAx == {<<<<4, 5>>, <<0>>>>, <<<<4, 5>>, <<-1>>>>, <<<<2, 3, 2, 2>>, <<1, 3>>>>, <<<<2, 3, 2, 2>>, <<0, 1, 2>>>>, <<<<2, 3, 2, 2>>, <<2>>>>,
          <<<<3, 4, 2>>, <<1, 0>>>>}
BigArray ==
       MapSet({"sum", "average"} \X Big \X {<<1>>, <<1, 2, 3, 4, 5>>},
              LAMBDA t : E(t[1], InsFor(t[3], t[2], "any"), t[3], [axes |-> <<>>]))
    \o MapSet({"sum", "average"} \X BigAx \X {<<1>>, <<1, 2>>},
              LAMBDA t : E(t[1], InsFor(t[3], t[2][1], "any"), t[3], [axes |-> t[2][2]]))
    \o MapSet({"max", "min"} \X {<<11>>, <<4, 5>>}, LAMBDA t : E(t[1], <<In(t[2], "any")>>, <<1>>, [axis |-> <<>>, rho |-> 20]))
    \o MapSet({"max", "min"} \X {x \in BigAx : Len(x[2]) = 1},
              LAMBDA t : E(t[1], <<In(t[2][1], "any")>>, <<1>>, [axis |-> t[2][2], rho |-> 7]))
    \o MapSet({<<11>>, <<4, 5>>} \X {2, 8}, LAMBDA t : E("pnorm", <<In(t[1], "any")>>, <<1>>, [p |-> t[2], axis |-> <<>>, ak |-> "none"]))
    \o MapSet(BigAx \X {2, 8}, LAMBDA t : E("pnorm", <<In(t[1][1], "any")>>, <<1>>, [p |-> t[2], axis |-> t[1][2], ak |-> "tuple"]))
    \o MapSet({7, 12}, LAMBDA n : E("dot", Two(<<n>>, <<n>>), <<1, 2>>, [axis |-> 0]))
    \o MapSet({<<<<4, 3>>, 1>>, <<<<3, 5>>, 0>>, <<<<2, 3, 4>>, 1>>, <<<<2, 2, 2, 3>>, -1>>, <<<<3, 2, 2, 2>>, 0>>} \X {"dot", "cross"} \X {<<1, 2>>, <<1, 1>>},
              LAMBDA t : E(t[2], InsFor(t[3], t[1][1], "any"), t[3], [axis |-> t[1][2]]))
    \o <<E("inner", Two(<<4, 5>>, <<5, 3>>), <<1, 2>>, [axes |-> <<<<1>>, <<0>>>>]),
         E("inner", Two(<<4, 5>>, <<2, 5, 4>>), <<1, 2>>, [axes |-> <<<<0, 1>>, <<2, 1>>>>]),
         E("inner", Two(<<2, 3, 2>>, <<2, 3, 2>>), <<1, 2>>, [axes |-> <<<<2, 1>>, <<0, 1>>>>]),
         E("inner", Two(<<2, 3, 2, 2>>, <<2, 3>>), <<1, 2>>, [axes |-> <<<<1, 3>>, <<1, 0>>>>]),
         E("outer", Two(<<5>>, <<4>>), <<1, 2>>, NoP), E("outer", Two(<<4, 2>>, <<3, 2>>), <<1, 2>>, NoP),
         E("outer", Two(<<2, 2, 2>>, <<2, 3>>), <<1, 2>>, NoP),
         E("matmat", Two(<<4, 5>>, <<5, 3>>), <<1, 2>>, NoP), E("matvec", Two(<<5, 4>>, <<4>>), <<1, 2>>, NoP),
         E("matmat", Two(<<1, 6>>, <<6, 5>>), <<1, 2>>, NoP), E("matmat", <<In(<<4, 4>>, "any")>>, <<1, 1>>, NoP),
         E("transpose", <<In(<<4, 5>>, "any")>>, <<1>>, NoP), E("transpose", <<In(<<3, 4, 2>>, "any")>>, <<1>>, NoP),
         E("reorder", <<In(<<4, 2, 3>>, "any")>>, <<1>>, [perm |-> <<3, 1, 2>>]),
         E("reorder", <<In(<<2, 3, 2, 4>>, "any")>>, <<1>>, [perm |-> <<4, 1, 3, 2>>]),
         E("reshape", <<In(<<4, 6>>, "any")>>, <<1>>, [shape |-> <<2, 3, 2, 2>>]),
         E("expand", <<In(<<4, 3>>, "any")>>, <<1>>, [shape |-> <<2, 4, 5, 3>>, pos |-> <<2, 4>>]),
         E("expand", <<In(<<5>>, "any")>>, <<1>>, [shape |-> <<4, 5>>, pos |-> <<2>>]),
         E("expand", <<In(<<1>>, "any")>>, <<1>>, [shape |-> <<4, 5>>, pos |-> <<>>]),
         E("rotmat", <<In(<<7>>, "wide")>>, <<1>>, [axis |-> "x"]), E("rotmat", <<In(<<3, 2>>, "wide")>>, <<1>>, [axis |-> "y"]),
         E("rotmat", <<In(<<2, 3>>, "wide")>>, <<1>>, [axis |-> "z"])>>
\* labels with larger sizes: label l has size (4, 5, 2, 3)[l]
BDim == <<4, 5, 2, 3>>
BShape(l) == [a \in 1..Len(l) |-> BDim[l[a]]]
BigEin == MapSet({<<<<<<1, 2>>>>, <<2>>>>, <<<<<<1, 2>>, <<2, 3>>>>, <<3, 1>>>>, <<<<<<1>>, <<2>>>>, <<2, 1>>>>,
                  <<<<<<1, 3>>, <<3, 4>>, <<4, 1>>>>, <<>>>>, <<<<<<1, 3>>, <<3, 4>>, <<4, 2>>>>, <<2, 1>>>>,
                  <<<<<<3, 1, 4>>, <<4, 3>>>>, <<1>>>>, <<<<<<3>>, <<3>>, <<3>>, <<3>>>>, <<>>>>,
                  <<<<<<3>>, <<4>>, <<3, 4>>, <<4, 3>>>>, <<4>>>>, <<<<<<1, 2>>, <<1, 2>>>>, <<>>>>},
                 LAMBDA t : E("einsum", [k \in 1..Len(t[1]) |-> In(BShape(t[1][k]), "any")], [k \in 1..Len(t[1]) |-> k],
                              [ins |-> t[1], out |-> t[2]]))
BigIndex == MapSet({<<a, b, s>> \in {<<0, 17, 3>>, <<5, 16, 4>>, <<2, 9, 1>>, <<0, 17, 16>>, <<16, 17, 1>>} : TRUE}, LAMBDA s : GetE(<<17>>, KeyS(s)))
    \o MapSet({0, 9, 16}, LAMBDA n : GetE(<<17>>, KeyI(n)))
    \o <<GetE(<<4, 5>>, KeyT(<<<<0, 4, 3>>, <<1, 5, 2>>>>)), GetE(<<4, 5>>, KeyT(<<<<3, 4, 1>>, <<0, 5, 4>>>>)),
         GetE(<<4, 5>>, KeyT(<<<<1, 3, 1>>, <<0, 5, 1>>>>)), GetE(<<2, 3, 2, 2>>, KeyT(<<<<0, 2, 1>>, <<0, 3, 2>>, <<1, 2, 1>>, <<0, 2, 1>>>>)),
         GetE(<<3, 4, 5>>, KeyT(<<<<0, 3, 2>>, <<1, 4, 2>>, <<0, 5, 4>>>>))>>

-----------------------------------------------------------------------------
(* outputs that are assembled: <<shape, keys>>, with one operand per key    *)
AsmSet == {<<<<7>>, <<KeyS(<<0, 3, 1>>), KeyS(<<3, 7, 1>>)>>>>, <<<<7>>, <<KeyS(<<1, 7, 2>>), KeyS(<<0, 7, 2>>)>>>>,
           <<<<9>>, <<KeyS(<<0, 9, 3>>), KeyS(<<2, 9, 3>>), KeyI(4)>>>>, <<<<9>>, <<KeyI(8), KeyI(0), KeyT(<<<<1, 8, 1>>>>)>>>>,
           <<<<1>>, <<KeyI(0)>>>>, <<<<3>>, <<KeyS(<<0, 3, 1>>)>>>>, <<<<5>>, <<KeyI(3), KeyI(1)>>>>, <<<<4>>, <<KeyT(<<<<1, 3, 1>>>>)>>>>,
           <<<<4, 5>>, <<KeyT(<<<<0, 2, 1>>, <<0, 5, 1>>>>), KeyT(<<<<2, 4, 1>>, <<0, 5, 1>>>>)>>>>,
           <<<<4, 5>>, <<KeyT(<<<<0, 4, 1>>, <<0, 5, 2>>>>), KeyT(<<<<0, 4, 3>>, <<1, 5, 2>>>>)>>>>,
           <<<<3, 3>>, <<KeyT(<<<<0, 3, 1>>, <<0, 1, 1>>>>), KeyT(<<<<2, 3, 1>>, <<1, 3, 1>>>>), KeyT(<<<<0, 1, 1>>, <<1, 2, 1>>>>)>>>>,
           <<<<2, 3, 2>>, <<KeyT(<<<<0, 2, 1>>, <<1, 3, 1>>, <<1, 2, 1>>>>), KeyT(<<<<1, 2, 1>>, <<0, 3, 1>>, <<0, 1, 1>>>>)>>>>,
           <<<<2, 3, 2, 2>>, <<KeyT(<<<<0, 2, 1>>, <<0, 3, 2>>, <<0, 2, 1>>, <<1, 2, 1>>>>)>>>>,
           <<<<1, 4>>, <<KeyT(<<<<0, 1, 1>>, <<0, 4, 2>>>>), KeyT(<<<<0, 1, 1>>, <<1, 4, 2>>>>)>>>>,
           <<<<4, 1>>, <<KeyT(<<<<2, 4, 1>>, <<0, 1, 1>>>>), KeyT(<<<<0, 2, 1>>, <<0, 1, 1>>>>)>>>>}
\* the same keys in outputs of several sizes
AsmOpen == UNION {{<<<<n>>, <<KeyS(<<0, n, 2>>), KeyS(<<1, n, 2>>)>>>>, <<<<n>>, <<KeyI(0), KeyS(<<1, n, 1>>)>>>>, <<<<n>>, <<KeyS(<<0, n, 1>>)>>>>} : n \in 3..6}
           \cup {<<<<n, 2>>, <<KeyT(<<<<1, n, 1>>, <<0, 1, 1>>>>), KeyT(<<<<0, n, 1>>, <<1, 2, 1>>>>)>>>> : n \in 2..4}
AsmSeq == MapSet(AsmSet \cup AsmOpen, LAMBDA t : E("assemble", [k \in 1..Len(t[2]) |-> In(Selected(t[1], t[2][k]).shape, "any")],
                                      [k \in 1..Len(t[2]) |-> k], [shape |-> t[1], keys |-> t[2]]))

Catalog == CASE Family = "arith"  -> BigArith \o ArithSeq
             [] Family = "std"    -> BigStd \o StdSeq
             [] Family = "array"  -> BigArray \o RedSeq \o ProdSeq \o ShapeSeq
             [] Family = "einsum" -> BigEin \o EinSeq
             [] Family = "index"  -> BigIndex \o IndexSeq
             [] Family = "cond"   -> CondSeq
             [] Family = "assemble" -> AsmSeq
             [] Family = "all"    -> BigArith \o BigStd \o BigArray \o RedSeq \o ProdSeq \o ShapeSeq \o BigEin \o IndexSeq \o BigIndex \o AsmSeq

\* where an operand comes from: an input, an independent variable, an expression that
\* has no name, one that received its name before or after the operation was
\* written, or the output of a child group.  What is computed does not depend on it.
OperandPlaces == <<"input", "indep", "expr", "before", "after", "child">>
PlacesOf(n, x) == [k \in 1..Len(x.ins) |-> OperandPlaces[((n + (2 * k - 2) * (1 + ((n \div 6) % 3)) + Rot) % 6) + 1]]

ArgShapes(x) == [k \in 1..Len(x.args) |-> x.ins[x.args[k]].sh]

Init == /\ LET c == TLCEval(Catalog) IN \E n \in 1..Len(c) : i = n /\ en = c[n]
        /\ st = "chosen"
        /\ shapeOK = TRUE

Evaluate ==
    /\ st = "chosen"
    /\ LET d == Full(en.op, ArgShapes(en), en.p)
       IN /\ shapeOK' = /\ Len(d.shape) >= 1
                        /\ Len(d.el) = Size(d.shape)
                        /\ \A k \in 1..Len(d.el) : \A v \in Vars(d.el[k]) :
                              v[1] \in 1..Len(en.args) /\ v[2] \in 1..Size(ArgShapes(en)[v[1]])
          /\ PrintT("J" \o ToJson([n |-> i, e |-> en, d |-> d, from |-> PlacesOf(i, en)]))
    /\ st' = "evaluated"
    /\ UNCHANGED <<i, en>>
Next == Evaluate
Spec == Init /\ [][Next]_vars

\* every element of every operation is a well-formed term over its operands
WellFormed == shapeOK
\* operations that only move elements: every element is one operand element
MoveOps == {"get", "reshape", "transpose", "reorder", "expand", "pos"}
MovesOnly == st = "evaluated" /\ en.op \in MoveOps =>
    \A k \in 1..Size(Den(en.op, ArgShapes(en), en.p).shape) : Den(en.op, ArgShapes(en), en.p).el[k][1] = "x"
=============================================================================
