------------------------------- MODULE OmOps --------------------------------
(***************************************************************************)
(* Meaning of every operation of omtools on expressions: the shape of the  *)
(* result, and each element of the result as a term over the elements of   *)
(* the operands.  Derivatives follow by symbolic differentiation.          *)
(*                                                                         *)
(* Den(op, sh, p): op is the name of the operation, sh the sequence of the *)
(* shapes of the operands, p the record of its parameters.                 *)
(***************************************************************************)
EXTENDS OmTensor, OmTerm

X(sh, k, idx) == <<"x", k, Ravel(sh[k], idx) + 1>>     \* by multi-index
XF(k, f)      == <<"x", k, f + 1>>                     \* by flat index

R(shape, el(_)) == [shape |-> TLCEval(shape), el |-> TLCEval([i \in 1..Size(shape) |-> el(i - 1)])]

\* sequence of the flat indices f of shape s that satisfy P
Where(s, P(_)) == SelectSeq(Upto(Size(s)), P)

ScalarIfEmpty(s) == IF s = <<>> THEN <<1>> ELSE s

-----------------------------------------------------------------------------
(* reductions over a set of axes (all axes if full)                        *)
\* groups: for each element of the result, the flat indices reduced into it
Reduced(s, ax) ==
    LET kept == TLCEval(Kept(Len(s), ax))
        outsh == TLCEval(Pick(s, kept))
    IN [shape |-> ScalarIfEmpty(outsh),
        grp |-> TLCEval([i \in 1..Size(outsh) |->
                   Where(s, LAMBDA f : Pick(Unravel(s, f), kept) = Unravel(outsh, i - 1))])]

RECURSIVE FlattenR(_, _)
FlattenR(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o FlattenR(ss, i + 1)
Flat(ss) == FlattenR(ss, 1)

\* elements of all n operands at the flat indices in g
Elems(n, g) == TLCEval(Flat([k \in 1..n |-> [i \in 1..Len(g) |-> XF(k, g[i])]]))

\* p.axes = <<>> stands for no axes
SumLike(sh, p, mean) ==
    LET n == Len(sh)
        fin(s) == IF mean THEN Mul(<<"q", 1, Len(s)>>, Sum(s)) ELSE Sum(s)
    IN IF Len(p.axes) = 0
       THEN IF n = 1
            THEN R(<<1>>, LAMBDA f : fin(Elems(1, Upto(Size(sh[1])))))
            ELSE R(sh[1], LAMBDA f : fin(Elems(n, <<f>>)))
       ELSE LET r == Reduced(sh[1], Axes(Len(sh[1]), p.axes))
            IN R(r.shape, LAMBDA f : fin(Elems(n, r.grp[f + 1])))

\* smooth extremum; sign = 1 for max, -1 for min; p.axis = <<>> for no axis
Extremum(sh, p, sign) ==
    LET n == Len(sh)
        sg(s) == IF sign = 1 THEN s ELSE TLCEval([i \in 1..Len(s) |-> Neg(s[i])])
        ext(s) == IF sign = 1 THEN <<"lse", p.rho, s>> ELSE Neg(<<"lse", p.rho, sg(s)>>)
    IN IF Len(p.axis) > 0
       THEN LET r == Reduced(sh[1], Axes(Len(sh[1]), p.axis))
            IN R(r.shape, LAMBDA f : ext(Elems(1, r.grp[f + 1])))
       ELSE IF n > 1 THEN R(sh[1], LAMBDA f : ext(Elems(n, <<f>>)))
       ELSE R(<<1>>, LAMBDA f : ext(Elems(1, Upto(Size(sh[1])))))

PNorm(sh, p) ==
    LET nrm(s) == Pow(Sum(TLCEval([i \in 1..Len(s) |-> Pow(s[i], p.p, 1)])), 1, p.p)
    IN IF Len(p.axis) = 0
       THEN R(<<1>>, LAMBDA f : nrm(Elems(1, Upto(Size(sh[1])))))
       ELSE LET r == Reduced(sh[1], Axes(Len(sh[1]), p.axis))
            IN R(r.shape, LAMBDA f : nrm(Elems(1, r.grp[f + 1])))

-----------------------------------------------------------------------------
(* Einstein summation: ins[k] is the sequence of labels of operand k       *)
Labels(ins) == UNION {Range(ins[k]) : k \in 1..Len(ins)}
Dim(sh, ins, l) == LET k == CHOOSE k \in 1..Len(ins) : l \in Range(ins[k])
                       a == CHOOSE a \in 1..Len(ins[k]) : ins[k][a] = l
                   IN sh[k][a]
\* every occurrence of a label has the same size
Consistent(sh, ins) ==
    \A k \in 1..Len(ins) : \A a \in 1..Len(ins[k]) :
        sh[k][a] = Dim(sh, ins, ins[k][a])

Ein(sh, ins, out) ==
    LET summed == TLCEval(SetToSeq(Labels(ins) \ Range(out)))
        outsh == TLCEval([a \in 1..Len(out) |-> Dim(sh, ins, out[a])])
        sumsh == TLCEval([a \in 1..Len(summed) |-> Dim(sh, ins, summed[a])])
        el(f) == LET o == TLCEval(Unravel(outsh, f)) IN
            Sum([i \in 1..Size(sumsh) |->
                LET u == TLCEval(Unravel(sumsh, i - 1))
                    at(l) == IF l \in Range(out)
                             THEN o[CHOOSE a \in 1..Len(out) : out[a] = l]
                             ELSE u[CHOOSE a \in 1..Len(summed) : summed[a] = l]
                IN Prod(TLCEval([k \in 1..Len(ins) |->
                          X(sh, k, [a \in 1..Len(ins[k]) |-> at(ins[k][a])])]))])
    IN R(ScalarIfEmpty(outsh), LAMBDA f : el(f))

LabelsFrom(n, base) == [a \in 1..n |-> base + a]

\* inner product: contract axis axes[1][i] of the first operand with
\* axis axes[2][i] of the second
Inner(sh, p) ==
    LET a1 == p.axes[1]  a2 == p.axes[2]
        n1 == Len(sh[1]) n2 == Len(sh[2])
        l1 == TLCEval(LabelsFrom(n1, 0))
        l2 == TLCEval([b \in 1..n2 |->
                 IF \E i \in 1..Len(a2) : Axis(n2, a2[i]) = b
                 THEN Axis(n1, a1[CHOOSE i \in 1..Len(a2) : Axis(n2, a2[i]) = b])
                 ELSE 100 + b])
        c1 == Axes(n1, a1) c2 == Axes(n2, a2)
    IN Ein(sh, <<l1, l2>>, Pick(l1, Kept(n1, c1)) \o Pick(l2, Kept(n2, c2)))

Dot(sh, p) ==
    LET n == Len(sh[1]) l == LabelsFrom(n, 0)
    IN Ein(sh, <<l, l>>, IF n = 1 THEN <<>> ELSE Pick(l, Kept(n, {Axis(n, p.axis)})))

Outer(sh) == LET l1 == LabelsFrom(Len(sh[1]), 0) l2 == LabelsFrom(Len(sh[2]), 100)
             IN Ein(sh, <<l1, l2>>, l1 \o l2)

MatMul(sh) == IF Len(sh[2]) = 1 THEN Ein(sh, <<<<1, 2>>, <<2>>>>, <<1>>)
              ELSE Ein(sh, <<<<1, 2>>, <<2, 3>>>>, <<1, 3>>)

\* axis i of the result is axis perm[i] of the operand
Reorder(sh, perm) == LET l == LabelsFrom(Len(sh[1]), 0) IN Ein(sh, <<l>>, Pick(l, perm))

Cross(sh, p) ==
    LET s == sh[1] a == Axis(Len(s), p.axis)
        at(k, idx, c) == X(sh, k, [idx EXCEPT ![a] = c % 3])
        el(f) == LET idx == Unravel(s, f) c == idx[a]
                 IN Sub2(Mul(at(1, idx, c + 1), at(2, idx, c + 2)),
                         Mul(at(1, idx, c + 2), at(2, idx, c + 1)))
    IN R(s, LAMBDA f : el(f))

\* p.pos: axes of the result (from 1) that are the axes of the operand, in order
Expand(sh, p) ==
    IF sh[1] = <<1>> THEN R(p.shape, LAMBDA f : XF(1, 0))
    ELSE R(p.shape, LAMBDA f : X(sh, 1, Pick(Unravel(p.shape, f), p.pos)))

RotMat(sh, p) ==
    LET outsh == IF sh[1] = <<1>> THEN <<3, 3>> ELSE sh[1] \o <<3, 3>>
        c(t) == Fn("cos", t) s(t) == Fn("sin", t)
        m(t) == CASE p.axis = "x" -> <<One, Zero, Zero, Zero, c(t), Neg(s(t)), Zero, s(t), c(t)>>
                  [] p.axis = "y" -> <<c(t), Zero, s(t), Zero, One, Zero, Neg(s(t)), Zero, c(t)>>
                  [] p.axis = "z" -> <<c(t), Neg(s(t)), Zero, s(t), c(t), Zero, Zero, Zero, One>>
    IN R(outsh, LAMBDA f : m(XF(1, f \div 9))[(f % 9) + 1])

-----------------------------------------------------------------------------
(* indexing.  A key is a record                                            *)
(*   [k |-> "i", i |-> n]              an integer (flat)                   *)
(*   [k |-> "s", s |-> <<a, b, c>>]    a slice of the flattened array      *)
(*   [k |-> "t", t |-> <<s1, ..>>]     a tuple of slices, one per axis;    *)
(* bounds are explicit numbers here (the harness also leaves them out)     *)
GridOf(key) ==
    IF key.k = "t" THEN [a \in 1..Len(key.t) |-> SliceSeq(key.t[a][1], key.t[a][2], key.t[a][3])]
    ELSE IF key.k = "s" THEN <<SliceSeq(key.s[1], key.s[2], key.s[3])>>
    ELSE <<<<key.i>>>>

\* flat indices selected from an array of shape s, in the order of the result
Selected(s, key) ==
    LET g == GridOf(key) gs == GridShape(g)
    IN [shape |-> gs,
        flat |-> [f \in 1..Size(gs) |->
                    IF key.k = "t" THEN Ravel(s, GridIdx(g, f - 1)) ELSE GridIdx(g, f - 1)[1]]]

KeyInRange(s, key) ==
    IF key.k = "t" THEN /\ Len(key.t) = Len(s)
                        /\ LET g == GridOf(key) IN
                           \A a \in 1..Len(s) : /\ Len(g[a]) > 0
                                                /\ \A i \in 1..Len(g[a]) : g[a][i] < s[a]
    ELSE LET g == GridOf(key)[1] IN /\ Len(g) > 0
                                    /\ \A i \in 1..Len(g) : g[i] < Size(s)

Get(sh, p) == LET s == TLCEval(Selected(sh[1], p.key))
              IN R(s.shape, LAMBDA f : XF(1, s.flat[f + 1]))

\* p.shape: shape of the output; p.keys[k]: where operand k is assigned
Assemble(sh, p) ==
    LET sel == TLCEval([k \in 1..Len(sh) |-> TLCEval(Selected(p.shape, p.keys[k]).flat)])
        el(f) == LET src == {<<k, i>> \in {<<k, i>> : k \in 1..Len(sh), i \in 1..Size(p.shape)} :
                               i <= Len(sel[k]) /\ sel[k][i] = f}
                 IN IF src = {} THEN One
                    ELSE LET w == CHOOSE w \in src : TRUE IN XF(w[1], w[2] - 1)
    IN R(p.shape, LAMBDA f : el(f))

-----------------------------------------------------------------------------
(* literals: p.c is <<n, d>> (a number) or a sequence of such (an array)   *)
Lit(p, f) == IF p.lk = "array" THEN Rat(p.c[f + 1]) ELSE Rat(p.c[1])
LitQ(p, f) == IF p.lk = "array" THEN p.c[f + 1] ELSE p.c[1]

\* t ** (n/d)
PowLit(t, q) == Pow(t, q[1], q[2])

Den(op, sh, p) ==
    LET el1(g(_)) == R(sh[1], LAMBDA f : g(XF(1, f)))
    IN
    CASE op \in Functions -> R(sh[1], LAMBDA f : Fn(op, XF(1, f)))
      [] op \in {"pos", "wire"} -> R(sh[1], LAMBDA f : XF(1, f))
      [] op = "neg"   -> R(sh[1], LAMBDA f : Neg(XF(1, f)))
      [] op = "add"   -> R(sh[1], LAMBDA f : Add2(XF(1, f), XF(2, f)))
      [] op = "sub"   -> R(sh[1], LAMBDA f : Sub2(XF(1, f), XF(2, f)))
      [] op = "mul"   -> R(sh[1], LAMBDA f : Mul(XF(1, f), XF(2, f)))
      [] op = "div"   -> R(sh[1], LAMBDA f : Div(XF(1, f), XF(2, f)))
      [] op \in {"addc", "raddc"} -> R(sh[1], LAMBDA f : <<"+", <<XF(1, f), Lit(p, f)>>>>)
      [] op = "subc"  -> R(sh[1], LAMBDA f : <<"+", <<XF(1, f), Neg(Lit(p, f))>>>>)
      [] op = "rsubc" -> R(sh[1], LAMBDA f : <<"+", <<Lit(p, f), Neg(XF(1, f))>>>>)
      [] op \in {"mulc", "rmulc"} -> R(sh[1], LAMBDA f : <<"*", Lit(p, f), XF(1, f)>>)
      [] op = "divc"  -> R(sh[1], LAMBDA f : <<"/", XF(1, f), Lit(p, f)>>)
      [] op = "rdivc" -> R(sh[1], LAMBDA f : <<"/", Lit(p, f), XF(1, f)>>)
      [] op = "powc"  -> R(sh[1], LAMBDA f : PowLit(XF(1, f), LitQ(p, f)))
      [] op = "sum"     -> SumLike(sh, p, FALSE)
      [] op = "average" -> SumLike(sh, p, TRUE)
      [] op = "max"     -> Extremum(sh, p, 1)
      [] op = "min"     -> Extremum(sh, p, -1)
      [] op = "pnorm"   -> PNorm(sh, p)
      [] op = "dot"     -> Dot(sh, p)
      [] op = "inner"   -> Inner(sh, p)
      [] op = "outer"   -> Outer(sh)
      [] op = "cross"   -> Cross(sh, p)
      [] op \in {"matmat", "matvec"} -> MatMul(sh)
      [] op = "transpose" -> Reorder(sh, Reverse([a \in 1..Len(sh[1]) |-> a]))
      [] op = "reorder" -> Reorder(sh, p.perm)
      [] op = "reshape" -> R(p.shape, LAMBDA f : XF(1, f))
      [] op = "expand"  -> Expand(sh, p)
      [] op = "rotmat"  -> RotMat(sh, p)
      [] op = "einsum"  -> Ein(sh, p.ins, p.out)
      [] op = "if_else" -> R(sh[2], LAMBDA f : <<"sel", XF(1, 0), XF(2, f), XF(3, f)>>)
      [] op = "get"     -> Get(sh, p)
      [] op = "assemble" -> Assemble(sh, p)

\* the non-zero derivatives of one element: sequence of <<operand, element, term>>
Jac(t) == LET v == TLCEval(SetToSeq(Vars(t)))
          IN SelectSeq([i \in 1..Len(v) |-> <<v[i][1], v[i][2], D(t, v[i][1], v[i][2])>>],
                       LAMBDA e : ~IsZero(e[3]))

Full(op, sh, p) == LET d == TLCEval(Den(op, sh, p))
                   IN [shape |-> d.shape, el |-> d.el,
                       jac |-> TLCEval([i \in 1..Len(d.el) |-> Jac(d.el[i])])]

-----------------------------------------------------------------------------
(* Laws that relate the operations; checked by TLC                         *)
NoP == [lk |-> "none"]
Same(a, b) == a.shape = b.shape /\ a.el = b.el

\* substitution of the elements of the single operand of a term
RECURSIVE Subst(_, _)
Subst(t, e) ==
    CASE t[1] = "x" -> e[t[3]]
      [] t[1] = "q" -> t
      [] t[1] = "+" -> Sum([i \in 1..Len(t[2]) |-> Subst(t[2][i], e)])
      [] t[1] = "*" -> Mul(Subst(t[2], e), Subst(t[3], e))
\* Den of op2 applied to the result of op1
Then(d1, op2, p2) == LET d2 == Den(op2, <<d1.shape>>, p2)
                     IN [shape |-> d2.shape, el |-> [i \in 1..Len(d2.el) |-> Subst(d2.el[i], d1.el)]]

ASSUME TransposeInvolution ==
    \A s \in LawShapes : Same(Then(Den("transpose", <<s>>, NoP), "transpose", NoP),
                              Den("pos", <<s>>, NoP))
ASSUME TransposeIsReorder ==
    Same(Den("transpose", <<<<2, 3>>>>, NoP), Den("reorder", <<<<2, 3>>>>, [perm |-> <<2, 1>>]))
ASSUME ReorderInverse ==
    Same(Then(Den("reorder", <<<<2, 1, 3>>>>, [perm |-> <<3, 1, 2>>]), "reorder", [perm |-> <<2, 3, 1>>]),
         Den("pos", <<<<2, 1, 3>>>>, NoP))
ASSUME ReshapeRoundTrip ==
    Same(Then(Den("reshape", <<<<2, 3>>>>, [shape |-> <<3, 2>>]), "reshape", [shape |-> <<2, 3>>]),
         Den("pos", <<<<2, 3>>>>, NoP))
ASSUME MatMulIsInner ==
    Same(Den("matmat", <<<<2, 3>>, <<3, 2>>>>, NoP),
         Den("inner", <<<<2, 3>>, <<3, 2>>>>, [axes |-> <<<<1>>, <<0>>>>]))
ASSUME InnerNegativeAxes ==
    Same(Den("inner", <<<<2, 3>>, <<3, 2>>>>, [axes |-> <<<<-1>>, <<-2>>>>]),
         Den("inner", <<<<2, 3>>, <<3, 2>>>>, [axes |-> <<<<1>>, <<0>>>>]))
ASSUME DotIsSumOfProducts ==
    Same(Den("dot", <<<<3>>, <<3>>>>, [axis |-> 0]),
         Den("einsum", <<<<3>>, <<3>>>>, [ins |-> <<<<1>>, <<1>>>>, out |-> <<>>]))
ASSUME OuterIsEinsum ==
    Same(Den("outer", <<<<2>>, <<3>>>>, NoP),
         Den("einsum", <<<<2>>, <<3>>>>, [ins |-> <<<<1>>, <<2>>>>, out |-> <<1, 2>>]))
ASSUME SumOverAxesIsSum ==
    Den("sum", <<<<2, 3>>>>, [axes |-> <<0>>]).shape = <<3>>
ASSUME CrossAntisymmetric ==
    LET c == Den("cross", <<<<3>>, <<3>>>>, [axis |-> 0]) IN
    \A i \in 1..3 : \A t \in {<<"x", 1, i>>, <<"x", 2, i>>} : D(c.el[i], t[2], t[3]) = Zero
ASSUME GetWholeIsIdentity ==
    Same(Get(<<<<2, 3>>>>, [key |-> [k |-> "t", t |-> <<<<0, 2, 1>>, <<0, 3, 1>>>>]]),
         Den("pos", <<<<2, 3>>>>, NoP))
ASSUME AssembleThenGet ==
    LET p == [shape |-> <<4>>, keys |-> <<[k |-> "s", s |-> <<1, 4, 2>>]>>]
        a == Assemble(<<<<2>>>>, p)
    IN Same(Then(a, "get", [key |-> p.keys[1]]), Den("pos", <<<<2>>>>, NoP))
=============================================================================
