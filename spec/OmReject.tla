----------------------------- MODULE OmReject -----------------------------
(***************************************************************************)
(* Which applications of operations are well formed.                       *)
(*                                                                         *)
(* Every entry is an application of one operation to operands of given     *)
(* shapes (or kinds), most of them ill formed.  Admits says which are well *)
(* formed; an ill-formed one must be rejected when the model is built, and *)
(* a well-formed one must be accepted.                                     *)
(*                                                                         *)
(* The verdict is about the application alone: it is the same in every     *)
(* context, that is wherever in the model the application stands, wherever *)
(* its operands come from, whatever becomes of its value.  Contexts are    *)
(* behaviours of their own (n = 8); replay combines them with the entries. *)
(***************************************************************************)
EXTENDS OmWell, Json

CONSTANT Deep
VARIABLES e, n
vars == <<e, n>>

Pool == {<<1>>, <<2>>, <<3>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 3>>, <<1, 3>>, <<3, 1>>}
        \cup (IF Deep THEN {<<4>>, <<1, 1>>, <<2, 3, 2>>, <<3, 2, 2>>, <<2, 2, 3>>, <<3, 3, 3>>} ELSE {<<2, 3, 2>>})
Pairs == Pool \X Pool
SqrtPool == {s \in Pool : Size(s) <= 4}

FEWise == {E(op, <<a, b>>, NoP) : op \in Elementwise2, a \in Pool, b \in Pool}
FEWise3 == {E(op, t, NoP) : op \in {"sum", "average", "max", "min"},
                           t \in UNION {{<<a, a, b>>, <<a, b, a>>, <<b, a, a>>} : a \in SqrtPool, b \in SqrtPool}}
FBranches == {E("if_else", <<<<1>>, a, b>>, NoP) : a \in Pool, b \in Pool}
FArrayConst == {E(op, <<a>>, [cs |-> b]) : op \in {"addc", "subc", "mulc", "divc", "powc"}, a \in Pool, b \in Pool}
FMat == {E(op, <<a, b>>, NoP) : op \in {"matmat", "matvec"}, a \in {s \in Pool : Len(s) = 2}, b \in {s \in Pool : Len(s) <= 2}}
FDot == {E("dot", <<a, b>>, [axis |-> x]) : a \in Pool, b \in Pool, x \in 0..2}
FCross == {E("cross", <<a, b>>, [axis |-> x]) : a \in Pool, b \in Pool, x \in 0..2}
FInner == {E("inner", <<a, b>>, [axes |-> ax]) : a \in Pool, b \in Pool,
             ax \in {<<<<i>>, <<j>>>> : i \in 0..2, j \in 0..2} \cup (IF Deep THEN {<<<<0, 1>>, <<0, 1>>>>, <<<<0, 1>>, <<1, 0>>>>, <<<<0, 1>>, <<0>>>>} ELSE {<<<<0, 1>>, <<0, 1>>>>})}
FNorm == {E("pnorm", <<s>>, [p |-> q]) : s \in {<<3>>, <<2, 2>>}, q \in -5..9}
FReshape == {E("reshape", <<s>>, [shape |-> t]) : s \in Pool, t \in Pool \cup {<<6>>, <<9>>, <<4>>, <<12>>}}
\* subscripts: which axes of the result the operand has, or none given
ExpandT == {<<3>>, <<2, 3>>, <<3, 2>>, <<2, 2>>, <<2, 3, 2>>, <<3, 2, 3>>}
FExpand == {E("expand", <<s>>, [shape |-> t, pos |-> q]) : s \in Pool, t \in ExpandT,
              q \in {<<>>} \cup {SetToSortSeq(x, <) : x \in (SUBSET (1..3)) \ {{}}} \cup {<<2, 1>>, <<0>>, <<1, 0>>}}
FEin == {E("einsum", <<a, b>>, [ins |-> i, out |-> o]) : a \in {s \in Pool : Len(s) <= 2}, b \in {s \in Pool : Len(s) <= 2},
           i \in {<<x, y>> \in {<<1>>, <<1, 2>>, <<1, 1>>} \X {<<1>>, <<2>>, <<1, 2>>, <<2, 3>>, <<2, 1>>} : TRUE},
           o \in {<<1>>, <<2, 1>>}}
\* kinds of operands that are not expressions or numbers
Kinds == {"str", "none", "list", "dict", "object", "type"}
FBadKinds == {E("kind", <<<<3>>>>, [f |-> f, kind |-> k]) :
               f \in {"add", "sub", "mul", "div", "radd", "rsub", "rmul", "rdiv", "pow"}, k \in Kinds}
            \cup {E("kind", <<<<3>>>>, [f |-> f, kind |-> k]) :
               f \in {"exp", "log", "log10", "sin", "cos", "tan", "sec", "cosec", "cotan", "arcsin", "arccos", "arctan",
                      "sinh", "cosh", "tanh", "sech", "cosech", "cotanh", "sum", "average", "max", "min", "pnorm", "transpose",
                      "reshape", "expand", "rotmat", "reorder_axes", "einsum", "einsum_new_api", "if_else", "assign",
                      "dot", "inner", "outer", "cross", "matmat", "matvec", "sum2", "max2", "dot2", "inner2", "outer2", "cross2", "matmat2", "matvec2",
                      "register", "define"},
               k \in Kinds \cup {"number", "array"}}
\* division by the number zero
FZero == {E("divzero", <<s>>, [kind |-> k]) : s \in {<<1>>, <<3>>, <<2, 2>>}, k \in {"int", "float", "npint", "npfloat", "negzero", "nonzero"}}

All == FEWise \cup FEWise3 \cup FBranches \cup FArrayConst \cup FMat \cup FDot \cup FCross \cup FInner \cup FNorm \cup FReshape
       \cup FExpand \cup FEin \cup FBadKinds \cup FZero

\* a place in the model; a source of each operand; a use of the value
Contexts == {[pl |-> a, s1 |-> b, s2 |-> c, use |-> d] :
                a \in {"top", "class", "with", "deep", "between"},
                b \in {"input", "indep", "expr", "reg", "get", "whole", "parts", "child", "alias"},
                c \in {"input", "indep", "expr", "reg", "get", "whole", "parts", "child", "alias"},
                d \in {"reg", "expr", "whole", "parts", "branch"}}
            \* the residual of an implicit output, and the same with brackets
            \cup {[pl |-> a, s1 |-> b, s2 |-> c, use |-> "residual"] :
                a \in {"implicit", "bracketed"}, b \in {"input", "expr", "get"}, c \in {"input", "expr", "get", "out"}}

Init == /\ n \in 1..8
        /\ e \in {x \in CASE n = 1 -> FEWise \cup FEWise3 \cup FBranches [] n = 2 -> FArrayConst \cup FMat [] n = 3 -> FDot \cup FCross
                       [] n = 4 -> FInner [] n = 5 -> FNorm \cup FReshape \cup FZero [] n = 6 -> FExpand [] n = 7 -> FEin \cup FBadKinds
                       [] n = 8 -> {E("context", <<>>, c) : c \in Contexts} : Decided(x)}
Next == /\ n > 0
        /\ n' = 0
        /\ PrintT("J" \o ToJson([e |-> e, ok |-> IF n = 8 THEN TRUE ELSE Admits(e)]))
        /\ UNCHANGED e
Spec == Init /\ [][Next]_vars

\* what is well formed has a meaning: shape and elements
Meaningful == (e.op # "context" /\ Admits(e) /\ e.op \in {"add", "mul", "matmat", "matvec", "cross", "reshape", "expand", "if_else"}
               /\ \A i \in 1..Len(e.sh) : Size(e.sh[i]) <= 9)
              => LET den == Den(e.op, e.sh, e.p) IN Len(den.el) = Size(den.shape)
=============================================================================
