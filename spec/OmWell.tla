------------------------------- MODULE OmWell ------------------------------
(***************************************************************************)
(* Well-formed applications: which operands and parameters an operation    *)
(* admits.                                                                 *)
(***************************************************************************)
EXTENDS OmOps

\* an application of operation op to operands of the shapes sh, parameters p
E(op, sh, p) == [op |-> op, sh |-> sh, p |-> p]

Elementwise2 == {"add", "sub", "mul", "div", "sum", "average", "max", "min"}

Broadcasts(c, s) == /\ Len(c) <= Len(s)
                    /\ \A i \in 1..Len(c) : c[i] \in {1, s[i + Len(s) - Len(c)]}

\* applications that the documentation says nothing about are not decided here
Decided(x) ==
    CASE x.op = "dot" -> x.p.axis < Len(x.sh[1]) /\ (Len(x.sh[1]) = 1 => x.p.axis = 0)
      [] x.op = "cross" -> x.p.axis < Len(x.sh[1])
      [] x.op = "inner" -> /\ \A i \in 1..2 : \A j \in 1..Len(x.p.axes[i]) : x.p.axes[i][j] < Len(x.sh[i])
      [] x.op = "matvec" -> Len(x.sh[2]) = 1
      [] x.op = "expand" -> (x.sh[1] = <<1>> => x.p.pos = <<>>)
      [] x.op = "einsum" -> \A i \in 1..2 : Len(x.p.ins[i]) = Len(x.sh[i])
      \* a constant array that broadcasts to the shape of the expression
      [] x.op \in {"addc", "subc", "mulc", "divc"} -> x.p.cs = x.sh[1] \/ ~Broadcasts(x.p.cs, x.sh[1])
      [] x.op = "kind" -> ~(x.p.kind = "array" /\ x.p.f \in {"radd", "rsub", "rmul", "rdiv"})
      [] OTHER -> TRUE

Admits(x) ==
    CASE x.op \in Elementwise2 \cup {"addc"} /\ Len(x.sh) > 1 -> \A i \in 2..Len(x.sh) : x.sh[i] = x.sh[1]
      [] x.op = "if_else" -> x.sh[2] = x.sh[3]
      [] x.op \in {"addc", "subc", "mulc", "divc", "powc"} -> x.p.cs = x.sh[1]
      [] x.op \in {"matmat", "matvec"} -> x.sh[1][2] = x.sh[2][1]
      [] x.op = "dot" -> x.sh[1] = x.sh[2] /\ (Len(x.sh[1]) = 1 \/ x.sh[1][x.p.axis + 1] = 3)
      [] x.op = "cross" -> x.sh[1] = x.sh[2] /\ x.sh[1][x.p.axis + 1] = 3
      [] x.op = "inner" -> /\ Len(x.p.axes[1]) = Len(x.p.axes[2])
                           /\ \A j \in 1..Len(x.p.axes[1]) : x.sh[1][x.p.axes[1][j] + 1] = x.sh[2][x.p.axes[2][j] + 1]
      [] x.op = "pnorm" -> x.p.p > 0 /\ x.p.p % 2 = 0
      [] x.op = "reshape" -> Size(x.sh[1]) = Size(x.p.shape)
      [] x.op = "expand" -> \/ x.sh[1] = <<1>>
                            \/ /\ x.p.pos # <<>>
                               /\ \A i \in 1..Len(x.p.pos) : x.p.pos[i] \in 1..Len(x.p.shape)
                               /\ \A i, j \in 1..Len(x.p.pos) : i < j => x.p.pos[i] < x.p.pos[j]
                               /\ Pick(x.p.shape, x.p.pos) = x.sh[1]
      [] x.op = "einsum" -> /\ Consistent(x.sh, x.p.ins)
                            /\ Range(x.p.out) \subseteq Labels(x.p.ins)
      [] x.op = "kind" -> FALSE
      [] x.op = "divzero" -> x.p.kind = "nonzero"
=============================================================================
