------------------------------- MODULE OmTerm -------------------------------
(***************************************************************************)
(* Real-valued terms over the elements of the operands of an operation,    *)
(* and their symbolic derivatives.                                         *)
(*                                                                         *)
(*   <<"x", k, j>>      element j (from 1) of operand k (from 1)           *)
(*   <<"q", n, d>>      the rational number n/d                            *)
(*   <<"+", s>>         sum of the terms of the sequence s                 *)
(*   <<"*", a, b>>      product       <<"/", a, b>>  quotient              *)
(*   <<"^", t, n, d>>   t to the power n/d                                 *)
(*   <<"f", name, t>>   standard function                                  *)
(*   <<"lse", r, s>>    1/r log sum exp(r t), t in s   (smooth maximum)    *)
(*   <<"smx", r, s, i>> exp(r s_i) / sum exp(r t)      (softmax weight)    *)
(*   <<"sel", c, a, b>> a if c >= 0, otherwise b                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Q(n) == <<"q", n, 1>>
Zero == Q(0)
One  == Q(1)
IsQ(t, n) == t[1] = "q" /\ t[2] = n /\ t[3] = 1
IsZero(t) == t[1] = "q" /\ t[2] = 0

Sum(s) == LET nz == SelectSeq(TLCEval(s), LAMBDA t : ~IsZero(t))
          IN IF Len(nz) = 0 THEN Zero ELSE IF Len(nz) = 1 THEN nz[1] ELSE <<"+", nz>>
Mul(a, b) == IF IsZero(a) \/ IsZero(b) THEN Zero
             ELSE IF IsQ(a, 1) THEN b ELSE IF IsQ(b, 1) THEN a ELSE <<"*", a, b>>
Div(a, b) == IF IsZero(a) THEN Zero ELSE IF IsQ(b, 1) THEN a ELSE <<"/", a, b>>
Neg(t) == Mul(Q(-1), t)
Add2(a, b) == Sum(<<a, b>>)
Sub2(a, b) == Sum(<<a, Neg(b)>>)
Pow(t, n, d) == IF n = 0 THEN One ELSE IF n = d THEN t ELSE <<"^", t, n, d>>
Sq(t) == Pow(t, 2, 1)
Fn(name, t) == <<"f", name, t>>
Rat(q) == <<"q", q[1], q[2]>>
RECURSIVE Prod(_)
Prod(s) == IF Len(s) = 0 THEN One ELSE IF Len(s) = 1 THEN s[1]
           ELSE Mul(s[1], Prod(Tail(s)))

\* the standard functions
Functions == {"sin", "cos", "tan", "sec", "cosec", "cotan", "arcsin", "arccos",
              "arctan", "sinh", "cosh", "tanh", "sech", "cosech", "cotanh",
              "exp", "log", "log10"}

\* derivative of function name at t
FnD(name, t) ==
    CASE name = "sin"    -> Fn("cos", t)
      [] name = "cos"    -> Neg(Fn("sin", t))
      [] name = "tan"    -> Pow(Fn("cos", t), -2, 1)
      [] name = "sec"    -> Mul(Fn("sin", t), Pow(Fn("cos", t), -2, 1))
      [] name = "cosec"  -> Neg(Mul(Fn("cos", t), Pow(Fn("sin", t), -2, 1)))
      [] name = "cotan"  -> Neg(Pow(Fn("sin", t), -2, 1))
      [] name = "arcsin" -> Pow(Sub2(One, Sq(t)), -1, 2)
      [] name = "arccos" -> Neg(Pow(Sub2(One, Sq(t)), -1, 2))
      [] name = "arctan" -> Pow(Add2(One, Sq(t)), -1, 1)
      [] name = "sinh"   -> Fn("cosh", t)
      [] name = "cosh"   -> Fn("sinh", t)
      [] name = "tanh"   -> Sq(Fn("sech", t))
      [] name = "sech"   -> Neg(Mul(Fn("sech", t), Fn("tanh", t)))
      [] name = "cosech" -> Neg(Mul(Fn("cosech", t), Fn("cotanh", t)))
      [] name = "cotanh" -> Neg(Sq(Fn("cosech", t)))
      [] name = "exp"    -> Fn("exp", t)
      [] name = "log"    -> Pow(t, -1, 1)
      [] name = "log10"  -> Div(Pow(t, -1, 1), Fn("log", Q(10)))

\* operand elements that occur in a term
RECURSIVE Vars(_)
Vars(t) ==
    CASE t[1] = "x"   -> {<<t[2], t[3]>>}
      [] t[1] = "q"   -> {}
      [] t[1] = "+"   -> UNION {Vars(t[2][i]) : i \in 1..Len(t[2])}
      [] t[1] \in {"*", "/"} -> Vars(t[2]) \cup Vars(t[3])
      [] t[1] = "^"   -> Vars(t[2])
      [] t[1] = "f"   -> Vars(t[3])
      [] t[1] = "lse" -> UNION {Vars(t[3][i]) : i \in 1..Len(t[3])}
      [] t[1] = "smx" -> UNION {Vars(t[3][i]) : i \in 1..Len(t[3])}
      [] t[1] = "sel" -> Vars(t[2]) \cup Vars(t[3]) \cup Vars(t[4])

\* derivative of term t with respect to element j of operand k
RECURSIVE D(_, _, _)
D(t, k, j) ==
    CASE t[1] = "x"   -> IF t[2] = k /\ t[3] = j THEN One ELSE Zero
      [] t[1] = "q"   -> Zero
      [] t[1] = "+"   -> Sum([i \in 1..Len(t[2]) |-> D(t[2][i], k, j)])
      [] t[1] = "*"   -> Add2(Mul(D(t[2], k, j), t[3]), Mul(t[2], D(t[3], k, j)))
      [] t[1] = "/"   -> Sub2(Div(D(t[2], k, j), t[3]),
                              Div(Mul(t[2], D(t[3], k, j)), Sq(t[3])))
      [] t[1] = "^"   -> LET dt == D(t[2], k, j) IN
                         IF IsZero(dt) \/ t[3] = 0 THEN Zero
                         ELSE Mul(Mul(<<"q", t[3], t[4]>>,
                                      Pow(t[2], t[3] - t[4], t[4])), dt)
      [] t[1] = "f"   -> LET dt == D(t[3], k, j) IN
                         IF IsZero(dt) THEN Zero ELSE Mul(FnD(t[2], t[3]), dt)
      [] t[1] = "lse" -> Sum([i \in 1..Len(t[3]) |->
                              LET dt == D(t[3][i], k, j) IN
                              IF IsZero(dt) THEN Zero
                              ELSE Mul(<<"smx", t[2], t[3], i>>, dt)])
      [] t[1] = "sel" -> LET da == D(t[3], k, j) db == D(t[4], k, j) IN
                         IF IsZero(da) /\ IsZero(db) THEN Zero
                         ELSE <<"sel", t[2], da, db>>

-----------------------------------------------------------------------------
(* laws of differentiation, checked by TLC                                 *)
ASSUME DLinear ==
    LET a == <<"x", 1, 1>> b == <<"x", 1, 2>> IN
    /\ D(Add2(a, b), 1, 1) = One
    /\ D(Mul(Q(3), a), 1, 1) = Q(3)
    /\ D(Mul(a, b), 1, 1) = b
    /\ D(Mul(a, b), 2, 1) = Zero
    /\ D(Sq(a), 1, 1) = Mul(Q(2), a)
    /\ D(Fn("exp", a), 1, 1) = Fn("exp", a)
    /\ \A f \in Functions : D(Fn(f, a), 1, 2) = Zero
=============================================================================
