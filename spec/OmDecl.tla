------------------------------ MODULE OmDecl ------------------------------
(***************************************************************************)
(* Declaring a variable with a shape and a value.                          *)
(*                                                                         *)
(* A variable (independent variable, input, input of an implicit           *)
(* component, output, implicit output) is declared with a shape, or without one, and with a value: none, a number *)
(* or an array.  Its shape is the one given; where none is given (the      *)
(* default is one element) it is the shape of the array.  A number fills   *)
(* it, no value means one everywhere, an array of another shape than the   *)
(* one given is rejected.                                                  *)
(*                                                                         *)
(* Then the model is set up, run, set and set up again in any order.  The  *)
(* variable holds its declared value after every setup, until the user     *)
(* sets another, which it holds until the next setup.  An output that is   *)
(* found by iteration starts from what it holds.  Elements of an output     *)
(* that are never assigned hold one, or what the user sets.                *)
(***************************************************************************)
EXTENDS OmTensor, Json, TLC

CONSTANTS MaxOps, Deep

VARIABLES decl,   \* the declaration
          ops,    \* what was done with the model, and what it holds after that
          cur,    \* "declared", "set" or "none" (before the first setup)
          fresh   \* outputs follow: the model has run since the value last changed
vars == <<decl, ops, cur, fresh>>

Kinds == {"indep", "input", "parameter", "output", "assigned", "implicit"}
Default == <<1>>
GivenShapes == {<<>>, <<1>>, <<3>>, <<2, 2>>, <<1, 3>>, <<1, 1>>} \cup (IF Deep THEN {<<3, 1>>, <<2, 3, 2>>} ELSE {})
ArrayShapes == {<<1>>, <<3>>, <<4>>, <<2, 2>>, <<1, 3>>, <<3, 1>>} \cup (IF Deep THEN {<<2, 3>>, <<1, 1>>, <<2, 3, 2>>} ELSE {})
\* how the value is written
Numbers == {"int", "float", "npint", "npfloat", "zero", "negative"}
Arrays == {"float", "int", "list", "intlist", "fortran", "strided", "float32"}
Values == {[v |-> "none", shape |-> <<>>, as |-> "-"]}
          \cup {[v |-> "number", shape |-> <<>>, as |-> a] : a \in Numbers}
          \cup {[v |-> "array", shape |-> s, as |-> a] : s \in ArrayShapes, a \in Arrays}

Given(d) == IF d.shape = <<>> THEN Default ELSE d.shape
\* a shape of one element is the default: it is taken from the array
ShapeOf(d) == IF d.val.v = "array" /\ Given(d) = Default THEN d.val.shape ELSE Given(d)
Admitted(d) == d.val.v = "array" => ShapeOf(d) = d.val.shape

\* values are halves: element f of an array written as "..."
NumberOf(a) == CASE a = "int" -> 6 [] a = "npint" -> 8 [] a = "float" -> 5 [] a = "npfloat" -> 7 [] a = "zero" -> 0 [] a = "negative" -> -3
Whole(a) == a \in {"int", "intlist"}
ElementOf(a, f) == (IF f % 2 = 0 THEN -1 ELSE 1) * (IF Whole(a) THEN 2 * (f + 2) ELSE 2 * f - 1)
\* (the value of an output of which elements are assigned is not used: it is one)
Declared(d) == [f \in 1..Size(ShapeOf(d)) |->
                  CASE d.val.v = "none" \/ d.kind = "assigned" -> 2
                    [] d.val.v = "number" -> NumberOf(d.val.as)
                    [] d.val.v = "array" -> ElementOf(d.val.as, f)]
\* the value the user sets, the k-th time
SetTo(k) == [f \in 1..Size(ShapeOf(decl)) |-> (IF (f + k) % 2 = 0 THEN -1 ELSE 1) * (10 * k + f)]

\* An output is computed by iterating x = tanh(2 x) / tanh(2), an implicit output by
\* solving x^2 = 1.  Both have a positive and a negative solution in every element;
\* iteration finds the one on the side where it starts: at what the variable holds.
Computed(d) == d.kind \in {"output", "implicit"}
\* The first row of an output is assigned; the other elements keep what they hold.
Row == Size(ShapeOf(decl)) \div ShapeOf(decl)[1]
Assigned(v) == [f \in 1..Len(v) |-> IF f <= Row THEN 3 - 2 * f ELSE v[f]]
RootFrom(v) == [f \in 1..Len(v) |-> CASE v[f] < 0 -> -2 [] v[f] > 0 -> 2 [] OTHER -> 0]
Solvable(v) == decl.kind = "implicit" => \A f \in 1..Len(v) : v[f] # 0

\* the value as it is written: the number or the elements of the array
Written(d) == IF d.val.v = "number" THEN <<NumberOf(d.val.as)>>
              ELSE [f \in 1..Size(d.val.shape) |-> ElementOf(d.val.as, f)]
Emit(o) == PrintT("J" \o ToJson([decl |-> decl, written |-> Written(decl), ok |-> Admitted(decl), shape |-> ShapeOf(decl), ops |-> o]))
Op(o, v, f) == [op |-> o, holds |-> v, fresh |-> f]
LastHolds == IF ops = <<>> THEN <<>> ELSE ops[Len(ops)].holds

Init == /\ decl \in [kind : Kinds, shape : GivenShapes, val : Values]
        /\ ops = <<>> /\ cur = "none" /\ fresh = FALSE
\* an ill-formed declaration ends here
Reject == /\ ~Admitted(decl) /\ cur = "none"
          /\ cur' = "rejected" /\ Emit(<<>>)
          /\ UNCHANGED <<decl, ops, fresh>>
Setup == /\ Admitted(decl) /\ Len(ops) < MaxOps
         /\ cur' = "declared" /\ fresh' = FALSE
         /\ ops' = Append(ops, Op("setup", Declared(decl), FALSE))
Run == /\ cur \in {"declared", "set"} /\ Len(ops) < MaxOps
       /\ Solvable(LastHolds)
       /\ fresh' = TRUE
       /\ ops' = Append(ops, Op("run", CASE Computed(decl) -> RootFrom(LastHolds)
                                        [] decl.kind = "assigned" -> Assigned(LastHolds)
                                        [] OTHER -> LastHolds, TRUE))
       /\ UNCHANGED cur
SetVal == /\ cur \in {"declared", "set"} /\ Len(ops) < MaxOps
          /\ cur' = "set" /\ fresh' = FALSE
          /\ ops' = Append(ops, Op("set", SetTo(Len(ops) + 1), FALSE))
Next == Reject \/ ((Setup \/ Run \/ SetVal) /\ (Len(ops') = MaxOps => Emit(ops')) /\ UNCHANGED decl)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the variable always has one value for each element
Filled == \A k \in 1..Len(ops) : Len(ops[k].holds) = Size(ShapeOf(decl))
\* a shape that was given with more than one element is never changed
ShapeKept == Size(Given(decl)) > 1 => ShapeOf(decl) = decl.shape
\* what it holds is the declared value, or what was set since the last setup,
\* or the solution on that side
SinceSetup == \A k \in 1..Len(ops) :
    LET since == {j \in 1..k : ops[j].op \in {"setup", "set"}}
        j == Max(since)
        start == IF ops[j].op = "setup" THEN Declared(decl) ELSE SetTo(j)
    IN ops[k].holds = CASE Computed(decl) /\ k > j -> RootFrom(start)
                        [] decl.kind = "assigned" /\ k > j -> Assigned(start)
                        [] OTHER -> start
=============================================================================
