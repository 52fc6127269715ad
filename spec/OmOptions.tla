------------------------------ MODULE OmOptions ---------------------------
(***************************************************************************)
(* The options dictionary.                                                 *)
(*                                                                         *)
(* State: for each name, whether it is declared, the declaration, and the  *)
(* value if it has one.  Every call is accepted, and then takes effect, or *)
(* raises, and then leaves the dictionary as it was.  Histories are        *)
(* printed with the state after every call.                                *)
(*                                                                         *)
(* Values are records [ty, v]: ty is the Python type; v is the number for  *)
(* int and bool, twice the number for float, and a tag for other types.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, Names, Rich, Walk

VARIABLES ro,      \* read-only dictionary
          opt,     \* name -> [decl, has, val]
          hist
vars == <<ro, opt, hist>>

V(ty, v) == [ty |-> ty, v |-> v]
None == V("none", 0)
Undef == V("undef", 0)
Values == {V("int", 1), V("int", 2), V("int", 5), V("float", 3), V("float", 4), V("str", 1), None}
          \cup (IF Rich THEN {V("int", -1), V("int", 4), V("bool", 1), V("str", 2), V("list", 1), V("float", 10)} ELSE {})

Num(x) == x.ty \in {"int", "bool", "float"}
Twice(x) == IF x.ty = "float" THEN x.v ELSE 2 * x.v
\* Python's ==
Eq(x, y) == IF Num(x) /\ Num(y) THEN Twice(x) = Twice(y) ELSE x = y
IsInstance(x, ts) == x.ty \in ts \/ (x.ty = "bool" /\ "int" \in ts)

\* a declaration; ts = {} and vs = {} mean that no types or values are given
Plain == [ts |-> {}, vs |-> {}, lo |-> 99, up |-> 99, chk |-> FALSE, an |-> FALSE, def |-> Undef, bad |-> "no"]
Decls ==
    {[Plain EXCEPT !.def = d] : d \in {Undef, None, V("int", 1)}}
    \cup {[Plain EXCEPT !.ts = {"int"}, !.def = d, !.an = a] : d \in {Undef, V("int", 2), V("str", 1), None}, a \in BOOLEAN}
    \cup {[Plain EXCEPT !.vs = {V("int", 1), V("str", 1)}, !.def = d, !.an = a] : d \in {Undef, V("int", 1), V("int", 5), None}, a \in BOOLEAN}
    \cup {[Plain EXCEPT !.lo = 2, !.up = 4, !.def = d, !.an = a] : d \in {Undef, V("int", 2), V("int", 5), V("int", 1)}, a \in BOOLEAN}
    \cup {[Plain EXCEPT !.chk = TRUE, !.def = d] : d \in {Undef, V("int", 2), V("int", 1)}}
    \cup {[Plain EXCEPT !.bad = b] : b \in {"both", "values", "types"}}
    \cup (IF Rich
          THEN {[Plain EXCEPT !.ts = t, !.up = u, !.def = d, !.an = a] :
                   t \in {{"int", "str"}, {"float", "int"}, {"list"}, {"bool"}, {"none", "int"}}, u \in {99, 4},
                   d \in {Undef, V("int", 1), V("int", 5), V("bool", 1), None, V("list", 1)}, a \in BOOLEAN}
               \cup {[Plain EXCEPT !.vs = {V("int", 1), V("int", 2), V("int", 5)}, !.up = 4, !.lo = l, !.chk = c, !.def = d] :
                   l \in {2, 99}, c \in BOOLEAN, d \in {Undef, V("int", 2), V("float", 4), V("int", 5)}}
          ELSE {})

Valid(d, x) ==
    /\ (x = None /\ d.an) \/
         /\ d.vs # {} => \E y \in d.vs : Eq(x, y)
         /\ (d.vs = {} /\ d.ts # {}) => IsInstance(x, d.ts)
         /\ d.up # 99 => Num(x) /\ Twice(x) <= 2 * d.up
         /\ d.lo # 99 => Num(x) /\ Twice(x) >= 2 * d.lo
    \* the validity function rejects odd integers
    /\ d.chk => ~(x.ty \in {"int", "bool"} /\ x.v % 2 = 1)

Free == [decl |-> FALSE, d |-> Plain, has |-> FALSE, val |-> Undef]
Declared(n) == opt[n].decl

CanDeclare(d) == d.bad = "no" /\ (d.def # Undef => Valid(d, d.def))
CanSet(n, x) == Declared(n) /\ ~ro /\ Valid(opt[n].d, x)
CanGet(n) == Declared(n) /\ opt[n].has

After(o, n, x) == [o EXCEPT ![n].has = TRUE, ![n].val = x]
Call(c, ok) == hist' = Append(hist, [call |-> c, ok |-> ok, opt |-> [n \in Names |->
                   [decl |-> opt'[n].decl, has |-> opt'[n].has, val |-> opt'[n].val]]])

Declare(n, d) == /\ opt' = IF CanDeclare(d) THEN [opt EXCEPT ![n] = [decl |-> TRUE, d |-> d, has |-> d.def # Undef, val |-> d.def]]
                           ELSE opt
                 /\ Call([c |-> "declare", n |-> n, d |-> d], CanDeclare(d))
Set(n, x) == /\ opt' = IF CanSet(n, x) THEN After(opt, n, x) ELSE opt
             /\ Call([c |-> "set", n |-> n, x |-> x], CanSet(n, x))
\* update sets one option after the other, up to the first that is rejected
Update(n, x, m, y) ==
    /\ n # m
    /\ opt' = IF ~CanSet(n, x) THEN opt ELSE IF ~CanSet(m, y) THEN After(opt, n, x) ELSE After(After(opt, n, x), m, y)
    /\ Call([c |-> "update", n |-> n, x |-> x, m |-> m, y |-> y], CanSet(n, x) /\ CanSet(m, y))
Get(n) == /\ UNCHANGED opt
          /\ Call([c |-> "get", n |-> n], CanGet(n))
Undeclare(n) == /\ opt' = [opt EXCEPT ![n] = Free]
                /\ Call([c |-> "undeclare", n |-> n], TRUE)

Show == PrintT("J" \o ToJson([ro |-> ro, hist |-> hist']))

Pick1(S) == {RandomElement(S)}
\* in a walk, the alternatives are drawn at random, and it is shown at its end
Choices(S) == IF Walk THEN Pick1(S) ELSE S

Init == /\ ro \in BOOLEAN
        /\ opt = [n \in Names |-> Free]
        /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E k \in IF Walk THEN {RandomElement(1..10)} ELSE 1..5 : \E n \in Choices(Names) :
             \/ k \in {1, 6} /\ \E d \in Choices(Decls) : Declare(n, d)
             \/ k \in {2, 7, 8, 9} /\ \E x \in Choices(Values) : Set(n, x)
             \/ k \in {3, 10} /\ Walk /\ \E m \in Choices(Names), x \in Choices(Values), y \in Choices(Values) : IF m = n THEN Get(n) ELSE Update(n, x, m, y)
             \/ k = 4 /\ Walk /\ Get(n)
             \/ k = 5 /\ (hist = <<>> \/ Declared(n)) /\ Undeclare(n)
        /\ (IF Walk /\ Len(hist') < MaxLen THEN TRUE ELSE Show)
        /\ UNCHANGED ro
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* an option holds declared, valid values only
OnlyValid == \A n \in Names : opt[n].has => opt[n].decl /\ Valid(opt[n].d, opt[n].val)
NotDeclaredNotHeld == \A n \in Names : ~opt[n].decl => opt[n] = Free
\* a read-only dictionary only holds defaults
ReadOnly == ro => \A n \in Names : opt[n].has => opt[n].val = opt[n].d.def
\* a call that raises changes nothing, except the accepted part of an update
RaisesChangesNothing == [][(hist' # hist /\ ~hist'[Len(hist')].ok /\ hist'[Len(hist')].call.c # "update") => UNCHANGED opt]_vars
=============================================================================
