------------------------------ MODULE OmIndex ----------------------------
(***************************************************************************)
(* Several selections of one expression.                                   *)
(*                                                                         *)
(* State: the shape of the expression and the selections made so far, each *)
(* with the elements it stands for.  A selection never changes what an     *)
(* earlier or later one stands for.  A key outside the expression is       *)
(* rejected, which ends the program, unless the user catches the exception *)
(* and goes on; then it is as if it had not been there.                    *)
(***************************************************************************)
EXTENDS OmOps, Json

CONSTANTS MaxKeys, Walk, Which

VARIABLES sh, hist, done
vars == <<sh, hist, done>>

Shapes == CASE Which = "small" -> {<<4>>, <<2, 2>>, <<1, 3>>}
            [] Which = "more"  -> {<<6>>, <<2, 3>>}
            [] Which = "walk"  -> {<<5>>, <<7>>, <<2, 3>>, <<3, 2>>, <<4, 1>>, <<2, 2, 2>>, <<2, 3, 2>>, <<1, 5>>}

Slices(n) == {<<a, b, s>> \in (0..(n - 1)) \X (1..n) \X (1..3) : a < b /\ (s = 1 \/ a + s < b)}
\* slices that reach outside
Bad(n) == {<<a, b, 1>> : a \in 0..(n - 1), b \in {n + 1, n + 2}} \cup {<<n, n + 1, 1>>}
KeyI(n) == [k |-> "i", i |-> n]
KeyS(s) == [k |-> "s", s |-> s]
KeyT(t) == [k |-> "t", t |-> t]
TKeys(h, F(_)) == {t \in [1..Len(h) -> UNION {F(h[a]) : a \in 1..Len(h)}] : \A a \in 1..Len(h) : t[a] \in F(h[a])}

Keys(h) == IF Len(h) = 1
           THEN {KeyI(n) : n \in 0..(h[1] - 1)} \cup {KeyS(s) : s \in Slices(h[1])} \cup {KeyT(<<s>>) : s \in Slices(h[1])}
           ELSE {KeyT(t) : t \in TKeys(h, Slices)}
BadKeys(h) == IF Len(h) = 1
              THEN {KeyI(n) : n \in {h[1], h[1] + 1, h[1] + 7}} \cup {KeyS(s) : s \in Bad(h[1])} \cup {KeyT(<<s>>) : s \in Bad(h[1])}
              ELSE LET mix(n) == Slices(n) \cup Bad(n)
                   IN {KeyT(t) : t \in {u \in TKeys(h, mix) : \E a \in 1..Len(h) : u[a] \in Bad(h[a])}}

KeyTab == [h \in Shapes |-> Keys(h)]
BadTab == [h \in Shapes |-> BadKeys(h)]

\* positions, from 1, of the selected elements
Sel(h, key) == LET d == Den("get", <<h>>, [key |-> key])
               IN [shape |-> d.shape, at |-> [k \in 1..Len(d.el) |-> d.el[k][3]]]
Entry(h, key) == [key |-> key, ok |-> TRUE, shape |-> Sel(h, key).shape, at |-> Sel(h, key).at]
Reject(key) == [key |-> key, ok |-> FALSE, shape |-> <<>>, at |-> <<>>]

Pick1(S) == {RandomElement(S)}
Draw(S) == IF Walk THEN Pick1(S) ELSE S

Init == /\ sh \in Shapes
        /\ hist = <<>>
        /\ done = FALSE
SelectKey == /\ ~done /\ Len(hist) < MaxKeys
       /\ \E key \in Draw(KeyTab[sh]) : hist' = Append(hist, Entry(sh, key))
       /\ UNCHANGED <<sh, done>>
\* the same key again
Again == /\ Walk /\ ~done /\ hist # <<>> /\ Len(hist) < MaxKeys
         /\ \E k \in Draw(1..Len(hist)) : hist' = Append(hist, hist[k])
         /\ UNCHANGED <<sh, done>>
\* a key that differs from an earlier one in one number
Parts(key) == CASE key.k = "i" -> <<<<key.i>>>> [] key.k = "s" -> <<key.s>> [] OTHER -> key.t
Close(x, y) == /\ x.k = y.k
               /\ Cardinality({p \in (1..Len(Parts(x))) \X (1..Len(Parts(x)[1])) : Parts(x)[p[1]][p[2]] # Parts(y)[p[1]][p[2]]}) = 1
Near == /\ Walk /\ ~done /\ hist # <<>> /\ Len(hist) < MaxKeys
        /\ \E k \in Draw(1..Len(hist)) :
             \E S \in {TLCEval({q \in KeyTab[sh] : Close(q, hist[k].key)})} :
               /\ S # {}
               /\ \E key \in Draw(S) : hist' = Append(hist, Entry(sh, key))
        /\ UNCHANGED <<sh, done>>
Wrong == /\ ~done
         /\ Len(hist) < IF Walk THEN MaxKeys ELSE 2
         /\ (Walk => RandomElement(1..20) = 1)
         /\ \E key \in Draw(BadTab[sh]) : hist' = Append(hist, Reject(key))
         /\ done' = TRUE /\ UNCHANGED sh
\* the same, but the user goes on
Caught == /\ ~done
          /\ Len(hist) < MaxKeys - 1
          /\ (Walk => RandomElement(1..6) = 1)
          /\ \E key \in Draw(BadTab[sh]) : hist' = Append(hist, Reject(key))
          /\ UNCHANGED <<sh, done>>
Stop == /\ ~done /\ Len(hist) = MaxKeys
        /\ done' = TRUE /\ UNCHANGED <<sh, hist>>
Next == (SelectKey \/ Again \/ Near \/ Wrong \/ Caught \/ Stop) /\ (done' => PrintT("J" \o ToJson([sh |-> sh, hist |-> hist'])))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* what a selection stands for depends on its key only
Independent == \A a, b \in 1..Len(hist) : hist[a].key = hist[b].key => hist[a] = hist[b]
\* every selected element is in the expression, and no element is selected twice
Inside == \A a \in 1..Len(hist) : hist[a].ok =>
             /\ Len(hist[a].at) = Size(hist[a].shape)
             /\ \A k, l \in 1..Len(hist[a].at) : hist[a].at[k] \in 1..Size(sh) /\ (k < l => hist[a].at[k] < hist[a].at[l])
RejectedIsNothing == \A a \in 1..Len(hist) : ~hist[a].ok => hist[a].at = <<>> /\ hist[a].key \in BadTab[sh]
=============================================================================
