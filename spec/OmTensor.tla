------------------------------ MODULE OmTensor ------------------------------
(***************************************************************************)
(* Index arithmetic on dense arrays stored in C order.                     *)
(* A shape is a sequence of positive integers.  A multi-index is a         *)
(* sequence of integers counted from 0; a flat index is counted from 0.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

RECURSIVE SizeR(_, _)
SizeR(sh, i) == IF i > Len(sh) THEN 1 ELSE sh[i] * SizeR(sh, i + 1)
Size(sh) == SizeR(sh, 1)

\* product of the sizes of the axes after axis a (1-based)
Stride(sh, a) == SizeR(sh, a + 1)

Unravel(sh, f) == [a \in 1..Len(sh) |-> (f \div Stride(sh, a)) % sh[a]]

RECURSIVE RavelR(_, _, _)
RavelR(sh, idx, a) ==
    IF a > Len(sh) THEN 0 ELSE idx[a] * Stride(sh, a) + RavelR(sh, idx, a + 1)
Ravel(sh, idx) == RavelR(sh, idx, 1)

InBounds(sh, idx) == \A a \in 1..Len(sh) : idx[a] >= 0 /\ idx[a] < sh[a]

\* the axes 1..n that are not in the set R, in increasing order
Kept(n, R) == SelectSeq([a \in 1..n |-> a], LAMBDA a : a \notin R)

\* an axis given by the user (from 0, or from -1 backwards) as 1..n
Axis(n, ax) == IF ax < 0 THEN n + ax + 1 ELSE ax + 1
Axes(n, s) == {Axis(n, s[i]) : i \in 1..Len(s)}

Pick(idx, sel) == [i \in 1..Len(sel) |-> idx[sel[i]]]

\* numbers 0..n-1 as a sequence
Upto(n) == [i \in 1..n |-> i - 1]

\* elements selected by a slice <<start, stop, step>> with explicit bounds
RECURSIVE SliceSeq(_, _, _)
SliceSeq(a, b, s) == IF a >= b THEN <<>> ELSE <<a>> \o SliceSeq(a + s, b, s)

\* all multi-indices of a grid of sequences, in C order
GridShape(g) == [a \in 1..Len(g) |-> Len(g[a])]
GridIdx(g, f) == LET u == Unravel(GridShape(g), f)
                 IN [a \in 1..Len(g) |-> g[a][u[a] + 1]]

-----------------------------------------------------------------------------
(* Laws of the index arithmetic; checked by TLC as assumptions             *)
LawShapes == {<<1>>, <<3>>, <<2, 3>>, <<1, 2>>, <<2, 1, 3>>, <<2, 2, 2>>}
ASSUME RavelUnravel ==
    \A sh \in LawShapes : \A f \in 0..(Size(sh) - 1) :
        /\ InBounds(sh, Unravel(sh, f))
        /\ Ravel(sh, Unravel(sh, f)) = f
ASSUME RavelInjective ==
    \A sh \in LawShapes :
        Cardinality({Unravel(sh, f) : f \in 0..(Size(sh) - 1)}) = Size(sh)
ASSUME CLastAxisFastest ==
    \A sh \in LawShapes : \A f \in 0..(Size(sh) - 2) :
        LET u == Unravel(sh, f) v == Unravel(sh, f + 1) IN
        u[Len(sh)] + 1 < sh[Len(sh)] =>
            /\ v[Len(sh)] = u[Len(sh)] + 1
            /\ \A a \in 1..(Len(sh) - 1) : u[a] = v[a]
=============================================================================
