------------------------------ MODULE OmFresh -----------------------------
(***************************************************************************)
(* Names that are chosen automatically.                                    *)
(*                                                                         *)
(* The only thing that a model relies on is that a name that is issued is  *)
(* new in the process: Issue(n) is enabled only for n \notin issued.  The  *)
(* module reads the names that the implementation issued, in their order   *)
(* (file names.json: a sequence of sequences, one per process), and finds  *)
(* the first step that is not a step of the machine.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT File
Runs == JsonDeserialize(File)

VARIABLES run, issued, ok
Issue(n, before) == n \notin before
Names(r, k) == {r[i] : i \in 1..k}
\* the machine can take all steps of r iff no name is issued twice
Consumed(r) == Cardinality(Names(r, Len(r))) = Len(r)
\* the first step that it cannot take
RECURSIVE Stuck(_, _, _)
Stuck(r, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi) \div 2 IN
         IF Cardinality(Names(r, m)) = m THEN Stuck(r, m + 1, hi) ELSE Stuck(r, lo, m)

FInit == run = 0 /\ issued = 0 /\ ok = TRUE
FNext == /\ run < Len(Runs)
         /\ run' = run + 1
         /\ LET r == Runs[run'] IN
            /\ ok' = Consumed(r)
            /\ issued' = Len(r)
            /\ PrintT("J" \o ToJson([run |-> run', n |-> Len(r), at |-> IF ok' THEN 0 ELSE Stuck(r, 1, Len(r))]))
FSpec == FInit /\ [][FNext]_<<run, issued, ok>>
===========================================================================
