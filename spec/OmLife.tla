------------------------------ MODULE OmLife ------------------------------
(***************************************************************************)
(* The life of problems in one process.                                    *)
(*                                                                         *)
(* A problem is set up, its sources are given values, it is run, its total *)
(* derivatives are computed, and it is set up again, in any order, and     *)
(* other problems live beside it.  The specification says what each        *)
(* problem shows after every call:                                         *)
(*                                                                         *)
(*   cur    the current values of its sources (numbers of values, per      *)
(*          class of sources; value 0 is the declared one),                *)
(*   shown  the values of the sources that its outputs belong to: those    *)
(*          of the last run,                                               *)
(*   past   what the state of the problem can depend on.  The outputs of a *)
(*          plain model, and of a model whose equations are solved, depend *)
(*          on nothing but the last run; in a cycle without a solver every *)
(*          run starts where the last one ended.                           *)
(*                                                                         *)
(* Setting up again forgets all of it.  No call on one problem changes     *)
(* another.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, NP, Ids, Walk
Slots == 1..NP
Kinds == {"plain", "solved", "memory"}
Classes == {"o", "e"}

VARIABLES kind,    \* slot -> kind of its model
          prob,    \* slot -> state
          hist
vars == <<kind, prob, hist>>

Declared == [c \in Classes |-> 0]
None == [st |-> "none", cur |-> Declared, shown |-> Declared, past |-> <<>>]
Fresh == [None EXCEPT !.st = "fresh"]

Live(s) == prob[s].st # "none"
Clean(s) == prob[s].st = "run" /\ prob[s].cur = prob[s].shown

Call(a, s, c, i) == [a |-> a, s |-> s, c |-> c, i |-> i]
Do(call, p) ==
    /\ prob' = [prob EXCEPT ![call.s] = p]
    /\ hist' = Append(hist, [call |-> call, obs |-> prob'])
    /\ UNCHANGED kind

\* a new problem of this slot, in place of the old one
New(s, i) == Do(Call("new", s, "", i), Fresh)
Setup(s, i) == Live(s) /\ Do(Call("setup", s, "", i), Fresh)
Assign(s, c, i) == Live(s) /\ Do(Call("set", s, c, i), [prob[s] EXCEPT !.cur[c] = i])
\* the user sets the values from which a run starts
Guess(s, i) ==
    /\ Live(s) /\ kind[s] # "plain"
    /\ Do(Call("guess", s, "", i),
          [prob[s] EXCEPT !.past = IF kind[s] = "memory" THEN Append(@, [t |-> "guess", cur |-> Declared, i |-> i]) ELSE <<>>,
                          !.st = "fresh"])
\* i = 1: run twice
Run(s, i) ==
    /\ Live(s)
    /\ LET r == [t |-> "run", cur |-> prob[s].cur, i |-> 0] IN
       Do(Call("run", s, "", i),
          [prob[s] EXCEPT !.st = "run", !.shown = prob[s].cur,
                          !.past = IF kind[s] = "memory" THEN @ \o (IF i = 1 THEN <<r, r>> ELSE <<r>>) ELSE <<>>])
\* i: all of them, one of them, all of them twice, after another linearization;
\* total derivatives belong to the values shown; they change nothing
Totals(s, i) == Clean(s) /\ kind[s] # "memory" /\ Do(Call("totals", s, "", i), prob[s])

\* the partial derivatives (i = 1: the total derivatives) are compared with finite
\* differences, which evaluates components elsewhere; it changes nothing
Check(s, i) == Clean(s) /\ kind[s] # "memory" /\ Do(Call("check", s, "", i), prob[s])

LInit == /\ kind \in [Slots -> Kinds]
         /\ prob = [s \in Slots |-> None]
         /\ hist = <<>>
More == Len(hist) < MaxLen
\* walks do not change values for ever
Calm == IF ~Walk \/ Len(hist) < 2 THEN TRUE ELSE \E k \in {Len(hist), Len(hist) - 1} : hist[k].call.a \notin {"set", "guess"}
LNext ==
    /\ More
    /\ \E s \in Slots :
         \/ ~Live(s) /\ \E i \in {0, 1} : New(s, i)
         \/ Walk /\ prob[s].st = "run" /\ Len(hist) % 5 = 0 /\ New(s, 0)
         \/ (Walk => prob[s].st = "run") /\ \E i \in {0, 1} : Setup(s, i)
         \/ Calm /\ \E c \in Classes, i \in Ids : prob[s].cur[c] # i /\ Assign(s, c, i)
         \/ Calm /\ \E i \in {1, 2} : (Walk \/ i = 1) /\ Guess(s, i)
         \/ \E i \in IF Walk THEN 0..2 ELSE {0} : Run(s, i)
         \/ \E i \in IF Walk THEN 0..3 ELSE {0} : Totals(s, i)
         \/ Calm /\ (IF Walk /\ hist # <<>> THEN hist[Len(hist)].call.a # "check" ELSE TRUE) /\ \E i \in IF Walk THEN {0, 1} ELSE {0} : Check(s, i)
\* a history is worth replaying if it looks at something after a second call
Worth == /\ Len(hist) = MaxLen
         /\ hist[MaxLen].call.a \in {"run", "totals"}
         /\ ~Walk => \A s \in Slots : Live(s)
Emit == Worth => PrintT("J" \o ToJson([kind |-> kind, hist |-> hist]))
EmitInv == Emit
LSpec == LInit /\ [][LNext]_vars

(* What holds in every history. *)
Isolated == [][\A s, t \in Slots : (hist' # hist /\ hist'[Len(hist')].call.s = s /\ t # s) => prob'[t] = prob[t]]_vars
Forgets == [][(hist' # hist /\ hist'[Len(hist')].call.a \in {"new", "setup"}) => prob'[hist'[Len(hist')].call.s] = Fresh]_vars
\* what is shown was current when the problem was last run
LastRun(s) == LET R == {k \in DOMAIN hist : hist[k].call.s = s /\ hist[k].call.a = "run"} IN
              IF R = {} THEN 0 ELSE CHOOSE k \in R : \A j \in R : j <= k
ShownWasCurrent == \A s \in Slots : prob[s].st = "run" => LET k == LastRun(s) IN k > 0 /\ hist[k].obs[s].cur = prob[s].shown
OnlyMemory == \A s \in Slots : kind[s] # "memory" => prob[s].past = <<>>
TotalsClean == \A k \in DOMAIN hist : hist[k].call.a = "totals" =>
                 /\ hist[k].obs[hist[k].call.s].cur = hist[k].obs[hist[k].call.s].shown
===========================================================================
