-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* How a run of the history analysis has to end. A run has a kind, for     *)
(* incl and nonincl a start commit from, and may be strict. have, v and cs *)
(* tell what the checkpoint directory holds before the run: whether there  *)
(* is a checkpoint, the commit it was finished at, and its commits.        *)
(***************************************************************************)
EXTENDS Retention

\* does the run have to fail because of the checkpoint?
HasToFail(run, scope) ==
  /\ run.kind # "full"
  /\ scope # {}
  /\ \/ ~run.haveck
     \/ run.strict /\ run.v # run.from

\* is the data of a parent missing that is neither delivered by this run nor in the checkpoint?
LacksParent(G, run, scope) ==
  run.kind # "full" /\ \E c \in scope : (ParentsOf(G, c) \ scope) \ run.cs # {}

HowEnds(G, run, scope) ==
  IF HasToFail(run, scope) THEN "fail" ELSE IF LacksParent(G, run, scope) THEN "lacks" ELSE "ok"
=============================================================================
