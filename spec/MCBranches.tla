----------------------------- MODULE MCBranches -----------------------------
(***************************************************************************)
(* The walk over the graph which finds commits of a branch and its branch  *)
(* points, checked against the definitions in Branches for all graphs with *)
(* up to N commits, all default heads and all branch heads. After that the *)
(* history grows by one more commit and the branch point has to stay.      *)
(*                                                                         *)
(* Commit numbers are also used as the order of hashes (or the reverse of  *)
(* it when Rev).                                                           *)
(***************************************************************************)
EXTENDS Branches, TLC, Json

CONSTANTS N, MaxPar, Rev, Mutant

VARIABLES par, phase, D, H,
          line,   \* commits the walk treats as default line
          stack,  \* of <<commit, index of the next parent to visit>>
          pre,    \* commits in the order they were entered
          from,   \* commits of the default line that were met
          old     \* branch points before the growth
vars == <<par, phase, D, H, line, stack, pre, from, old>>

\* all sequences of different earlier commits
ParentChoices(n) == {<<>>} \cup {<<a>> : a \in 1..n}
  \cup (IF MaxPar >= 2 THEN {s \in [1..2 -> 1..n] : s[1] # s[2]} ELSE {})
  \cup (IF MaxPar >= 3 THEN {s \in [1..3 -> 1..n] : s[1] # s[2] /\ s[2] # s[3] /\ s[1] # s[3]} ELSE {})

Rank == [c \in 1..Len(par) |-> IF Rev THEN Len(par) - c ELSE c]

Init == /\ par = <<>> /\ phase = "grow" /\ D = 0 /\ H = 0 /\ line = {} /\ stack = <<>>
        /\ pre = <<>> /\ from = {} /\ old = {}

AddCommit ==
  /\ phase = "grow" /\ Len(par) < N
  /\ \E ps \in ParentChoices(Len(par)) : par' = Append(par, ps)
  /\ UNCHANGED <<phase, D, H, line, stack, pre, from, old>>

Choose ==
  /\ phase = "grow" /\ Len(par) = N
  /\ \E d, h \in 1..N :
       /\ D' = d /\ H' = h
       /\ line' = IF Mutant = "keepline" THEN Reach(par, {d}) ELSE DefaultLine(par, d, h)
       /\ stack' = <<<<h, Len(par[h])>>>>
       /\ pre' = <<h>>
  /\ from' = {} /\ phase' = "walk" /\ UNCHANGED <<par, old>>

Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)

\* parents are visited from the last to the first
Visit ==
  /\ phase = "walk" /\ stack # <<>>
  /\ LET c == Top[1]
         k == Top[2]
     IN IF k = 0 THEN /\ stack' = Pop /\ UNCHANGED <<pre, from>>
        ELSE LET p == par[c][k]
                 here == Append(Pop, <<c, k - 1>>)
             IN CASE p \in line -> /\ from' = from \cup {p} /\ stack' = here /\ UNCHANGED pre
                  [] p \notin line /\ p \in Range(pre) -> /\ stack' = here /\ UNCHANGED <<pre, from>>
                  [] OTHER -> /\ pre' = Append(pre, p) /\ stack' = Append(here, <<p, Len(par[p])>>) /\ UNCHANGED from
  /\ UNCHANGED <<par, phase, D, H, line, old>>

Finish ==
  /\ phase = "walk" /\ stack = <<>> /\ phase' = "done"
  /\ UNCHANGED <<par, D, H, line, stack, pre, from, old>>

\* A commit is added on the branch (perhaps together with a merge of a part of default that is not older than a branch point)
\* or on default.
GrowBranch ==
  /\ phase = "done" /\ ~Merged(par, D, H) /\ BranchPoints(par, D, H) # {}
  /\ LET pts == BranchPoints(par, D, H)
         merge == {d \in Reach(par, {D}) : pts \cap Reach(par, {d}) # {}}
     IN \E ps \in {<<H>>} \cup {<<H, d>> : d \in merge} \cup {<<d, H>> : d \in merge} :
          par' = Append(par, ps)
  /\ old' = BranchPoints(par, D, H)
  /\ H' = Len(par) + 1 /\ phase' = "grown" /\ UNCHANGED <<D, line, stack, pre, from>>

GrowDefault ==
  /\ phase = "done" /\ ~Merged(par, D, H)
  /\ \E ps \in {<<D>>} \cup {<<D, d>> : d \in Reach(par, {D}) \ {D}} : par' = Append(par, ps)
  /\ old' = BranchPoints(par, D, H)
  /\ D' = Len(par) + 1 /\ phase' = "grown" /\ UNCHANGED <<H, line, stack, pre, from>>

Next == AddCommit \/ Choose \/ Visit \/ Finish \/ GrowBranch \/ GrowDefault
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Out == IF Mutant = "forward" THEN pre ELSE [k \in 1..Len(pre) |-> pre[Len(pre) + 1 - k]]
OutFirst == Out[CHOOSE k \in 1..Len(Out) : ParentsOf(par, Out[k]) \cap Range(Out) = {} /\ \A j \in 1..(k-1) : ParentsOf(par, Out[j]) \cap Range(Out) # {}]

\* the walk removes points that have others among their ancestors
Deduped == IF Mutant = "nodedup" THEN from ELSE {c \in from : ProperAncestors(par, c) \cap from = {}}

Done == phase = "done"
ListIsDeclared == Done => Range(Out) = Listed(par, D, H)
OrderHolds == Done => NoDups(Out) /\ HeadLast(Out, H) /\ Follow(par, Out)
PointsAreDeclared == Done => Deduped = BranchPoints(par, D, H)
FirstExists == Done => OutFirst \in FirstCommits(par, Range(Out))
\* an unmerged branch with shared history has a branch point
PointIffShared == Done => (Merged(par, D, H) \/ (BranchPoints(par, D, H) # {} <=> Reach(par, {H}) \cap Reach(par, {D}) # {}))
\* ahead and behind of an unmerged branch count the two sides of the symmetric difference
Sides == Done /\ ~Merged(par, D, H) /\ BranchPoints(par, D, H) # {} =>
   Cardinality(Listed(par, D, H)) + Behind(par, D, H) =
   Cardinality((Reach(par, {H}) \cup Reach(par, {D})) \ (Reach(par, {H}) \cap Reach(par, {D})))
MergeIsOnDefault == Done /\ Merged(par, D, H) => (MergeCommits(par, D, H) = {} <=> D = H)
PointsNow == IF Mutant = "nodedup" THEN DefaultLine(par, D, H) \cap ListedParents(par, D, H) ELSE BranchPoints(par, D, H)
Stable == phase = "grown" => PointsNow = old

\* prints graphs for replay in the implementation
Emit == phase = "grow" /\ Len(par) = N => PrintT(<<"DAG", ToJson(par)>>)
=============================================================================
