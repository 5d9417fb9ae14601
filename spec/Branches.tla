------------------------------ MODULE Branches ------------------------------
(***************************************************************************)
(* Commits of branches and their relations to the default branch. G is the *)
(* commit graph, D the head of the default branch, H the head of a branch  *)
(* (or a requested commit).                                                *)
(***************************************************************************)
EXTENDS History

Merged(G, D, H) == H \in Reach(G, {D})

\* what S reaches without passing through commit x (x is not included)
RECURSIVE Avoid(_, _, _, _)
Avoid(G, x, frontier, seen) ==
  IF frontier = {} THEN seen
  ELSE LET all == seen \cup frontier
       IN Avoid(G, x, UNION {ParentsOf(G, c) : c \in frontier} \ (all \cup {x}), all)

\* the commits of the default line, from the point of view of the branch
DefaultLine(G, D, H) ==
  IF Merged(G, D, H) THEN Avoid(G, H, {D} \ {H}, {})
  ELSE Reach(G, {D})

\* the commits of the branch
Listed(G, D, H) == Reach(G, {H}) \ DefaultLine(G, D, H)

ListedParents(G, D, H) == UNION {ParentsOf(G, c) : c \in Listed(G, D, H)}

ProperAncestors(G, c) == Reach(G, ParentsOf(G, c))

BranchPoints(G, D, H) ==
  LET S == DefaultLine(G, D, H) \cap ListedParents(G, D, H)
  IN {c \in S : ProperAncestors(G, c) \cap S = {}}

MergeCommits(G, D, H) == {c \in Reach(G, {D}) : H \in ParentsOf(G, c)}

Behind(G, D, H) ==
  IF Merged(G, D, H) \/ BranchPoints(G, D, H) = {} THEN 0
  ELSE Cardinality(Reach(G, {D}) \ Reach(G, {H}))

FirstCommits(G, S) == {c \in S : ParentsOf(G, c) \cap S = {}}

(***************************************************************************)
(* The order of the list: no repeats, the head is last, every other commit *)
(* is a parent of one that comes later.                                    *)
(***************************************************************************)
NoDups(s) == Cardinality(Range(s)) = Len(s)
HeadLast(s, H) == s # <<>> /\ s[Len(s)] = H
Follow(G, s) == \A k \in 1..(Len(s) - 1) : \E j \in (k + 1)..Len(s) : s[k] \in ParentsOf(G, s[j])

\* increasing sequence of a set by rank
RECURSIVE SortBy(_, _)
SortBy(rank, S) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S : rank[x] <= rank[y]
       IN <<m>> \o SortBy(rank, S \ {m})

ChildrenSorted(G, rank, S, c) == SortBy(rank, ChildrenIn(G, S, c))
=============================================================================
