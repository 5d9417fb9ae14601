----------------------------- MODULE Retention -----------------------------
(***************************************************************************)
(* Which commits the store keeps. A commit is finished when all of its     *)
(* children have been analysed. Of the finished commits only the last      *)
(* Window ones are kept.                                                   *)
(***************************************************************************)
EXTENDS History, SequencesExt

Window == 1000

(***************************************************************************)
(* The commits of a run in the order d in which they were delivered, where *)
(* S is the scope: left[c] counts the children of c which are still to be  *)
(* delivered, q is the sequence of finished commits. Commits finished by   *)
(* the same merge follow the order of its parents.                         *)
(***************************************************************************)
CountChildren(G, S) ==
  FoldLeft(LAMBDA f, c : FoldLeft(LAMBDA g, p : IF p \in S THEN [g EXCEPT ![p] = @ + 1] ELSE g, f, G[c]),
           TLCEval([c \in DOMAIN G |-> 0]), SetToSeq(S))

DeliverOne(G, S, acc, c) ==
  FoldLeft(LAMBDA a, p :
             IF p \notin S THEN a
             ELSE [left |-> [a.left EXCEPT ![p] = @ - 1],
                   q |-> IF a.left[p] = 1 THEN Append(a.q, p) ELSE a.q],
           acc, G[c])

FinishedSeq(G, d, S) ==
  FoldLeft(LAMBDA a, c : DeliverOne(G, S, a, c), [left |-> CountChildren(G, S), q |-> <<>>], d).q

\* what is kept after a full run
Retained(G, d, S) ==
  IF Len(d) <= Window THEN Range(d)
  ELSE LET q == FinishedSeq(G, d, S)
       IN Range(d) \ {q[k] : k \in 1..(Len(q) - Window)}

\* resumed run: commits known before or delivered now which still have a child in S that was never analysed
NeededLater(G, before, d, S) ==
  LET known == before \cup Range(d)
  IN {c \in known \cap DOMAIN G : ChildrenIn(G, S, c) \ known # {}}
=============================================================================
