------------------------------- MODULE Blame -------------------------------
(***************************************************************************)
(* Line attribution. A version of a text file is a sequence of lines, each *)
(* with its content (a number) and the set of commits it may be attributed *)
(* to. The set has one element except where the properties allow a choice  *)
(* (a file that is the same in several parents of a merge). 0 in the set   *)
(* means that the attribution is not specified. TLCEval is the identity, it *)
(* only makes TLC evaluate a function once.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Line(c, a) == [c |-> c, a |-> a]

Contents(ls) == [i \in 1..Len(ls) |-> ls[i].c]

(***************************************************************************)
(* A change is a sequence of blocks <<keep, del, add>>: keep lines of the  *)
(* old version, drop del lines, insert the contents add.                   *)
(***************************************************************************)
Added(cs, me) == [j \in 1..Len(cs) |-> Line(cs[j], {me})]

\* The lines that blocks lo..hi leave, and the position in old behind them. The
\* blocks are split in the middle, so that the cost stays near linear.
RECURSIVE ApplyRange(_, _, _, _, _, _)
ApplyRange(old, bl, lo, hi, pos, me) ==
  IF lo > hi
  THEN <<<<>>, pos>>
  ELSE IF lo = hi
  THEN LET b == bl[lo]
       IN <<SubSeq(old, pos, pos + b[1] - 1) \o Added(b[3], me), pos + b[1] + b[2]>>
  ELSE LET mid == (lo + hi) \div 2
           l   == TLCEval(ApplyRange(old, bl, lo, mid, pos, me))
           r   == TLCEval(ApplyRange(old, bl, mid + 1, hi, l[2], me))
       IN <<l[1] \o r[1], r[2]>>

Apply(old, bl, me) ==
  LET r == TLCEval(ApplyRange(old, bl, 1, Len(bl), 1, me))
  IN r[1] \o SubSeq(old, r[2], Len(old))

RECURSIVE ConsumedRange(_, _, _)
ConsumedRange(bl, lo, hi) ==
  IF lo > hi THEN 0
  ELSE IF lo = hi THEN bl[lo][1] + bl[lo][2]
  ELSE LET mid == (lo + hi) \div 2
       IN ConsumedRange(bl, lo, mid) + ConsumedRange(bl, mid + 1, hi)

Consumed(bl, i) == ConsumedRange(bl, i, Len(bl))

\* The change can be applied to a version with n lines.
Applicable(bl, n) == Consumed(bl, 1) <= n

(***************************************************************************)
(* The merged view: views[i] is the version in the merge as seen from      *)
(* parent i, where lines added against that parent are attributed to me.   *)
(* The first parent that does not show a line as added decides.            *)
(***************************************************************************)
MergeViews(views, me) == TLCEval(
  [j \in 1..Len(views[1]) |->
     LET S == {i \in 1..Len(views) : views[i][j].a # {me}}
     IN IF S = {} THEN views[1][j]
        ELSE [c |-> views[1][j].c,
              a |-> views[CHOOSE i \in S : \A k \in S : i <= k][j].a]])

\* The same content with several possible attributions.
UnionLines(fs) == TLCEval(
  [j \in 1..Len(fs[1]) |-> [c |-> fs[1][j].c, a |-> UNION {fs[i][j].a : i \in 1..Len(fs)}]])

(***************************************************************************)
(* Declarative reading of the same rules, used to check the operators      *)
(* above in MCBlame: an alignment is the increasing sequence of pairs      *)
(* <<old position, new position>> of kept lines.                           *)
(***************************************************************************)
IsAlignment(al, old, new) ==
  /\ \A k \in 1..Len(al) : al[k][1] \in 1..Len(old) /\ al[k][2] \in 1..Len(new)
  /\ \A k \in 1..Len(al) : old[al[k][1]] = new[al[k][2]]
  /\ \A k \in 1..(Len(al) - 1) : al[k][1] < al[k+1][1] /\ al[k][2] < al[k+1][2]

AttributedBy(al, old, new, me) ==
  [j \in 1..Len(new) |->
     IF \E k \in 1..Len(al) : al[k][2] = j
     THEN [c |-> new[j], a |-> old[al[CHOOSE k \in 1..Len(al) : al[k][2] = j][1]].a]
     ELSE [c |-> new[j], a |-> {me}]]
=============================================================================
