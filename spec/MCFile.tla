------------------------------- MODULE MCFile -------------------------------
(***************************************************************************)
(* One path in a small history. Every commit may have any version of it:   *)
(* none, text of a few lines, binary content, a link. What git may say     *)
(* about each pair of versions is left open as far as git is free (any     *)
(* alignment of the lines). The operators of History are checked against   *)
(* properties that are stated over the versions themselves. The histories  *)
(* are also emitted, to be replayed on the real code.                      *)
(***************************************************************************)
EXTENDS History, SequencesExt, TLC, Json

CONSTANTS Shape,   \* parents of the commits
          Alphabet, MaxLines,
          Kinds,   \* kinds of versions besides text: "absent", "bin", "exec", "link"
          OneAlignment,
          Mutant

VARIABLES ver,    \* versions so far
          truth, report,
          merge   \* details of merges: attribution seen from each parent
vars == <<ver, truth, report, merge>>

Line2 == <<<<>>, <<1>>, <<2>>>>
Line3 == <<<<>>, <<1>>, <<2>>, <<3>>>>
Diamond == <<<<>>, <<1>>, <<1>>, <<2, 3>>>>
DiamondTail == <<<<>>, <<1>>, <<1>>, <<2, 3>>, <<4>>>>
Unrelated == <<<<>>, <<>>, <<1, 2>>, <<3>>>>
Octopus == <<<<>>, <<1>>, <<1>>, <<2, 3, 1>>>>
Octopus3 == <<<<>>, <<1>>, <<1>>, <<1>>, <<2, 3, 4>>>>
Cross == <<<<>>, <<1>>, <<1>>, <<2, 3>>, <<3, 2>>, <<4, 5>>>>

Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLines}
Versions == {[k |-> "text", l |-> t] : t \in Texts}
            \cup {[k |-> x, l |-> <<>>] : x \in Kinds \cap {"absent"}}
            \cup {[k |-> x, l |-> <<y>>] : x \in Kinds \cap {"exec", "link"}, y \in Alphabet}
            \cup {[k |-> "bin", l |-> <<y>>] : y \in IF "bin" \in Kinds THEN Alphabet ELSE {}}

P == 1 \* the path
Mode(v) == CASE v.k = "link" -> 2 [] v.k = "exec" -> 1 [] OTHER -> 0
Regular(v) == v.k \in {"text", "exec", "bin"}

(***************************************************************************)
(* Entries that git may write for a change from u to v. An alignment is    *)
(* given by the set of kept positions of both, of the same size.           *)
(***************************************************************************)
SortedSeq(S) == SetToSeqN(S)
Alignments(o, n) ==
  {al \in {[k \in 1..Cardinality(A) |-> <<SortedSeq(A)[k], SortedSeq(B)[k]>>] :
             <<A, B>> \in {x \in (SUBSET (1..Len(o))) \X (SUBSET (1..Len(n))) : Cardinality(x[1]) = Cardinality(x[2])}} :
     IsAlignment(al, o, n)}

\* blocks of the change that keeps the aligned lines
RECURSIVE BlocksFrom(_, _, _, _, _)
BlocksFrom(al, k, i, j, n) == \* k: next pair, i, j: positions behind the last kept lines
  IF k > Len(al) THEN <<>>
  ELSE <<<<0, al[k][1] - i, SubSeq(n, j, al[k][2] - 1)>>, <<1, 0, <<>>>>>> \o BlocksFrom(al, k + 1, al[k][1] + 1, al[k][2] + 1, n)

Blocks(al, o, n) ==
  LET lo == IF al = <<>> THEN 0 ELSE al[Len(al)][1]
      ln == IF al = <<>> THEN 0 ELSE al[Len(al)][2]
  IN BlocksFrom(al, 1, 1, 1, n) \o <<<<0, Len(o) - lo, SubSeq(n, ln + 1, Len(n))>>>>

Longest(S) == {al \in S : \A a \in S : Len(a) <= Len(al)}
AlChoices(o, n) == IF OneAlignment THEN {CHOOSE al \in Longest(Alignments(o, n)) : TRUE} ELSE Alignments(o, n)

Ent(s, b, h, x) == [s |-> s, p |-> P, q |-> P, b |-> b, h |-> h, x |-> x, al |-> <<>>, gb |-> <<>>]
New(v) == IF v.k = "bin" THEN Ent("A", TRUE, FALSE, <<>>) ELSE Ent("A", FALSE, v.l # <<>>, <<<<0, 0, v.l>>>>)

Changes(u, v, me) ==
  IF u = v THEN {<<>>}
  ELSE IF u.k = "absent" THEN {<<New(v)>>}
  ELSE IF v.k = "absent" THEN {<<Ent("D", FALSE, FALSE, <<>>)>>}
  ELSE IF (u.k = "link") # (v.k = "link") THEN {<<[New(v) EXCEPT !.s = "T"]>>}
  ELSE IF (u.k = "bin" \/ v.k = "bin") /\ u.l # v.l THEN {<<Ent("M", TRUE, FALSE, <<>>)>>}
  ELSE IF u.k = "bin" \/ v.k = "bin" THEN {<<Ent("M", TRUE, FALSE, <<>>)>>}
  ELSE IF u.l = v.l THEN {<<Ent("M", FALSE, FALSE, <<>>)>>} \* only the mode
  ELSE {<<[Ent("M", FALSE, TRUE, Blocks(al, u.l, v.l)) EXCEPT !.al = al, !.gb = [j \in 1..Len(v.l) |-> <<v.l[j], me>>]]>> : al \in AlChoices(u.l, v.l)}

Init == ver = <<>> /\ truth = <<>> /\ report = <<>> /\ merge = <<>>

TreeOf(c) == truth[c]

RegularStep(v) ==
  LET c == Len(ver) + 1
      ps == Shape[c]
      u == IF ps = <<>> THEN [k |-> "absent", l |-> <<>>] ELSE ver[ps[1]]
      base == IF ps = <<>> THEN NoFiles ELSE TreeOf(ps[1])
  IN \E es \in Changes(u, v, c) :
       LET tr == RegularTruth(es, base, IF Mutant = "stale" /\ c > 2 THEN ps[1] ELSE c)
       IN /\ truth' = Append(truth, tr)
          /\ report' = Append(report, RegularReport(es, tr, c))
          /\ merge' = Append(merge, <<[es |-> es]>>)

MutantMerge(es, prev, c) ==
  CASE Mutant = "deltype" /\ \E i \in 1..Len(es) : es[i] # <<>> /\ es[i][1].s = "T"
         -> [p \in {P} |-> Reported("del", File("U", <<>>, {c}))]
    [] Mutant = "lastview" -> MergeFiles(Reverse(es), Reverse(prev), c)
    [] OTHER -> MergeFiles(es, prev, c)

\* choice of the entries against all parents
RECURSIVE Product(_, _)
Product(S, k) == IF k > Len(S) THEN {<<>>} ELSE {<<x>> \o y : x \in S[k], y \in Product(S, k + 1)}

MergeStep(v) ==
  LET c == Len(ver) + 1
      ps == Shape[c]
      prev == [i \in 1..Len(ps) |-> TreeOf(ps[i])]
  IN \E es \in Product([i \in 1..Len(ps) |-> Changes(ver[ps[i]], v, c)], 1) :
       LET mf == MutantMerge(es, prev, c)
       IN /\ truth' = Append(truth, MergeTruth(mf))
          /\ report' = Append(report, MergeReport(es, mf, c))
          /\ merge' = Append(merge, [i \in 1..Len(ps) |-> [es |-> es[i]]])

Next == /\ Len(ver) < Len(Shape)
        /\ \E v \in Versions :
             /\ ver' = Append(ver, v)
             /\ IF Len(Shape[Len(ver) + 1]) < 2 THEN RegularStep(v) ELSE MergeStep(v)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Properties over the versions. *)
N == Len(ver)
Exists(c) == ver[c].k # "absent"
IsMerge(c) == Len(Shape[c]) > 1
Rep(c) == IF P \in DOMAIN report[c] THEN report[c][P].k ELSE "none"

\* C01: where the specification has lines they are those of the version
ContentHolds ==
  \A c \in 1..N :
    /\ P \in DOMAIN truth[c] <=> Exists(c)
    /\ (Exists(c) /\ truth[c][P].b = "F") => Contents(truth[c][P].ls) = ver[c].l
    /\ Rep(c) \in {"bin", "del"} => report[c][P].f.ls = <<>>
    /\ Rep(c) = "text" => Contents(report[c][P].f.ls) = ver[c].l

\* C04, commits with at most one parent
RegularReports ==
  \A c \in {c \in 1..N : ~IsMerge(c)} :
    LET u == IF Shape[c] = <<>> THEN [k |-> "absent", l |-> <<>>] ELSE ver[Shape[c][1]]
        v == ver[c]
    IN /\ Rep(c) = "none" <=> u = v
       /\ Rep(c) = "del" <=> (Exists(c) = FALSE /\ u.k # "absent")
       /\ (v.k = "bin" /\ u # v) => Rep(c) = "bin"

\* C04, merges
MergeReports ==
  \A c \in {c \in 1..N : IsMerge(c)} :
    LET ps == Shape[c]
        v == ver[c]
        some == \E i \in 1..Len(ps) : Exists(ps[i])
        differs == \A i \in 1..Len(ps) : ver[ps[i]] # v
        binary(i) == ver[ps[i]] # v /\ Exists(c) /\ (v.k = "bin" \/ ver[ps[i]].k = "bin")
        wasbin(i) == Exists(ps[i]) /\ truth[ps[i]][P].b # "F" \* handled as binary since an earlier commit
    IN /\ (~Exists(c) /\ some) <=> Rep(c) = "del"
       /\ (~Exists(c) /\ ~some) => Rep(c) = "none"
       /\ (Exists(c) /\ differs) => Rep(c) \in {"text", "bin", "maybe"}
       /\ (\E i \in 1..Len(ps) : binary(i) /\ ~(ver[ps[i]].k = "link" \/ v.k = "link")) => Rep(c) = "bin"
       /\ (Exists(c) /\ ~differs /\ v.k # "bin" /\ \A i \in 1..Len(ps) : ver[ps[i]].k # "bin" /\ ~wasbin(i)) => Rep(c) \in {"none", "same"}

\* C02 and C03: attribution
Attr(c, j) == truth[c][P].ls[j].a
Seen(c, i, j) == \* position of line j of c in parent i, 0 if it is shown as added
  LET es == merge[c][i].es
  IN IF es = <<>> THEN j
     ELSE IF es[1].s \in {"A", "T"} THEN 0
     ELSE IF ~es[1].h THEN j
     ELSE LET S == {k \in 1..Len(es[1].al) : es[1].al[k][2] = j}
          IN IF S = {} THEN 0 ELSE es[1].al[CHOOSE k \in S : TRUE][1]

AttributionHolds ==
  \A c \in 1..N :
    (Exists(c) /\ truth[c][P].b = "F") =>
      \A j \in 1..Len(truth[c][P].ls) :
        LET ps == Shape[c]
            same == {i \in 1..Len(ps) : ver[ps[i]] = ver[c]}
            I == {i \in 1..Len(ps) : Seen(c, i, j) # 0}
            textparent(i) == truth[ps[i]][P].b = "F"
        IN IF ~IsMerge(c)
           THEN IF I = {} THEN Attr(c, j) = {c}
                ELSE textparent(1) => Attr(c, j) = Attr(ps[1], Seen(c, 1, j))
           ELSE IF same # {}
           THEN (\A i \in same : textparent(i)) => Attr(c, j) = UNION {Attr(ps[i], j) : i \in same}
           ELSE IF I = {} THEN Attr(c, j) = {c}
           ELSE LET i == CHOOSE i \in I : \A k \in I : i <= k
                IN Attr(c, j) = Attr(ps[i], Seen(c, i, j))

RECURSIVE AncestorsOf(_)
AncestorsOf(c) == {c} \cup UNION {AncestorsOf(p) : p \in ParentsOf(Shape, c)}

\* a line is only attributed to a commit that has it, in the past of the commit
AttributedToPast ==
  \A c \in 1..N : (Exists(c) /\ truth[c][P].b = "F") =>
    \A j \in 1..Len(truth[c][P].ls) : \A a \in Attr(c, j) \ {0} :
      a \in AncestorsOf(c) /\ \E k \in 1..Len(ver[a].l) : ver[a].l[k] = ver[c].l[j]

Emit == IF N = Len(Shape) THEN PrintT(<<"FILE", ToJson(ver)>>) ELSE TRUE
=============================================================================
