------------------------------ MODULE MCRename ------------------------------
(***************************************************************************)
(* Whole trees of a few paths in a small history, with renames. Contents   *)
(* 2k and 2k+1 are similar, so that git may take one for the other. Which  *)
(* of the possible renames git names is left open.                         *)
(***************************************************************************)
EXTENDS History, TLC, Json

CONSTANTS Shape, Paths, Contents_, Mutant

VARIABLES tree, truth, report, ent
vars == <<tree, truth, report, ent>>

Line1 == <<<<>>, <<1>>>>
Line2 == <<<<>>, <<1>>, <<2>>>>
Diamond == <<<<>>, <<1>>, <<1>>, <<2, 3>>>>

Lines(v) == <<10 * (v \div 2), 10 * (v \div 2) + 1, 1000 + v>>
Similar(v, w) == v \div 2 = w \div 2

Ent(s, p, q, h, x) == [s |-> s, p |-> p, q |-> q, b |-> FALSE, h |-> h, x |-> x, gb |-> <<>>]
Patch(v, w) == IF v = w THEN <<>> ELSE <<<<2, 1, <<1000 + w>>>>>>

\* pairs <<new path, old path>>
Renames(u, v) ==
  LET add == {p \in Paths : u[p] = 0 /\ v[p] # 0}
      del == {p \in Paths : u[p] # 0 /\ v[p] = 0}
  IN {R \in SUBSET {x \in add \X del : Similar(u[x[2]], v[x[1]])} :
        \A x, y \in R : x # y => x[1] # y[1] /\ x[2] # y[2]}

EntriesWith(u, v, R) ==
  LET one(p) == IF \E x \in R : x[2] = p THEN <<>>
                ELSE IF \E x \in R : x[1] = p
                THEN LET q == (CHOOSE x \in R : x[1] = p)[2] IN <<Ent("R", p, q, u[q] # v[p], Patch(u[q], v[p]))>>
                ELSE IF u[p] = v[p] THEN <<>>
                ELSE IF u[p] = 0 THEN <<Ent("A", p, 0, TRUE, <<<<0, 0, Lines(v[p])>>>>)>>
                ELSE IF v[p] = 0 THEN <<Ent("D", p, 0, FALSE, <<>>)>>
                ELSE IF Similar(u[p], v[p]) THEN <<Ent("M", p, p, TRUE, Patch(u[p], v[p]))>>
                ELSE <<Ent("M", p, p, TRUE, <<<<0, 3, Lines(v[p])>>>>)>>
      RECURSIVE all(_)
      all(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : \A q \in S : p <= q IN one(p) \o all(S \ {p})
  IN all(Paths)

Entries(u, v) == {EntriesWith(u, v, R) : R \in Renames(u, v)}

Empty == [p \in Paths |-> 0]
TreeAt(c) == IF c = 0 THEN Empty ELSE tree[c]
FilesAt(c) == IF c = 0 THEN NoFiles ELSE truth[c]

Init == tree = <<>> /\ truth = <<>> /\ report = <<>> /\ ent = <<>>

RECURSIVE Product(_, _)
Product(S, k) == IF k > Len(S) THEN {<<>>} ELSE {<<x>> \o y : x \in S[k], y \in Product(S, k + 1)}

Next ==
  /\ Len(tree) < Len(Shape)
  /\ \E v \in [Paths -> Contents_ \cup {0}] :
       LET c == Len(tree) + 1
           ps == IF Shape[c] = <<>> THEN <<0>> ELSE Shape[c]
           prev == [i \in 1..Len(ps) |-> FilesAt(ps[i])]
       IN \E es \in Product([i \in 1..Len(ps) |-> Entries(TreeAt(ps[i]), v)], 1) :
            /\ tree' = Append(tree, v) /\ ent' = Append(ent, es)
            /\ IF Len(ps) = 1
               THEN LET tr == IF Mutant = "keepsource"
                              THEN LET t == RegularTruth(es[1], prev[1], c) IN [p \in DOMAIN t \cup RenameSources(es[1]) |-> IF p \in DOMAIN t THEN t[p] ELSE prev[1][p]]
                              ELSE RegularTruth(es[1], prev[1], c)
                    IN truth' = Append(truth, tr) /\ report' = Append(report, RegularReport(es[1], tr, c))
               ELSE LET mf == MergeFiles(es, prev, c)
                    IN truth' = Append(truth, MergeTruth(mf)) /\ report' = Append(report, MergeReport(es, mf, c))

Spec == Init /\ [][Next]_vars

N == Len(tree)
Merges == {c \in 1..N : Len(Shape[c]) > 1}

\* C01
TreesHold == \A c \in 1..N : /\ DOMAIN truth[c] = {p \in Paths : tree[c][p] # 0}
                             /\ \A p \in DOMAIN truth[c] : Contents(truth[c][p].ls) = Lines(tree[c][p])

\* C04: changed paths, except the old paths of renames
ReportsHold ==
  \A c \in (1..N) \ Merges :
    LET u == IF Shape[c] = <<>> THEN Empty ELSE tree[Shape[c][1]]
        src == RenameSources(ent[c][1])
        changed == {p \in Paths : u[p] # tree[c][p]}
    IN /\ DOMAIN report[c] = changed \ src
       /\ \A p \in DOMAIN report[c] : report[c][p].k = (IF tree[c][p] = 0 THEN "del" ELSE "text")

MergeReportsHold ==
  \A c \in Merges :
    LET ps == Shape[c]
        differs(p) == \A i \in 1..Len(ps) : tree[ps[i]][p] # tree[c][p]
        gone(p) == tree[c][p] = 0 /\ \E i \in 1..Len(ps) : tree[ps[i]][p] # 0 /\ p \notin RenameSources(ent[c][i])
    IN DOMAIN report[c] = {p \in Paths : (tree[c][p] # 0 /\ differs(p)) \/ gone(p)}

\* C02: the lines that are not new keep their attribution, over renames too. The last line of a content is the only one that differs from that of a similar content.
RenamesHold ==
  \A c \in (1..N) \ Merges : \A k \in 1..Len(ent[c][1]) :
    LET e == ent[c][1][k]
        q == Shape[c][1]
    IN e.s = "R" => \A j \in 1..3 :
         truth[c][e.p].ls[j].a = (IF tree[q][e.q] = tree[c][e.p] \/ j < 3 THEN truth[q][e.q].ls[j].a ELSE {c})

Emit == IF N = Len(Shape) THEN PrintT(<<"TREES", ToJson(tree)>>) ELSE TRUE
=============================================================================
