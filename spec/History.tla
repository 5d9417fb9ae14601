------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* Commit graphs. A graph is a function from commits (numbers) to their    *)
(* parents in order.                                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Functions, Blame

ParentsOf(G, c) == Range(G[c])

RECURSIVE ReachFrom(_, _, _)
ReachFrom(G, frontier, seen) ==
  IF frontier = {} THEN seen
  ELSE LET next == UNION {ParentsOf(G, c) : c \in frontier}
           all == seen \cup frontier
       IN ReachFrom(G, next \ all, all)

\* The commits reachable from a set of commits, including themselves.
Reach(G, S) == ReachFrom(G, S, {})

ChildrenIn(G, S, c) == {d \in S : c \in ParentsOf(G, d)}

(***************************************************************************)
(* Scope of a run. full: everything reachable from the heads. incl: what   *)
(* is reachable from the heads and not from the first parent of from.      *)
(* nonincl: what is reachable from the heads and not from from.            *)
(***************************************************************************)
Scope(G, kind, from, heads) ==
  CASE kind = "full" -> Reach(G, heads)
    [] kind = "incl" -> Reach(G, heads) \ (IF G[from] = <<>> THEN {} ELSE Reach(G, {G[from][1]}))
    [] kind = "nonincl" -> Reach(G, heads) \ Reach(G, {from})

(***************************************************************************)
(* Files. b tells how the file is represented: "F" text with lines, "T"    *)
(* binary without lines, "U" either of them. bc is the set of commits the  *)
(* version of the file may be stamped with.                                *)
(***************************************************************************)
File(b, ls, bc) == [b |-> b, ls |-> ls, bc |-> bc]

Reported(k, f) == [k |-> k, f |-> f]


(***************************************************************************)
(* Regular commits (no or one parent). An entry e describes one changed    *)
(* path: e.s is one of A M D R T, e.p the path, e.q the previous path, e.b *)
(* whether git shows a binary change, e.h whether there is a patch, e.x    *)
(* the blocks, e.gb the result of git blame (only where it is needed).     *)
(***************************************************************************)
NoFiles == [p \in {} |-> File("F", <<>>, {})]

FromBlame(gb) == TLCEval([j \in 1..Len(gb) |-> Line(gb[j][1], {gb[j][2]})])
AnyAttr(ls) == TLCEval([j \in 1..Len(ls) |-> [ls[j] EXCEPT !.a = {0}]])

RegularFile(e, prev, me) ==
  IF e.b THEN File("T", <<>>, {me})
  ELSE IF e.s \in {"A", "T"} THEN File("F", Apply(<<>>, e.x, me), {me})
  ELSE LET o == prev[e.q]
       IN IF ~e.h
          THEN CASE o.b = "F" -> File("F", o.ls, {me})
                 [] o.b = "T" -> o
                 [] o.b = "U" -> File("U", o.ls, o.bc \cup {me})
          ELSE CASE o.b = "F" -> File("F", Apply(o.ls, e.x, me), {me})
                 [] o.b = "T" -> File("F", FromBlame(e.gb), {me})
                 [] o.b = "U" -> File("F", AnyAttr(FromBlame(e.gb)), {me})

Live(es) == {i \in 1..Len(es) : es[i].s # "D"}
LivePaths(es) == {es[i].p : i \in Live(es)}
EntryOf(es, p) == es[CHOOSE i \in Live(es) : es[i].p = p]
DeletedPaths(es) == {es[i].p : i \in {j \in 1..Len(es) : es[j].s = "D"}}
RenameSources(es) == {es[i].q : i \in {j \in 1..Len(es) : es[j].s = "R"}}

Kind(f) == CASE f.b = "T" -> "bin" [] f.b = "F" -> "text" [] f.b = "U" -> "any"

RegularTruth(es, prev, me) ==
  LET chg == TLCEval([p \in LivePaths(es) |-> RegularFile(EntryOf(es, p), prev, me)])
      keep == DOMAIN prev \ (DeletedPaths(es) \cup RenameSources(es) \cup LivePaths(es))
  IN TLCEval([p \in keep \cup LivePaths(es) |-> IF p \in DOMAIN chg THEN chg[p] ELSE prev[p]])

RegularReport(es, truth, me) == TLCEval(
  [p \in LivePaths(es) \cup DeletedPaths(es) |->
     IF p \in LivePaths(es) THEN Reported(Kind(truth[p]), truth[p])
     ELSE Reported("del", File("U", <<>>, {me}))])

(***************************************************************************)
(* Merges. es[i] are the entries against parent i, prev[i] the files of    *)
(* parent i.                                                               *)
(***************************************************************************)
HasEntry(es, i, p) == p \in LivePaths(es[i])

ChangedPaths(es) == UNION {LivePaths(es[i]) : i \in 1..Len(es)}

\* what an entry says about binary content: "T", "F" or "U"
EntryBin(e, prev) ==
  IF e.b THEN "T"
  ELSE IF e.s \in {"A", "T"} THEN "F"
  ELSE prev[e.q].b

SameParents(es, prev, p) == {i \in 1..Len(es) : ~HasEntry(es, i, p)}

SetToSeqN(S) == \* increasing sequence of a set of numbers
  LET RECURSIVE go(_)
      go(T) == IF T = {} THEN <<>>
               ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o go(T \ {m})
  IN go(S)

UnionFiles(fs) == \* fs: sequence of versions of a file with the same content
  IF Len(fs) = 1 THEN fs[1]
  ELSE LET bs == {fs[i].b : i \in 1..Len(fs)}
           bc == UNION {fs[i].bc : i \in 1..Len(fs)}
       IN IF bs = {"T"} THEN File("T", <<>>, bc)
          ELSE IF bs = {"F"} THEN File("F", UnionLines(TLCEval([i \in 1..Len(fs) |-> fs[i].ls])), bc)
          ELSE File("U", <<>>, bc)

\* result: [k |-> "bin" | "text" | "same" | "any", f |-> file]
MergeFile(es, prev, p, me) ==
  LET I == {i \in 1..Len(es) : HasEntry(es, i, p)}
      bins == {EntryBin(EntryOf(es[i], p), prev[i]) : i \in I}
      same == SameParents(es, prev, p)
  IN IF "T" \in bins THEN Reported("bin", File("T", <<>>, {me}))
     ELSE IF "U" \in bins THEN Reported("maybe", File("U", <<>>, {me} \cup UNION {IF p \in DOMAIN prev[i] THEN prev[i][p].bc ELSE {} : i \in same}))
     ELSE IF same # {}
          THEN LET seq == SetToSeqN(same)
               IN Reported("same", UnionFiles(TLCEval([k \in 1..Len(seq) |-> prev[seq[k]][p]])))
     ELSE LET view(i) == LET e == EntryOf(es[i], p)
                         IN IF e.s \in {"A", "T"} THEN Apply(<<>>, e.x, me)
                            ELSE Apply(prev[i][e.q].ls, e.x, me)
          IN Reported("text", File("F", MergeViews(TLCEval([i \in 1..Len(es) |-> view(i)]), me), {me}))

\* paths of the merge, seen from its first parent
MergePaths(es, prev) ==
  (DOMAIN prev[1] \ (DeletedPaths(es[1]) \cup RenameSources(es[1]))) \cup LivePaths(es[1])

MergeFiles(es, prev, me) ==
  TLCEval([p \in MergePaths(es, prev) |-> MergeFile(es, prev, p, me)])

MergeTruth(mf) == TLCEval([p \in DOMAIN mf |-> mf[p].f])

MergeReport(es, mf, me) ==
  LET changed == {p \in DOMAIN mf : mf[p].k # "same"}
      del == UNION {DeletedPaths(es[i]) : i \in 1..Len(es)} \ DOMAIN mf
  IN TLCEval([p \in changed \cup del |-> IF p \in changed THEN mf[p] ELSE Reported("del", File("U", <<>>, {me}))])
=============================================================================
