------------------------------- MODULE MCGraph -------------------------------
(***************************************************************************)
(* Design of the commit graph. git writes a line for every commit that is  *)
(* reachable from HEAD, or from all references, with the commit and its    *)
(* parents. The lines are read into a map of parents, from which the       *)
(* children are made in any order of the commits and sorted by hash after  *)
(* that. Checked against the declared graph for all graphs, references and *)
(* orders of hashes. A graph can also be made from a map which has some of *)
(* the commits only.                                                       *)
(***************************************************************************)
EXTENDS History, TLC, Integers

CONSTANTS N, MaxPar, Mutant

VARIABLES par,    \* graph
          head, refs, all, \* HEAD, other references, and whether they are asked for
          rank,   \* order of hashes
          phase,  \* "grow", "write", "read", "map", "children", "sort", "done"
          text,   \* what git writes: tokens
          asked,  \* commits that the graph has to have
          parents, todo, children
vars == <<par, head, refs, all, rank, phase, text, asked, parents, todo, children>>

Empty == [x \in {} |-> <<>>]
ParentChoices(n) == UNION {[1..k -> 1..n] : k \in 0..MaxPar}
Orders == {f \in [1..N -> 1..N] : \A a, b \in 1..N : a # b => f[a] # f[b]}

Init == /\ par = <<>> /\ head = 0 /\ refs = {} /\ all = FALSE /\ rank \in Orders /\ phase = "grow" /\ text = <<>>
        /\ asked = {} /\ parents = Empty /\ todo = {} /\ children = Empty

AddCommit == /\ phase = "grow" /\ Len(par) < N
             /\ \E ps \in ParentChoices(Len(par)) : par' = Append(par, ps)
             /\ UNCHANGED <<head, refs, all, rank, phase, text, asked, parents, todo, children>>
Choose == /\ phase = "grow" /\ Len(par) = N
          /\ head' \in 1..N /\ refs' \in SUBSET {N - 1, N} /\ all' \in BOOLEAN
          /\ phase' = "write"
          /\ asked' = Reach(par, {head'} \cup (IF all' THEN refs' ELSE {}))
          /\ UNCHANGED <<par, rank, text, parents, todo, children>>
\* the caller has a map of some of the commits
Given == /\ phase = "grow" /\ Len(par) = N
         /\ asked' \in SUBSET (1..N)
         /\ parents' = TLCEval([c \in asked' |-> par[c]]) /\ phase' = "map"
         /\ UNCHANGED <<par, head, refs, all, rank, text, todo, children>>

\* git writes commits after their parents, -1 is a separator of the commit, -2 of parents, -3 the end of a line
RECURSIVE Join(_)
Join(ps) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps ELSE <<ps[1], -2>> \o Join(Tail(ps))
Written == LET F[k \in 0..Len(text)] == IF k = 0 THEN {} ELSE F[k - 1] \cup (IF k = 1 THEN {text[1]} ELSE IF text[k - 1] = -3 THEN {text[k]} ELSE {}) IN F[Len(text)]
Wanted == IF Mutant = "headonly" THEN Reach(par, {head}) ELSE IF Mutant = "refsonly" /\ all /\ refs # {} THEN Reach(par, refs) ELSE asked
WriteLine == /\ phase = "write"
             /\ \E c \in Wanted \ Written :
                  /\ (ParentsOf(par, c) \cap Wanted) \subseteq Written
                  /\ text' = text \o <<c, -1>> \o Join(par[c]) \o <<-3>>
             /\ UNCHANGED <<par, head, refs, all, rank, phase, asked, parents, todo, children>>
WriteEnd == /\ phase = "write" /\ Wanted = Written /\ phase' = "read"
            /\ UNCHANGED <<par, head, refs, all, rank, text, asked, parents, todo, children>>

RECURSIVE SplitAt(_, _, _)
SplitAt(s, sep, cur) ==
  IF s = <<>> THEN <<cur>>
  ELSE IF s[1] = sep THEN <<cur>> \o SplitAt(Tail(s), sep, <<>>)
  ELSE SplitAt(Tail(s), sep, Append(cur, s[1]))
ReadLine == /\ phase = "read" /\ text # <<>>
            /\ LET k == CHOOSE j \in 1..Len(text) : text[j] = -3 /\ \A m \in 1..(j - 1) : text[m] # -3
                   line == SubSeq(text, 1, k - 1)
                   parts == SplitAt(line, -1, <<>>)
                   c == parts[1][1]
                   words == SplitAt(parts[2], -2, <<>>)
                   ps == IF parts[2] = <<>> THEN (IF Mutant = "emptyparent" THEN <<0>> ELSE <<>>)
                         ELSE [j \in 1..Len(words) |-> words[j][1]]
                   kept == IF Mutant = "firstparent" /\ Len(ps) > 1 THEN <<ps[1]>>
                           ELSE IF Mutant = "noroot" /\ ps = <<>> THEN <<>> ELSE ps
               IN /\ text' = SubSeq(text, k + 1, Len(text))
                  /\ parents' = TLCEval(IF Mutant = "noroot" /\ ps = <<>> THEN parents
                                        ELSE [x \in DOMAIN parents \cup {c} |-> IF x = c THEN kept ELSE parents[x]])
            /\ UNCHANGED <<par, head, refs, all, rank, phase, asked, todo, children>>
ReadEnd == /\ phase = "read" /\ text = <<>> /\ phase' = "map"
           /\ UNCHANGED <<par, head, refs, all, rank, text, asked, parents, todo, children>>

StartChildren == /\ phase = "map" /\ phase' = "children" /\ todo' = DOMAIN parents
                 /\ UNCHANGED <<par, head, refs, all, rank, text, asked, parents, children>>
AddTo(m, p, c) == [x \in DOMAIN m \cup {p} |-> IF x = p THEN Append(IF p \in DOMAIN m THEN m[p] ELSE <<>>, c) ELSE m[x]]
RECURSIVE AddAll(_, _, _)
AddAll(m, ps, c) == IF ps = <<>> THEN m ELSE AddAll(IF Mutant = "outside" /\ ps[1] \notin DOMAIN parents THEN m ELSE AddTo(m, ps[1], c), Tail(ps), c)
\* any commit of the map is next
OneChild == /\ phase = "children"
            /\ \E c \in todo :
                 /\ todo' = todo \ {c}
                 /\ LET keyed == IF c \in DOMAIN children \/ Mutant = "nokey" THEN children
                                 ELSE [x \in DOMAIN children \cup {c} |-> IF x = c THEN <<>> ELSE children[x]]
                        reset == IF Mutant = "reset" THEN [x \in DOMAIN children \cup {c} |-> IF x = c THEN <<>> ELSE children[x]] ELSE keyed
                    IN children' = TLCEval(AddAll(reset, parents[c], c))
            /\ UNCHANGED <<par, head, refs, all, rank, phase, text, asked, parents>>
EndChildren == /\ phase = "children" /\ todo = {} /\ phase' = "sort"
               /\ UNCHANGED <<par, head, refs, all, rank, text, asked, parents, todo, children>>
RECURSIVE Insert(_, _)
Insert(s, x) == IF s = <<>> THEN <<x>> ELSE IF rank[x] <= rank[s[1]] THEN <<x>> \o s ELSE <<s[1]>> \o Insert(Tail(s), x)
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(Sorted(Tail(s)), s[1])
SortChildren == /\ phase = "sort" /\ phase' = "done"
                /\ children' = (IF Mutant = "nosort" THEN children ELSE TLCEval([x \in DOMAIN children |-> Sorted(children[x])]))
                /\ UNCHANGED <<par, head, refs, all, rank, text, asked, parents, todo>>
Next == AddCommit \/ Choose \/ Given \/ WriteLine \/ WriteEnd \/ ReadLine \/ ReadEnd \/ StartChildren \/ OneChild \/ EndChildren \/ SortChildren
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Times(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
Done == phase = "done"
Commits == Done => DOMAIN parents = asked
ParentsDeclared == Done => \A c \in asked \cap DOMAIN parents : parents[c] = par[c]
Keys == Done => DOMAIN children = asked \cup UNION {ParentsOf(par, c) : c \in asked}
ChildrenDeclared == Done => \A x \in DOMAIN children :
  /\ Range(children[x]) = ChildrenIn(par, asked, x)
  /\ \A d \in Range(children[x]) : Times(children[x], d) = Times(par[d], x)
  /\ \A k \in 1..(Len(children[x]) - 1) : rank[children[x][k]] <= rank[children[x][k + 1]]
\* a graph that was read has all parents
ReadIsClosed == Done /\ head # 0 => DOMAIN children = DOMAIN parents
=============================================================================
