------------------------------- MODULE MCMeta -------------------------------
(***************************************************************************)
(* The text which git writes for the changed paths of a commit: a line     *)
(* with the status for each (raw), then a line with the counts (numstat),  *)
(* in which renames are abbreviated, so that different changes can have    *)
(* the same text. The reader has to give the counts to the right path.     *)
(* Paths are real strings. Lines of merges come without the raw ones: then *)
(* the path has to be found in the text itself, which can only work when   *)
(* no path looks like a rename.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Names, MaxChanges, Mutant

Plain == {"a", "b", "d/a", "d/b", "d/e/a", "f/a", "f/e/a"}
Arrows == {"a => b", "b => d/a", "d/{a => b}", "{d => f}/a", "d/{e => }/a", "d/{ => e}/a", "{d => f}/e/a"}
Quoted == {"q\"", "d/q\""}
All == Plain \cup Arrows \cup Quoted
Core == {"a", "b", "d/a", "d/b", "a => b", "d/{a => b}", "{d => d}/a"}
Usual == Plain \cup {"a => b", "d/{a => b}", "{d => f}/a", "d/{ => e}/a", "q\""}

VARIABLES changes, stage
vars == <<changes, stage>>

Ch(s, i) == SubSeq(s, i, i)
Has(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c
From(s, i) == SubSeq(s, i, Len(s))
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(s) >= Len(p) /\ From(s, Len(s) - Len(p) + 1) = p

----------------------------------------------------------------------------
(* What git writes. *)
RECURSIVE Escape(_)
Escape(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) = "\"" THEN "\\\"" ELSE Ch(s, 1)) \o Escape(From(s, 2))
Quote(s) == IF Has(s, "\"") THEN "\"" \o Escape(s) \o "\"" ELSE s

Slashes(s) == {i \in 1..Len(s) : Ch(s, i) = "/"}
Largest(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
\* length of the directory that both have at the beginning
Prefix(a, b) == Largest({i \in Slashes(a) : Starts(b, SubSeq(a, 1, i))})
\* length of what both have at the end, from a slash on; it may use the last slash of the prefix, but no more of it
Suffix(a, b) == LET low == IF Prefix(a, b) > 0 THEN Prefix(a, b) ELSE 1
                IN Largest({Len(a) - i + 1 : i \in {j \in Slashes(a) : j >= low /\ Ends(b, From(a, j)) /\ Len(b) - (Len(a) - j) >= low}})
Middle(s, p, q) == IF Len(s) - q < p THEN "" ELSE SubSeq(s, p + 1, Len(s) - q)
Short(a, b) ==
  IF Quote(a) # a \/ Quote(b) # b THEN Quote(a) \o " => " \o Quote(b)
  ELSE LET p == Prefix(a, b)
           q == Suffix(a, b)
       IN IF p + q = 0 THEN a \o " => " \o b
          ELSE SubSeq(a, 1, p) \o "{" \o Middle(a, p, q) \o " => " \o Middle(b, p, q) \o "}" \o From(a, Len(a) - q + 1)

RawLine(c) == IF c.k = "R" THEN <<"R090", Quote(c.p), Quote(c.q)>> ELSE <<c.k, Quote(c.p)>>
NumLine(c) == <<c.n, IF c.k = "R" THEN Short(c.p, c.q) ELSE Quote(c.p)>>

----------------------------------------------------------------------------
(* The reader. *)
RECURSIVE Unescape(_)
Unescape(s) == IF s = "" THEN "" ELSE IF Ch(s, 1) = "\\" THEN Ch(s, 2) \o Unescape(From(s, 3)) ELSE Ch(s, 1) \o Unescape(From(s, 2))
Unquote(s) == IF Starts(s, "\"") /\ Len(s) > 1 THEN Unescape(SubSeq(s, 2, Len(s) - 1)) ELSE s

\* the text of a rename is computed from the paths of the raw line, character by character
RECURSIVE Pre(_, _, _, _)
Pre(a, b, i, r) == IF i > Len(a) \/ i > Len(b) THEN r ELSE IF Ch(a, i) # Ch(b, i) THEN r
                   ELSE Pre(a, b, i + 1, IF Ch(a, i) = "/" THEN i ELSE r)
RECURSIVE Suf(_, _, _, _, _)
Suf(a, b, i, low, r) == IF Len(a) - i < low \/ Len(b) - i < low THEN r ELSE IF Ch(a, Len(a) - i + 1) # Ch(b, Len(b) - i + 1) THEN r
                        ELSE Suf(a, b, i + 1, low, IF Ch(a, Len(a) - i + 1) = "/" THEN i ELSE r)
TextOf(a, b) ==
  IF Starts(a, "\"") \/ Starts(b, "\"") THEN a \o " => " \o b
  ELSE LET p == Pre(a, b, 1, 0)
           q == Suf(a, b, 1, IF p > 0 THEN (IF Mutant = "noslash" THEN p ELSE p - 1) ELSE 0, 0)
           mid(s) == IF Len(s) - q < p THEN "" ELSE SubSeq(s, p + 1, Len(s) - q)
       IN IF p + q = 0 THEN a \o " => " \o b
          ELSE SubSeq(a, 1, p) \o "{" \o mid(a) \o " => " \o mid(b) \o "}" \o From(a, Len(a) - q + 1)

Find(s, t) == {i \in 1..Len(s) : Starts(From(s, i), t)}
\* without the raw line
Guess(t) ==
  LET o == Find(t, "{")
      m == Find(t, " => ")
      c == Find(t, "}")
      join(x, y) == IF (x = "" \/ Ends(x, "/")) /\ Starts(y, "/") THEN x \o From(y, 2) ELSE x \o y
  IN IF \E x \in o, y \in m, z \in c : x < y /\ y < z
     THEN LET y == Largest({y \in m : \E x \in o, z \in c : x < y /\ y < z})
              x == Largest({x \in o : x < y})
              z == Largest({z \in c : z > y})
          IN join(SubSeq(t, 1, x - 1) \o SubSeq(t, y + 4, z - 1), From(t, z + 1))
     ELSE IF m # {} THEN Unquote(From(t, Largest(m) + 4))
     ELSE Unquote(t)

(* Files by path, and the texts that are expected together with the paths they stand for. *)
Entry(s, r, to, from) == [st |-> s, ren |-> r, from |-> from, to |-> to, n |-> 0]
Set(files, p, e) == [x \in DOMAIN files \cup {p} |-> IF x = p THEN e ELSE files[x]]
ReadRaw(s, l) ==
  IF Len(l) = 3
  THEN LET f == Unquote(l[2])
           t == Unquote(l[3])
       IN [s EXCEPT !.files = Set(Set(@, f, Entry("D", TRUE, t, f)), t, Entry("A", TRUE, t, f)),
                    !.texts = Append(@, <<TextOf(l[2], l[3]), t>>)]
  ELSE [s EXCEPT !.files = Set(@, Unquote(l[2]), Entry(l[1], FALSE, "", "")), !.texts = Append(@, <<l[2], Unquote(l[2])>>)]

ReadNum(s, l) ==
  LET is == {i \in 1..Len(s.texts) : s.texts[i][1] = l[2] /\ Mutant # "guess"}
      i == IF Mutant = "last" THEN Largest(is) ELSE CHOOSE x \in is : \A y \in is : x <= y
      p == IF is = {} THEN Guess(l[2]) ELSE s.texts[i][2]
  IN [s EXCEPT !.files = IF p \in DOMAIN @ THEN [@ EXCEPT ![p].n = l[1]] ELSE Set(@, p, [Entry("M", FALSE, "", "") EXCEPT !.n = l[1]]),
               !.texts = IF is = {} \/ Mutant = "last" THEN @ ELSE RemoveAt(@, i)]

Nothing == [files |-> [x \in {} |-> 0], texts |-> <<>>]
Raw(cs) == [i \in 1..Len(cs) |-> RawLine(cs[i])]
Num(cs) == [i \in 1..Len(cs) |-> NumLine(cs[i])]
Read(cs) == FoldLeft(ReadNum, FoldLeft(ReadRaw, Nothing, Raw(cs)), Num(cs)).files
ReadMerge(cs) == FoldLeft(ReadNum, Nothing, Num(cs)).files

----------------------------------------------------------------------------
(* What has to be read. *)
Paths(c) == IF c.k = "R" THEN {c.p, c.q} ELSE {c.p}
AllPaths(cs) == UNION {Paths(cs[i]) : i \in 1..Len(cs)}
Truth(cs) == [x \in AllPaths(cs) |->
  LET c == cs[CHOOSE i \in 1..Len(cs) : x \in Paths(cs[i])]
  IN IF c.k # "R" THEN [Entry(c.k, FALSE, "", "") EXCEPT !.n = c.n]
     ELSE IF x = c.p THEN Entry("D", TRUE, c.q, c.p)
     ELSE [Entry("A", TRUE, c.q, c.p) EXCEPT !.n = c.n]]
TruthMerge(cs) == [x \in {IF cs[i].k = "R" THEN cs[i].q ELSE cs[i].p : i \in 1..Len(cs)} |->
  [Entry("M", FALSE, "", "") EXCEPT !.n = cs[CHOOSE i \in 1..Len(cs) : x = (IF cs[i].k = "R" THEN cs[i].q ELSE cs[i].p)].n]]

Init == changes = <<>> /\ stage = 0
\* the counts are all different, so that it can be told which is which
Add == /\ stage = 0 /\ Len(changes) < MaxChanges
       /\ LET free == Names \ AllPaths(changes)
              n == Len(changes) + 1
          IN \/ \E p \in free, k \in {"A", "M", "D"} : changes' = Append(changes, [k |-> k, p |-> p, q |-> "", n |-> n])
             \/ \E p \in free : \E q \in free \ {p} : changes' = Append(changes, [k |-> "R", p |-> p, q |-> q, n |-> n])
       /\ stage' = stage
Next == Add
Spec == Init /\ [][Next]_vars

RightPaths == Read(changes) = Truth(changes)
Harmless(p) == ~Has(p, "{") /\ ~Has(p, "}") /\ Find(p, " => ") = {}
MergesToo == (\A p \in AllPaths(changes) : Harmless(p)) => ReadMerge(changes) = TruthMerge(changes)
Ambiguous == \E i, j \in 1..Len(changes) : i < j /\ NumLine(changes[i])[2] = NumLine(changes[j])[2]
Emit == IF changes = <<>> THEN TRUE ELSE PrintT(<<IF Ambiguous THEN "SAME" ELSE "MOVES", ToJson(changes)>>)
=============================================================================
