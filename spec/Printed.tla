------------------------------- MODULE Printed -------------------------------
(***************************************************************************)
(* What the command line prints for a repository: the line of a commit,    *)
(* then the lines of its files in any order, then the next commit, and at  *)
(* the end the number of file lines. A declared commit is a tuple of       *)
(* commit, date and the sequence of file records.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* how often x is in the sequence
Times(x, s) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Times(s[k], s) = Times(s[k], t)

RECURSIVE SumOf(_, _)
SumOf(F(_), n) == IF n = 0 THEN 0 ELSE SumOf(F, n - 1) + F(n)
Entries(cs) == LET F(k) == Len(cs[k][3]) IN SumOf(F, Len(cs))

\* position in the output: number of commits, and the file lines after the last one
Start == [pos |-> 0, files |-> <<>>]
Closed(cs, st) == st.pos = 0 \/ SameBag(st.files, cs[st.pos][3])
CommitLine(cs, st, c, date) == st.pos < Len(cs) /\ cs[st.pos + 1][1] = c /\ cs[st.pos + 1][2] = date
FileLine(cs, st, c, f) == /\ st.pos > 0 /\ cs[st.pos][1] = c
                          /\ Times(f, st.files) < Times(f, cs[st.pos][3])
Finished(cs, st) == st.pos = Len(cs) /\ Closed(cs, st)
=============================================================================
