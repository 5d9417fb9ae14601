------------------------------- MODULE MCLog -------------------------------
(***************************************************************************)
(* The text that git log -p writes for a commit which changes one file,    *)
(* followed by another commit, and the automata that read it: one for the  *)
(* log, one for a patch. Lines are real strings. Whatever the subject, the *)
(* author and the lines of the file are, what is read is what was written. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Tokens, MaxOld, MaxNew, Mutant

VARIABLES old, new,    \* versions of the file
          oldeol, neweol,
          subject, author,
          stage
vars == <<old, new, oldeol, neweol, subject, author, stage>>

Hostile == {"commit 1", "commit 1 (from 2)", "diff --git a/x b/x", "@@ -1 +1 @@", "@@", "-- a/x", "++ b/x", "\\ No newline at end of file", "", " ", "x",
            "Binary files a/x and b/x differ", "rename from y", "deleted file mode 100644", "Merge: 1 2", "    x", "-", "+", "\t", "f @@ -1 +1 @@ g", "_@"}
Few == {"commit 1", "f @@", "diff --git a/x b/x", "@@ -1 +1 @@", "-- a/x", "++ b/x", "\\ No newline at end of file", "", "x"}

Starts(l, p) == Len(l) >= Len(p) /\ SubSeq(l, 1, Len(p)) = p
Rest(l, n) == SubSeq(l, n + 1, Len(l))

----------------------------------------------------------------------------
(* Writing. The common lines at the beginning and the end are kept. *)
Min2(a, b) == IF a < b THEN a ELSE b
CommonStart(a, b, m) == CHOOSE k \in 0..m : (\A i \in 1..k : a[i] = b[i]) /\ (k = m \/ a[k + 1] # b[k + 1])
NoEolLine == "\\ No newline at end of file"

\* lines as git compares them: the last one is different when it has no newline
Keyed(v, eol) == [i \in 1..Len(v) |-> <<v[i], i < Len(v) \/ eol>>]

Body ==
  LET a == Keyed(old, oldeol)
      b == Keyed(new, neweol)
      s == CommonStart(a, b, Min2(Len(a), Len(b)))
      ra == Reverse(SubSeq(a, s + 1, Len(a)))
      rb == Reverse(SubSeq(b, s + 1, Len(b)))
      e == CommonStart(ra, rb, Min2(Len(ra), Len(rb)))
      wr(pre, l) == <<pre \o l[1]>> \o (IF l[2] THEN <<>> ELSE <<NoEolLine>>)
      RECURSIVE all(_, _)
      all(pre, ls) == IF ls = <<>> THEN <<>> ELSE wr(pre, ls[1]) \o all(pre, Tail(ls))
  IN all(" ", SubSeq(a, 1, s)) \o all("-", SubSeq(a, s + 1, Len(a) - e)) \o all("+", SubSeq(b, s + 1, Len(b) - e)) \o all(" ", SubSeq(a, Len(a) - e + 1, Len(a)))

\* After the place, the heading of a hunk repeats an earlier line of the file.
Heading == IF Len(old) = 0 THEN "" ELSE " " \o old[1]
Place == "-1 +1"

Patch == <<"diff --git a/f b/f">>
         \o (IF old = <<>> THEN <<"new file mode 100644">> ELSE <<>>)
         \o <<"index 1..2 100644">>
         \o <<IF old = <<>> THEN "--- /dev/null" ELSE "--- a/f", "+++ b/f", "@@ " \o Place \o " @@" \o Heading>>
         \o Body

Log == <<"commit 7", "Author: " \o author, "", "    " \o subject, "">>
       \o Patch
       \o <<"", "commit 8", "Author: " \o author, "", "    " \o subject>>

----------------------------------------------------------------------------
(* Reading the log: records with their patches. *)
NoRec == [hash |-> "", patches |-> <<>>]
EndRec(s) == [s EXCEPT !.recs = Append(@, IF s.st = "diff" THEN [s.cur EXCEPT !.patches = Append(@, s.patch)] ELSE s.cur), !.st = "commit"]
StartRec(s, l) == IF Starts(l, "commit ") THEN [s EXCEPT !.cur = [hash |-> Rest(l, 7), patches |-> <<>>], !.st = "parents"] ELSE [s EXCEPT !.bad = TRUE]
IsDiff(l) == Len(l) > 4 /\ Starts(l, "diff")

LogLine(s, l) ==
  CASE s.st = "commit" -> StartRec(s, l)
    [] s.st = "parents" -> IF Starts(l, "Merge: ") THEN s ELSE [s EXCEPT !.st = "message"]
    [] s.st = "message" -> IF l = "" \/ Starts(l, " ") THEN s
                           ELSE IF IsDiff(l) THEN [s EXCEPT !.st = "diff", !.patch = <<l>>]
                           ELSE IF Starts(l, "commit ") THEN StartRec(EndRec(s), l)
                           ELSE [s EXCEPT !.bad = TRUE]
    [] s.st = "diff" -> IF l = "" \/ (Mutant = "blank" /\ l = " ") THEN EndRec(s)
                        ELSE IF IsDiff(l) \/ (Mutant = "anydiff" /\ Len(l) > 5 /\ Starts(Rest(l, 1), "diff")) THEN [s EXCEPT !.cur = [@ EXCEPT !.patches = Append(@, s.patch)], !.patch = <<l>>]
                        ELSE [s EXCEPT !.patch = Append(@, l)]

ReadLog(ls) == LET s == FoldLeft(LogLine, [st |-> "commit", recs |-> <<>>, cur |-> NoRec, patch |-> <<>>, bad |-> FALSE], ls)
               IN EndRec(s)

(* Reading a patch. *)
\* the place in the header of a hunk: up to the sign that closes it
Ats(l) == {i \in 1..Len(l) : SubSeq(l, i, i) = "@"}
Closing(l) == IF Mutant = "lastat" THEN CHOOSE i \in Ats(l) : \A j \in Ats(l) : j <= i
              ELSE IF Mutant = "endat" THEN Len(l)
              ELSE CHOOSE i \in Ats(l) : Cardinality({j \in Ats(l) : j <= i}) = 4
PlaceOf(l) == IF Cardinality(Ats(l)) < 4 THEN "none" ELSE SubSeq(l, 4, Closing(l) - 3)

PatchLine(s, l) ==
  CASE s.st = "decl" -> [s EXCEPT !.st = "meta"]
    [] s.st = "meta" -> IF Starts(l, "---") THEN [s EXCEPT !.st = "name"]
                        ELSE [s EXCEPT !.bin = @ \/ Starts(l, "Binary files "), !.new = @ \/ Starts(l, "new file "), !.del = @ \/ Starts(l, "deleted file "), !.ren = @ \/ Starts(l, "rename from ")]
    [] s.st = "name" -> [s EXCEPT !.st = "context"]
    [] s.st = "context" -> IF Starts(l, "@@") THEN [s EXCEPT !.st = "lines", !.hunks = Append(@, <<>>), !.places = Append(@, PlaceOf(l))] ELSE s
    [] s.st = "lines" -> IF Starts(l, "@@") \/ (Mutant = "anyhunk" /\ Len(l) > 1 /\ Starts(Rest(l, 1), "@@")) THEN [s EXCEPT !.hunks = Append(@, <<>>), !.places = Append(@, PlaceOf(l))]
                         ELSE IF Mutant = "nametoo" /\ Starts(l, "--- ") THEN [s EXCEPT !.st = "name"]
                         ELSE [s EXCEPT !.hunks[Len(s.hunks)] = Append(@, l)]

ReadPatch(ls) == FoldLeft(PatchLine, [st |-> "decl", bin |-> FALSE, new |-> FALSE, del |-> FALSE, ren |-> FALSE, hunks |-> <<>>, places |-> <<>>], ls)

(* Applying a hunk that starts with the first line. *)
ApplyLine(s, l) ==
  CASE Starts(l, " ") -> [s EXCEPT !.res = Append(@, IF s.pos <= Len(old) THEN old[s.pos] ELSE "?"), !.pos = @ + 1]
    [] Starts(l, "-") -> [s EXCEPT !.pos = @ + 1]
    [] Starts(l, "+") -> [s EXCEPT !.res = Append(@, Rest(l, 1))]
    [] l = NoEolLine -> s
    [] OTHER -> [s EXCEPT !.bad = TRUE]

Applied(h) == FoldLeft(ApplyLine, [pos |-> 1, res |-> <<>>, bad |-> FALSE], h)

----------------------------------------------------------------------------
Seqs(n) == UNION {[1..k -> Tokens] : k \in 0..n}

\* a file has something without a newline only if there is a line, and it is not empty
EolOk(v, eol) == v = <<>> => eol
NotNothing(v, eol) == ~eol => v[Len(v)] # ""

Init == /\ stage = 0 /\ old = <<>> /\ new = <<>> /\ oldeol = TRUE /\ neweol = TRUE /\ subject = "" /\ author = ""

Next == \/ /\ stage = 0 /\ stage' = 1
           /\ old' \in Seqs(MaxOld) /\ oldeol' \in BOOLEAN /\ EolOk(old', oldeol') /\ NotNothing(old', oldeol')
           /\ UNCHANGED <<new, neweol, subject, author>>
        \/ /\ stage = 1 /\ stage' = 2
           /\ new' \in Seqs(MaxNew) \ {<<>>} /\ neweol' \in BOOLEAN /\ NotNothing(new', neweol')
           /\ <<new', neweol'>> # <<old, oldeol>>
           /\ UNCHANGED <<old, oldeol, subject, author>>
        \/ /\ stage = 2 /\ stage' = 3 /\ Len(old) <= 1 /\ Len(new) <= 1
           /\ subject' \in Tokens /\ author' \in Tokens
           /\ UNCHANGED <<old, oldeol, new, neweol>>

Spec == Init /\ [][Next]_vars

ReadIsWritten ==
  stage >= 2 =>
    LET r == ReadLog(Log)
    IN /\ ~r.bad
       /\ Len(r.recs) = 2 /\ r.recs[1].hash = "7" /\ r.recs[2] = [hash |-> "8", patches |-> <<>>]
       /\ r.recs[1].patches = <<Patch>>
       /\ LET p == ReadPatch(r.recs[1].patches[1])
          IN /\ ~p.bin /\ ~p.del /\ ~p.ren /\ p.new = (old = <<>>)
             /\ Len(p.hunks) = 1 /\ p.places = <<Place>>
             /\ LET a == Applied(p.hunks[1])
                IN ~a.bad /\ a.res = new

Emit == IF stage = 2 THEN PrintT(<<"TEXT", ToJson([a |-> old, ae |-> oldeol, b |-> new, be |-> neweol])>>) ELSE TRUE
=============================================================================
