------------------------------ MODULE Discovery ------------------------------
(***************************************************************************)
(* Which repositories the command line processes. A directory is described *)
(* by what it is: "work" (has a .git directory), "bare" (name ends with    *)
(* .git and it has objects), or something else, and for repositories by    *)
(* their state: "ok", "empty" or "broken". A directory for which this      *)
(* cannot be found out is "loop": then not all of them may be processed,   *)
(* and the exit status tells.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Repo(d) == d.is \in {"work", "bare"}
\* 0 is the passed directory, others are the directories in it
Found(top, kids) ==
  IF top.is = "work" THEN {0}
  ELSE IF top.is \in {"file", "missing", "loop"} THEN {}
  ELSE (IF top.is = "bare" THEN {0} ELSE {}) \cup {k \in 1..Len(kids) : Repo(kids[k])}
At(top, kids, k) == IF k = 0 THEN top ELSE kids[k]
InState(top, kids, st) == {k \in Found(top, kids) : At(top, kids, k).st = st}
Unsure(top, kids) == \/ top.is = "loop"
                     \/ /\ top.is \notin {"work", "file", "missing"}
                        /\ \E k \in 1..Len(kids) : kids[k].is = "loop"
Success(top, kids) == ~Unsure(top, kids) /\ Found(top, kids) # {} /\ InState(top, kids, "broken") = {}
=============================================================================
