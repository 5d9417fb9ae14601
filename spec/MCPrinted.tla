------------------------------ MODULE MCPrinted ------------------------------
(***************************************************************************)
(* Design of the command: for every repository the analysis sends commits  *)
(* and their files, a printer prints them, and the command waits for both  *)
(* before it prints the number of lines and goes on to the next            *)
(* repository. What is printed is read back with Printed. All              *)
(* interleavings, the analysis fails after any part of the output.         *)
(***************************************************************************)
EXTENDS Printed, TLC

CONSTANTS Repos, MaxCommits, Mutant

\* commits with no, one, or two files which may look the same
Files == {<<>>, <<1>>, <<1, 1>>, <<2, 1>>}
Histories == UNION {[1..n -> Files] : n \in 0..MaxCommits}
Declared(h) == [k \in 1..Len(h) |-> <<k, 7, h[k]>>]

VARIABLES hist,  \* of each repository
          fails, \* repositories where the analysis fails, after this many sends (0 does not fail)
          repo, main, ana, prt, \* main: "start", "wait", "count", "next", "end"
          entries, total, out, errs
vars == <<hist, fails, repo, main, ana, prt, entries, total, out, errs>>

Init == /\ hist \in [1..Repos -> Histories] /\ fails \in [1..Repos -> 0..2]
        /\ repo = 1 /\ main = "start" /\ ana = [pc |-> "off", c |-> 0, f |-> 0, n |-> 0] /\ prt = <<"off", 0, 0>>
        /\ entries = 0 /\ total = 0 /\ out = <<>> /\ errs = {}
Fix == UNCHANGED <<hist, fails>>

MainStart == /\ main = "start" /\ repo <= Repos
             /\ main' = "wait" /\ ana' = [pc |-> "commit", c |-> 1, f |-> 0, n |-> 0] /\ prt' = <<"read", 0, 0>>
             /\ entries' = (IF Mutant = "carry" THEN entries ELSE 0) /\ out' = Append(out, <<"start", repo>>)
             /\ Fix /\ UNCHANGED <<repo, total, errs>>
\* the analysis and the printer meet, printing is another step
Failing == fails[repo] > 0 /\ ana.n = fails[repo]
SendCommit == /\ ana.pc = "commit" /\ ~Failing /\ ana.c <= Len(hist[repo]) /\ prt[1] = "read"
              /\ ana' = [ana EXCEPT !.pc = "files", !.f = 1, !.n = @ + 1]
              /\ prt' = <<"pcommit", ana.c, 0>> /\ Fix /\ UNCHANGED <<repo, main, entries, total, out, errs>>
PrintCommit == /\ prt[1] = "pcommit"
               /\ out' = IF Mutant = "skipempty" /\ hist[repo][prt[2]] = <<>> THEN out ELSE Append(out, <<"commit", prt[2]>>)
               /\ prt' = <<"files", prt[2], 0>> /\ Fix /\ UNCHANGED <<repo, main, ana, entries, total, errs>>
SendFile == /\ ana.pc = "files" /\ ~Failing /\ ana.f <= Len(hist[repo][ana.c]) /\ prt[1] \in {"files", "drain"}
            /\ ana' = [ana EXCEPT !.f = @ + 1, !.n = @ + 1]
            /\ prt' = (IF prt[1] = "drain" THEN prt ELSE <<"pfile", ana.c, ana.f>>)
            /\ Fix /\ UNCHANGED <<repo, main, entries, total, out, errs>>
PrintFile == /\ prt[1] = "pfile"
             /\ out' = Append(out, <<"file", prt[2], hist[repo][prt[2]][prt[3]]>>)
             /\ entries' = entries + 1
             /\ prt' = <<IF Mutant = "first" THEN "drain" ELSE "files", prt[2], 0>> /\ Fix /\ UNCHANGED <<repo, main, ana, total, errs>>
\* closing the files of a commit does not wait for the printer
EndFiles == /\ ana.pc = "files" /\ (Failing \/ ana.f > Len(hist[repo][ana.c]))
            /\ ana' = [ana EXCEPT !.pc = "commit", !.c = @ + 1]
            /\ Fix /\ UNCHANGED <<repo, main, prt, entries, total, out, errs>>
FilesClosed == /\ prt[1] \in {"files", "drain"} /\ ana.c > prt[2] /\ prt' = <<"read", 0, 0>>
               /\ Fix /\ UNCHANGED <<repo, main, ana, entries, total, out, errs>>
EndAll == /\ ana.pc = "commit" /\ (Failing \/ ana.c > Len(hist[repo]))
          /\ ana' = [ana EXCEPT !.pc = IF Failing THEN "failed" ELSE "done"]
          /\ Fix /\ UNCHANGED <<repo, main, prt, entries, total, out, errs>>
PrinterEnds == /\ prt[1] = "read" /\ ana.pc \in {"failed", "done"} /\ prt' = <<"done", 0, 0>>
               /\ Fix /\ UNCHANGED <<repo, main, ana, entries, total, out, errs>>
MainWait == /\ main = "wait" /\ ana.pc \in {"failed", "done"} /\ (prt[1] = "done" \/ Mutant = "nowait")
            /\ IF ana.pc = "failed"
               THEN errs' = errs \cup {repo} /\ out' = out
               ELSE errs' = errs /\ out' = out \o << <<"count", entries>>, <<"done", repo>> >>
            /\ total' = total + entries
            /\ repo' = repo + 1 /\ main' = IF repo = Repos \/ (Mutant = "stop" /\ ana.pc = "failed") THEN "end" ELSE "start"
            /\ Fix /\ UNCHANGED <<ana, prt, entries>>
Next == MainStart \/ SendCommit \/ PrintCommit \/ SendFile \/ PrintFile \/ EndFiles \/ FilesClosed \/ EndAll \/ PrinterEnds \/ MainWait
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
\* reads the output from position k on, the result has the repositories that are complete, all of them have the declared lines
RECURSIVE Read(_, _, _, _)
Read(k, r, st, good) ==
  IF k > Len(out) THEN good
  ELSE LET x == out[k]
           cs == Declared(hist[r])
       IN CASE x[1] = "start" -> Read(k + 1, x[2], Start, good)
            [] x[1] = "commit" -> Read(k + 1, r, [pos |-> x[2], files |-> <<>>], good /\ Closed(cs, st) /\ CommitLine(cs, st, x[2], 7))
            [] x[1] = "file" -> Read(k + 1, r, [st EXCEPT !.files = Append(@, x[3])], good /\ FileLine(cs, st, x[2], x[3]))
            [] x[1] = "count" -> Read(k + 1, r, st, good /\ x[2] = Entries(cs) /\ Finished(cs, st))
            [] x[1] = "done" -> Read(k + 1, r, st, good /\ x[2] = r)
Right == main # "end" \/ Read(1, 1, Start, TRUE)
Lines == {k \in 1..Len(out) : out[k][1] = "file"}
DoneRepos == {out[k][2] : k \in {j \in 1..Len(out) : out[j][1] = "done"}}
Whole == main = "end" => /\ total = Cardinality(Lines)
                         /\ DoneRepos \cup errs = 1..Repos /\ DoneRepos \cap errs = {}
Ends == <>(main = "end")
=============================================================================
