----------------------------- MODULE TracePrinted -----------------------------
(***************************************************************************)
(* Judges the text printed by the command line against what the library    *)
(* delivers for the same repositories.                                     *)
(***************************************************************************)
EXTENDS Printed, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, sid,
          lib,   \* what was delivered by the library, by repository
          cmd,   \* command in progress
          cur,   \* repository in progress, 0 for none
          st,    \* position in its output
          done,  \* repositories that were printed completely
          brs,   \* lines of branches
          total  \* file lines of all repositories
vars == <<i, sid, lib, cmd, cur, st, done, brs, total>>
E == Trace[i]
Init == i = 1 /\ sid = 0 /\ lib = <<>> /\ cmd = "" /\ cur = 0 /\ st = Start /\ done = {} /\ brs = <<>> /\ total = 0
Bad(law, c, x) == PrintT(<<"BAD", sid, cur, cmd, law, c, x>>)
Check(cond, law, c, x) == IF cond THEN TRUE ELSE Bad(law, c, x)
Is(e) == i <= Len(Trace) /\ E.e = e /\ i' = i + 1
Scn == Is("scn") /\ sid' = E.id /\ lib' = <<>> /\ cmd' = "" /\ cur' = 0 /\ st' = Start /\ done' = {} /\ brs' = <<>> /\ total' = 0
Fin == Is("fin") /\ UNCHANGED <<sid, lib, cmd, cur, st, done, brs, total>>

Lib == /\ Is("lib")
       /\ LET d == [err |-> E.err, cs |-> IF E.cmd = "code" THEN E.cs ELSE <<>>, bs |-> IF E.cmd = "code" THEN <<>> ELSE E.bs]
          IN lib' = IF E.repo = 1 THEN <<d>> ELSE Append(lib, d)
       /\ UNCHANGED <<sid, cmd, cur, st, done, brs, total>>
Cmd == /\ Is("cmd") /\ cmd' = E.cmd /\ cur' = 0 /\ st' = Start /\ done' = {} /\ brs' = <<>> /\ total' = 0
       /\ UNCHANGED <<sid, lib>>

Known == cur \in 1..Len(lib)
D == lib[cur]
\* the repository before has to be complete
Leave == IF Known /\ ~D.err THEN Check(cur \in done, "printdone", cur, 0) ELSE TRUE
PStart == /\ Is("pstart") /\ Leave /\ Check(E.repo \in 1..Len(lib) /\ E.repo \notin done, "printrepo", E.repo, 0)
          /\ cur' = E.repo /\ st' = Start /\ brs' = <<>>
          /\ UNCHANGED <<sid, lib, cmd, done, total>>
PCommit ==
  /\ Is("pcommit")
  /\ IF ~Known THEN Bad("printrepo", E.c, 0) /\ st' = st
     ELSE /\ Check(Closed(D.cs, st), "printfiles", IF st.pos = 0 THEN 0 ELSE D.cs[st.pos][1], 0)
          /\ Check(CommitLine(D.cs, st, E.c, E.date), "printcommit", E.c, E.date)
          \* continues there
          /\ st' = LET S == {k \in st.pos + 1..Len(D.cs) : D.cs[k][1] = E.c} IN IF S = {} THEN st ELSE [pos |-> CHOOSE k \in S : TRUE, files |-> <<>>]
  /\ UNCHANGED <<sid, lib, cmd, cur, done, brs, total>>
PFile ==
  /\ Is("pfile")
  /\ IF ~Known THEN Bad("printrepo", E.c, 0)
     ELSE /\ Check(E.repo = cur, "printrepo", E.repo, 0)
          /\ Check(FileLine(D.cs, st, E.c, E.f), "printfile", E.c, E.f[1])
  /\ st' = [st EXCEPT !.files = Append(@, E.f)] /\ total' = total + 1
  /\ UNCHANGED <<sid, lib, cmd, cur, done, brs>>
PBranch ==
  /\ Is("pbranch")
  /\ IF ~Known THEN Bad("printrepo", 0, 0) ELSE Check(Times(E.b, brs) < Times(E.b, D.bs), "printbranch", 0, E.b[1])
  /\ brs' = Append(brs, E.b)
  /\ UNCHANGED <<sid, lib, cmd, cur, st, done, total>>
PCount ==
  /\ Is("pcount")
  /\ IF Known THEN Check(E.n = Entries(D.cs), "printcount", E.n, 0) ELSE TRUE
  /\ UNCHANGED <<sid, lib, cmd, cur, st, done, brs, total>>
PDone ==
  /\ Is("pdone")
  /\ IF ~Known THEN TRUE
     ELSE /\ Check(E.repo = cur /\ ~D.err, "printdone", E.repo, 0)
          /\ Check(Finished(D.cs, st), "printfiles", st.pos, Len(D.cs))
          /\ Check(SameBag(brs, D.bs), "printbranches", 0, 0)
  /\ done' = done \cup {E.repo}
  /\ UNCHANGED <<sid, lib, cmd, cur, st, brs, total>>
\* all repositories are processed
AllFine == \A k \in 1..Len(lib) : ~lib[k].err
CmdEnd ==
  /\ Is("cmdend") /\ Leave
  /\ Check(\A k \in 1..Len(lib) : lib[k].err \/ k \in done, "printdone", 0, 0)
  /\ Check((E.exit = 0) = AllFine, "printexit", E.exit, 0)
  /\ IF E.exit = 0
     THEN /\ Check(E.repos = Len(lib), "printtotal", E.repos, Len(lib))
          /\ IF cmd = "code" THEN Check(E.total = total, "printtotal", E.total, total) ELSE TRUE
     ELSE TRUE
  /\ cur' = 0 /\ cmd' = "" /\ UNCHANGED <<sid, lib, st, done, brs, total>>
Crash == i <= Len(Trace) /\ E.e \in {"crash", "hang"} /\ i' = i + 1 /\ Bad(E.e, 0, 0) /\ UNCHANGED <<sid, lib, cmd, cur, st, done, brs, total>>
Next == Scn \/ Fin \/ Lib \/ Cmd \/ PStart \/ PCommit \/ PFile \/ PBranch \/ PCount \/ PDone \/ CmdEnd \/ Crash
Spec == Init /\ [][Next]_vars
View == i
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
