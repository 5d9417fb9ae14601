---------------------------- MODULE TraceDiscovery ----------------------------
(***************************************************************************)
(* Judges runs of the command line. n are the numbers of times that each   *)
(* directory was processed, notice tells if it was reported as empty.      *)
(***************************************************************************)
EXTENDS Discovery, Integers, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, sid
vars == <<i, sid>>
E == Trace[i]
Init == i = 1 /\ sid = 0
Bad(law, c) == PrintT(<<"BAD", sid, 0, E.cmd, law, c, 0>>)
Check(cond, law, c) == IF cond THEN TRUE ELSE Bad(law, c)
Is(e) == i <= Len(Trace) /\ E.e = e /\ i' = i + 1
Scn == Is("scn") /\ sid' = E.id
Fin == Is("fin") /\ UNCHANGED sid
Range0(s) == 0..Len(s)
Cli == /\ Is("cli")
       /\ LET f == Found(E.top, E.kids)
              ok == InState(E.top, E.kids, "ok")
              unsure == Unsure(E.top, E.kids)
              empty == InState(E.top, E.kids, "empty")
          IN /\ \A k \in Range0(E.kids) :
                  /\ Check(IF k \in f THEN TRUE ELSE E.n[k + 1] = 0 /\ E.started[k + 1] = FALSE, "notfound", k)
                  /\ IF k \in ok THEN Check(E.n[k + 1] = 1 \/ (unsure /\ E.n[k + 1] = 0), "processed", k) ELSE TRUE
                  /\ IF k \in InState(E.top, E.kids, "broken") /\ ~unsure THEN Check(E.failed[k + 1], "failed", k) ELSE TRUE
                  /\ IF k \in empty THEN Check((E.notice[k + 1] \/ unsure) /\ E.n[k + 1] = 0, "notice", k) ELSE TRUE
             /\ Check(E.exit = 0 <=> Success(E.top, E.kids), "exit", E.exit)
             /\ IF E.exit = 0 THEN Check(E.repos = Cardinality(f), "count", E.repos) ELSE TRUE
             /\ Check(E.exit >= 0, "ends", E.exit)
       /\ UNCHANGED sid
Crash == i <= Len(Trace) /\ E.e \in {"crash", "hang"} /\ i' = i + 1 /\ PrintT(<<"BAD", sid, 0, "cli", E.e, 0, 0>>) /\ UNCHANGED sid
Next == Scn \/ Fin \/ Cli \/ Crash
Spec == Init /\ [][Next]_vars
View == i
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
