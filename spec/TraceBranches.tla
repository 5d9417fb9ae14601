--------------------------- MODULE TraceBranches ---------------------------
(***************************************************************************)
(* Judges records delivered for branches and pull requests, and the commit *)
(* graph.                                                                  *)
(***************************************************************************)
EXTENDS Branches, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, sid,
          par,  \* graph
          rank, \* position of each commit when sorted by hash
          run,  \* call in progress
          got   \* what was delivered: sequence of records
vars == <<i, sid, par, rank, run, got>>

E == Trace[i]
Init == i = 1 /\ sid = 0 /\ par = <<>> /\ rank = <<>> /\ run = [n |-> 0, kind |-> "none"] /\ got = <<>>

Bad(law, c, p) == PrintT(<<"BAD", sid, run.n, run.kind, law, c, p>>)
Check(cond, law, c, p) == IF cond THEN TRUE ELSE Bad(law, c, p)
Is(e) == i <= Len(Trace) /\ E.e = e /\ i' = i + 1

Scn == /\ Is("scn") /\ sid' = E.id /\ par' = <<>> /\ rank' = <<>> /\ got' = <<>>
       /\ run' = [n |-> 0, kind |-> "none"]
Fin == Is("fin") /\ UNCHANGED <<sid, par, rank, run, got>>
Dag == Is("dag") /\ par' = E.par /\ rank' = E.rank /\ UNCHANGED <<sid, run, got>>

----------------------------------------------------------------------------
AsFunction(s) == [x \in {s[k][1] : k \in 1..Len(s)} |-> s[CHOOSE k \in 1..Len(s) : s[k][1] = x][2]]

\* The same commit can be a parent more than once. It is then a child once, or as many times as it names the parent.
OnceEach(s) == FoldLeft(LAMBDA acc, d : IF acc /= <<>> /\ acc[Len(acc)] = d THEN acc ELSE Append(acc, d), <<>>, s)
Times(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
ChildrenAre(s, x, S) ==
  /\ OnceEach(s) = ChildrenSorted(par, rank, S, x)
  /\ \A d \in Range(s) : Times(s, d) \in {1, Times(par[d], x)}

Graph ==
  /\ Is("graph")
  /\ LET S == Reach(par, Range(E.heads))
         p == TLCEval(AsFunction(E.p))
         c == TLCEval(AsFunction(E.c))
     IN /\ Check(~E.err, "grapherr", 0, 0)
        /\ Check(DOMAIN p = S, "graphcommits", 0, 0)
        /\ Check(DOMAIN c = S, "graphkeys", 0, 0)
        /\ \A x \in S \cap DOMAIN p : Check(p[x] = par[x], "graphparents", x, 0)
        /\ \A x \in S \cap DOMAIN c : Check(ChildrenAre(c[x], x, S), "graphchildren", x, 0)
  /\ UNCHANGED <<sid, par, rank, run, got>>

\* A graph built from a map that has only some of the commits. Their parents have child lists too.
Map ==
  /\ Is("gmap")
  /\ LET S == Range(E.heads)
         p == TLCEval(AsFunction(E.p))
         c == TLCEval(AsFunction(E.c))
         all == S \cup UNION {Range(par[x]) : x \in S}
     IN /\ Check(DOMAIN p = S, "graphcommits", 0, 0)
        /\ Check(DOMAIN c = all, "graphkeys", 0, 0)
        /\ \A x \in S \cap DOMAIN p : Check(p[x] = par[x], "graphparents", x, 0)
        /\ \A x \in all \cap DOMAIN c : Check(ChildrenAre(c[x], x, S), "graphchildren", x, 0)
  /\ UNCHANGED <<sid, par, rank, run, got>>

----------------------------------------------------------------------------
Start ==
  /\ Is("brun")
  /\ run' = [n |-> run.n + 1, kind |-> E.kind, def |-> E.def, heads |-> Range(E.heads), prs |-> Range(E.prs), incdef |-> E.incdef, only |-> E.only]
  /\ got' = <<>>
  /\ UNCHANGED <<sid, par, rank>>

DefaultRecord(o) ==
  LET S == Reach(par, {run.def})
  IN /\ Check(Range(o.cs) = S, "deflist", o.head, 0)
     /\ Check(NoDups(o.cs), "repeats", o.head, 0)
     /\ Check(HeadLast(o.cs, run.def), "headlast", o.head, 0)
     /\ Check(Follow(par, o.cs), "follow", o.head, 0)
     /\ Check(o.first \in FirstCommits(par, S), "first", o.head, 0)
     /\ Check(o.id = <<1, 0>>, "id", o.head, 0)

OtherRecord(o) ==
  LET D == run.def
      H == o.head
      S == TLCEval(Listed(par, D, H))
      merged == Merged(par, D, H)
      points == TLCEval(SortBy(rank, BranchPoints(par, D, H)))
      mcs == MergeCommits(par, D, H)
  IN /\ Check(Range(o.cs) = S, "list", H, 0)
     /\ Check(NoDups(o.cs), "repeats", H, 0)
     /\ Check(HeadLast(o.cs, H), "headlast", H, 0)
     /\ Check(Follow(par, o.cs), "follow", H, 0)
     /\ Check(o.merged = merged, "merged", H, 0)
     /\ Check(IF merged /\ mcs # {} THEN o.mc \in mcs ELSE o.mc = 0, "mergecommit", H, 0)
     /\ Check(Range(o.from) = Range(points) /\ Len(o.from) = Len(points), "points", H, 0)
     /\ Check(o.ahead = Cardinality(S), "ahead", H, 0)
     /\ Check(o.behind = Behind(par, D, H), "behind", H, 0)
     /\ Check(o.first \in FirstCommits(par, S), "first", H, 0)
     /\ Check(IF o.pr THEN o.id = <<-1, 0>>
              ELSE o.id = <<o.name, IF points = <<>> THEN 0 ELSE points[1]>>, "id", H, 0)

Record ==
  /\ Is("br")
  /\ got' = Append(got, [name |-> E.name, pr |-> E.pr, head |-> E.head, def |-> E.def])
  /\ IF E.head \notin 1..Len(par) THEN Bad("records", E.head, 0)
     ELSE IF E.def THEN (IF E.head = run.def THEN DefaultRecord(E) ELSE Bad("records", E.head, 0))
     ELSE OtherRecord(E)
  /\ UNCHANGED <<sid, par, rank, run>>

Expected ==
  (IF run.incdef /\ ~run.only THEN {[name |-> 1, pr |-> FALSE, head |-> run.def, def |-> TRUE]} ELSE {})
  \cup (IF run.only THEN {} ELSE {[name |-> h[1], pr |-> FALSE, head |-> h[2], def |-> FALSE] : h \in run.heads})
  \cup {[name |-> 0, pr |-> TRUE, head |-> h, def |-> FALSE] : h \in run.prs}

End ==
  /\ Is("bend")
  /\ Check(~E.err, "brerr", 0, 0)
  /\ Check(E.closed, "brclosed", 0, 0)
  /\ Check(E.err \/ (Range(got) = Expected /\ Len(got) = Cardinality(Expected)), "records", 0, 0)
  /\ UNCHANGED <<sid, par, rank, run, got>>

Crash ==
  /\ i <= Len(Trace) /\ E.e \in {"crash", "hang"} /\ i' = i + 1
  /\ Bad(E.e, 0, 0)
  /\ UNCHANGED <<sid, par, rank, run, got>>

Next == Scn \/ Fin \/ Dag \/ Graph \/ Map \/ Start \/ Record \/ End \/ Crash
Spec == Init /\ [][Next]_vars
View == i
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
