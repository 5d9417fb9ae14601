---------------------------- MODULE TraceProcess ----------------------------
(***************************************************************************)
(* Judges traces of real runs of the history analysis. Every event of the  *)
(* trace is one step, the state is what the specification says about the   *)
(* history and about the run in progress. Deviations are printed as        *)
(* <<"BAD", scenario, run, run kind, law, commit, path>> and checking       *)
(* continues with the state of the specification, so that one deviation    *)
(* does not hide others.                                                   *)
(***************************************************************************)
EXTENDS Runs, Checkpoint, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i,      \* next event
          sid,    \* scenario
          par,    \* par[c]: parents of commit c, commits are numbered with parents first
          truth,  \* truth[c]: path -> file
          report, \* report[c]: path -> what has to be reported
          run,    \* run in progress
          obs,    \* results of the runs of the scenario
          disk    \* checkpoint directory that is disturbed, see Checkpoint
vars == <<i, sid, par, truth, report, run, obs, disk>>

E == Trace[i]

NoRun == [kind |-> "none", n |-> 0]

Init == /\ i = 1 /\ sid = 0 /\ par = <<>> /\ truth = <<>> /\ report = <<>>
        /\ run = NoRun /\ obs = <<>> /\ disk = NoDisk

Bad(law, c, p) == PrintT(<<"BAD", sid, run.n, run.kind, law, c, p>>)
Check(cond, law, c, p) == IF cond THEN TRUE ELSE Bad(law, c, p)

Is(e) == i <= Len(Trace) /\ E.e = e /\ i' = i + 1

----------------------------------------------------------------------------
Scn == /\ Is("scn")
       /\ sid' = E.id /\ par' = <<>> /\ truth' = <<>> /\ report' = <<>>
       /\ run' = NoRun /\ obs' = <<>> /\ disk' = NoDisk

Fin == Is("fin") /\ UNCHANGED <<sid, par, truth, report, run, obs, disk>>

\* What git says has to fit to what was there before, otherwise the harness is wrong.
Sane(es, prev) ==
  \A k \in 1..Len(es) :
    es[k].s \in {"M", "R"} =>
      /\ es[k].q \in DOMAIN prev
      /\ LET o == prev[es[k].q]
         IN /\ (es[k].h /\ o.b = "F") => Applicable(es[k].x, Len(o.ls))
            /\ (es[k].h /\ o.b \in {"T", "U"} /\ Len(E.ps) <= 1) => es[k].hasgb

\* the content of the file according to the tree has to be the same as what the specification says
SaneContent(tr) == \A k \in 1..Len(E.w) :
   LET p == E.w[k][1]
   IN p \in DOMAIN tr /\ (tr[p].b = "F" => Contents(tr[p].ls) = E.w[k][2])

Commit ==
  /\ Is("commit")
  /\ LET c == E.c
         es == E.d
         prev == TLCEval([k \in 1..Len(E.ps) |-> truth[E.ps[k]]])
     IN /\ par' = Append(par, E.ps)
        /\ IF c = Len(par) + 1 THEN TRUE ELSE PrintT(<<"HARNESS", sid, c, "number">>)
        /\ IF \A k \in 1..Len(es) : Sane(es[k], IF E.ps = <<>> THEN NoFiles ELSE prev[k])
           THEN TRUE ELSE PrintT(<<"HARNESS", sid, c>>)
        /\ IF Len(E.ps) < 2
           THEN LET base == IF E.ps = <<>> THEN NoFiles ELSE prev[1]
                    tr == RegularTruth(es[1], base, c)
                IN /\ truth' = Append(truth, tr)
                   /\ report' = Append(report, RegularReport(es[1], tr, c))
                   /\ IF SaneContent(tr) THEN TRUE ELSE PrintT(<<"HARNESS", sid, c, "content">>)
           ELSE LET mf == MergeFiles(es, prev, c)
                    tr == MergeTruth(mf)
                IN /\ truth' = Append(truth, tr)
                   /\ report' = Append(report, MergeReport(es, mf, c))
                   /\ IF SaneContent(tr) THEN TRUE ELSE PrintT(<<"HARNESS", sid, c, "content">>)
  /\ UNCHANGED <<sid, run, obs, disk>>

----------------------------------------------------------------------------
(* Runs *)

StartRun ==
  /\ Is("run")
  /\ run' = [kind |-> E.kind, n |-> Len(obs) + 1, from |-> E.from, heads |-> Range(E.heads),
             strict |-> E.strict, lax |-> E.lax, rep |-> E.rep, cmp |-> E.cmp, haveck |-> E.haveck, v |-> E.v, cs |-> Range(E.cs)]
  /\ obs' = Append(obs, <<>>)
  /\ UNCHANGED <<sid, par, truth, report, disk>>

Merge(c) == Len(par[c]) > 1

\* observed file o against what has to be reported
CheckFile(c, o) ==
  IF o.p \notin DOMAIN report[c]
  THEN Bad("files", c, o.p)
  ELSE LET r == report[c][o.p]
           f == r.f
           attr == IF Merge(c) THEN "attrm" ELSE "attr"
       IN CASE r.k = "del" -> /\ Check(o.l = <<>>, "delempty", c, o.p)
                              /\ Check(o.bc = c, "stamp", c, o.p)
            [] r.k = "bin" -> /\ Check(o.b, "kind", c, o.p)
                              /\ Check(o.l = <<>>, "binempty", c, o.p)
                              /\ Check(o.bc \in f.bc, "stamp", c, o.p)
            [] r.k = "text" ->
                 IF o.b THEN Bad("kind", c, o.p)
                 ELSE /\ Check(o.bc = c, "stamp", c, o.p)
                      /\ Check(o.l = Contents(f.ls), "content", c, o.p)
                      /\ Check(/\ Len(o.a) = Len(f.ls)
                               /\ \A k \in 1..Len(f.ls) : 0 \in f.ls[k].a \/ o.a[k] \in f.ls[k].a, attr, c, o.p)
            [] OTHER -> Check(o.b => o.l = <<>>, "binempty", c, o.p)

\* the same as in the run it is compared with
SameAsBefore ==
  \/ run.cmp = 0
  \/ LET o == obs[run.cmp]
     IN \A k \in 1..Len(o) : o[k].c = E.c => o[k].f = E.f /\ o[k].x = E.x

Result ==
  /\ Is("res")
  /\ obs' = [obs EXCEPT ![run.n] = Append(@, [c |-> E.c, f |-> E.f, x |-> E.x])]
  /\ IF E.c \notin 1..Len(report)
     THEN Bad("scope", E.c, 0)
     ELSE LET ps == {E.f[k].p : k \in 1..Len(E.f)}
              missing == {p \in DOMAIN report[E.c] : report[E.c][p].k # "maybe"} \ ps
          IN /\ \A k \in 1..Len(E.f) : CheckFile(E.c, E.f[k])
             /\ \A p \in missing : Bad("files", E.c, p)
             /\ Check(SameAsBefore, "resumed", E.c, 0)
  /\ UNCHANGED <<sid, par, truth, report, run, disk>>

\* exactly the same as what the first run delivered for this commit, which was judged there
Same ==
  /\ Is("same")
  /\ LET o == obs[1]
         k == CHOOSE k \in 1..Len(o) : o[k].c = E.c
     IN obs' = [obs EXCEPT ![run.n] = Append(@, o[k])]
  /\ UNCHANGED <<sid, par, truth, report, run, disk>>

Delivered(n) == TLCEval([k \in 1..Len(obs[n]) |-> obs[n][k].c])

\* each commit once
NoRepeats(s) == Cardinality(Range(s)) = Len(s)

\* commits delivered before one of their parents: last[c] is the last position of c
OrderBad(s) ==
  LET last == FoldLeft(LAMBDA f, k : [f EXCEPT ![s[k]] = k], TLCEval([c \in 1..Len(par) |-> 0]), [k \in 1..Len(s) |-> k])
  IN {s[k] : k \in {x \in 1..Len(s) : \E p \in ParentsOf(par, s[x]) : last[p] > x}}

RunScope == Scope(par, run.kind, run.from, run.heads)

KeptCkpt == E.haveck = run.haveck /\ E.v = run.v /\ Range(E.cs) = run.cs

EndRun ==
  /\ Is("end")
  /\ LET d == Delivered(run.n)
         known == \A k \in 1..Len(d) : d[k] \in 1..Len(par)
         scope == RunScope
     IN IF run.lax /\ E.err # "none"
        THEN /\ Check(Range(d) \subseteq scope, "scope", 0, 0)
             /\ Check(NoRepeats(d), "repeat", 0, 0)
             /\ \A c \in (IF known THEN OrderBad(d) ELSE {}) : Bad("order", c, 0)
        ELSE IF HasToFail(run, scope)
        THEN /\ Check(E.err = "ckpt", "mustfail", 0, 0)
             /\ Check(d = <<>>, "failempty", 0, 0)
             /\ Check(KeptCkpt, "failkeep", 0, 0)
        ELSE IF LacksParent(par, run, scope)
        THEN /\ Check(E.err # "none", "lacks", 0, 0)
             /\ Check(Range(d) \subseteq scope, "scope", 0, 0)
             /\ Check(NoRepeats(d), "repeat", 0, 0)
             /\ \A c \in (IF known THEN OrderBad(d) ELSE {}) : Bad("order", c, 0)
             /\ Check(KeptCkpt, "failkeep", 0, 0)
        ELSE /\ Check(E.err = "none", "err", 0, 0)
             /\ Check(Range(d) = scope, "scope", 0, 0)
             /\ Check(NoRepeats(d), "repeat", 0, 0)
             /\ \A c \in (IF known THEN OrderBad(d) ELSE {}) : Bad("order", c, 0)
             /\ IF scope = {}
                THEN Check(KeptCkpt, "emptykeep", 0, 0)
                ELSE /\ Check(E.haveck, "nockpt", 0, 0)
                     /\ Check(d # <<>> => E.v = d[Len(d)], "version", 0, 0)
                     /\ IF run.kind = "full" /\ known
                        THEN Check(Range(E.cs) = Retained(par, d, scope), "retain", 0, 0)
                        ELSE Check(known => NeededLater(par, run.cs, d, Reach(par, run.heads)) \subseteq Range(E.cs), "retainneed", 0, 0)
             /\ Check(run.rep # 0 => obs[run.n] = obs[run.rep], "repro", 0, 0)
  /\ UNCHANGED <<sid, par, truth, report, run, obs, disk>>

\* results delivered before, looked at again after the run
Held ==
  /\ Is("held")
  /\ Check(E.before = E.after, "held", 0, 0)
  /\ UNCHANGED <<sid, par, truth, report, run, obs, disk>>

\* the same run in another process
Other ==
  /\ Is("other")
  /\ Check(E.a = E.b, "repro", 0, 0)
  /\ UNCHANGED <<sid, par, truth, report, run, obs, disk>>

----------------------------------------------------------------------------
(* Checkpoint directory whose writing is disturbed: what the reader finds in it. *)

Found == IF E.st = "ok" THEN {[id |-> E.id, v |-> E.v]} ELSE {}

Disk ==
  /\ Is("disk")
  /\ CASE E.role = "start" -> disk' = [disk EXCEPT !.may = Found]
       [] E.role = "ref" -> /\ disk' = [disk EXCEPT !.whole = Append(@, [op |-> E.op, is |-> Found])]
                            /\ Check(E.err = "none" => E.st = "ok", "incomplete", 0, 0)
       [] OTHER ->
            LET new == Written(disk, E.op)
            IN /\ disk' = [disk EXCEPT !.may = Found]
               /\ Check(E.st # "panic", "panic", 0, 0)
               /\ Check(OneOf(Found, disk.may \cup new), "mixture", 0, 0)
               /\ Check(E.err = "none" => Found = new, "incomplete", 0, 0)
               /\ Check(E.role = "normal" => E.err = "none" \/ E.op = "incl", "err", 0, 0)
  /\ UNCHANGED <<sid, par, truth, report, run, obs>>

\* a checkpoint that was written and read: case x of the specification, out[c] is what was found for commit c
Store ==
  /\ Is("store")
  /\ IF E.err # "none" THEN Bad("err", 0, 0)
     ELSE /\ Check(Len(E.out) = Len(E.x.rows), "stored", 0, 0)
          /\ \A c \in 1..Len(E.out) : Check({<<f.p, f.c, f.b, f.l>> : f \in Range(E.out[c])} = Meaning(E.x, c, E.names), "stored", c, 0)
  /\ UNCHANGED <<sid, par, truth, report, run, obs, disk>>

\* the code under test crashed or did not return
Crash ==
  /\ i <= Len(Trace) /\ E.e \in {"crash", "hang"} /\ i' = i + 1
  /\ Bad(E.e, 0, 0)
  /\ UNCHANGED <<sid, par, truth, report, run, obs, disk>>

Next == Scn \/ Fin \/ Commit \/ StartRun \/ Result \/ Same \/ EndRun \/ Held \/ Other \/ Disk \/ Store \/ Crash

Spec == Init /\ [][Next]_vars

View == i

Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
