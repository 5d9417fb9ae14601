------------------------------ MODULE TraceCode ------------------------------
(***************************************************************************)
(* Judges commit metadata, and the records of the code output, which join  *)
(* the results of the history analysis with metadata.                      *)
(***************************************************************************)
EXTENDS History, Metadata, FileInfo, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, sid,
          info, \* metadata of the commits as they were made
          run,  \* call in progress
          got,  \* commits delivered so far in this call
          pres, \* results of history analysis: sequence of <<commit, files>>
          cms,  \* metadata which came with code records
          cur,  \* <<commit, paths>> of records of the current commit
          skips \* what was decided about files before: <<file, reason, language, license>>
vars == <<i, sid, info, run, got, pres, cms, cur, skips>>

E == Trace[i]
NoRun == [n |-> 0, kind |-> "none", from |-> 0, scope |-> {}, flat |-> FALSE, pos |-> 0]
Init == i = 1 /\ sid = 0 /\ info = <<>> /\ run = NoRun /\ got = <<>> /\ pres = <<>> /\ cms = <<>> /\ cur = <<0, {}>> /\ skips = <<>>

Bad(law, c, p) == PrintT(<<"BAD", sid, run.n, run.kind, law, c, p>>)
Check(cond, law, c, p) == IF cond THEN TRUE ELSE Bad(law, c, p)
Is(e) == i <= Len(Trace) /\ E.e = e /\ i' = i + 1

Scn == /\ Is("scn") /\ sid' = E.id /\ info' = <<>> /\ run' = NoRun /\ got' = <<>> /\ pres' = <<>> /\ cms' = <<>> /\ cur' = <<0, {}>> /\ skips' = <<>>
Fin == Is("fin") /\ UNCHANGED <<sid, info, run, got, pres, cms, cur, skips>>
Info == /\ Is("cinfo")
        /\ IF E.c = Len(info) + 1 THEN TRUE ELSE PrintT(<<"HARNESS", sid, "order of commits">>)
        /\ info' = Append(info, [ps |-> E.ps, an |-> E.an, ae |-> E.ae, cn |-> E.cn, ce |-> E.ce, at |-> E.at, tz |-> E.tz, s |-> E.s, fs |-> E.fs, amb |-> E.amb, mis |-> E.mis, known |-> E.known])
        /\ UNCHANGED <<sid, run, got, pres, cms, cur, skips>>

Par == TLCEval([c \in 1..Len(info) |-> info[c].ps])

StartRun(flat) ==
  /\ run' = [n |-> run.n + 1, kind |-> E.kind, from |-> E.from, flat |-> flat, pos |-> 0,
             scope |-> TLCEval(LET G == Par IN Scope(G, E.kind, E.from, Range(E.heads)))]
  /\ got' = <<>> /\ cur' = <<0, {}>>

----------------------------------------------------------------------------
\* metadata
CheckMeta(o, law) ==
  LET f == info[o.c]
  IN /\ Check(SameValues(o, f), law \o "val", o.c, 0)
     /\ IF SamePaths(o, f) /\ SameStatus(o, f) /\ SameCounts(o, f) /\ SameRenames(o, f) THEN TRUE
        ELSE IF f.amb # <<>> /\ MisreadOnly(o, f) THEN Bad("mergearrow", o.c, 0)
        ELSE /\ Check(SamePaths(o, f), law \o "files", o.c, 0)
             /\ Check(SameStatus(o, f), law \o "status", o.c, 0)
             /\ Check(SameCounts(o, f), law \o "count", o.c, 0)
             /\ Check(SameRenames(o, f), law \o "ren", o.c, 0)

MetaStart == Is("mrun") /\ StartRun(FALSE) /\ UNCHANGED <<sid, info, pres, cms, skips>>
MetaRecord ==
  /\ Is("mrec")
  /\ got' = Append(got, E.c)
  /\ Check(E.c \in run.scope, "metascope", E.c, 0)
  /\ Check(E.c \notin Range(got), "metarepeat", E.c, 0)
  /\ Check(E.ord = Len(got) + 1, "metaord", E.c, 0)
  /\ IF E.c \in 1..Len(info) THEN CheckMeta(E, "meta") ELSE TRUE
  /\ UNCHANGED <<sid, info, run, pres, cms, cur, skips>>
MetaEnd ==
  /\ Is("mend")
  /\ Check(~E.err, "metaerr", 0, 0)
  /\ IF E.err THEN TRUE ELSE Check(run.scope \subseteq Range(got), "metascope", 0, 0)
  /\ UNCHANGED <<sid, info, run, got, pres, cms, cur, skips>>

----------------------------------------------------------------------------
\* results of the history analysis, these are not judged here
ResetResults == run.kind # "input"
ProcessResult ==
  /\ Is("pres")
  /\ pres' = IF ResetResults THEN <<[c |-> E.c, f |-> E.f]>> ELSE Append(pres, [c |-> E.c, f |-> E.f])
  /\ run' = [run EXCEPT !.kind = "input"]
  /\ UNCHANGED <<sid, info, got, cms, cur, skips>>
ProcessEnd ==
  /\ Is("pend")
  /\ pres' = IF ResetResults THEN <<>> ELSE pres
  /\ run' = [run EXCEPT !.kind = IF E.err THEN "inputerr" ELSE "none"]
  /\ UNCHANGED <<sid, info, got, cms, cur, skips>>

----------------------------------------------------------------------------
\* code records
CodeStart == Is("crun") /\ StartRun(E.flat) /\ UNCHANGED <<sid, info, pres, cms, skips>>

NewMeta ==
  /\ Is("cm")
  /\ cms' = Append(cms, [c |-> E.c, ps |-> E.ps, fs |-> E.fs, ord |-> E.ord])
  /\ IF E.c \in 1..Len(info) THEN CheckMeta(E, "code") ELSE Bad("codeval", E.c, 0)
  /\ UNCHANGED <<sid, info, run, got, pres, cur, skips>>

FilesOf(k) == pres[k].f
MetaFiles(m) == {m.fs[k][1] : k \in 1..Len(m.fs)}
Paths(fs) == {fs[k].p : k \in 1..Len(fs)}
\* paths which have to be delivered for result k
Join(k, m) == Paths(FilesOf(k)) \cap MetaFiles(m)

\* position of the commit in results after position k
PosOf(c, k) == LET S == {j \in (k + 1)..Len(pres) : pres[j].c = c} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE

\* what has to be true when all records of the current commit were delivered
CloseCommit == IF cur[1] = 0 THEN TRUE ELSE Check(cur[2] = Join(run.pos, cms[cur[1]]), "codefiles", pres[run.pos].c, 0)
\* flat output has nothing for commits without files, metadata of these is not known either
Silent(j) == LET f == info[pres[j].c] IN Paths(FilesOf(j)) \cap (May(f) \ Range(f.amb)) = {}

NextCommit(id) ==
  LET m == cms[id]
      pos == PosOf(m.c, run.pos)
  IN IF pos = 0
     THEN /\ Bad("codeorder", m.c, 0) /\ cur' = <<0, {}>> /\ UNCHANGED run
     ELSE /\ CloseCommit
          /\ IF run.flat THEN Check(\A j \in (run.pos + 1)..(pos - 1) : Silent(j), "codefiles", m.c, 0)
             ELSE Check(pos = run.pos + 1, "codeorder", m.c, 0)
          /\ cur' = <<id, {}>>
          /\ run' = [run EXCEPT !.pos = pos]

CodeCommit ==
  /\ Is("ccom")
  /\ got' = Append(got, cms[E.cm].c)
  /\ NextCommit(E.cm)
  /\ UNCHANGED <<sid, info, pres, cms, skips>>

Count(ls, f) == Cardinality({k \in 1..Len(ls) : ls[k][6] = f})

LineOK(l, c) == LET f == info[c] IN l[2] = f.an /\ l[3] = f.ae /\ l[4] = f.at /\ l[5] = f.tz


CheckRecord(r, k, m) ==
  LET c == m.c
      f == FilesOf(k)[CHOOSE j \in 1..Len(FilesOf(k)) : FilesOf(k)[j].p = r.p]
      st == m.fs[CHOOSE j \in 1..Len(m.fs) : m.fs[j][1] = r.p][2]
      reason == FullReason(f.x)
  IN /\ Check(r.st = st, "codestatusval", c, r.p)
     /\ IF st = "D"
        THEN Check(r.skip = <<"removed", 0>> /\ r.ls = <<>>, "removed", c, r.p)
        ELSE /\ Check(r.skip = reason, "skip", c, r.p)
             /\ Check(r.lang = LanguageOf(f.x, reason), "lang", c, r.p)
             /\ Check(LicenseOK(f.x, reason, r.lic), "lic", c, r.p)
             /\ IF ~HasLines(reason)
                THEN Check(r.ls = <<>>, "skiplines", c, r.p)
                ELSE /\ Check(Len(r.ls) = Len(f.a), "codelines", c, r.p)
                     /\ Check(r.size = f.size, "size", c, r.p)
                     /\ Check(/\ r.sloc = Count(r.ls, "c") /\ r.com = Count(r.ls, "m") /\ r.bl = Count(r.ls, "b")
                              /\ r.loc = r.sloc + r.com + r.bl, "totals", c, r.p)
                     /\ Check(IF f.x.gen = 0 THEN r.loc = Len(r.ls) ELSE TRUE, "loc", c, r.p)
                     /\ Check(IF f.x.gen = 0 THEN r.cx = f.x.cx /\ r.wcx = f.x.wcx ELSE TRUE, "complexity", c, r.p)
                     /\ \A j \in 1..Len(r.ls) :
                          IF j > Len(f.a) THEN TRUE
                          ELSE /\ Check(r.ls[j][1] = f.a[j], "linesha", c, r.p)
                               /\ Check(r.ls[j][6] = (IF f.x.gen > 0 /\ j > f.x.gen THEN "" ELSE f.x.fl[j]), "flags", c, r.p)
                               /\ IF f.a[j] \notin 1..Len(info) THEN Bad("linemeta", c, r.p)
                                  ELSE IF LineOK(r.ls[j], f.a[j]) THEN TRUE
                                  ELSE IF run.kind # "full" /\ f.a[j] \notin run.scope /\ r.ls[j][7] THEN Bad("lineoutside", c, r.p)
                                  ELSE Bad("linemeta", c, r.p)

CodeRecord ==
  /\ Is("brec")
  /\ LET r == E.r
         same == cur[1] # 0 /\ (IF cur[1] = r.cm THEN TRUE ELSE FALSE)
     IN IF ~same /\ ~run.flat
        THEN /\ Check(cur[1] = 0, "codemix", cms[r.cm].c, r.p) /\ UNCHANGED <<cur, run>>
        ELSE IF same
        THEN /\ IF r.p \in Join(run.pos, cms[r.cm]) THEN CheckRecord(r, run.pos, cms[r.cm]) ELSE Bad("codefiles", cms[r.cm].c, r.p)
             /\ Check(r.p \notin cur[2], "coderepeat", cms[r.cm].c, r.p)
             /\ cur' = <<cur[1], cur[2] \cup {r.p}>> /\ UNCHANGED run
        ELSE LET m == cms[r.cm]
                 pos == PosOf(m.c, run.pos)
             IN IF pos = 0
                THEN Bad("codeorder", m.c, r.p) /\ cur' = <<0, {}>> /\ UNCHANGED run
                ELSE /\ CloseCommit
                     /\ Check(\A j \in (run.pos + 1)..(pos - 1) : Silent(j), "codefiles", m.c, 0)
                     /\ IF r.p \in Join(pos, m) THEN CheckRecord(r, pos, m) ELSE Bad("codefiles", m.c, r.p)
                     /\ cur' = <<r.cm, {r.p}>>
                     /\ run' = [run EXCEPT !.pos = pos]
  /\ UNCHANGED <<sid, info, got, pres, cms, skips>>

CodeEnd ==
  /\ Is("cend")
  /\ Check(~E.err, "codeerr", 0, 0)
  /\ IF E.err THEN TRUE
     ELSE /\ CloseCommit
          /\ Check(\A j \in (run.pos + 1)..Len(pres) : run.flat /\ Silent(j), "codeorder", 0, 0)
          /\ IF run.kind = "inputerr" THEN TRUE ELSE Check({pres[k].c : k \in 1..Len(pres)} = run.scope, "codescope", 0, 0)
  /\ UNCHANGED <<sid, info, run, got, pres, cms, cur, skips>>

----------------------------------------------------------------------------
\* decision about a single file
Decision == <<E.k, E.skip, E.lang, E.lic>>
FileDecision ==
  /\ Is("info")
  /\ LET r == Reason(E.x)
     IN /\ Check(E.skip = r, "skip", E.p, 0)
        /\ Check(E.lang = LanguageOf(E.x, r), "lang", E.p, 0)
        /\ Check(LicenseOK(E.x, r, E.lic), "lic", E.p, 0)
        /\ Check(\A k \in 1..Len(skips) : IF skips[k][1] = E.k THEN skips[k] = Decision ELSE TRUE, "skipsame", E.p, 0)
  /\ skips' = Append(skips, Decision)
  /\ UNCHANGED <<sid, info, run, got, pres, cms, cur>>

Crash ==
  /\ i <= Len(Trace) /\ E.e \in {"crash", "hang"} /\ i' = i + 1
  /\ Bad(E.e, 0, 0)
  /\ UNCHANGED <<sid, info, run, got, pres, cms, cur, skips>>

Next == Scn \/ Fin \/ Info \/ MetaStart \/ MetaRecord \/ MetaEnd \/ ProcessResult \/ ProcessEnd
        \/ CodeStart \/ NewMeta \/ CodeCommit \/ CodeRecord \/ CodeEnd \/ FileDecision \/ Crash
Spec == Init /\ [][Next]_vars
View == i
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
