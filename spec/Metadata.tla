------------------------------ MODULE Metadata ------------------------------
(***************************************************************************)
(* Metadata records. info[c] is what is known about the commit: ps, an,    *)
(* ae, cn, ce, at, tz, s as in the record, and fs, the changed paths       *)
(* against the first parent as <<path, status, added, deleted, binary,     *)
(* regular, from, to>>, the last two are the paths of a rename or 0.       *)
(* Status "?" and counts -1 are not specified.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions

SameValues(o, f) == /\ o.ps = f.ps /\ o.an = f.an /\ o.ae = f.ae /\ o.cn = f.cn /\ o.ce = f.ce
                    /\ o.at = f.at /\ o.tz = f.tz /\ o.s = f.s

\* The old path of something that is not a regular file does not have to be listed.
Optional(e) == e[2] = "D" /\ ~e[6]
Must(f) == {f.fs[k][1] : k \in {j \in 1..Len(f.fs) : ~Optional(f.fs[j])}}
May(f) == {f.fs[k][1] : k \in 1..Len(f.fs)}
Listed(o) == {o.fs[k][1] : k \in 1..Len(o.fs)}
SamePaths(o, f) == Must(f) \subseteq Listed(o) /\ Listed(o) \subseteq May(f) /\ Cardinality(Listed(o)) = Len(o.fs)

Matching(o, f) == {<<a, b>> \in (1..Len(o.fs)) \X (1..Len(f.fs)) : o.fs[a][1] = f.fs[b][1] /\ f.fs[b][6]}
SameStatus(o, f) == \A m \in Matching(o, f) : f.fs[m[2]][2] = "?" \/ o.fs[m[1]][2] = f.fs[m[2]][2]
SameCounts(o, f) == \A m \in Matching(o, f) :
  LET a == o.fs[m[1]]
      b == f.fs[m[2]]
  IN IF b[3] = -1 THEN TRUE ELSE a[5] = b[5] /\ (IF b[5] THEN TRUE ELSE a[3] = b[3] /\ a[4] = b[4])

SameRenames(o, f) == \A m \in Matching(o, f) : o.fs[m[1]][6] = f.fs[m[2]][7] /\ o.fs[m[1]][7] = f.fs[m[2]][8]

\* Only deviates in paths f.amb, which could be taken for a rename: these are missing, and there are other paths
\* instead, which are f.mis, or do not exist at all (f.known are all paths of the commit and its parents).
MisreadOnly(o, f) ==
  LET amb == Range(f.amb)
      mis == Range(f.mis) \cup (Listed(o) \ (Range(f.known) \cup May(f)))
      fo == [fs |-> SelectSeq(o.fs, LAMBDA e : e[1] \notin amb \cup mis)]
      ff == [fs |-> SelectSeq(f.fs, LAMBDA e : e[1] \notin amb \cup mis)]
  IN /\ SamePaths(fo, ff) /\ SameStatus(fo, ff) /\ SameCounts(fo, ff) /\ SameRenames(fo, ff)
     /\ Cardinality(Listed(o) \ May(f)) <= Cardinality(amb)
=============================================================================
