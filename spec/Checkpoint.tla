----------------------------- MODULE Checkpoint -----------------------------
(***************************************************************************)
(* The checkpoint directory as its reader sees it. A checkpoint is         *)
(* identified by its content (id) and the commit it belongs to (v, 0 when  *)
(* it does not say). Whatever happens to a run that writes a checkpoint,   *)
(* afterwards the reader finds nothing it accepts, the checkpoint that was *)
(* there before, or the one the run was going to write - all of it.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

NoDisk == [may |-> {},     \* checkpoint that is there now: at most one
           whole |-> <<>>] \* what undisturbed operations write

Written(d, op) == UNION {d.whole[k].is : k \in {k \in 1..Len(d.whole) : d.whole[k].op = op}}

(* Content of a checkpoint. Versions of files and their lines are objects,  *)
(* which commits share: rows[c] is a list of <<path, version>>, versions[k] *)
(* is [c, b, l] with the numbers of lines, lines[k] is [c, d].              *)
Meaning(x, c, names) ==
  {<<x.rows[c][k][1], x.versions[x.rows[c][k][2]].c, x.versions[x.rows[c][k][2]].b,
     [j \in 1..Len(x.versions[x.rows[c][k][2]].l) |->
        LET l == x.lines[x.versions[x.rows[c][k][2]].l[j]] IN <<l.c, names[l.d]>>]>> : k \in 1..Len(x.rows[c])}

OneOf(found, allowed) ==
  \A f \in found : \E a \in allowed : a.id = f.id /\ (f.v = a.v \/ f.v = 0)
=============================================================================
