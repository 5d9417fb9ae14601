------------------------------- MODULE Streams -------------------------------
(***************************************************************************)
(* What the consumer of a streaming call sees. The call has groups of      *)
(* things to deliver, one group per commit. The calls which have one       *)
(* record per commit open a stream with the files of the commit, the       *)
(* others deliver the same things one after another.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bags

VARIABLES
  full,     \* all groups in the order of delivery: [c |-> commit, o |-> header, f |-> bag of files]
  pos,      \* number of groups started
  left,     \* files of the current group which were not delivered
  open,     \* the stream of files is open
  closed,   \* the output was closed
  ret       \* "no", "ok" or "err": the call has returned
svars == <<full, pos, left, open, closed, ret>>

Start(f) == full = f /\ pos = 0 /\ left = EmptyBag /\ open = FALSE /\ closed = FALSE /\ ret = "no"

(* A call with one record per commit. *)
CanCommit(o) == ~closed /\ ret = "no" /\ ~open /\ pos < Len(full) /\ full[pos + 1].o = o
Commit(o) == /\ CanCommit(o)
             /\ pos' = pos + 1 /\ left' = full[pos + 1].f /\ open' = TRUE
             /\ UNCHANGED <<full, closed, ret>>
CanFile(o) == open /\ BagIn(o, left)
File(o) == /\ CanFile(o)
           /\ left' = left (-) SetToBag({o})
           /\ UNCHANGED <<full, pos, open, closed, ret>>
CanFilesEnd == open /\ left = EmptyBag
FilesEnd == CanFilesEnd /\ open' = FALSE /\ UNCHANGED <<full, pos, left, closed, ret>>

(* A call without streams of files. The next group starts when nothing of the previous one is left. *)
Same(c, o) == pos > 0 /\ full[pos].c = c /\ BagIn(o, left)
NextGroup(c, o) == left = EmptyBag /\ pos < Len(full) /\ full[pos + 1].c = c /\ BagIn(o, full[pos + 1].f)
CanItem(c, o) == ~closed /\ ret = "no" /\ (Same(c, o) \/ NextGroup(c, o))
Item(c, o) == /\ CanItem(c, o)
              /\ IF Same(c, o)
                 THEN left' = left (-) SetToBag({o}) /\ pos' = pos
                 ELSE left' = full[pos + 1].f (-) SetToBag({o}) /\ pos' = pos + 1
              /\ UNCHANGED <<full, open, closed, ret>>

CanClose == ~closed /\ ~open /\ ret = "no"
Close == CanClose /\ closed' = TRUE /\ UNCHANGED <<full, pos, left, open, ret>>

Everything == pos = Len(full) /\ left = EmptyBag
CanReturn(err) == closed /\ ret = "no" /\ (err \/ Everything)
Return(err) == CanReturn(err) /\ ret' = (IF err THEN "err" ELSE "ok") /\ UNCHANGED <<full, pos, left, open, closed>>
=============================================================================
