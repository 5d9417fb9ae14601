------------------------------- MODULE MCPool -------------------------------
(***************************************************************************)
(* Design of the listing of branches: a feeder hands items to workers, one *)
(* after another, every worker computes the record of its item and sends   *)
(* it to the consumer, who is as slow as it wants. Requested commits that  *)
(* are not in the graph give no record, computing may fail. All            *)
(* interleavings.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Items,    \* number of items, the first one is the default branch, delivered before the others
          Workers,
          Mutant

VARIABLES kind,     \* of each item: "rec", "skip", "fail"
          listFail, \* listing fails before the workers start
          next,     \* next item of the feeder
          w,        \* workers: [pc, item]
          err,      \* error seen
          main,     \* "default", "list", "wait", "close", "ret"
          closed,
          got,      \* records the consumer has
          con,      \* consumer: "want" reads, "busy" does something else, "end" has seen the end
          panic
vars == <<kind, listFail, next, w, err, main, closed, got, con, panic>>

Init == /\ kind \in [1..Items -> {"rec", "skip", "fail"}] /\ kind[1] = "rec" /\ listFail \in BOOLEAN
        /\ next = 2 /\ w = [k \in 1..Workers |-> [pc |-> "off", item |-> 0]]
        /\ err = FALSE /\ main = "default" /\ closed = 0 /\ got = <<>> /\ con = "want" /\ panic = FALSE

Fix == <<kind, listFail>>

\* the consumer takes a record
Take(x) == /\ con = "want" /\ got' = Append(got, x) /\ con' = "busy"
           /\ panic' = (panic \/ closed > 0)

MainDefault == /\ main = "default" /\ Take(1) /\ main' = "list"
               /\ UNCHANGED <<next, w, err, closed>> /\ UNCHANGED Fix
MainList == /\ main = "list"
            /\ IF listFail THEN main' = (IF Mutant = "noclose" THEN "ret" ELSE "close") /\ err' = TRUE /\ w' = w
               ELSE main' = (IF Mutant = "nowait" THEN "close" ELSE "wait") /\ err' = err /\ w' = [k \in 1..Workers |-> [pc |-> "next", item |-> 0]]
            /\ UNCHANGED <<next, closed, got, con, panic>> /\ UNCHANGED Fix
MainWait == /\ main = "wait" /\ \A k \in 1..Workers : w[k].pc = "done"
            /\ main' = "close"
            /\ UNCHANGED <<next, w, err, closed, got, con, panic>> /\ UNCHANGED Fix
MainClose == /\ main = "close" /\ closed' = closed + 1 /\ main' = "ret"
             /\ UNCHANGED <<next, w, err, got, con, panic>> /\ UNCHANGED Fix

\* the feeder and the worker meet
WorkerNext(k) ==
  /\ w[k].pc = "next"
  /\ IF next > Items
     THEN w' = [w EXCEPT ![k].pc = "done"] /\ next' = next
     ELSE IF Mutant = "shared"
     THEN \* reading the position and moving it are two steps
          w' = [w EXCEPT ![k] = [pc |-> "move", item |-> next]] /\ next' = next
     ELSE w' = [w EXCEPT ![k] = [pc |-> "check", item |-> next]] /\ next' = next + 1
  /\ UNCHANGED <<err, main, closed, got, con, panic>> /\ UNCHANGED Fix
WorkerMove(k) ==
  /\ w[k].pc = "move" /\ next' = next + 1 /\ w' = [w EXCEPT ![k].pc = "check"]
  /\ UNCHANGED <<err, main, closed, got, con, panic>> /\ UNCHANGED Fix
WorkerCheck(k) ==
  /\ w[k].pc = "check"
  /\ w' = [w EXCEPT ![k].pc = IF err THEN "done" ELSE "compute"]
  /\ UNCHANGED <<next, err, main, closed, got, con, panic>> /\ UNCHANGED Fix
WorkerCompute(k) ==
  /\ w[k].pc = "compute"
  /\ CASE kind[w[k].item] = "rec" -> w' = [w EXCEPT ![k].pc = "send"] /\ err' = err
       [] kind[w[k].item] = "skip" -> w' = [w EXCEPT ![k].pc = IF Mutant = "skipends" THEN "done" ELSE "next"] /\ err' = err
       [] OTHER -> w' = [w EXCEPT ![k].pc = "next"] /\ err' = (IF Mutant = "errlost" THEN err ELSE TRUE)
  /\ UNCHANGED <<next, main, closed, got, con, panic>> /\ UNCHANGED Fix
WorkerSend(k) ==
  /\ w[k].pc = "send"
  /\ \/ Take(w[k].item) /\ w' = [w EXCEPT ![k].pc = "next"]
     \/ closed > 0 /\ panic' = TRUE /\ w' = [w EXCEPT ![k].pc = "done"] /\ UNCHANGED <<got, con>>
  /\ UNCHANGED <<next, err, main, closed>> /\ UNCHANGED Fix

Consumer == /\ \/ con = "busy" /\ con' = "want"
               \/ con = "want" /\ closed > 0 /\ con' = "end"
            /\ UNCHANGED <<next, w, err, main, closed, got, panic>> /\ UNCHANGED Fix

Work(k) == WorkerNext(k) \/ WorkerMove(k) \/ WorkerCheck(k) \/ WorkerCompute(k) \/ WorkerSend(k)
Finished == main = "ret" /\ con = "end" /\ UNCHANGED vars
Next == MainDefault \/ MainList \/ MainWait \/ MainClose \/ Consumer \/ (\E k \in 1..Workers : Work(k)) \/ Finished

Spec == Init /\ [][Next]_vars /\ WF_vars(MainDefault) /\ WF_vars(MainList) /\ WF_vars(MainWait) /\ WF_vars(MainClose) /\ WF_vars(Consumer)
             /\ \A k \in 1..Workers : WF_vars(Work(k))

----------------------------------------------------------------------------
Ret == main = "ret"
GotSet == {got[k] : k \in 1..Len(got)}
Recs == {k \in 1..Items : kind[k] = "rec"}

\* C12: each record once, and only what there is
Once == Cardinality(GotSet) = Len(got) /\ GotSet \subseteq Recs
Complete == (Ret /\ ~err) => GotSet = Recs
\* a failure of any item that was tried is returned
Failure == Ret => (err <=> (listFail \/ \E k \in 1..Items : kind[k] = "fail"))
NoPanic == ~panic /\ closed <= 1
ClosedBeforeReturn == Ret => closed = 1

Ends == <>(Ret /\ con = "end")
=============================================================================
