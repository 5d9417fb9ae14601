------------------------------ MODULE MCStreams ------------------------------
(***************************************************************************)
(* Design of CodeByCommit as a system of goroutines: git, the parser of    *)
(* its output, the loop of the history analysis, the stage that adds the   *)
(* details of files, the caller, and a consumer that is as slow as it      *)
(* wants. Channels without a buffer are joint steps of both sides. The     *)
(* output may have a buffer. All interleavings are checked; the consumer   *)
(* has to see a behaviour of Streams (Refines), everything comes to an end *)
(* (Ends), and nothing is sent to a closed channel.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bags, TLC

CONSTANTS N,        \* commits
          MaxFiles, \* files per commit
          MaxBuf,   \* size of buffer of the output
          Mutant    \* "none" or name of a mistake in the design

VARIABLES
  files,    \* number of files of each commit
  cap,      \* size of the buffer
  gitFail,  \* git fails after this many commits, N + 1: it does not
  runFail,  \* the analysis fails at this commit (as with a checkpoint that cannot be used), N + 1: it does not
  wrFail,   \* the checkpoint cannot be written
  par,      \* parser: [pc, k]
  run,      \* analysis: [pc, k, err]
  stg,      \* stage: [pc, k, f]
  cal,      \* caller: [pc, err]
  com,      \* commits channel is closed
  gitRes,   \* results channel is closed
  out,      \* buffer of the output
  outClosed,
  blClosed, \* set of commits with closed stream of files
  con,      \* consumer: [pc, cur, got]
  pend,     \* files which are sent on their own (mutant async): commit -> next file
  panic     \* something was sent to a closed channel, or it was closed twice

vars == <<files, cap, gitFail, runFail, wrFail, par, run, stg, cal, com, gitRes, out, outClosed, blClosed, con, pend, panic>>

(* What the consumer has seen, in terms of Streams. *)
VARIABLES full, pos, left, open, closed, ret
S == INSTANCE Streams
svars == <<full, pos, left, open, closed, ret>>

Fix == <<files, cap, gitFail, runFail, wrFail, full>>

FilesOf(c) == SetToBag({<<c, f>> : f \in 1..files[c]})

Init == /\ files \in [1..N -> 0..MaxFiles] /\ cap \in 0..MaxBuf
        /\ gitFail \in 0..(N + 1) /\ runFail \in 1..(N + 1) /\ wrFail \in BOOLEAN
        /\ par = [pc |-> "read", k |-> 1] /\ run = [pc |-> "recv", k |-> 0, err |-> FALSE]
        /\ stg = [pc |-> "recv", k |-> 0, f |-> 0] /\ cal = [pc |-> "run", err |-> FALSE]
        /\ com = FALSE /\ gitRes = FALSE /\ out = <<>> /\ outClosed = FALSE /\ blClosed = {}
        /\ con = [pc |-> "out", cur |-> 0] /\ pend = {} /\ panic = FALSE
        /\ full = [c \in 1..N |-> [c |-> c, o |-> c, f |-> FilesOf(c)]]
        /\ pos = 0 /\ left = EmptyBag /\ open = FALSE /\ closed = FALSE /\ ret = "no"

(* Parser: offers commits one after another, closes the channel, tells how it ended. *)
ParEnd == /\ par.pc = "read" /\ (par.k > N \/ par.k > gitFail)
          /\ com' = TRUE /\ par' = [par EXCEPT !.pc = "done"]
          /\ UNCHANGED <<Fix, run, stg, cal, gitRes, out, outClosed, blClosed, con, pend, panic, pos, left, open, closed, ret>>
(* A commit goes from the parser to the analysis. *)
ParSend == /\ par.pc = "read" /\ par.k <= N /\ par.k <= gitFail /\ run.pc = "recv"
           /\ par' = [par EXCEPT !.k = @ + 1]
           /\ run' = [run EXCEPT !.k = par.k, !.pc = IF par.k = runFail
                                                     THEN (IF Mutant = "nodrain" THEN "wait" ELSE "drain")
                                                     ELSE "send", !.err = par.k = runFail]
           /\ UNCHANGED <<Fix, stg, cal, com, gitRes, out, outClosed, blClosed, con, pend, panic, pos, left, open, closed, ret>>
(* Analysis after a failure: the rest of the commits is read and forgotten. *)
Drain == /\ run.pc = "drain"
         /\ IF par.pc = "read" /\ par.k <= N /\ par.k <= gitFail
            THEN par' = [par EXCEPT !.k = @ + 1] /\ run' = run
            ELSE com /\ par' = par /\ run' = [run EXCEPT !.pc = "wait"]
         /\ UNCHANGED <<Fix, stg, cal, com, gitRes, out, outClosed, blClosed, con, pend, panic, pos, left, open, closed, ret>>
RunNoMore == /\ run.pc = "recv" /\ com /\ run' = [run EXCEPT !.pc = "wait"]
             /\ UNCHANGED <<Fix, par, stg, cal, com, gitRes, out, outClosed, blClosed, con, pend, panic, pos, left, open, closed, ret>>
(* A result goes from the analysis to the stage. *)
RunSend == /\ run.pc = "send" /\ stg.pc = "recv"
           /\ run' = [run EXCEPT !.pc = "recv"] /\ stg' = [pc |-> "commit", k |-> run.k, f |-> 1]
           /\ UNCHANGED <<Fix, par, cal, com, gitRes, out, outClosed, blClosed, con, pend, panic, pos, left, open, closed, ret>>
(* The parser has told how it ended. *)
RunWait == /\ run.pc = "wait" /\ par.pc = "done"
           /\ par' = [par EXCEPT !.pc = "gone"]
           /\ LET err == run.err \/ gitFail <= N
              IN run' = [run EXCEPT !.err = IF Mutant = "giterr" THEN run.err ELSE err, !.pc = IF err /\ Mutant # "giterr" THEN "close" ELSE "write"]
           /\ UNCHANGED <<Fix, stg, cal, com, gitRes, out, outClosed, blClosed, con, pend, panic, pos, left, open, closed, ret>>
RunWrite == /\ run.pc = "write" /\ run' = [run EXCEPT !.pc = "close", !.err = @ \/ wrFail]
            /\ UNCHANGED <<Fix, par, stg, cal, com, gitRes, out, outClosed, blClosed, con, pend, panic, pos, left, open, closed, ret>>
RunClose == /\ run.pc = "close" /\ run' = [run EXCEPT !.pc = "returned"]
            /\ gitRes' = (gitRes \/ ~(Mutant = "noclose" /\ run.err))
            /\ panic' = (panic \/ gitRes)
            /\ UNCHANGED <<Fix, par, stg, cal, com, out, outClosed, blClosed, con, pend, pos, left, open, closed, ret>>

(* The consumer has received commit c. *)
Receive(c) == /\ con' = [con EXCEPT !.pc = "files", !.cur = c]
              /\ pos' = pos + 1 /\ left' = FilesOf(c) /\ open' = TRUE
              /\ UNCHANGED <<closed, ret, full>>
(* Stage: the commit, then its files. *)
AfterCommit == IF Mutant = "async" THEN [stg EXCEPT !.pc = "recv"] ELSE [stg EXCEPT !.pc = "files"]
StgCommit == /\ stg.pc = "commit"
             /\ stg' = AfterCommit
             /\ pend' = (IF Mutant = "async" THEN pend \cup {<<stg.k, 1>>} ELSE pend)
             /\ IF outClosed
                THEN panic' = TRUE /\ UNCHANGED <<out, con, svars>>
                ELSE /\ panic' = panic
                     /\ \/ Len(out) < cap /\ out' = Append(out, stg.k) /\ UNCHANGED <<con, svars>>
                        \/ cap = 0 /\ con.pc = "out" /\ out' = out /\ Receive(stg.k)
             /\ UNCHANGED <<files, cap, gitFail, runFail, wrFail, par, run, cal, com, gitRes, outClosed, blClosed>>
ConTake == /\ con.pc = "out" /\ Len(out) > 0 /\ out' = Tail(out) /\ Receive(Head(out))
           /\ UNCHANGED <<files, cap, gitFail, runFail, wrFail, par, run, stg, cal, com, gitRes, outClosed, blClosed, pend, panic>>
(* The consumer does not have to read files of a commit first, it can ask for the next one. *)
ConPeek == /\ con.pc = "files" /\ con.cur \notin blClosed /\ Len(out) > 0 /\ out' = Tail(out) /\ Receive(Head(out))
           /\ UNCHANGED <<files, cap, gitFail, runFail, wrFail, par, run, stg, cal, com, gitRes, outClosed, blClosed, pend, panic>>
StgPeek == /\ stg.pc = "commit" /\ cap = 0 /\ con.pc = "files" /\ ~outClosed
           /\ con.cur \notin blClosed \* otherwise the consumer knows, and this is not different
           /\ stg' = AfterCommit /\ pend' = (IF Mutant = "async" THEN pend \cup {<<stg.k, 1>>} ELSE pend)
           /\ Receive(stg.k)
           /\ UNCHANGED <<files, cap, gitFail, runFail, wrFail, par, run, cal, com, gitRes, out, outClosed, blClosed, panic>>
SeeFile(c, f) == left' = left (-) SetToBag({<<c, f>>}) /\ UNCHANGED <<full, pos, open, closed, ret>>
StgFile == /\ stg.pc = "files" /\ stg.f <= files[stg.k] /\ con.pc = "files" /\ con.cur = stg.k
           /\ SeeFile(stg.k, stg.f) /\ stg' = [stg EXCEPT !.f = @ + 1]
           /\ UNCHANGED <<files, cap, gitFail, runFail, wrFail, par, run, cal, com, gitRes, out, outClosed, blClosed, con, pend, panic>>
StgFilesEnd == /\ stg.pc = "files" /\ stg.f > files[stg.k]
               /\ blClosed' = blClosed \cup {stg.k} /\ stg' = [stg EXCEPT !.pc = "recv"]
               /\ UNCHANGED <<Fix, par, run, cal, com, gitRes, out, outClosed, con, pend, panic, pos, left, open, closed, ret>>
Async == \E p \in pend :
           \/ /\ p[2] <= files[p[1]] /\ con.pc = "files" /\ con.cur = p[1]
              /\ SeeFile(p[1], p[2]) /\ pend' = (pend \ {p}) \cup {<<p[1], p[2] + 1>>}
              /\ UNCHANGED <<files, cap, gitFail, runFail, wrFail, par, run, stg, cal, com, gitRes, out, outClosed, blClosed, con, panic>>
           \/ /\ p[2] > files[p[1]] /\ blClosed' = blClosed \cup {p[1]} /\ pend' = pend \ {p}
              /\ UNCHANGED <<Fix, par, run, stg, cal, com, gitRes, out, outClosed, con, panic, pos, left, open, closed, ret>>
StgNoMore == /\ stg.pc = "recv" /\ gitRes /\ stg' = [stg EXCEPT !.pc = "done"]
             /\ UNCHANGED <<Fix, par, run, cal, com, gitRes, out, outClosed, blClosed, con, pend, panic, pos, left, open, closed, ret>>
ConFilesEnd == /\ con.pc = "files" /\ con.cur \in blClosed
               /\ con' = [con EXCEPT !.pc = "out"] /\ open' = FALSE
               /\ UNCHANGED <<Fix, par, run, stg, cal, com, gitRes, out, outClosed, blClosed, pend, panic, pos, left, closed, ret>>

(* Caller: waits for the analysis, then for the stage, closes the output and returns. *)
CalRun == /\ cal.pc = "run" /\ run.pc = "returned"
          /\ cal' = [pc |-> IF Mutant = "nowait" THEN "close" ELSE "wait", err |-> run.err]
          /\ UNCHANGED <<Fix, par, run, stg, com, gitRes, out, outClosed, blClosed, con, pend, panic, pos, left, open, closed, ret>>
CalWait == /\ cal.pc = "wait" /\ stg.pc = "done" /\ stg' = [stg EXCEPT !.pc = "gone"]
           /\ cal' = [cal EXCEPT !.pc = "close"]
           /\ UNCHANGED <<Fix, par, run, com, gitRes, out, outClosed, blClosed, con, pend, panic, pos, left, open, closed, ret>>
CalClose == /\ cal.pc = "close" /\ outClosed' = TRUE /\ panic' = (panic \/ outClosed)
            /\ cal' = [cal EXCEPT !.pc = "returned"]
            /\ UNCHANGED <<Fix, par, run, stg, com, gitRes, out, blClosed, con, pend, pos, left, open, closed, ret>>
ConClose == /\ con.pc = "out" /\ outClosed /\ Len(out) = 0
            /\ con' = [con EXCEPT !.pc = "closed"] /\ closed' = TRUE
            /\ UNCHANGED <<Fix, par, run, stg, cal, com, gitRes, out, outClosed, blClosed, pend, panic, pos, left, open, ret>>
ConRet == /\ con.pc = "closed" /\ cal.pc = "returned"
          /\ con' = [con EXCEPT !.pc = "end"] /\ ret' = (IF cal.err THEN "err" ELSE "ok")
          /\ UNCHANGED <<Fix, par, run, stg, cal, com, gitRes, out, outClosed, blClosed, pend, panic, pos, left, open, closed>>

Done == con.pc = "end" /\ UNCHANGED <<vars, svars>>
Next == ParEnd \/ ParSend \/ Drain \/ RunNoMore \/ RunSend \/ RunWait \/ RunWrite \/ RunClose \/ StgCommit \/ ConTake \/ ConPeek \/ StgPeek
        \/ StgFile \/ StgFilesEnd \/ Async \/ StgNoMore \/ ConFilesEnd \/ CalRun \/ CalWait \/ CalClose \/ ConClose \/ ConRet \/ Done
Spec == Init /\ [][Next]_<<vars, svars>> /\ WF_<<vars, svars>>(Next)

NoPanic == ~panic
(* Every step is a step of the observable behaviour, or the consumer does not see it. *)
ObsNext == \/ \E o \in 1..N : S!Commit(o)
           \/ \E c \in 1..N : \E f \in 1..MaxFiles : S!File(<<c, f>>)
           \/ S!FilesEnd \/ S!Close \/ \E e \in BOOLEAN : S!Return(e)
Refines == [][ObsNext]_svars
Finished == con.pc = "end"
Ends == <>Finished
(* Everything was delivered when there was no error, and all goroutines have ended. *)
Complete == Finished => /\ (ret = "ok" => pos = N /\ left = EmptyBag)
                        /\ par.pc = "gone" /\ run.pc = "returned" /\ stg.pc = "gone"
                        /\ (gitFail <= N \/ runFail <= N \/ wrFail => ret = "err")
=============================================================================
