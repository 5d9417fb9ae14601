---------------------------- MODULE MCCheckpoint ----------------------------
(***************************************************************************)
(* Design of the writing of a checkpoint as a sequence of operations on    *)
(* files: the parts are written under temporary names in a temporary       *)
(* directory, renamed one after another, the version is written last, then *)
(* the earlier checkpoint is removed file by file (in any order) and the   *)
(* temporary directory takes its place. A run may be killed before every   *)
(* operation and in the middle of a write, every operation may fail, and   *)
(* after it another run starts in what is left. The reader does not notice *)
(* that a part is truncated, so it must never get to see one.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Parts,   \* sequence of names
          MaxRuns,
          Start,   \* set of "none", "old"
          Mutant

VARIABLES gen,  \* number of the run
          pc,   \* [op, k]: next operation, k: part
          tmp,  \* files of the temporary directory: name -> [g, ok], {} is a missing directory
          ck,   \* files of the checkpoint
          prev, \* checkpoint before the run
          ign,  \* an error was ignored (mutant)
          hist  \* how the runs ended: [mode, at]
vars == <<gen, pc, tmp, ck, prev, ign, hist>>

P2 == <<"repo", "blames">>
P4 == <<"repo", "blames", "lines", "line-data">>

None == [x \in {} |-> 0]
Whole(g) == [p \in {Parts[k] : k \in 1..Len(Parts)} \cup {"checkpoint-version"} |-> [g |-> g, ok |-> TRUE]]
Put(d, n, f) == [x \in DOMAIN d \cup {n} |-> IF x = n THEN f ELSE d[x]]
Del(d, n) == [x \in DOMAIN d \ {n} |-> d[x]]
T(n) == n \o ".tmp"
N == Len(Parts)
Name(k) == IF k <= N THEN Parts[k] ELSE "checkpoint-version"

Init == /\ gen = 1 /\ hist = <<>> /\ tmp = None /\ ign = FALSE
        /\ \E s \in Start : ck = (IF s = "none" THEN None ELSE Whole(0))
        /\ prev = ck /\ pc = [op |-> "rmtmp", k |-> 1]

\* first operation of the next run
First == IF Mutant = "keeptmp" THEN [op |-> "create", k |-> 1] ELSE [op |-> "rmtmp", k |-> 1]

Running == pc.op \notin {"done", "failed", "dead"}

\* the directory that parts are written to
InCk == Mutant = "inplace"
D == IF InCk THEN ck ELSE tmp
SetD(d) == IF InCk THEN ck' = d /\ tmp' = tmp ELSE tmp' = d /\ ck' = ck

\* label of the operation in the real code
Tmp(n) == "pp-git-cache/tmp/" \o n
Label == CASE pc.op = "rmtmp" -> "unlink:pp-git-cache/tmp"
           [] pc.op = "create" -> "create:" \o Tmp(T(Name(pc.k)))
           [] pc.op = "write" -> "write:" \o Tmp(T(Name(pc.k)))
           [] pc.op = "close" -> "close:" \o Tmp(T(Name(pc.k)))
           [] pc.op = "rename" -> "rename:" \o Tmp(T(Name(pc.k))) \o ":" \o Tmp(Name(pc.k))
           [] pc.op = "vcreate" -> "create:" \o Tmp(T(Name(N + 1)))
           [] pc.op = "vwrite" -> "write:" \o Tmp(T(Name(N + 1)))
           [] pc.op = "vclose" -> "close:" \o Tmp(T(Name(N + 1)))
           [] pc.op = "vrename" -> "rename:" \o Tmp(T(Name(N + 1))) \o ":" \o Tmp(Name(N + 1))
           [] pc.op = "rmold" -> IF ck = None THEN "rmdir:pp-git-cache/checkpoint"
                                  ELSE "unlink:pp-git-cache/checkpoint*@" \o ToString(N + 3 - Cardinality(DOMAIN ck))
           [] pc.op = "swap" -> "rename:pp-git-cache/tmp:pp-git-cache/checkpoint"
           [] OTHER -> "-"

Go(op, k) == pc' = [op |-> op, k |-> k]
\* after creating all parts they are completed one after another
NextPart == IF pc.k < N THEN [op |-> "write", k |-> pc.k + 1] ELSE [op |-> "vcreate", k |-> N + 1]

\* file to be removed next, any of the checkpoint
Step ==
  /\ Running /\ UNCHANGED <<gen, prev, hist, ign>>
  /\ CASE pc.op = "rmtmp" -> tmp' = None /\ ck' = ck /\ Go("create", 1)
       [] pc.op = "create" -> /\ SetD(IF Mutant = "keeptmp" /\ T(Name(pc.k)) \in DOMAIN D THEN D ELSE Put(D, T(Name(pc.k)), [g |-> gen, ok |-> FALSE]))
                              /\ IF pc.k < N THEN Go("create", pc.k + 1) ELSE Go("write", 1)
       [] pc.op = "write" -> /\ SetD(IF Mutant = "keeptmp" /\ D[T(Name(pc.k))].g # gen THEN D ELSE Put(D, T(Name(pc.k)), [g |-> gen, ok |-> TRUE]))
                             /\ Go("close", pc.k)
       [] pc.op = "close" -> Go("rename", pc.k) /\ UNCHANGED <<tmp, ck>>
       [] pc.op = "rename" -> /\ SetD(Put(Del(D, T(Name(pc.k))), Name(pc.k), D[T(Name(pc.k))]))
                              /\ IF Mutant = "swapfirst" /\ pc.k = 1 THEN Go("rmold", 1) ELSE pc' = NextPart
       [] pc.op = "vcreate" -> SetD(Put(D, T(Name(N + 1)), [g |-> gen, ok |-> FALSE])) /\ Go("vwrite", N + 1)
       [] pc.op = "vwrite" -> SetD(Put(D, T(Name(N + 1)), [g |-> gen, ok |-> TRUE])) /\ Go("vclose", N + 1)
       [] pc.op = "vclose" -> Go("vrename", N + 1) /\ UNCHANGED <<tmp, ck>>
       [] pc.op = "vrename" -> /\ SetD(Put(Del(D, T(Name(N + 1))), Name(N + 1), D[T(Name(N + 1))]))
                               /\ IF InCk \/ Mutant = "swapfirst" THEN Go("done", 0) ELSE IF Mutant = "onebyone" THEN Go("move", 1) ELSE Go("rmold", 1)
       [] pc.op = "move" -> \* mutant: files replace those of the earlier checkpoint one after another
                            /\ ck' = Put(ck, Name(pc.k), tmp[Name(pc.k)]) /\ tmp' = Del(tmp, Name(pc.k))
                            /\ IF pc.k <= N THEN Go("move", pc.k + 1) ELSE Go("done", 0)
       [] pc.op = "rmold" -> /\ tmp' = tmp
                             /\ IF ck = None THEN ck' = ck /\ Go("swap", 1)
                                ELSE \E n \in DOMAIN ck : ck' = Del(ck, n) /\ pc' = pc
       [] pc.op = "swap" -> IF Mutant = "swapfirst" THEN ck' = tmp /\ tmp' = tmp /\ Go("write", 2)
                            ELSE ck' = tmp /\ tmp' = None /\ Go("done", 0)

\* part of a write takes place and then the run is killed, or the error is returned
Half == IF pc.op \in {"write", "vwrite"}
        THEN SetD(Put(D, T(Name(pc.k)), [g |-> gen, ok |-> FALSE]))
        ELSE UNCHANGED <<tmp, ck>>

Kill == /\ Running /\ Half /\ pc' = [op |-> "dead", k |-> 0]
        /\ hist' = Append(hist, [mode |-> "kill", at |-> Label]) /\ UNCHANGED <<gen, prev, ign>>

Fail == /\ Running /\ Half
        /\ IF Mutant = "ignore" /\ pc.op \in {"write", "close"} THEN pc' = [op |-> "rename", k |-> pc.k] /\ ign' = TRUE /\ hist' = hist
           ELSE pc' = [op |-> "failed", k |-> 0] /\ hist' = Append(hist, [mode |-> "fail", at |-> Label]) /\ UNCHANGED ign
        /\ UNCHANGED <<gen, prev>>

Again == /\ ~Running /\ gen < MaxRuns
         /\ gen' = gen + 1 /\ pc' = First /\ prev' = ck
         /\ hist' = (IF pc.op = "done" THEN Append(hist, [mode |-> "none", at |-> ""]) ELSE hist)
         /\ ign' = FALSE /\ UNCHANGED <<tmp, ck>>

Next == Step \/ Kill \/ Fail \/ Again
Spec == Init /\ [][Next]_vars

\* the reader opens all parts, it notices neither truncation nor that they do not belong together
Accepted == \A k \in 1..N : Parts[k] \in DOMAIN ck

\* nothing, the earlier checkpoint, or the new one
Safe == Accepted =>
          \/ \E g \in 0..gen : /\ \A k \in 1..N : ck[Parts[k]] = [g |-> g, ok |-> TRUE]
                               /\ "checkpoint-version" \in DOMAIN ck => ck["checkpoint-version"] = [g |-> g, ok |-> TRUE]
                               /\ g = gen \/ (\A k \in 1..N : Parts[k] \in DOMAIN prev /\ prev[Parts[k]].g = g)

\* a run that reports no error has written all of it
Complete == pc.op = "done" => ck = Whole(gen)

\* without failures a run can always go on, whatever was left
GoesOn == Running => ENABLED Step

\* the earlier checkpoint is kept until the new one is complete
KeptUntil == (ck # prev /\ pc.op # "done" /\ Running) => \A k \in 1..(N + 1) : Name(k) \in DOMAIN tmp /\ tmp[Name(k)] = [g |-> gen, ok |-> TRUE]

\* situations to be tried on the real code
Emit == IF ~Running /\ hist # <<>> /\ (gen = MaxRuns \/ Len(hist) = 1) THEN PrintT(<<"CRASH", ToJson([n |-> gen, h |-> hist])>>) ELSE TRUE
View == <<gen, pc, tmp, ck, prev, ign>>
=============================================================================
