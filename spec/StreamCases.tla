----------------------------- MODULE StreamCases -----------------------------
(***************************************************************************)
(* Situations in which streaming calls are made on the real code: what is  *)
(* called, in which way the call may end, which call of git fails and what *)
(* is left of its output, and the behaviour of the consumer: a list of     *)
(* actions which is repeated.                                              *)
(*   r  read at once          w  wait a little       g  let others run     *)
(*   l  wait until nothing can be done without the consumer                *)
(*   p  ask for the next commit before reading files of this one           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxScript, MaxFault

What == {"process", "meta", "code", "bycommit", "branches"}
Kind == {"full", "incl", "nonincl"}
Matters(w, k) == w = "branches" => k = "full"
Endings == {[what |-> w, kind |-> k, end |-> e] : w \in What, k \in Kind, e \in {"", "lacks", "noroom", "nockpt", "mismatch", "empty", "nodir", "unknown", "notall"}}
Faults == {[what |-> w, kind |-> k, end |-> "", fault |-> n, cut |-> c] : w \in What, k \in Kind, n \in 1..MaxFault, c \in {"start", "line", "bytes", "all"}}
Scripts == UNION {[1..n -> {"r", "w", "g", "l", "p"}] : n \in 1..MaxScript}

VARIABLE x
Init == \/ \E c \in {c \in Endings : Matters(c.what, c.kind)} : x = [t |-> "CASE", v |-> c]
        \/ \E c \in {c \in Faults : Matters(c.what, c.kind)} : x = [t |-> "CASE", v |-> c]
        \/ \E s \in Scripts : x = [t |-> "SCRIPT", v |-> s]
Spec == Init /\ [][UNCHANGED x]_x
Emit == PrintT(<<x.t, ToJson(x.v)>>)
=============================================================================
