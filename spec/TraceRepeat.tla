----------------------------- MODULE TraceRepeat -----------------------------
(***************************************************************************)
(* Judges repeated calls: what a call delivers is a function of the        *)
(* repository and of the parameters of the call. The first call decides,   *)
(* all others have to agree with it, whatever is different around them.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, sid, base
vars == <<i, sid, base>>
E == Trace[i]
Init == i = 1 /\ sid = 0 /\ base = <<>>
Bad(law, c, p) == PrintT(<<"BAD", sid, E.k, E.what, law, c, p>>)
Is(e) == i <= Len(Trace) /\ E.e = e /\ i' = i + 1

Scn == Is("scn") /\ sid' = E.id /\ base' = <<>>
Fin == Is("fin") /\ UNCHANGED <<sid, base>>
First == /\ Is("robs") /\ E.var = "first"
         /\ IF E.k = Len(base) + 1 THEN TRUE ELSE PrintT(<<"HARNESS", sid, "order">>)
         /\ base' = Append(base, [o |-> E.o, err |-> E.err])
         /\ UNCHANGED sid

\* position of the first difference
Diff(a, b) == IF \E k \in 1..Len(a) : k > Len(b) \/ a[k] # b[k]
              THEN CHOOSE k \in 1..Len(a) : (k > Len(b) \/ a[k] # b[k]) /\ \A j \in 1..(k - 1) : a[j] = b[j]
              ELSE Len(a) + 1
Repeat == /\ Is("robs") /\ E.var # "first"
          /\ LET f == base[E.k]
             IN IF f.err = E.err /\ f.o = E.o THEN TRUE
                ELSE Bad(IF E.var = "config" THEN "samecfg" ELSE "samerun", Diff(f.o, E.o), 0)
          /\ UNCHANGED <<sid, base>>
Snap == /\ Is("snap")
        /\ IF E.before = E.after THEN TRUE ELSE PrintT(<<"BAD", sid, 0, "snapshot", "unchanged", 0, 0>>)
        /\ UNCHANGED <<sid, base>>
Crash == /\ i <= Len(Trace) /\ E.e \in {"crash", "hang"} /\ i' = i + 1
         /\ PrintT(<<"BAD", sid, 0, "crash", E.e, 0, 0>>)
         /\ UNCHANGED <<sid, base>>
Next == Scn \/ Fin \/ First \/ Repeat \/ Snap \/ Crash
Spec == Init /\ [][Next]_vars
View == i
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
