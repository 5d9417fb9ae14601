---------------------------- MODULE TraceStreams ----------------------------
(***************************************************************************)
(* Judges what consumers of streaming calls have seen: every event has to  *)
(* be a possible step of Streams. What there is to deliver is taken from a *)
(* call with the same parameters in which nothing special happens.         *)
(***************************************************************************)
EXTENDS Streams, TLC, Json, IOUtils

H == INSTANCE History

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, sid, refs, cur, off
vars == <<i, sid, refs, cur, off, full, pos, left, open, closed, ret>>
E == Trace[i]
Is(e) == i <= Len(Trace) /\ E.e = e /\ i' = i + 1
Bad(law, x) == PrintT(<<"BAD", sid, cur.n, cur.what, law, cur.what, x>>)

Quiet == UNCHANGED <<full, pos, left, open, closed, ret>>
Idle == [n |-> 0, what |-> "none", ref |-> 0, may |-> FALSE, scope |-> {}]
Init == i = 1 /\ sid = 0 /\ refs = <<>> /\ cur = Idle /\ off = FALSE /\ Start(<<>>)
Scn == Is("scn") /\ sid' = E.id /\ refs' = <<>> /\ cur' = Idle /\ off' = FALSE
       /\ full' = <<>> /\ pos' = 0 /\ left' = EmptyBag /\ open' = FALSE /\ closed' = FALSE /\ ret' = "no"
Fin == Is("fin") /\ UNCHANGED <<sid, refs, cur, off>> /\ Quiet

(* The reference call: groups are collected. *)
One(o) == SetToBag({o})
Ref == /\ Is("sref") /\ refs' = Append(refs, <<>>)
       /\ IF E.k = Len(refs) + 1 THEN TRUE ELSE PrintT(<<"HARNESS", sid, "order">>)
       /\ cur' = [cur EXCEPT !.n = @ + 1, !.what = E.what, !.scope = TLCEval(H!Scope(E.g, E.kind, E.from, {E.heads[k] : k \in 1..Len(E.heads)}))] /\ UNCHANGED <<sid, off>> /\ Quiet
Last == Len(refs)
RItem == /\ Is("ritem")
         /\ LET g == refs[Last]
            IN refs' = [refs EXCEPT ![Last] = IF Len(g) > 0 /\ g[Len(g)].c = E.c
                                              THEN [g EXCEPT ![Len(g)].f = @ (+) One(E.o)]
                                              ELSE Append(g, [c |-> E.c, o |-> 0, f |-> One(E.o)])]
         /\ UNCHANGED <<sid, cur, off>> /\ Quiet
RCom == /\ Is("rcom") /\ refs' = [refs EXCEPT ![Last] = Append(@, [c |-> E.c, o |-> E.o, f |-> EmptyBag])]
        /\ UNCHANGED <<sid, cur, off>> /\ Quiet
RFile == /\ Is("rfile")
         /\ LET g == refs[Last] IN refs' = [refs EXCEPT ![Last] = [g EXCEPT ![Len(g)].f = @ (+) One(E.o)]]
         /\ UNCHANGED <<sid, cur, off>> /\ Quiet
RNote == (Is("rfend") \/ Is("rclose")) /\ UNCHANGED <<sid, refs, cur, off>> /\ Quiet
\* all commits of the scope come, where nothing comes for a commit without files it is not missing
InScope(S) == CASE cur.what \in {"process", "meta", "bycommit"} -> S = cur.scope
                [] cur.what = "code" -> S \subseteq cur.scope
                [] OTHER -> TRUE
RRet == /\ Is("rret")
        /\ IF E.err THEN Bad("spurious", 0)
           ELSE IF InScope({refs[Last][k].c : k \in 1..Len(refs[Last])}) THEN TRUE ELSE Bad("commits", 0)
        /\ UNCHANGED <<sid, refs, cur, off>> /\ Quiet

(* A call that is judged. When one event was not possible the rest of the call is skipped. *)
Begin == /\ Is("sbegin")
         /\ cur' = [n |-> cur.n + 1, what |-> E.case.what, ref |-> E.ref, may |-> FALSE, scope |-> {}]
         /\ full' = IF E.ref = 0 THEN <<>> ELSE refs[E.ref]
         /\ pos' = 0 /\ left' = EmptyBag /\ open' = FALSE /\ closed' = FALSE /\ ret' = "no"
         /\ off' = FALSE /\ UNCHANGED <<sid, refs>>
Step(can, do, law, x) == IF off THEN Quiet /\ off' = off
                         ELSE IF can THEN do /\ off' = FALSE
                         ELSE Bad(law, x) /\ Quiet /\ off' = TRUE
Why == IF closed \/ ret # "no" THEN "afterclose" ELSE IF open THEN "early" ELSE "prefix"
SCom == Is("scom") /\ Step(CanCommit(E.o), Commit(E.o), Why, pos + 1) /\ UNCHANGED <<sid, refs, cur>>
SFile == Is("sfile") /\ Step(CanFile(E.o), File(E.o), IF open THEN "filesof" ELSE "early", pos) /\ UNCHANGED <<sid, refs, cur>>
SFend == Is("sfend") /\ Step(CanFilesEnd, FilesEnd, "filesend", pos) /\ UNCHANGED <<sid, refs, cur>>
SItem == Is("sitem") /\ Step(CanItem(E.c, E.o), Item(E.c, E.o), Why, pos + 1) /\ UNCHANGED <<sid, refs, cur>>
SClose == Is("sclose") /\ Step(CanClose, Close, IF closed THEN "twice" ELSE "early", pos) /\ UNCHANGED <<sid, refs, cur>>
SRet == /\ Is("sret")
        /\ IF E.err /\ ~E.may THEN Bad("spurious", 0) ELSE TRUE
        /\ Step(CanReturn(E.err), Return(E.err), IF closed THEN "incomplete" ELSE "notclosed", pos)
        /\ UNCHANGED <<sid, refs, cur>>
Crash == /\ i <= Len(Trace) /\ E.e \in {"crash", "hang"} /\ i' = i + 1
         /\ Bad(E.e, 0) /\ UNCHANGED <<sid, refs, cur, off>> /\ Quiet
Next == Scn \/ Fin \/ Ref \/ RItem \/ RCom \/ RFile \/ RNote \/ RRet \/ Begin \/ SCom \/ SFile \/ SFend \/ SItem \/ SClose \/ SRet \/ Crash
Spec == Init /\ [][Next]_vars
View == i
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
