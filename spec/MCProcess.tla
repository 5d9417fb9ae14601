----------------------------- MODULE MCProcess -----------------------------
(***************************************************************************)
(* Design of the history analysis as far as commits are concerned: a run   *)
(* delivers the commits of its scope one after another, keeps their data   *)
(* in a store, drops the data of commits all of whose children are done    *)
(* when there are more than Window of them, and writes the store as a      *)
(* checkpoint from which a later run continues. All graphs with few        *)
(* commits, all sequences of runs. Checked against Runs and Retention.     *)
(***************************************************************************)
EXTENDS Runs, TLC, Json

CONSTANTS N, MaxPar, MaxRuns, AnyOrder, Mutant

VARIABLES G,    \* graph
          ck,   \* checkpoint: [have, v, cs]
          run,  \* run in progress, with the state of the checkpoint before it
          st,   \* "idle", "run", "failed", "done"
          todo, del, store, cnt, q, loaded,
          hist
vars == <<G, ck, run, st, todo, del, store, cnt, q, loaded, hist>>

W2 == 2
W1 == 1

\* all graphs with n commits, parents first
RECURSIVE Graphs(_)
Lists(n) == {l \in UNION {[1..k -> 1..n] : k \in 0..MaxPar} : \A i, j \in DOMAIN l : i # j => l[i] # l[j]}
Graphs(n) == IF n = 0 THEN {<<>>} ELSE {Append(g, l) : g \in Graphs(n - 1), l \in Lists(n - 1)}

Init == /\ G \in Graphs(N)
        /\ ck = [have |-> FALSE, v |-> 0, cs |-> {}]
        /\ run = [kind |-> "none"] /\ st = "idle"
        /\ todo = {} /\ del = <<>> /\ store = {} /\ cnt = <<>> /\ q = <<>> /\ loaded = FALSE /\ hist = <<>>

Commits == 1..N

\* a mutant follows only first parents
RECURSIVE FirstLine(_)
FirstLine(S) == LET more == S \cup UNION {IF G[c] = <<>> THEN {} ELSE {G[c][1]} : c \in S} IN IF more = S THEN S ELSE FirstLine(more)

StartRun ==
  /\ st # "run" /\ Len(hist) < MaxRuns
  /\ \E kind \in {"full", "incl", "nonincl"}, head \in Commits, from \in Commits, strict \in BOOLEAN :
       \* these make no difference for full runs. The first run is a full one, or there is nothing to continue.
       /\ kind = "full" => (from = 1 /\ strict)
       /\ run' = [kind |-> kind, head |-> head, from |-> from, strict |-> strict, haveck |-> ck.have, v |-> ck.v, cs |-> ck.cs]
       /\ hist' = Append(hist, [kind |-> kind, head |-> head, from |-> from, strict |-> strict])
       /\ todo' = IF kind = "incl" /\ Mutant = "exclfrom" THEN Scope(G, "nonincl", from, {head})
                  ELSE IF kind = "incl" /\ Mutant = "allparents" THEN Reach(G, {head}) \ Reach(G, ParentsOf(G, from))
                  ELSE IF kind = "full" /\ Mutant = "firstonly" THEN FirstLine({head})
                  ELSE Scope(G, kind, from, {head})
       /\ del' = <<>> /\ loaded' = FALSE /\ q' = <<>> /\ cnt' = [c \in Commits |-> 0]
       /\ store' = {}
       /\ st' = "run"
  /\ UNCHANGED <<G, ck>>

\* commits the graph of this run knows
Known == Reach(G, {run.head})
Children(p) == Cardinality(ChildrenIn(G, Known, p))

Ready == IF Mutant = "unordered" THEN todo ELSE {c \in todo : ParentsOf(G, c) \cap todo = {}}

Unload(s, p) == \* s: [store, cnt, q]
  LET n == s.cnt[p] + 1
      full == IF Mutant = "early" THEN n = 1 ELSE n = Children(p)
      q1 == IF full THEN Append(s.q, p) ELSE s.q
      drop == full /\ Len(q1) > Window
  IN [cnt |-> [s.cnt EXCEPT ![p] = n],
      q |-> IF drop THEN (IF Mutant = "newest" THEN SubSeq(q1, 1, Len(q1) - 1) ELSE Tail(q1)) ELSE q1,
      store |-> IF drop THEN s.store \ {IF Mutant = "newest" THEN p ELSE Head(q1)} ELSE s.store]

Deliver ==
  /\ st = "run" /\ todo # {}
  /\ \E c \in Ready :
       /\ AnyOrder \/ \A d \in Ready : c <= d
       /\ IF ~loaded /\ run.kind # "full" /\ (~ck.have \/ (run.strict /\ ck.v # run.from /\ Mutant # "noversion"))
          THEN /\ st' = "failed" /\ UNCHANGED <<todo, del, store, cnt, q, loaded>>
          ELSE LET s0 == IF loaded \/ run.kind = "full" THEN store ELSE ck.cs
               IN /\ loaded' = TRUE
                  /\ IF \E p \in ParentsOf(G, c) : p \notin s0
                     THEN /\ st' = "failed" /\ store' = s0 /\ UNCHANGED <<todo, del, cnt, q>>
                     ELSE /\ todo' = (IF Mutant = "twice" /\ Len(G[c]) > 1 /\ c \notin Range(del) THEN todo ELSE todo \ {c}) /\ del' = Append(del, c) /\ st' = st
                          /\ LET s == FoldLeft(Unload, [store |-> s0 \cup {c}, cnt |-> cnt, q |-> q], G[c])
                             IN store' = s.store /\ cnt' = s.cnt /\ q' = s.q
  /\ ck' = (IF st' = "failed" /\ Mutant = "overwrite" THEN [have |-> TRUE, v |-> 1, cs |-> store'] ELSE ck)
  /\ UNCHANGED <<G, run, hist>>

Finish ==
  /\ st = "run" /\ todo = {} /\ st' = "done"
  /\ ck' = (IF del = <<>> /\ Mutant # "always" THEN ck ELSE [have |-> TRUE, v |-> (IF del = <<>> THEN 0 ELSE IF Mutant = "firstversion" THEN del[1] ELSE del[Len(del)]), cs |-> store])
  /\ UNCHANGED <<G, run, todo, del, store, cnt, q, loaded, hist>>

Next == StartRun \/ Deliver \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
RunScope == Scope(G, run.kind, run.from, {run.head})
Ended == st \in {"failed", "done"}
Kept == ck.have = run.haveck /\ ck.v = run.v /\ ck.cs = run.cs
OrderHolds == \A i, j \in 1..Len(del) : (i < j) => del[j] \notin ParentsOf(G, del[i])

EndsRight ==
  Ended =>
    LET scope == RunScope
        d == del
    IN CASE HowEnds(G, run, scope) = "fail" -> st = "failed" /\ d = <<>> /\ Kept
         [] HowEnds(G, run, scope) = "lacks" -> st = "failed" /\ Range(d) \subseteq scope /\ Kept
         [] OTHER -> /\ st = "done"
                     /\ Range(d) = scope /\ Len(d) = Cardinality(scope)
                     /\ IF scope = {} THEN Kept
                        ELSE /\ ck.have /\ ck.v = d[Len(d)]
                             /\ IF run.kind = "full" THEN ck.cs = Retained(G, d, scope)
                                ELSE NeededLater(G, run.cs, d, Known) \subseteq ck.cs

\* what a full run keeps is enough to continue from where it ended: only commits with a missing child in scope can be needed, and these are kept
FullKeepsNeeded ==
  (st = "done" /\ run.kind = "full") => \A c \in Known : (c \in Range(del) /\ ChildrenIn(G, Known, c) \ Range(del) # {}) => c \in ck.cs

View == <<G, ck, run, st, todo, del, store, cnt, q, loaded, Len(hist)>>

Emit == IF Ended /\ Len(hist) = MaxRuns THEN PrintT(<<"RUNS", ToJson([g |-> G, h |-> hist])>>) ELSE TRUE
=============================================================================
