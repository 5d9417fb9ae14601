----------------------------- MODULE MCDiscovery -----------------------------
(***************************************************************************)
(* The traversal as steps over all layouts, with the errors collected on   *)
(* the way.                                                                *)
(***************************************************************************)
EXTENDS Discovery, TLC, Json

CONSTANTS MaxKids, Mutant

D(is, st) == [is |-> is, st |-> st]
States == {"ok", "empty", "broken"}
Repos == {D(i, s) : i \in {"work", "bare"}, s \in States}
\* "nosuffix" is a bare repository without the suffix, "suffix" a directory with the suffix which is not a repository,
\* "nested" has a repository in it, "link" is a symbolic link to a repository, "gitfile" has a file with the name .git
Others == {D(i, "none") : i \in {"plain", "nosuffix", "suffix", "nested", "file", "link", "gitfile", "loop"}}
KidKinds == Repos \cup Others
TopKinds == Repos \cup {D(i, "none") : i \in {"plain", "nosuffix", "suffix", "file", "missing", "loop"}}

\* kids in some fixed order, which one comes first does not matter
Order(d) == LET is == <<"work", "bare", "plain", "nosuffix", "suffix", "nested", "file", "link", "gitfile", "loop">>
                st == <<"ok", "empty", "broken", "none">>
                Pos(s, v) == CHOOSE k \in 1..Len(s) : s[k] = v
            IN Pos(is, d.is) * 20 + Pos(st, d.st)

VARIABLES top, kids, pc, k, calls, errs, empties, exit
vars == <<top, kids, pc, k, calls, errs, empties, exit>>

Init == /\ top \in TopKinds /\ kids = <<>> /\ pc = "make" /\ k = 0 /\ calls = <<>> /\ errs = {} /\ empties = 0 /\ exit = -1
AddKid == /\ pc = "make" /\ Len(kids) < MaxKids /\ top.is \notin {"file", "missing", "loop"}
          /\ \E d \in KidKinds : /\ IF kids = <<>> THEN TRUE ELSE Order(kids[Len(kids)]) <= Order(d)
                                 /\ kids' = Append(kids, d)
          /\ UNCHANGED <<top, pc, k, calls, errs, empties, exit>>
Start == /\ pc = "make" /\ pc' = "top" /\ UNCHANGED <<top, kids, k, calls, errs, empties, exit>>

Call(j) == /\ calls' = Append(calls, j)
           /\ errs' = IF At(top, kids, j).st = "broken" THEN errs \cup {j} ELSE errs
           /\ empties' = IF At(top, kids, j).st = "empty" THEN empties + 1 ELSE empties
NoCall == UNCHANGED <<calls, errs, empties>>

Top == /\ pc = "top"
       /\ CASE top.is \in {"file", "missing", "loop"} -> NoCall /\ exit' = 1 /\ pc' = "done"
            [] top.is = "work" -> Call(0) /\ pc' = (IF Mutant = "descend" THEN "kids" ELSE "exit") /\ UNCHANGED exit
            [] top.is = "bare" -> Call(0) /\ pc' = "kids" /\ UNCHANGED exit
            [] OTHER -> NoCall /\ pc' = "kids" /\ UNCHANGED exit
       /\ k' = 1 /\ UNCHANGED <<top, kids>>
Kid == /\ pc = "kids" /\ k <= Len(kids)
       /\ IF Repo(kids[k]) THEN Call(k) ELSE NoCall
       /\ IF kids[k].is = "loop" /\ Mutant # "ignore"
          THEN pc' = "done" /\ exit' = 1
          ELSE /\ IF Mutant = "stop" /\ errs' # {} THEN pc' = "exit" ELSE pc' = "kids"
               /\ exit' = exit
       /\ k' = k + 1 /\ UNCHANGED <<top, kids>>
LastKid == pc = "kids" /\ k > Len(kids) /\ pc' = "exit" /\ UNCHANGED <<top, kids, k, calls, errs, empties, exit>>
Exit == /\ pc = "exit" /\ pc' = "done"
        /\ exit' = IF errs # {} \/ calls = <<>> THEN 1 ELSE 0
        /\ UNCHANGED <<top, kids, k, calls, errs, empties>>
Next == AddKid \/ Start \/ Top \/ Kid \/ LastKid \/ Exit
Spec == Init /\ [][Next]_vars

Done == pc = "done"
Times(j) == Cardinality({c \in 1..Len(calls) : calls[c] = j})
EachOnce == Done => \A j \in Found(top, kids) : IF Unsure(top, kids) THEN Times(j) <= 1 ELSE Times(j) = 1
OnlyFound == Done => \A c \in 1..Len(calls) : calls[c] \in Found(top, kids)
Status == Done => (exit = 0 <=> Success(top, kids))
Emit == pc = "top" => PrintT(<<"LAYOUT", ToJson([top |-> top, kids |-> kids])>>)
=============================================================================
