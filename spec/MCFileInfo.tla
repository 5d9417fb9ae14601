----------------------------- MODULE MCFileInfo -----------------------------
(***************************************************************************)
(* The decision as steps: two files are asked for one after another, facts *)
(* about the path are looked up in a cache which is filled by the first.   *)
(* Checked for all combinations of facts, and that the second decision is  *)
(* the same as without the first.                                          *)
(***************************************************************************)
EXTENDS FileInfo, FiniteSets, TLC, Json

CONSTANTS Mutant, Paths

PathFacts == [cfg : BOOLEAN, dot : BOOLEAN, excl : BOOLEAN, vend : BOOLEAN, src : BOOLEAN]
Around(n) == {n, n + 1}
ContentFacts == [size : Around(MaxSize), lic : BOOLEAN, nl : Around(MaxLines), wide : {0, MaxWidth + 1}, known : BOOLEAN, gen : {0, 1}]

VARIABLES pc,    \* step
          facts, \* facts of the paths
          n,     \* files decided before
          p, x,  \* path and content of the file
          cache, \* path -> decision by path
          res
vars == <<pc, facts, n, p, x, cache, res>>

\* one path is of interest, others have fixed facts
Plain == [cfg |-> FALSE, dot |-> FALSE, excl |-> FALSE, vend |-> FALSE, src |-> FALSE]
Init == /\ pc = "ask" /\ n = 0 /\ cache = [q \in {} |-> ""] /\ res = <<"none", 0>> /\ p = 1
        /\ \E f \in PathFacts : facts = [q \in Paths |-> IF q = 1 THEN f ELSE Plain]
        /\ x = [size |-> 0, lic |-> FALSE, nl |-> 0, wide |-> 0, known |-> TRUE, gen |-> 0]

Full == [size |-> x.size, lic |-> x.lic, nl |-> x.nl, wide |-> x.wide, known |-> x.known, gen |-> x.gen,
         cfg |-> facts[p].cfg, dot |-> facts[p].dot, excl |-> facts[p].excl, vend |-> facts[p].vend, src |-> facts[p].src]

Ask == /\ pc = "ask" /\ n < 2 /\ pc' = "size"
       /\ p' \in Paths
       /\ x' \in ContentFacts
       /\ UNCHANGED <<facts, n, cache, res>>

Skip(r) == pc' = "done" /\ res' = r
Go(l) == pc' = l /\ res' = res

Size == /\ pc = "size"
        /\ IF x.size > MaxSize THEN Skip(<<"size", x.size \div 1000>>) ELSE Go("lic")
        /\ UNCHANGED <<facts, n, p, x, cache>>
Lic == /\ pc = "lic"
       /\ IF x.lic THEN Skip(<<"lic", 0>>) ELSE Go("path")
       /\ UNCHANGED <<facts, n, p, x, cache>>
ByPath(f) == IF f.cfg THEN "cfg" ELSE IF f.dot THEN "dot" ELSE IF f.excl THEN "excl"
             ELSE IF f.vend /\ ~(f.src /\ Mutant # "nosrc") THEN "vend" ELSE ""
Path == /\ pc = "path"
        /\ LET r == IF p \in DOMAIN cache THEN cache[p] ELSE ByPath(facts[p])
           IN /\ cache' = [q \in DOMAIN cache \cup {p} |-> IF q = p THEN r ELSE cache[q]]
              /\ IF r # "" THEN Skip(<<r, 0>>) ELSE Go("lines")
        /\ UNCHANGED <<facts, n, p, x>>
Learn(r) == cache' = IF Mutant = "cacheall" THEN [q \in DOMAIN cache |-> IF q = p THEN r ELSE cache[q]] ELSE cache
Lines == /\ pc = "lines"
         /\ IF x.nl > MaxLines THEN Skip(<<"lines", 0>>) /\ Learn("lines") ELSE Go("wide") /\ UNCHANGED cache
         /\ UNCHANGED <<facts, n, p, x>>
Wide == /\ pc = "wide"
        /\ IF x.wide > MaxWidth THEN Skip(<<"wide", x.wide>>) ELSE Go("lang")
        /\ UNCHANGED <<facts, n, p, x, cache>>
Lang == /\ pc = "lang"
        /\ IF ~x.known THEN Skip(<<"lang", 0>>) ELSE Skip(<<"none", 0>>)
        /\ UNCHANGED <<facts, n, p, x, cache>>
Again == /\ pc = "done" /\ pc' = "ask" /\ n' = n + 1 /\ res' = <<"none", 0>> /\ UNCHANGED <<facts, p, x, cache>>

Next == Ask \/ Size \/ Lic \/ Path \/ Lines \/ Wide \/ Lang \/ Again
Spec == Init /\ [][Next]_vars

FirstReason == pc = "done" => res = Reason(Full)
\* a decision with lines is never made for something that is over a limit
Limits == pc = "done" /\ HasLines(res) => x.size <= MaxSize /\ x.nl <= MaxLines /\ x.wide <= MaxWidth
CacheIsByPath == \A q \in DOMAIN cache : cache[q] = ByPath(facts[q])

\* combinations of facts for replay
Names(f) == {k \in {"cfg", "dot", "excl", "vend", "src"} : f[k]}
NamesX == (IF x.size > MaxSize THEN {"size"} ELSE {}) \cup (IF x.lic THEN {"lic"} ELSE {}) \cup (IF x.nl > MaxLines THEN {"lines"} ELSE {})
          \cup (IF x.wide > MaxWidth THEN {"wide"} ELSE {}) \cup (IF x.known THEN {"known"} ELSE {}) \cup (IF x.gen = 1 THEN {"gen"} ELSE {})
Emit == pc = "size" /\ n = 0 => PrintT(<<"COMBO", ToJson(Names(facts[p]) \cup NamesX)>>)
=============================================================================
