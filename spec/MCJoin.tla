-------------------------------- MODULE MCJoin --------------------------------
(***************************************************************************)
(* Design of the code output. Metadata of all commits in scope is read     *)
(* into a map first. After that results of the history analysis arrive one *)
(* commit after another, in another order than metadata, and are joined    *)
(* with it: a file gets a record when both have it, and its lines get the  *)
(* authors of the commits they are stamped with. Records of a commit are   *)
(* sent on a channel of their own, which is sent first. In the flat output *)
(* a second routine copies records of one commit after another. All        *)
(* interleavings, orders and contents within bounds.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Functions, TLC

CONSTANTS N, Mutant

Commits == 1..N
\* what a commit does, as history analysis (files with their lines, "D" is a removed file) and metadata (path, status) have it
Line(c) == {<<c>>, <<1, c>>, <<c, c, 1>>}
Nothing == [proc |-> [p \in {} |-> <<>>], meta |-> [p \in {} |-> ""], del |-> {}]
Changes(c) ==
  {Nothing}
  \cup {[proc |-> ("a" :> ls), meta |-> ("a" :> "added"), del |-> {}] : ls \in Line(c)}
  \cup {[proc |-> ("a" :> <<1, c>>) @@ ("b" :> <<c>>), meta |-> ("a" :> "modified") @@ ("b" :> "added"), del |-> {}],
        [proc |-> ("a" :> <<>>), meta |-> ("a" :> "removed"), del |-> {"a"}],
        \* rename from a to b
        [proc |-> ("a" :> <<>>) @@ ("b" :> <<1>>), meta |-> ("a" :> "removed") @@ ("b" :> "added"), del |-> {"a"}],
        \* merge: metadata compares with the first parent only, analysis has what differs from any of them
        [proc |-> ("a" :> <<1>>) @@ ("b" :> <<1, c>>), meta |-> ("b" :> "modified"), del |-> {}]}

\* all orders of a set
Orders(S) == {f \in [1..Cardinality(S) -> S] : \A x, y \in DOMAIN f : x # y => f[x] # f[y]}

VARIABLES what,   \* change of every commit
          scope,  \* commits in scope
          mord, pord, \* orders of metadata and results
          meta,   \* commits whose metadata was read, in order
          flat,   \* whether the output is flat
          prod,   \* results sent by the analysis
          join,   \* [pc, c, left, ...] of the routine which joins
          copier, \* commit whose records are copied, 0 when waiting, -1 is not used
          open,   \* commits whose channel of records is open
          chan,   \* a sent record that was not received yet
          out     \* what the user got: <<"c", commit>> and <<"r", commit, path, status, skipped, authors>>
vars == <<what, scope, mord, pord, meta, flat, prod, join, copier, open, chan, out>>

Init == /\ what \in [Commits -> UNION {Changes(c) : c \in Commits}] /\ \A c \in Commits : what[c] \in Changes(c)
        /\ scope \in {Commits, Commits \ {1}}
        /\ mord \in Orders(scope) /\ pord \in Orders(scope)
        /\ meta = <<>> /\ flat \in BOOLEAN /\ prod = 0 /\ join = [pc |-> "meta", c |-> 0, left |-> {}]
        /\ copier = 0 /\ open = {} /\ chan = <<>> /\ out = <<>>
Fix == UNCHANGED <<what, scope, mord, pord, flat>>

ReadMeta == /\ Len(meta) < Len(mord) /\ meta' = Append(meta, mord[Len(meta) + 1])
            /\ Fix /\ UNCHANGED <<prod, join, copier, open, chan, out>>
MetaRead == /\ join.pc = "meta" /\ (Len(meta) = Len(mord) \/ Mutant = "during") /\ join' = [join EXCEPT !.pc = "recv"]
            /\ Fix /\ UNCHANGED <<meta, prod, copier, open, chan, out>>
Known == {meta[k] : k \in DOMAIN meta}

\* the commit whose metadata is used
MetaOf(c) == IF Mutant = "bypos" THEN mord[prod] ELSE c
Author(c, l) == IF Mutant = "own" THEN c ELSE IF l \in Known THEN l ELSE 0
Record(c, p) ==
  LET m == what[MetaOf(c)].meta
      st == IF p \in DOMAIN m THEN m[p] ELSE "modified"
      gone == IF Mutant = "bylines" THEN what[c].proc[p] = <<>> /\ st # "removed" ELSE st = "removed"
  IN <<"r", c, p, st, gone, IF gone THEN <<>> ELSE [k \in DOMAIN what[c].proc[p] |-> Author(c, what[c].proc[p][k])]>>
Joined(c) ==
  LET P == DOMAIN what[c].proc
      M == DOMAIN what[MetaOf(c)].meta
  IN IF Mutant = "union" THEN P \cup {} ELSE IF Mutant = "noremoved" THEN (P \cap M) \ what[c].del ELSE P \cap M

\* a result is received, the analysis waits until then
Receive == /\ join.pc = "recv" /\ prod < Len(pord)
           /\ prod' = prod + 1
           /\ LET c == pord[prod + 1] IN
              join' = IF c \in Known THEN [pc |-> "send", c |-> c, left |-> {}] ELSE [pc |-> "panic", c |-> c, left |-> {}]
           /\ Fix /\ UNCHANGED <<meta, copier, open, chan, out>>
\* the commit is sent with the channel for its records, files are in any order
SendCommit == /\ join.pc = "send" /\ copier = 0
              /\ join' = [join EXCEPT !.pc = "records", !.left = Joined(join.c)]
              /\ copier' = join.c /\ open' = open \cup {join.c}
              /\ out' = (IF flat THEN out ELSE Append(out, <<"c", join.c>>))
              /\ Fix /\ UNCHANGED <<meta, prod, chan>>
SendRecord == /\ join.pc = "records" /\ join.left # {} /\ chan = <<>>
              /\ \E p \in join.left : /\ chan' = <<Record(join.c, p)>> /\ join' = [join EXCEPT !.left = @ \ {p}]
              /\ Fix /\ UNCHANGED <<meta, prod, copier, open, out>>
Copy == /\ chan # <<>> /\ copier # 0
        /\ out' = Append(out, chan[1]) /\ chan' = <<>>
        /\ Fix /\ UNCHANGED <<meta, prod, join, copier, open>>
CloseRecords == /\ join.pc = "records" /\ join.left = {} /\ (chan = <<>> \/ Mutant = "lose")
                /\ open' = open \ {join.c} /\ join' = [pc |-> "recv", c |-> 0, left |-> {}]
                /\ chan' = <<>>
                /\ Fix /\ UNCHANGED <<meta, prod, copier, out>>
NextCommit == /\ copier # 0 /\ copier \notin open /\ copier' = 0
              /\ Fix /\ UNCHANGED <<meta, prod, join, open, chan, out>>
Finish == /\ join.pc = "recv" /\ prod = Len(pord) /\ copier = 0 /\ join' = [join EXCEPT !.pc = "end"]
          /\ Fix /\ UNCHANGED <<meta, prod, copier, open, chan, out>>
Next == ReadMeta \/ MetaRead \/ Receive \/ SendCommit \/ SendRecord \/ Copy \/ CloseRecords \/ NextCommit \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
Records(c) == {k \in DOMAIN out : out[k][1] = "r" /\ out[k][2] = c}
Wanted(c) == DOMAIN what[c].proc \cap DOMAIN what[c].meta
NoPanic == join.pc # "panic"
\* every file of both has one record, when the commit is done
Complete == join.pc = "end" =>
  \A c \in Commits : /\ {out[k][3] : k \in Records(c)} = (IF c \in scope THEN Wanted(c) ELSE {})
                     /\ Cardinality(Records(c)) = (IF c \in scope THEN Cardinality(Wanted(c)) ELSE 0)
\* records of a commit are together, and in the order of results
Together == \A c \in Commits : \A j, k \in Records(c) : \A m \in j..k : m \in Records(c)
Position(c) == CHOOSE k \in DOMAIN pord : pord[k] = c
InOrder == \A j, k \in DOMAIN out : j < k => Position(out[j][2]) <= Position(out[k][2])
Announced == ~flat => \A k \in DOMAIN out : out[k][1] = "r" => \E j \in 1..(k - 1) : out[j] = <<"c", out[k][2]>>
\* values. Authors of lines from commits out of scope are not known (known finding lineoutside)
Values == \A k \in DOMAIN out : out[k][1] = "r" =>
  LET c == out[k][2]
      p == out[k][3]
  IN /\ p \in DOMAIN what[c].meta /\ out[k][4] = what[c].meta[p]
     /\ out[k][5] = (out[k][4] = "removed")
     /\ out[k][6] = IF out[k][5] THEN <<>> ELSE [j \in DOMAIN what[c].proc[p] |-> IF what[c].proc[p][j] \in scope THEN what[c].proc[p][j] ELSE 0]
Right == NoPanic /\ Complete /\ Together /\ InOrder /\ Announced /\ Values
Ends == <>(join.pc = "end")
=============================================================================
