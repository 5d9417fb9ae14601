------------------------------- MODULE MCStore -------------------------------
(***************************************************************************)
(* What is in the files of a checkpoint. Commits, versions of files, lines *)
(* and text of lines are written to four tables, as they are met in the    *)
(* maps of the run - in any order. Objects are written once and others     *)
(* point to them. The text of lines is found by its hash, and different    *)
(* texts can have the same one. The reader has to get back what was        *)
(* written: all commits, also those without files, and each line with its  *)
(* own commit and text.                                                    *)
(***************************************************************************)
EXTENDS Checkpoint, FiniteSets, SequencesExt, TLC, Json

CONSTANTS MaxLen, Texts, Mutant

Names == <<"", "one", "two", "three">>   \* texts
Hash(d) == IF d \in {2, 3} THEN 7 ELSE d \* one and two have the same hash
Commits == {1, 2}
Paths == {1, 2}

VARIABLES repo,   \* [rows, versions, lines] as in Checkpoint
          todo,   \* <<commit, position of row>> to be written, position 0 for the commit itself
          tables, \* [rows, versions, lines, texts]: what is in the files
          vptr, lptr
vars == <<repo, todo, tables, vptr, lptr>>

Lists == UNION {[1..m -> {1, 2}] : m \in 0..MaxLen}
Versions(c) == {[c |-> c, b |-> FALSE, l |-> l] : l \in Lists} \cup {[c |-> c, b |-> TRUE, l |-> <<>>]}
Rows == {<<>>} \cup {<< <<p, v>> >> : p \in Paths, v \in {1, 2}} \cup {<< <<1, v>>, <<2, w>> >> : v \in {1, 2}, w \in {1, 2}}

Init ==
  /\ \E r1 \in Rows, r2 \in Rows, v1 \in Versions(1), v2 \in Versions(2), d1 \in Texts, d2 \in Texts :
       repo = [rows |-> <<r1, r2>>, versions |-> <<v1, v2>>, lines |-> <<[c |-> 1, d |-> d1], [c |-> 2, d |-> d2]>>]
  /\ todo = {<<c, 0>> : c \in Commits}
  /\ tables = [rows |-> <<>>, versions |-> <<>>, lines |-> <<>>, texts |-> <<>>]
  /\ vptr = <<0, 0>> /\ lptr = <<0, 0>>

Has(s, x) == \E k \in 1..Len(s) : s[k] = x

\* pointer of the text: its hash, or the next one that no other text has
RECURSIVE Probe(_, _, _)
Probe(t, d, h) == IF Mutant = "hash" \/ ~ \E k \in 1..Len(t) : t[k][1] = h /\ t[k][2] # d THEN h ELSE Probe(t, d, h + 1)

\* lines of a version that have not been written yet
RECURSIVE PutLines(_, _, _, _)
PutLines(l, k, tb, lp) ==
  IF k > Len(l) THEN <<tb, lp>>
  ELSE LET x == l[k]
           line == repo.lines[x]
           known == IF Mutant = "bytext" THEN {y \in {1, 2} : lp[y] # 0 /\ repo.lines[y].d = line.d} ELSE {y \in {x} : lp[y] # 0}
       IN IF known # {} THEN PutLines(l, k + 1, tb, [lp EXCEPT ![x] = lp[CHOOSE y \in known : TRUE]])
          ELSE LET h == Probe(tb.texts, line.d, Hash(line.d))
                   t2 == IF \E j \in 1..Len(tb.texts) : tb.texts[j][1] = h THEN tb.texts ELSE Append(tb.texts, <<h, line.d>>)
                   ptr == Len(tb.lines) + 1
               IN PutLines(l, k + 1, [tb EXCEPT !.texts = t2, !.lines = Append(@, <<ptr, line.c, h>>)], [lp EXCEPT ![x] = ptr])

First == IF Mutant = "zero" THEN 0 ELSE 1

Commit(c) ==
  /\ <<c, 0>> \in todo
  /\ \A t \in todo : t[2] = 0   \* the commit before is complete
  /\ LET r == repo.rows[c]
     IN /\ todo' = (todo \ {<<c, 0>>}) \cup {<<c, k>> : k \in 1..Len(r)}
        /\ tables' = IF r = <<>> /\ Mutant # "empty" THEN [tables EXCEPT !.rows = Append(@, <<c, 0, 0>>)] ELSE tables
  /\ UNCHANGED <<repo, vptr, lptr>>

Row(c, k) ==
  /\ k > 0 /\ <<c, k>> \in todo
  /\ LET p == repo.rows[c][k][1]
         v == repo.rows[c][k][2]
         x == repo.versions[v]
         put == PutLines(x.l, 1, tables, lptr)
         ptr == Len(tables.versions) + First
     IN IF vptr[v] # 0
        THEN /\ tables' = [tables EXCEPT !.rows = Append(@, <<c, p, vptr[v]>>)]
             /\ UNCHANGED <<vptr, lptr>>
        ELSE /\ tables' = [put[1] EXCEPT !.rows = Append(@, <<c, p, ptr>>),
                             !.versions = Append(@, [ptr |-> ptr, c |-> x.c, b |-> x.b, l |-> [j \in 1..Len(x.l) |-> put[2][x.l[j]]]])]
             /\ lptr' = put[2]
             /\ vptr' = [vptr EXCEPT ![v] = ptr]
  /\ todo' = todo \ {<<c, k>>}
  /\ UNCHANGED <<repo>>

Next == \E c \in Commits : Commit(c) \/ \E k \in {1, 2} : Row(c, k)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* what the reader makes of the tables
TextOf(h) == LET k == CHOOSE k \in 1..Len(tables.texts) : tables.texts[k][1] = h IN Names[tables.texts[k][2]]
LineOf(q) == LET k == CHOOSE k \in 1..Len(tables.lines) : tables.lines[k][1] = q
             IN <<tables.lines[k][2], TextOf(tables.lines[k][3])>>
ReadCommits == {tables.rows[k][1] : k \in 1..Len(tables.rows)}
ReadBack(c) ==
  {<<tables.rows[k][2],
     LET v == CHOOSE v \in ToSet(tables.versions) : v.ptr = tables.rows[k][3] IN <<v.c, v.b, [j \in 1..Len(v.l) |-> LineOf(v.l[j])]>>
   >> : k \in {k \in 1..Len(tables.rows) : tables.rows[k][1] = c /\ tables.rows[k][3] # 0}}

RoundTrip == todo = {} =>
  /\ ReadCommits = Commits
  /\ \A c \in Commits : {<<r[1], r[2][1], r[2][2], r[2][3]>> : r \in ReadBack(c)} = Meaning(repo, c, Names)

\* each object is written once
Once == todo = {} =>
  /\ Cardinality({tables.versions[k].ptr : k \in 1..Len(tables.versions)}) = Len(tables.versions)
  /\ Len(tables.versions) <= 2 /\ Len(tables.lines) <= 2 /\ Len(tables.texts) <= 2

Stop == UNCHANGED vars
Emit == PrintT(<<"STORE", ToJson(repo)>>)
=============================================================================
