-------------------------------- MODULE MCHeap --------------------------------
(***************************************************************************)
(* What the results are made of. Versions of a file share their lines, and *)
(* commits share versions: by reference, not by value. Results that were   *)
(* delivered are kept by the receiver while the analysis goes on, so that  *)
(* nothing they refer to may be changed afterwards; nor may anything the   *)
(* store has. One file, all histories with few commits, with the           *)
(* references made explicit: a version has an array of references to       *)
(* lines, a line refers to the memory with its text.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS N, MaxLines, Texts, Mutant

VARIABLES blames, \* [by, arr, len]
          arrs,   \* array of references to lines
          lines,  \* [mem, by]
          mems,   \* texts
          store,  \* commit -> version, 0 if there is no file
          decl,   \* what the file of the commit has to be
          out     \* results delivered: [b |-> version, v |-> its value at that time]
vars == <<blames, arrs, lines, mems, store, decl, out>>

None == [by |-> 0, ls |-> <<>>]
Contents == UNION {[1..k -> Texts] : k \in 0..MaxLines}

Init == blames = <<>> /\ arrs = <<>> /\ lines = <<>> /\ mems = <<>> /\ store = <<>> /\ decl = <<>> /\ out = <<>>

Me == Len(store) + 1

----------------------------------------------------------------------------
(* Reading the memory. *)
LineValue(h, l) == <<h.mems[h.lines[l].mem], h.lines[l].by>>
Value(h, b) == LET x == h.blames[b] IN [by |-> x.by, ls |-> [i \in 1..x.len |-> LineValue(h, h.arrs[x.arr][i])]]
Heap == [blames |-> blames, arrs |-> arrs, lines |-> lines, mems |-> mems]
TextsOf(v) == [i \in 1..Len(v.ls) |-> v.ls[i][1]]

\* number of lines at the beginning which two versions have in common
Common(a, b) == CHOOSE k \in 0..Len(a) : /\ k <= Len(b) /\ SubSeq(a, 1, k) = SubSeq(b, 1, k)
                                         /\ (k < Len(a) /\ k < Len(b)) => a[k + 1] # b[k + 1]
\* what is after the lines at the beginning; the others are new
DeclApply(v, cs) == [i \in 1..Len(cs) |-> IF i <= Common(TextsOf(v), cs) THEN v.ls[i] ELSE <<cs[i], Me>>]
DeclMerge(a, b) == [i \in 1..Len(a) |-> IF a[i][2] # Me THEN a[i] ELSE b[i]]

----------------------------------------------------------------------------
(* Writing it. A new line gets memory of its own. *)
NewLine(h, t) ==
  LET again == Mutant = "buffer" /\ h.mems # <<>>
      m == IF again THEN 1 ELSE Len(h.mems) + 1
  IN [h EXCEPT !.mems = IF again THEN [@ EXCEPT ![1] = t] ELSE Append(@, t), !.lines = Append(@, [mem |-> m, by |-> Me])]

\* the references of the lines of a version after a change: those at the beginning, then new ones
Changed(h, b, cs) ==
  LET old == IF b = 0 THEN <<>> ELSE SubSeq(h.arrs[h.blames[b].arr], 1, h.blames[b].len)
      k == Common(IF b = 0 THEN <<>> ELSE TextsOf(Value(h, b)), cs)
      h2 == FoldLeft(NewLine, h, SubSeq(cs, k + 1, Len(cs)))
  IN [h |-> h2, refs |-> SubSeq(old, 1, k) \o [i \in 1..(Len(cs) - k) |-> Len(h.lines) + i]]

\* a version with these references, in a new array
NewBlame(h, refs) == [h EXCEPT !.arrs = Append(@, refs), !.blames = Append(@, [by |-> Me, arr |-> Len(h.arrs) + 1, len |-> Len(refs)])]
\* in the array of an older version, what it had behind stays
Borrow(h, b, refs) ==
  LET a == h.blames[b].arr
      old == h.arrs[a]
  IN [h EXCEPT !.arrs[a] = refs \o SubSeq(old, Len(refs) + 1, Len(old)), !.blames = Append(@, [by |-> Me, arr |-> a, len |-> Len(refs)])]

Edit(h, b, cs) == LET r == Changed(h, b, cs) IN IF Mutant = "borrow" /\ b # 0 THEN Borrow(r.h, b, r.refs) ELSE NewBlame(r.h, r.refs)

\* the lines of the first view, those which are new in it but not in the second one with the commit of the second
Claim(h, l, by) == [h EXCEPT !.lines = Append(@, [@[l] EXCEPT !.by = by])]
RECURSIVE Views(_, _, _, _)
Views(h, x, y, i) ==
  IF i > Len(x) THEN [h |-> h, refs |-> x]
  ELSE IF h.lines[x[i]].by # Me \/ h.lines[y[i]].by = Me THEN Views(h, x, y, i + 1)
  ELSE LET h2 == Claim(h, x[i], h.lines[y[i]].by)
       IN Views(h2, [x EXCEPT ![i] = Len(h2.lines)], y, i + 1)
Merge(h, a, b, cs) ==
  LET x == Changed(h, a, cs)
      y == Changed(x.h, b, cs)
      first == IF Mutant = "share" THEN y ELSE x
      r == Views(y.h, first.refs, y.refs, 1)
  IN NewBlame(r.h, r.refs)

----------------------------------------------------------------------------
(* Commits. b is the version that they have, and report if it is not 0. *)
Put(h, b, report, d) ==
  /\ blames' = h.blames /\ arrs' = h.arrs /\ lines' = h.lines /\ mems' = h.mems
  /\ store' = Append(store, b)
  /\ decl' = Append(decl, d)
  /\ out' = IF report /\ b # 0 THEN Append(out, [b |-> b, v |-> Value(h, b)]) ELSE out

Root == /\ \E cs \in Contents : LET h == Edit(Heap, 0, cs) IN Put(h, Len(h.blames), TRUE, [by |-> Me, ls |-> DeclApply(None, cs)])
Change == \E p \in 1..Len(store), cs \in Contents :
  /\ decl[p] = None \/ TextsOf(decl[p]) # cs
  /\ LET h == Edit(Heap, store[p], cs) IN Put(h, Len(h.blames), TRUE, [by |-> Me, ls |-> DeclApply(decl[p], cs)])
Erase == \E p \in 1..Len(store) : store[p] # 0 /\ Put(Heap, 0, FALSE, None)
\* other files are changed, the version is shared
Keep == \E p \in 1..Len(store) : Put(Heap, store[p], FALSE, decl[p])
\* moved or made executable: reported again, with all lines as they are
Touch == \E p \in 1..Len(store) :
  /\ store[p] # 0
  /\ LET d == [by |-> Me, ls |-> decl[p].ls]
     IN IF Mutant = "stamp" THEN Put([Heap EXCEPT !.blames[store[p]].by = Me], store[p], TRUE, d)
        ELSE LET b == Heap.blames[store[p]]
                 h == NewBlame(Heap, SubSeq(arrs[b.arr], 1, b.len))
             IN Put(h, Len(h.blames), TRUE, d)
MergeCommit == \E p \in 1..Len(store) : \E q \in (1..Len(store)) \ {p} :
  \E cs \in Contents :
    IF \E o \in {p, q} : store[o] # 0 /\ TextsOf(decl[o]) = cs
    THEN LET o == IF store[p] # 0 /\ TextsOf(decl[p]) = cs THEN p ELSE q IN Put(Heap, store[o], FALSE, decl[o])
    ELSE LET h == Merge(Heap, store[p], store[q], cs)
         IN Put(h, Len(h.blames), TRUE, [by |-> Me, ls |-> DeclMerge(DeclApply(decl[p], cs), DeclApply(decl[q], cs))])

Next == Len(store) < N /\ (Root \/ Change \/ Erase \/ Keep \/ Touch \/ MergeCommit)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Held == \A i \in 1..Len(out) : Value(Heap, out[i].b) = out[i].v
Stored == \A c \in 1..Len(store) : IF store[c] = 0 THEN decl[c] = None ELSE Value(Heap, store[c]) = decl[c]
=============================================================================
