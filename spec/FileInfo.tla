------------------------------ MODULE FileInfo ------------------------------
(***************************************************************************)
(* Why a file is skipped. x are facts about its path and content:          *)
(* size, lic (detected license), cfg, dot, excl, vend, src (leading src/), *)
(* nl (number of lines), wide (width of the first line that is too wide or *)
(* 0), known (language), gen (line with a marker of generated code or 0).  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

MaxSize == 1000000
MaxLines == 40000
MaxWidth == 1096

Reason(x) ==
  CASE x.size > MaxSize -> <<"size", x.size \div 1000>>
    [] x.size <= MaxSize /\ x.lic -> <<"lic", 0>>
    [] x.size <= MaxSize /\ ~x.lic /\ x.cfg -> <<"cfg", 0>>
    [] x.size <= MaxSize /\ ~x.lic /\ ~x.cfg /\ x.dot -> <<"dot", 0>>
    [] x.size <= MaxSize /\ ~x.lic /\ ~x.cfg /\ ~x.dot /\ x.excl -> <<"excl", 0>>
    [] OTHER ->
       IF x.vend /\ ~x.src THEN <<"vend", 0>>
       ELSE IF x.nl > MaxLines THEN <<"lines", 0>>
       ELSE IF x.wide > MaxWidth THEN <<"wide", x.wide>>
       ELSE IF ~x.known THEN <<"lang", 0>>
       ELSE <<"none", 0>>

\* with the step that looks at comments
FullReason(x) == IF Reason(x) = <<"none", 0>> /\ x.gen > 0 THEN <<"gen", 0>> ELSE Reason(x)
HasLines(r) == r[1] \in {"none", "gen"}
HasLanguage(r) == r[1] = "none"
\* name of the language that belongs to the decision, and the licenses that may be named, with the confidence
LanguageOf(x, r) == IF HasLanguage(r) THEN x.lang ELSE ""
LicenseOK(x, r, lic) == IF r[1] = "lic" THEN lic[2] = x.licc /\ \E k \in 1..Len(x.licn) : x.licn[k] = lic[1]
                        ELSE lic = <<"", "0">>
=============================================================================
