------------------------------ MODULE MCConfig ------------------------------
(***************************************************************************)
(* How the settings of the user reach the output of the git commands that  *)
(* are used. A setting on the command line or set with -c is stronger than *)
(* the global configuration, which is stronger than the default of git.    *)
(* The output of a command is a function of the effective values of the    *)
(* settings it looks at; it has to be the same for every configuration.    *)
(*                                                                         *)
(* The table is also the source of the configurations that the real code   *)
(* is run with.                                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxSet,  \* settings in one configuration
          Unpinned \* set of settings which are not fixed, to see that it is noticed

Commands == {"patch", "raw", "graph", "refs", "blame"}
Logs == {"patch", "raw", "graph"}
Diffs == {"patch", "raw"}

S(k, vals, looks, fixed) == [k |-> k, vals |-> vals, looks |-> looks, fixed |-> fixed]
Attr == {"$FILE:* -diff", "$FILE:* binary", "$FILE:* diff=up", "$FILE:* diff=cpp", "$FILE:*.go -text diff", "$FILE:* text=auto eol=crlf", "$FILE:* diff=golang\\n*.txt -diff"}

Table == <<
  S("diff.noprefix", {"true"}, {"patch"}, {"patch"}),
  S("diff.mnemonicPrefix", {"true"}, {"patch"}, {"patch"}),
  S("diff.srcPrefix", {"x/", ""}, {"patch"}, {"patch"}),
  S("diff.dstPrefix", {"y/", ""}, {"patch"}, {"patch"}),
  S("diff.context", {"0", "1", "10", "1000"}, {"patch"}, {"patch"}),
  S("diff.interHunkContext", {"1", "20"}, {"patch"}, {"patch"}),
  S("diff.renames", {"false", "copies", "true"}, Diffs, Diffs),
  S("diff.renameLimit", {"1", "0"}, Diffs \cup {"blame"}, Diffs \cup {"blame"}),
  S("diff.algorithm", {"patience", "histogram", "minimal", "myers"}, Diffs, Diffs),
  S("diff.indentHeuristic", {"false", "true"}, Diffs \cup {"blame"}, Diffs \cup {"blame"}),
  S("diff.suppressBlankEmpty", {"true"}, {"patch"}, {"patch"}),
  S("diff.submodule", {"log", "diff", "short"}, {"patch"}, {"patch"}),
  S("diff.ignoreSubmodules", {"all", "dirty", "untracked"}, Diffs, Diffs),
  S("diff.external", {"/bin/true", "/bin/echo"}, {"patch"}, {"patch"}),
  S("diff.colorMoved", {"zebra", "plain"}, {}, {}),
  S("diff.wsErrorHighlight", {"all"}, {}, {}),
  S("diff.relative", {"true"}, {}, {}),
  S("diff.statGraphWidth", {"10"}, {}, {}),
  S("diff.dirstat", {"lines"}, {}, {}),
  S("diff.wordRegex", {"."}, {}, {}),
  S("diff.orderFile", {"$FILE:*.go\\n*"}, Diffs, {}),
  S("diff.up.textconv", {"tr a-z A-Z <"}, {"patch", "blame"}, {"patch", "blame"}),
  S("diff.up.command", {"/bin/echo"}, {"patch"}, {"patch"}),
  S("diff.up.binary", {"true", "false"}, Diffs, Diffs),
  S("diff.up.xfuncname", {"^.*$"}, {}, {}),
  S("diff.up.algorithm", {"patience", "minimal"}, {"patch"}, {"patch"}),
  S("diff.up.cachetextconv", {"true"}, {}, {}),
  S("diff.cpp.binary", {"true", "false"}, Diffs, Diffs),
  S("diff.cpp.textconv", {"rev"}, {"patch", "blame"}, {"patch", "blame"}),
  S("core.attributesFile", Attr, Diffs \cup {"blame"}, Diffs \cup {"blame"}),
  S("color.ui", {"always", "true"}, Diffs, Diffs),
  S("color.diff", {"always"}, Diffs, Diffs),
  S("color.branch", {"always"}, {}, {}),
  S("color.diff.meta", {"red"}, {}, {}),
  S("log.showSignature", {"true"}, Logs, Logs),
  S("log.decorate", {"full", "short", "auto"}, {"patch"}, {"patch"}),
  S("log.showRoot", {"false"}, Diffs, Diffs),
  S("log.diffMerges", {"off", "first-parent", "combined", "dense-combined", "remerge", "on"}, Diffs, Diffs),
  S("log.date", {"iso", "raw", "relative"}, {}, {}),
  S("log.follow", {"true"}, {}, {}),
  S("log.mailmap", {"true", "false"}, {}, {}),
  S("log.abbrevCommit", {"true"}, {"patch"}, {"patch"}),
  S("log.initialDecorationSet", {"all"}, {}, {}),
  S("log.excludeDecoration", {"refs/*"}, {}, {}),
  S("log.graphColors", {"red"}, {}, {}),
  S("format.pretty", {"oneline", "fuller", "email", "raw"}, {"patch"}, {"patch"}),
  S("format.notes", {"true", "refs/notes/*"}, {}, {}),
  S("notes.displayRef", {"refs/notes/*", "refs/heads/*"}, {}, {}),
  S("core.notesRef", {"refs/notes/x", "refs/heads/master"}, {}, {}),
  S("core.quotePath", {"false", "true"}, Diffs, Diffs),
  S("core.bigFileThreshold", {"1", "10", "100"}, Diffs, Diffs),
  S("core.abbrev", {"4", "40", "no"}, {}, {}),
  S("core.pager", {"/bin/false", "less"}, {}, {}),
  S("pager.log", {"true", "/bin/false"}, {}, {}),
  S("core.warnAmbiguousRefs", {"false", "true"}, {}, {}),
  S("core.precomposeUnicode", {"true"}, {}, {}),
  S("core.whitespace", {"trailing-space,cr-at-eol,tab-in-indent"}, {}, {}),
  S("core.autocrlf", {"true", "input"}, {"blame"}, {}),
  S("core.eol", {"crlf"}, {}, {}),
  S("core.safecrlf", {"true"}, {}, {}),
  S("core.commentChar", {";"}, {}, {}),
  S("core.commitGraph", {"false", "true"}, {}, {}),
  S("core.multiPackIndex", {"false"}, {}, {}),
  S("core.untrackedCache", {"true"}, {}, {}),
  S("core.fsmonitor", {"true", "/bin/false"}, {}, {}),
  S("core.splitIndex", {"true"}, {}, {}),
  S("core.logAllRefUpdates", {"always"}, {}, {}),
  S("core.preloadIndex", {"false"}, {}, {}),
  S("core.useReplaceRefs", {"false"}, {}, {}),
  S("core.checkStat", {"minimal"}, {}, {}),
  S("core.hooksPath", {"/nonexistent"}, {}, {}),
  S("core.excludesFile", {"$FILE:*"}, {}, {}),
  S("core.deltaBaseCacheLimit", {"1"}, {}, {}),
  S("core.packedGitLimit", {"1m"}, {}, {}),
  S("i18n.logOutputEncoding", {"ISO-8859-1", "UTF-16", "Shift_JIS"}, Logs, Logs),
  S("i18n.commitEncoding", {"ISO-8859-1"}, {}, {}),
  S("mailmap.file", {"$FILE:X Y <x@y.z> <a@b.c>"}, {}, {}),
  S("blame.showEmail", {"true"}, {}, {}),
  S("blame.blankBoundary", {"true"}, {}, {}),
  S("blame.showRoot", {"true", "false"}, {}, {}),
  S("blame.date", {"raw", "relative"}, {}, {}),
  S("blame.coloring", {"repeatedLines", "highlightRecent"}, {}, {}),
  S("blame.ignoreRevsFile", {"$COMMITS", "$FILE:"}, {"blame"}, {"blame"}),
  S("blame.markIgnoredLines", {"true"}, {}, {}),
  S("blame.markUnblamableLines", {"true"}, {}, {}),
  S("column.ui", {"always"}, {}, {}),
  S("branch.sort", {"-committerdate"}, {}, {}),
  S("tag.sort", {"-version:refname"}, {}, {}),
  S("transfer.hideRefs", {"refs/heads"}, {}, {}),
  S("status.renames", {"copies"}, {}, {}),
  S("merge.renames", {"false"}, {}, {}),
  S("merge.renameLimit", {"1"}, {}, {}),
  S("merge.conflictStyle", {"diff3"}, {}, {}),
  S("merge.log", {"true"}, {}, {}),
  S("submodule.recurse", {"true"}, {}, {}),
  S("init.defaultBranch", {"zzz"}, {}, {}),
  S("alias.log", {"!false"}, {}, {}),
  S("advice.detachedHead", {"false"}, {}, {}),
  S("rerere.enabled", {"true"}, {}, {}),
  S("feature.experimental", {"true"}, {}, {}),
  S("feature.manyFiles", {"true"}, {}, {}),
  S("gc.auto", {"1"}, {}, {}),
  S("maintenance.auto", {"true"}, {}, {}),
  S("pack.threads", {"1"}, {}, {}),
  S("checkout.defaultRemote", {"origin"}, {}, {}),
  S("user.useConfigOnly", {"true"}, {}, {}),
  S("gpg.program", {"/bin/false"}, {}, {}),
  S("interactive.diffFilter", {"/bin/cat"}, {}, {}),
  S("grep.lineNumber", {"true"}, {}, {}),
  \* from the environment
  S("$ENV:GIT_DIFF_OPTS", {"-u0", "--unified=0", "-u1", "--unified=30", "x"}, {"patch"}, {"patch"}),
  S("$ENV:GIT_EXTERNAL_DIFF", {"/bin/echo", "/bin/false"}, {"patch"}, {"patch"}),
  S("$ENV:GIT_PAGER", {"/bin/false", "tac"}, {}, {}),
  S("$ENV:GIT_PAGER_IN_USE", {"1"}, Diffs, Diffs),
  S("$ENV:GIT_NOTES_REF", {"refs/notes/x", "refs/heads/master"}, {}, {}),
  S("$ENV:GIT_NOTES_DISPLAY_REF", {"refs/notes/*"}, {}, {}),
  S("$ENV:GIT_PRINT_SHA1_ELLIPSIS", {"yes"}, {"raw"}, {"raw"}),
  S("$ENV:GIT_ICASE_PATHSPECS", {"1"}, {}, {}),
  S("$ENV:GIT_LITERAL_PATHSPECS", {"1"}, {}, {}),
  S("$ENV:GIT_NOGLOB_PATHSPECS", {"1"}, {}, {}),
  S("$ENV:GIT_OPTIONAL_LOCKS", {"0"}, {}, {}),
  S("$ENV:GIT_TRACE", {"1"}, {}, {}),
  S("$ENV:GIT_FLUSH", {"0", "1"}, {}, {}),
  S("$ENV:GIT_TERMINAL_PROMPT", {"0"}, {}, {}),
  S("$ENV:GIT_NO_REPLACE_OBJECTS", {"1"}, {}, {}),
  S("$ENV:GIT_ADVICE", {"0"}, {}, {}),
  S("$ENV:GIT_DEFAULT_HASH", {"sha256"}, {}, {}),
  S("$ENV:GIT_AUTHOR_NAME", {"Somebody Else"}, {}, {}),
  S("$ENV:GIT_COMMITTER_DATE", {"1000000000 +0000"}, {}, {}),
  S("$ENV:GIT_EDITOR", {"/bin/false"}, {}, {}),
  S("$ENV:LC_ALL", {"C", "de_DE.UTF-8", "C.UTF-8"}, {}, {}),
  S("$ENV:LANGUAGE", {"de"}, {}, {}),
  S("$ENV:TZ", {"Asia/Tokyo", "America/St_Johns"}, {"refs"}, {"refs"}),
  S("$ENV:TERM", {"dumb", "xterm-256color"}, {}, {}),
  S("$ENV:COLUMNS", {"5"}, {}, {}),
  S("$ENV:LESS", {"-x"}, {}, {}),
  S("$ENV:GREP_OPTIONS", {"-v"}, {}, {}),
  S("$ENV:CLICOLOR_FORCE", {"1"}, {}, {})
  >>

N == Len(Table)
\* order of the files within a commit, and line ends in blame of something that is not committed, do not matter
Immaterial == {"diff.orderFile", "core.autocrlf"}

VARIABLE cfg \* setting -> value
Init == cfg = [k \in {} |-> ""]
Set(j, v) == cfg' = [x \in DOMAIN cfg \cup {j} |-> IF x = j THEN v ELSE cfg[x]]
Next == /\ Cardinality(DOMAIN cfg) < MaxSet
        /\ \E j \in 1..N : /\ \A x \in DOMAIN cfg : x < j
                           /\ \E v \in Table[j].vals : Set(j, v)
Spec == Init /\ [][Next]_cfg

Effective(cmd, j) ==
  IF cmd \in Table[j].fixed /\ Table[j].k \notin Unpinned THEN "fixed"
  ELSE IF j \in DOMAIN cfg THEN cfg[j] ELSE "default"
Output(cmd) == {<<j, Effective(cmd, j)>> : j \in {x \in 1..N : cmd \in Table[x].looks /\ Table[x].k \notin Immaterial}}
Plain(cmd) == {<<j, IF cmd \in Table[j].fixed /\ Table[j].k \notin Unpinned THEN "fixed" ELSE "default">> : j \in {x \in 1..N : cmd \in Table[x].looks /\ Table[x].k \notin Immaterial}}

Independent == \A cmd \in Commands : Output(cmd) = Plain(cmd)

AsList == [n \in 1..Cardinality(DOMAIN cfg) |->
            LET j == CHOOSE x \in DOMAIN cfg : Cardinality({y \in DOMAIN cfg : y < x}) = n - 1 IN <<Table[j].k, cfg[j]>>]
Emit == cfg # [k \in {} |-> ""] => PrintT(<<"CFG", ToJson(AsList)>>)
=============================================================================
