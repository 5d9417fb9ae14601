#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the wording lives in one place)."""
import json, os
R = "ripsrc/"
PROC = R + "history3/process/process.go"
PARSER = R + "history3/process/parser/parser.go"
APPLY = R + "history3/incblame/apply.go"
MERGE = R + "history3/incblame/apply_merge2.go"
PARSE = R + "history3/incblame/parse.go"
PUTIL = R + "history3/incblame/parse_utils.go"
REPO = R + "history3/process/repo/repo.go"
RD = R + "history3/process/repo/reader.go"
WR = R + "history3/process/repo/writer.go"
MSGP = R + "history3/process/repo/msgp.go"
GRAPH = R + "parentsgraph/parents.go"
B2 = R + "branches2/"
META = R + "commitmeta/commitmeta.go"
CODE = R + "code.go"
INFO = R + "code_info.go"
FI = R + "fileinfo/fileinfo.go"
out = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    out.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                "anchors": {"files": files,
                            "mechanism": [{"name": n, "where": w} for n, w in mech],
                            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                            "observe_at": observe, "hook_needed": hook}})

STORE = ("blame store", "commit -> path -> blame of the file as of that commit", REPO + " Repo")

prop("C01", "Reported lines of a file are the file's content at that commit",
     "For every commit and every text file reported as changed in it, the reported lines are exactly the lines of that file's content in that commit, in the same order, with nothing missing, repeated or altered; only carriage returns at the end of a line and a missing final newline are not represented. Files reported as binary and files reported as deleted carry no lines.",
     ["histories", "inputs"],
     "every git history (linear, branched, merged, renamed, binary and text transitions, mode changes, many hunks, very long lines) and every file content",
     "The tests replay about 25 fixed small repositories; line content is reconstructed by patching an in-memory copy of the parent version, so any rarely taken hunk shape, rename, merge or transition can corrupt every later version of a file.",
     [APPLY, MERGE, PARSE, PARSER, PROC],
     [("hunk application", APPLY + " Apply"), ("merge views", MERGE + " ApplyMerge"), ("patch parser", PARSE), ("log parser", PARSER)],
     ["process.Result.Files[path].Lines"], [STORE])

prop("C02", "Line attribution follows the diff on commits with at most one parent",
     "On a commit with no or one parent, each line of a reported text file that git's diff against the parent's version of the file shows as added is attributed to that commit, and every other line keeps the attribution it had in the parent. The parent's version is the same path, or the path git's rename detection names as the source, and lines of a file that was not changed keep their attribution through any number of commits. Where the parent's version is binary, lines are attributed as git blame attributes them.",
     ["histories", "inputs"],
     "every history of single-parent commits and every edit, rename, mode change, delete and re-creation in it",
     "Attribution is carried incrementally through the whole history, so an error in one commit shows up many commits later; tests have at most a handful of commits each and one or two hunks.",
     [APPLY, PROC, PARSE, R + "gitblame2/gitblame.go"],
     [("incremental blame", APPLY + " Apply"), ("carry over of unchanged files", PROC + " processRegularCommit"), ("git blame fallback", PROC + " slowGitBlame")],
     ["process.Result.Files[path].Lines[i].Commit"], [STORE])

prop("C03", "Line attribution in merge commits follows the parents in order",
     "When a merge commit's version of a text file differs from every parent's, each line is attributed as in the first parent (in the commit's parent order) against which git's diff does not show it as added, and to the merge commit itself if there is no such parent. A file whose content at a merge is the same as in some parent keeps the line attribution of a parent with the same content, and later commits build on that. This holds for any number of parents.",
     ["histories", "inputs"],
     "every merge shape (two or more parents, criss-cross, merges of unrelated histories, repeated merges) and every combination of file states in the parents",
     "Tests cover nine two-parent merges; parent order, octopus merges, renames inside merges, merges of merges and files taken from one side are not enumerated.",
     [MERGE, PROC],
     [("candidate views per parent", MERGE + " ApplyMerge"), ("merge parts collected per parent", PROC + " processCommit/processMergeCommit"), ("copy of files identical to a parent", PROC + " processMergeCommit")],
     ["process.Result.Files[path].Lines[i].Commit of merges and of their descendants"], [STORE])

prop("C04", "Every commit reports exactly the files it changed, with the right kind",
     "A commit with at most one parent reports exactly the paths changed against its parent (everything for a root commit): changed or created files under their path, renamed files under the new path only, deleted files as empty, and files git treats as binary as binary, each stamped with that commit unless a binary file was only moved or changed mode. A merge reports files that differ from all of its parents, files absent from the merge but present in some parent (and not renamed there), and files for which a diff against some parent is binary or starts from a binary version; it never reports a file that exists in the merge as deleted, nor a text file that is identical to a parent whose versions in all parents are text. Each path is reported at most once per commit, under its real name whatever characters it contains.",
     ["histories", "inputs"],
     "every combination of add, modify, delete, rename, mode change, type change and binary transition in regular and merge commits, with any legal file name",
     "Existing tests pin individual cases; combinations (type change in a merge, mode change of a binary file, quoted names, rename plus re-creation of the old path) are reached by none of them.",
     [PROC, PARSE, PUTIL],
     [("per-file classification", PROC + " processRegularCommit/processMergeCommit"), ("name parsing", PUTIL + " parseDiffDecl"), ("rename/new/deleted headers", PARSE)],
     ["process.Result.Files keys, IsBinary, emptiness"], [STORE])

prop("C05", "Every commit in scope is delivered exactly once, parents before children",
     "A full run delivers one result for each commit reachable from HEAD, or from any ref when all branches are requested, and no other; a run that starts from a commit delivers the commits reachable from HEAD that are not reachable from the first parent of that commit (or from that commit itself when it is excluded); when all branches are requested such a run also covers the commits reachable from additionally named heads. No commit is delivered twice and none before one of its parents, whatever the commit dates are. Commits without any change, including empty merges, are delivered too.",
     ["histories", "configurations"],
     "every commit graph (several roots, octopus merges, skewed dates, empty commits), every set of refs and both scopes",
     "Tests use short histories with monotone dates; merges are assembled from several consecutive log records, so the last commit, adjacent merges and empty commits are special cases.",
     [PROC, PARSER], [("log traversal order", PROC + " gitLogPatches"), ("merge record grouping", PROC + " processCommit"), ("record splitting", PARSER)],
     ["sequence of process.Result.Commit"])

prop("C06", "Resuming from a checkpoint gives the same results as a full run",
     "If a run finishes at a commit and a later run resumes from it (including or excluding it), then every commit the later run delivers has the same files, lines, attribution and kinds as a full run over the whole history would deliver for it. This also holds for chains of resumed runs over a growing history, with branches that started before the resume point and merge after it, and for resume points that are root commits, merges or commits without files. When the checkpoint no longer holds a parent that is needed (one that was dropped as described in C08), the run returns an error instead, and leaves the checkpoint as it was.",
     ["histories", "inputs"],
     "every split point of every history, any number of successive resumes, all file kinds surviving the checkpoint round trip",
     "One test resumes once in the middle of a tiny linear repository; nothing checks that what is written to the checkpoint is sufficient for arbitrary continuations.",
     [RD, WR, PROC, REPO], [("checkpoint write", WR), ("checkpoint read", RD), ("range selection", PROC + " gitLogPatches")],
     ["process.Result of resumed runs", "checkpoint directory"], [STORE])

prop("C07", "A crash or write failure never leaves a checkpoint that is silently wrong",
     "Whatever the moment at which a run is killed or a file operation of its checkpoint write fails, a later run that resumes from the checkpoint directory either reports an error or works from a complete checkpoint: the previous one or the new one, never a mixture or a truncated one. A following complete run in the same directory succeeds and leaves a valid new checkpoint, regardless of leftovers.",
     ["crash_points", "fault_sequences"],
     "every file-system operation of the checkpoint write as crash point or failure point, with and without an earlier checkpoint",
     "No test interrupts a run or makes a file operation fail.",
     [WR, MSGP, RD], [("write to temporary directory, then replace", WR + " Write"), ("temporary file per part", MSGP + " Finish"), ("version file written last", WR + " writeFileAtomic")],
     ["checkpoint directory after the crash", "results of the next run"],
     [("checkpoint directory", "old/new/tmp parts on disk", WR)], None)

prop("C08", "Long histories: nothing still needed is dropped and memory stays bounded",
     "In a run over a history of any length the analysis of a commit never misses the data of one of its parents, because data of a commit is dropped only after all of its children in scope have been analysed and a further 1000 commits have become droppable. After a full run the checkpoint holds every commit that still lacks an analysed child in scope and the 1000 most recently finished ones, and no other commits.",
     ["histories"],
     "histories of more than 1000 commits, with branches open across any number of commits, merges of old branches and many branch heads",
     "No test has more than a few dozen commits, so the dropping code never runs in the test suite.",
     [REPO, PROC, GRAPH], [("unload queue", REPO + " Unloader.Unload"), ("children counting", PROC + " trimGraphAfterCommitProcessed")],
     ["results over long histories", "commits present in the checkpoint"], [STORE, ("unload queue", "commits whose children are all done, oldest dropped first", REPO)])

prop("C09", "Strict resume refuses a checkpoint that does not match",
     "Unless relaxed resume is requested, a run that starts from a commit and has commits to deliver returns an error, and delivers no results, when there is no checkpoint or when the checkpoint was not finished exactly at that commit; with relaxed resume any complete checkpoint that contains the needed parents is accepted. A run that ends with such an error, or that has nothing to process, leaves the stored checkpoint unchanged, and every successful run that delivers commits records the last delivered commit as the resume point.",
     ["histories", "configurations"],
     "every pair of (stored checkpoint, requested start commit, strictness, inclusive or exclusive start), and every sequence of runs sharing a checkpoint directory",
     "Two tests exercise one mismatch each; the sequence of runs and the effect of failing runs on the stored checkpoint are not covered.",
     [RD, PROC, WR], [("version check", RD + " Read"), ("checkpoint initialisation", PROC + " initCheckpoints"), ("skip write when empty", PROC + " Run")],
     ["error of the run", "delivered results", "checkpoint version"], [("checkpoint version", "commit at which the checkpoint was finished", RD)])

prop("C10", "A branch lists exactly the commits made on it, without repeats",
     "For a branch or pull request whose head is not reachable from the default branch, the listed commits are exactly those reachable from its head and not from the default branch; for one that is reachable they are those that the default branch reaches only through that head. The default branch lists all commits reachable from it. Each list has no repeats, ends with the head, and every other commit in it is directly followed in history by (is a parent of) some commit that comes later in the list.",
     ["histories"],
     "every commit graph and every choice of default head and branch head, including unrelated histories, repeated and criss-cross merges, several roots and heads that are old commits of default",
     "The tests fix about 30 graphs by hand; membership is computed by several interacting graph walks whose errors need particular shapes.",
     [B2 + "branch_commits.go", B2 + "process.go", GRAPH], [("graph walk", B2 + "branch_commits.go branchCommits"), ("default list", B2 + "process.go getAllCommits")],
     ["branches2.Branch.Commits"])

prop("C11", "Branch relations to default are computed correctly from the graph",
     "A branch is reported as merged exactly when its head is reachable from the default branch, and its merge commit is then a child of its head that is reachable from the default branch (none if the head is the default head). The branch points are the commits of the default line (for a merged branch: what the default branch reaches without passing through the branch head) that are parents of listed commits, leaving out any that has another of them among its ancestors; the ahead count is the number of listed commits; the behind count of an unmerged branch is the number of commits reachable from default and not from the branch, or zero when the branch is merged or shares no history with default. The first commit is a listed commit none of whose parents is listed.",
     ["histories"],
     "every commit graph, including default merged into the branch several times, branch merged several times, criss-cross merges and unrelated histories",
     "Hand-written graphs only; counts are wrong only on graphs where shared history is reachable in more than one way.",
     [B2 + "branch_commits.go", B2 + "behind_branch.go", B2 + "merge_commit.go", B2 + "process.go"],
     [("branch points", B2 + "branch_commits.go dedupLinearFromHead"), ("behind count", B2 + "behind_branch.go"), ("merge commit", B2 + "merge_commit.go")],
     ["branches2.Branch fields"])

prop("C12", "Branch listing is complete, exact and independent of scheduling",
     "Listing branches delivers one record for the default branch (when asked for), one for each other branch of the requested kind (local, or those of the origin remote), and one for each distinct requested pull-request commit that exists in the analysed graph, with their real names and heads; requested commits that do not exist are skipped. The set of records does not depend on the number of workers or on scheduling, the call returns after delivering all of them, and the output is closed exactly once. Only pull-request records are delivered when only those are asked for.",
     ["schedules", "configurations", "histories"],
     "every worker count and interleaving, every set of branch, tag and remote names, every list of pull-request commits (duplicates, unknown, equal to branch heads)",
     "Tests use two or three branches and default concurrency; lost or repeated work items and names that are ambiguous for git are not covered.",
     [B2 + "process.go", B2 + "name_hash.go", R + "branchmeta/branchmeta.go", R + "branchmeta/default.go", R + "branches.go"],
     [("worker pool", B2 + "process.go Run"), ("ref listing", R + "branchmeta/branchmeta.go Get"), ("default branch", R + "branchmeta/default.go")],
     ["records delivered by branches2.Process.Run and ripsrc.Branches"])

prop("C13", "Branch identifiers are stable and depend only on name and branch point",
     "The identifier of a branch is the hexadecimal SHA-256 of its name followed by its first branch point in sorted order (just the name for the default branch and for branches without a branch point), so it stays the same in every run and while commits are added to the branch or to default, and differs for a branch of the same name started elsewhere. Pull-request records have no identifier.",
     ["histories", "schedules"],
     "every history of pushes, merges, deletions and re-creations of branches, and repeated listings of the same repository",
     "Tests compare identifiers of single listings only; stability across a growing history is a property of sequences.",
     [B2 + "process.go", B2 + "branch_commits.go"], [("identifier", B2 + "process.go branchID"), ("sorted branch points", B2 + "branch_commits.go dedupLinearFromHead")],
     ["branches2.Branch.BranchID over successive listings"])

prop("C14", "Commit metadata is reported faithfully for every commit in scope",
     "For every commit in scope there is exactly one metadata record with its hash, parents in order, author and committer names and emails, author date with zone, subject and a consecutive position number. For a commit with at most one parent its file list has exactly the changed paths with git's status (a rename counts as removal of the old and addition of the new path, both marked with the two paths), added and deleted line counts and binary flag for regular files (the old path of a renamed symbolic link or submodule does not have to be listed); for a merge it has the paths that differ from the first parent, with those counts. Values are preserved whatever characters or lengths they have.",
     ["histories", "inputs"],
     "every commit graph, every author, committer, date, subject and file name git can store",
     "Tests check plain ASCII values of normal length on three small repositories.",
     [META], [("log format and parser", META + " parser.parse"), ("numstat names", META + " getFilename")],
     ["commitmeta.Commit"])

prop("C15", "Code records join blame and metadata without loss or mix-up",
     "The code output contains, in commit order, exactly one record for each file that both the history analysis and the metadata list for a commit: with that file's name, the commit's metadata, the file's status and, unless it is removed or skipped, one entry per line with the hash, author name, author email and author date of the commit the line is attributed to, and the content's size in bytes (each line counted with one newline). Removed files are marked as removed and have no lines. Each line carries the code, comment or blank flag that the line counter gives for that very line, the line totals agree with these flags, the complexity is the one the line counter finds, and the per-commit and the flat output deliver the same records.",
     ["histories", "inputs"],
     "every history and mix of file states; full and resumed runs",
     "e2e tests compare a few records of six repositories.",
     [CODE, INFO], [("join", INFO + " codeInfoFiles"), ("line metadata", INFO + " codeInfoFile"), ("flattening", CODE + " Code")],
     ["ripsrc.BlameResult", "ripsrc.CommitCode"])

prop("C16", "Files are skipped for exactly the documented reasons, in the fixed order",
     "A file that is not removed is skipped exactly when, checked in this order, its content is larger than 1,000,000 bytes, it is a detected license file, its path is a configuration file, a dot file, on the exclusion list, or vendored (but not under a leading src/ directory), it has more than 40,000 lines, it has a line longer than 1,096 bytes, or its language is unknown; the recorded reason is the first that applies and a skipped file has no line entries. A license file names a license that matches its text best. A file not skipped has the language detected for its path and content and its lines, and is marked as generated, still with lines but no language, exactly when a comment line in it carries a generated-code marker. The decision depends only on the file's path and content, not on what was analysed before.",
     ["inputs", "histories"],
     "every combination of the conditions around their limits and every order in which files are analysed",
     "Unit tests cover some exclusion patterns and single conditions, not their order, limits and independence of earlier files.",
     [FI, INFO, R + "fileinfo/gitignore.go"], [("decision order", FI + " GetInfo"), ("path decision cache", FI + " checkFilePath"), ("generated marker", INFO + " ProcessLine")],
     ["fileinfo.Process.GetInfo", "ripsrc.BlameResult.Skipped/Language"])

prop("C17", "Streaming calls deliver everything, close their output once and return",
     "Every streaming call delivers all of its results to a consumer that keeps reading, however slowly, closes the output channel exactly once after the last result and only then returns; it never blocks forever. This also holds when the call ends with an error, a failure of git included: the error is returned, the output is closed, and the results delivered before it are a prefix of the full sequence. A commit's file stream is closed before the next commit is delivered. A later call on the same object is not affected by a failed one. The variant of a call that returns a slice or a map, where there is one, returns exactly what the streaming one delivers.",
     ["schedules", "fault_sequences", "configurations"],
     "every interleaving of producer stages and consumer, consumers with any buffering, success and error endings (no commits, missing checkpoint, mismatching checkpoint, git failing after any part of its output)",
     "Tests always use one consumer that reads immediately and almost only successful runs.",
     [CODE, R + "branches.go", PROC, META, B2 + "process.go", PARSER], [("stage goroutines and done channels", CODE + " CodeByCommit/Code"), ("drain on error", PROC + " Run"), ("close on return", META + " Run")],
     ["channel operations seen by the consumer", "return of the call"])

prop("C18", "Content that looks like git output cannot corrupt the analysis",
     "File contents, file names, commit messages and author names that resemble the text of git logs and patches (commit headers, diff and hunk headers, file headers, no-newline markers, rename lines, binary notices, metadata markers, blank or whitespace-only lines, very long lines) are treated as plain data. Results for such a repository obey all rules for content, attribution, file sets and metadata, and the run does not fail.",
     ["inputs"],
     "every content, name and message git can store, in any position of an edit",
     "Two parser tests have such content; positions (start, context, removed, added lines, end without newline) and combinations are not covered.",
     [PARSER, PARSE, PUTIL, META, R + "gitblame2/parse_output.go"], [("log record states", PARSER), ("patch states", PARSE), ("metadata states", META), ("blame output parser", R + "gitblame2/parse_output.go")],
     ["results on repositories with hostile content"])

prop("C19", "Results do not depend on the user's git configuration",
     "The results of history analysis, metadata and branch listing for a repository are the same whatever display, diff, log and attributes settings the user's global git configuration contains (prefixes, colors, context size, rename and copy detection, decoration, signatures, root commits, merge format, quoting, algorithm, submodule format, attributes file), and whatever environment variables that influence the format of git's output are set (diff options, external diff, pager, locale, time zone). No such setting makes a run fail.",
     ["configurations"],
     "every assignment of the settings and environment variables that influence git log, git blame and ref listing output",
     "Tests run with the configuration of the developer's machine; the only such test is skipped.",
     [PROC, META, R + "gitexec", GRAPH], [("explicit settings on the command line", R + "gitexec/stable.go"), ("empty attributes file", PROC + " gitLogPatches")],
     ["results under different global configurations"])

prop("C20", "The commit graph is complete and its two directions agree",
     "The commit graph contains exactly the commits reachable from HEAD (from all refs when all branches are requested) with their parents in commit order, its child lists are exactly the inverse of the parent lists in sorted order with each edge once, and every commit has a child list even if empty. A graph built from a given parent map satisfies the same relation.",
     ["histories"],
     "every commit graph and ref set",
     "One test with three commits.",
     [GRAPH, R + "parentsgraph/parentsp/parser.go"], [("inverse", GRAPH + " childrenFromParents"), ("log parser", R + "parentsgraph/parentsp/parser.go")],
     ["parentsgraph.Graph.Parents/Children"])

prop("C21", "The command line finds the right repositories and reports failure",
     "Given a directory, the tool processes that directory if it is a repository with a working copy (it contains a .git directory), and otherwise the bare repository it is (a directory named with a .git suffix that has an objects directory) and the repositories directly inside it, each once, skipping empty repositories (HEAD names no commit) with a notice. It exits with status zero exactly when at least one repository was found and all found repositories were processed or skipped as empty; a failure in one repository does not prevent the others from being processed. When it cannot be determined what a directory is, the exit status is not zero either.",
     ["configurations", "fault_sequences"],
     "every directory layout of depth two with working copies, bare, empty and broken repositories, plain files and directories",
     "No test covers discovery or exit status.",
     [R + "pkg/gitrepos/gitrepos.go", R + "cmd/cmdcode/cmd.go", R + "cmd/cmdbranches/cmd.go", R + "cmd/cmdutils/errors.go", R + "cmd/cmdutils/repo_run.go"],
     [("discovery", R + "pkg/gitrepos/gitrepos.go IterDir"), ("error collection", R + "cmd/cmdcode/cmd.go runOnDirs"), ("exit status", R + "cmd/cmdutils/errors.go")],
     ["processed directories and exit status of the command"])

prop("C22", "Runs are repeatable and do not modify the analysed repository",
     "Analysing the same repository again, in the same or in a new process, with or without a precomputed commit graph and with any degree of parallelism, gives the same results in the same commit order, and results already delivered are never changed afterwards by the analysis of later commits. A run changes nothing in the analysed repository (refs, objects, index, configuration, working files) except its own cache directory.",
     ["schedules", "histories", "configurations"],
     "every history, repeated runs, held results, supplied or own commit graph",
     "Tests run each repository once and compare results only after the run; aliasing between versions and dependence on map order need repeated runs and retained results.",
     [PROC, MERGE, APPLY], [("copy on write of merged lines", MERGE), ("shared line objects", APPLY)],
     ["results compared across runs", "snapshot of the repository before and after"], [STORE])

prop("C23", "The command line prints exactly what the analysis delivers",
     "For every repository the code command prints, in the order of the analysis, one line for each commit with its full hash and author date, followed by one line for each code record of that commit which names the repository, the abbreviated commit and the file and shows the record's language, license, numbers of lines, code, comment and blank lines, complexity, skip reason, status and author; then the number of these lines. A given start commit has the meaning it has for the analysis. The branches command prints one line for each branch of origin and the default branch with its name, number of commits, first commit and first listed commit. The last line has the number of repositories and of all file lines. Nothing is printed twice, left out, or printed under another repository or commit.",
     ["histories", "configurations", "schedules"],
     "every history, start commit, directory of repositories, and timing of printing relative to the analysis",
     "No test runs the commands.",
     [R + "cmd/cmdcode/cmd.go", R + "cmd/cmdbranches/cmd.go", R + "cmd/cmdutils/repo_run.go", "cmd/root.go"],
     [("printing", R + "cmd/cmdcode/cmd.go runOnRepo"), ("branch lines", R + "cmd/cmdbranches/cmd.go runOnRepo"), ("flags", "cmd/root.go")],
     ["standard output and exit status of the commands code and branches"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in out:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(out), "properties")
