From b96326228baec47724a966fb3b56095b9ee12369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 01/31] fix: use full ref names when listing branches

git shortens ambiguous names: origin/HEAD becomes origin (panic for any clone
when listing origin branches) and a branch with the same name as a tag becomes
heads/name. Branch names containing @@@ were cut as well.
---
 ripsrc/branchmeta/branchmeta.go | 9 ++++-----
 ripsrc/branchmeta/default.go    | 4 ++--
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/ripsrc/branchmeta/branchmeta.go b/ripsrc/branchmeta/branchmeta.go
index a1bcdb0..569be9e 100644
--- a/ripsrc/branchmeta/branchmeta.go
+++ b/ripsrc/branchmeta/branchmeta.go
@@ -35,7 +35,7 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 	args := []string{
 		"for-each-ref",
 		"--format",
-		"%(objectname)@@@%(refname:short)@@@%(committerdate)",
+		"%(objectname)@@@%(committerdate)@@@%(refname:lstrip=2)",
 	}
 	if opts.UseOrigin {
 		args = append(args, "refs/remotes/origin")
@@ -64,8 +64,8 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 		}
 		b := BranchWithCommitTime{}
 		b.Commit = parts[0]
-		b.Name = parts[1]
-		date, err := gittime.Parse(parts[2])
+		b.Name = parts[2]
+		date, err := gittime.Parse(parts[1])
 		if err != nil {
 			panic("invalid date format")
 		}
@@ -95,14 +95,13 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 func getDefaultBranch(opts Opts) (string, error) {
 	args := []string{
 		"symbolic-ref",
-		"--short",
 		"HEAD",
 	}
 	data, err := execCommand("git", opts.RepoDir, args)
 	if err != nil {
 		return "", err
 	}
-	res := strings.TrimSpace(string(data))
+	res := strings.TrimPrefix(strings.TrimSpace(string(data)), "refs/heads/")
 	if len(res) == 0 {
 		return "", errors.New("could not get the default branch name")
 	}
diff --git a/ripsrc/branchmeta/default.go b/ripsrc/branchmeta/default.go
index 72a7e31..568c2e4 100644
--- a/ripsrc/branchmeta/default.go
+++ b/ripsrc/branchmeta/default.go
@@ -27,7 +27,7 @@ func GetDefault(ctx context.Context, repoDir string) (res Branch, _ error) {
 }
 
 func headBranch(ctx context.Context, gitCommand string, repoDir string) (string, error) {
-	data, err := execCommand(gitCommand, repoDir, []string{"rev-parse", "--abbrev-ref", "HEAD"})
+	data, err := execCommand(gitCommand, repoDir, []string{"rev-parse", "--symbolic-full-name", "HEAD"})
 	if err != nil {
 		return "", err
 	}
@@ -35,7 +35,7 @@ func headBranch(ctx context.Context, gitCommand string, repoDir string) (string,
 	if res == "HEAD" {
 		return "", errors.New("cound not retrieve the name of the default branch")
 	}
-	return res, nil
+	return strings.TrimPrefix(res, "refs/heads/"), nil
 }
 
 func headCommit(ctx context.Context, gitCommand string, repoDir string) (string, error) {
-- 
2.43.0


From a0db349a79f9b0eac560282c82f15fa9f891b703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 02/31] fix: FirstCommit is a commit without parents on the
 branch

When a branch contains merges, Commits[0] could be a commit that has its
parent on the same branch, and for the default branch with more than one root
all roots were returned joined with newlines.
---
 ripsrc/branches2/process.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/ripsrc/branches2/process.go b/ripsrc/branches2/process.go
index 3897fcf..7d66858 100644
--- a/ripsrc/branches2/process.go
+++ b/ripsrc/branches2/process.go
@@ -107,7 +107,12 @@ func (s *Process) getFirstCommit() (string, error) {
 	if err != nil {
 		return "", err
 	}
-	return strings.TrimSpace(string(buf)), nil
+	// history may have more than one root, the oldest is the last one
+	roots := strings.Fields(string(buf))
+	if len(roots) == 0 {
+		return "", nil
+	}
+	return roots[len(roots)-1], nil
 }
 
 func (s *Process) Run(ctx context.Context, res chan Branch) error {
@@ -259,11 +264,26 @@ func (s *Process) processBranch(ctx context.Context, nameAndHash nameAndHash, re
 		}
 	}
 	res.AheadDefaultCount = len(res.Commits)
-	res.FirstCommit = res.Commits[0]
+	res.FirstCommit = firstCommit(gr, res.Commits)
 	resChan <- res
 	return nil
 }
 
+// firstCommit returns the first of the commits that does not follow any other commit from the list.
+func firstCommit(gr *parentsgraph.Graph, commits []string) string {
+	set := toSet(commits)
+EACHCOMMIT:
+	for _, c := range commits {
+		for _, p := range gr.Parents[c] {
+			if set[p] {
+				continue EACHCOMMIT
+			}
+		}
+		return c
+	}
+	return ""
+}
+
 func branchID(name string, branchedFrom []string) string {
 	parts := []string{name}
 	if len(branchedFrom) > 0 {
-- 
2.43.0


From 4a8e46aa617090b806d2374473057a7888272aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 03/31] fix: do not count commits already in the branch as
 behind

Stopping at the first commit shared with default missed older shared commits
which are also reachable from default in another way, for example when default
branch contains merges.
---
 ripsrc/branches2/behind_branch.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ripsrc/branches2/behind_branch.go b/ripsrc/branches2/behind_branch.go
index ed49bde..466796d 100644
--- a/ripsrc/branches2/behind_branch.go
+++ b/ripsrc/branches2/behind_branch.go
@@ -2,7 +2,7 @@ package branches2
 
 import "github.com/pinpt/ripsrc/ripsrc/parentsgraph"
 
-func reachableFromBranchStopOnDefault(gr *parentsgraph.Graph, reachableFromDefault reachableFromHead, branchHead string) map[string]bool {
+func reachableFromBranch(gr *parentsgraph.Graph, branchHead string) map[string]bool {
 	res := map[string]bool{}
 	done := map[string]bool{}
 	var rec func(string)
@@ -12,9 +12,6 @@ func reachableFromBranchStopOnDefault(gr *parentsgraph.Graph, reachableFromDefau
 		}
 		done[hash] = true
 		res[hash] = true
-		if reachableFromDefault[hash] {
-			return
-		}
 		for _, p := range gr.Parents[hash] {
 			rec(p)
 		}
@@ -29,7 +26,7 @@ func behindBranch(
 	branchHead string,
 	defaultHead string) (res int) {
 
-	rfb := reachableFromBranchStopOnDefault(gr, reachableFromDefault, branchHead)
+	rfb := reachableFromBranch(gr, branchHead)
 
 	done := map[string]bool{}
 	var rec func(string)
-- 
2.43.0


From 8b5deb5448b36525029ce5011eb027e5dc983f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 04/31] fix: allow starting from the root commit

commit^..HEAD is not a valid range for a commit without parents, git log failed
and the whole process panicked.
---
 ripsrc/commitmeta/commitmeta.go    |  6 ++----
 ripsrc/gitexec/gitexec.go          | 12 ++++++++++++
 ripsrc/history3/process/process.go |  6 ++----
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index fe7e689..a85572d 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -199,13 +199,11 @@ func (s *Processor) gitLog() (io.ReadCloser, error) {
 				args = append(args, c)
 			}
 		}
-		pf := ""
 		if s.opts.CommitFromMakeNonIncl {
-			pf = "..HEAD"
+			args = append(args, s.opts.CommitFromIncl+"..HEAD")
 		} else {
-			pf = "^..HEAD"
+			args = append(args, gitexec.RangeFromIncl(context.Background(), s.gitCommand, s.repoDir, s.opts.CommitFromIncl))
 		}
-		args = append(args, s.opts.CommitFromIncl+pf)
 	} else {
 		if s.opts.AllBranches {
 			args = append(args, "--all")
diff --git a/ripsrc/gitexec/gitexec.go b/ripsrc/gitexec/gitexec.go
index fe2d809..f984231 100644
--- a/ripsrc/gitexec/gitexec.go
+++ b/ripsrc/gitexec/gitexec.go
@@ -122,6 +122,18 @@ func headCommit(ctx context.Context, gitCommand string, repoDir string) string {
 	return res
 }
 
+// RangeFromIncl returns git revision range which starts with the passed commit (including the commit itself) and ends with HEAD.
+func RangeFromIncl(ctx context.Context, gitCommand string, repoDir string, commit string) string {
+	c := exec.CommandContext(ctx, gitCommand, "rev-list", "--parents", "-n", "1", commit, "--")
+	c.Dir = repoDir
+	out, err := c.Output()
+	if err == nil && len(strings.Fields(string(out))) == 1 {
+		// root commit, there is no parent that could be excluded using ^
+		return "HEAD"
+	}
+	return commit + "^..HEAD"
+}
+
 func ExecPiped(ctx context.Context, gitCommand string, repoDir string, args []string) (io.ReadCloser, error) {
 	r, wr := io.Pipe()
 	go func() {
diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index ebdc1be..520d0c2 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -822,13 +822,11 @@ func (s *Process) gitLogPatches() (io.ReadCloser, error) {
 				args = append(args, c)
 			}
 		}
-		pf := ""
 		if s.opts.CommitFromMakeNonIncl {
-			pf = "..HEAD"
+			args = append(args, s.opts.CommitFromIncl+"..HEAD")
 		} else {
-			pf = "^..HEAD"
+			args = append(args, gitexec.RangeFromIncl(context.Background(), s.gitCommand, s.opts.RepoDir, s.opts.CommitFromIncl))
 		}
-		args = append(args, s.opts.CommitFromIncl+pf)
 	} else {
 		if s.opts.AllBranches {
 			args = append(args, "--all")
-- 
2.43.0


From da347345f0715b27417e875aeeebbce5fa431c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 05/31] fix: keep commits without files in checkpoint

Resuming from a commit which parent does not have any files failed with commit
not found.
---
 ripsrc/history3/process/repo/reader.go | 10 +++++++---
 ripsrc/history3/process/repo/writer.go |  5 +++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/ripsrc/history3/process/repo/reader.go b/ripsrc/history3/process/repo/reader.go
index 82b2f96..52b2e91 100644
--- a/ripsrc/history3/process/repo/reader.go
+++ b/ripsrc/history3/process/repo/reader.go
@@ -143,13 +143,17 @@ func (s *CheckpointReader) Read(dir string, expectedCommit string) (Repo, error)
 				}
 				return nil, err
 			}
+			if _, ok := repo[obj.Commit]; !ok {
+				repo[obj.Commit] = map[string]*incblame.Blame{}
+			}
+			if obj.BlamePointer == 0 {
+				// commit without files
+				continue
+			}
 			bl, ok := blames[obj.BlamePointer]
 			if !ok {
 				panic("blame")
 			}
-			if _, ok := repo[obj.Commit]; !ok {
-				repo[obj.Commit] = map[string]*incblame.Blame{}
-			}
 			repo[obj.Commit][obj.Path] = bl
 			i++
 		}
diff --git a/ripsrc/history3/process/repo/writer.go b/ripsrc/history3/process/repo/writer.go
index 61657be..887b830 100644
--- a/ripsrc/history3/process/repo/writer.go
+++ b/ripsrc/history3/process/repo/writer.go
@@ -84,6 +84,11 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 
 	for ch, commit := range repo {
 
+		if len(commit) == 0 {
+			// commit without files, 0 is not a valid blame pointer
+			writeRepoRow(ch, "", 0)
+		}
+
 		for fp, file := range commit {
 			if blp, ok := blamePointers[file]; ok {
 				writeRepoRow(ch, fp, blp)
-- 
2.43.0


From d0ebf8dbc114c0cf95f8e072cb486d2aaa5e12ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 06/31] fix: report real paths for files with quoted names

git quotes and escapes paths with non-ascii and special characters. The escaped
form was used as the name: content was dropped in code results, git blame for
such file and renames of it failed. Also keep leading spaces in names and do not
treat => in a name of not renamed file as rename.
---
 ripsrc/commitmeta/commitmeta.go         | 20 ++++++++------
 ripsrc/gitexec/unquote.go               | 16 +++++++++++
 ripsrc/history3/incblame/parse.go       |  6 +++--
 ripsrc/history3/incblame/parse_utils.go | 35 +++++++++++++++++++++++++
 4 files changed, 67 insertions(+), 10 deletions(-)
 create mode 100644 ripsrc/gitexec/unquote.go

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index a85572d..97f5677 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -281,8 +281,9 @@ func getFilename(fn string) (string, string, bool) {
 	// straight rename without parts
 	s := strings.Split(fn, " => ")
 	if len(s) > 1 {
-		return s[1], s[0], true
+		return gitexec.UnquotePath(s[1]), gitexec.UnquotePath(s[0]), true
 	}
+	fn = gitexec.UnquotePath(fn)
 	return fn, fn, false
 }
 
@@ -419,7 +420,7 @@ func (p *parser) parse(line string) (bool, error) {
 				action := tok2[0]
 				paths := tok2[1:]
 				if len(action) == 1 {
-					fn := string(bytes.TrimLeft(paths[0], " "))
+					fn := gitexec.UnquotePath(string(paths[0]))
 					cf := &CommitFile{
 						Filename: fn,
 						Status:   toCommitStatus(action),
@@ -428,8 +429,8 @@ func (p *parser) parse(line string) (bool, error) {
 					p.filejobs <- cf
 				} else if bytes.HasPrefix(action, removePrefix) {
 					// rename
-					fromFn := string(bytes.TrimLeft(paths[0], " "))
-					toFn := string(bytes.TrimLeft(paths[1], " "))
+					fromFn := gitexec.UnquotePath(string(paths[0]))
+					toFn := gitexec.UnquotePath(string(paths[1]))
 					// panic("renaming [" + fromFn + "] => [" + toFn + "]")
 					p.commit.Files[fromFn] = &CommitFile{
 						Status:      GitFileCommitStatusRemoved,
@@ -449,8 +450,8 @@ func (p *parser) parse(line string) (bool, error) {
 					p.filejobs <- cf
 				} else if bytes.HasPrefix(action, copyPrefix) {
 					// copy a file into a new file ... it's basically a new file
-					fromFn := string(bytes.TrimLeft(paths[0], " "))
-					toFn := string(bytes.TrimLeft(paths[1], " "))
+					fromFn := gitexec.UnquotePath(string(paths[0]))
+					toFn := gitexec.UnquotePath(string(paths[1]))
 					cf := &CommitFile{
 						Status:     GitFileCommitStatusAdded,
 						Filename:   toFn,
@@ -460,7 +461,7 @@ func (p *parser) parse(line string) (bool, error) {
 					p.commit.Files[toFn] = cf
 					p.filejobs <- cf
 				} else {
-					fn := string(bytes.TrimLeft(paths[0], " "))
+					fn := gitexec.UnquotePath(string(paths[0]))
 					cf := &CommitFile{
 						Status:   toCommitStatus(action),
 						Filename: fn,
@@ -477,7 +478,10 @@ func (p *parser) parse(line string) (bool, error) {
 			// handle the file stats output
 			if len(tok) == 3 {
 				tok := regSplit(string(buf), tabSplitter)
-				fn, _, _ := getFilename(tok[2])
+				fn := gitexec.UnquotePath(tok[2])
+				if p.commit.Files[fn] == nil {
+					fn, _, _ = getFilename(tok[2])
+				}
 				file := p.commit.Files[fn]
 				// fmt.Println("num stats", fn, "=>", oldfn, "renamed", renamed, "is nil?", file == nil)
 				if file == nil {
diff --git a/ripsrc/gitexec/unquote.go b/ripsrc/gitexec/unquote.go
new file mode 100644
index 0000000..d46ca36
--- /dev/null
+++ b/ripsrc/gitexec/unquote.go
@@ -0,0 +1,16 @@
+package gitexec
+
+import "strconv"
+
+// UnquotePath returns the real path for a path from git output.
+// Git puts paths with special or non-ascii characters in double quotes and escapes them the same way as C strings.
+func UnquotePath(path string) string {
+	if len(path) < 2 || path[0] != '"' {
+		return path
+	}
+	res, err := strconv.Unquote(path)
+	if err != nil {
+		return path
+	}
+	return res
+}
diff --git a/ripsrc/history3/incblame/parse.go b/ripsrc/history3/incblame/parse.go
index 08b95ff..4e99c2f 100644
--- a/ripsrc/history3/incblame/parse.go
+++ b/ripsrc/history3/incblame/parse.go
@@ -4,6 +4,8 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+
+	"github.com/pinpt/ripsrc/ripsrc/gitexec"
 )
 
 // Diff is change made to one file.
@@ -122,11 +124,11 @@ func (p *parser) Parse() (res Diff) {
 	}
 
 	if p.preMeta[metaRenameFrom] != "" {
-		p.diff.PathPrev = p.preMeta[metaRenameFrom]
+		p.diff.PathPrev = gitexec.UnquotePath(p.preMeta[metaRenameFrom])
 		if p.preMeta[metaRenameTo] == "" {
 			panic("has rename from, but not rename to")
 		}
-		p.diff.Path = p.preMeta[metaRenameTo]
+		p.diff.Path = gitexec.UnquotePath(p.preMeta[metaRenameTo])
 	}
 
 	if p.preMeta[metaBinaryFiles] != "" {
diff --git a/ripsrc/history3/incblame/parse_utils.go b/ripsrc/history3/incblame/parse_utils.go
index 465e6da..40877e4 100644
--- a/ripsrc/history3/incblame/parse_utils.go
+++ b/ripsrc/history3/incblame/parse_utils.go
@@ -6,6 +6,8 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+
+	"github.com/pinpt/ripsrc/ripsrc/gitexec"
 )
 
 func startsWith(b []byte, prefix string) bool {
@@ -102,6 +104,14 @@ func parseDiffDecl(diff []byte) (fromPath string, toPath string, _ error) {
 		return "", "", fmt.Errorf("invalid prefix for diff decl %s", diff)
 	}
 	data := diff[len(diffDeclPrefixNormal):]
+	if from, to, ok := splitQuotedNames(data); ok {
+		from = gitexec.UnquotePath(from)
+		to = gitexec.UnquotePath(to)
+		if !strings.HasPrefix(from, "a/") || !strings.HasPrefix(to, "b/") {
+			return "", "", fmt.Errorf("invalid format for diff decl %s, removing prefix", diff)
+		}
+		return from[2:], to[2:], nil
+	}
 	spaceCount := countByte(data, ' ')
 	if spaceCount == 0 {
 		return "", "", fmt.Errorf("invalid format for diff decl, no space sep %s", diff)
@@ -149,6 +159,31 @@ func parseDiffDecl(diff []byte) (fromPath string, toPath string, _ error) {
 	return
 }
 
+// splitQuotedNames splits names from diff declaration when at least one of them is quoted. Quote inside a name is always escaped.
+func splitQuotedNames(data []byte) (from string, to string, ok bool) {
+	s := string(data)
+	if s != "" && s[0] == '"' {
+		for i := 1; i < len(s); i++ {
+			if s[i] == '\\' {
+				i++
+				continue
+			}
+			if s[i] == '"' {
+				if i+2 >= len(s) || s[i+1] != ' ' {
+					return "", "", false
+				}
+				return s[:i+1], s[i+2:], true
+			}
+		}
+		return "", "", false
+	}
+	i := strings.Index(s, " \"")
+	if i <= 0 {
+		return "", "", false
+	}
+	return s[:i], s[i+1:], true
+}
+
 func countByte(data []byte, b byte) (res int) {
 	for _, v := range data {
 		if v == b {
-- 
2.43.0


From 327ada2d5b358b58748f186784df30d626c55ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 07/31] fix: support long lines in commit metadata

Reading stopped without an error at the first line longer than 64KB, for example
in a commit message, and the remaining commits were lost.
---
 ripsrc/commitmeta/commitmeta.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index 97f5677..4daf280 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -132,6 +132,8 @@ func (s *Processor) RunMap() (map[string]Commit, error) {
 	return res, err
 }
 
+const maxLine = 100 * 1000 * 1000
+
 func (s *Processor) Run(res chan Commit) error {
 	defer close(res)
 	r, err := s.gitLog()
@@ -155,6 +157,7 @@ func (s *Processor) Run(res chan Commit) error {
 	parser.filejobs = fjChan
 
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, maxLine)
 	for scanner.Scan() {
 		ok, err := parser.parse(scanner.Text())
 		if err != nil {
@@ -164,6 +167,9 @@ func (s *Processor) Run(res chan Commit) error {
 			break
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return err
+	}
 	if parser.commit != nil && parser.commit.SHA != "" { // because we send when we detect the next commit
 		res <- *parser.commit
 	}
-- 
2.43.0


From 7249d1407be0409130d254e54e147806b959a8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 08/31] fix: keep file as binary after mode change

Changing only the mode of a binary file turned it into a text file with lines
from git blame of the binary content.
---
 ripsrc/history3/process/process.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index 520d0c2..93eeb93 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -440,6 +440,12 @@ func (s *Process) processRegularCommit(commit parser.Commit) (res Result, rerr e
 		if parentBlame == nil {
 			blame = incblame.Apply(incblame.Blame{}, diff, commit.Hash, diff.PathOrPrev())
 		} else {
+			if parentBlame.IsBinary && len(diff.Hunks) == 0 {
+				// only the mode was changed, still the same binary content
+				s.repo[commit.Hash][diff.Path] = parentBlame
+				res.Files[diff.Path] = parentBlame
+				continue
+			}
 			if parentBlame.IsBinary {
 				bl, err := s.slowGitBlame(commit.Hash, diff.Path)
 				if err != nil {
-- 
2.43.0


From 0b663d7fba0389f03a2f1c567ccefe7c0034bece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 09/31] fix: do not report file as deleted in merge when only
 its type changes

Type change is shown as delete and create of the same path, depending on map
iteration order the file was reported as deleted although it exists in merge.
---
 ripsrc/history3/process/process.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index 93eeb93..180c358 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -563,6 +563,10 @@ EACHFILE:
 		if isDelete {
 			// only showing deletes and files changed in merge comparent to at least one parent
 			pathPrev := k[len(deletedPrefix):]
+			if files[pathPrev] {
+				// file type was changed (for example symlink to regular file), which is delete and create of the same path
+				continue
+			}
 			res.Files[pathPrev] = &incblame.Blame{Commit: commitHash}
 			continue
 		}
-- 
2.43.0


From adac37eee37710560bf7007575e331ba7584fcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 10/31] fix: exit with an error code when command fails

---
 ripsrc/cmd/cmdutils/errors.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ripsrc/cmd/cmdutils/errors.go b/ripsrc/cmd/cmdutils/errors.go
index cebec84..03116e4 100644
--- a/ripsrc/cmd/cmdutils/errors.go
+++ b/ripsrc/cmd/cmdutils/errors.go
@@ -9,6 +9,7 @@ import (
 
 func ExitWithErr(err error) {
 	fmt.Fprintln(color.Output, color.RedString("failed with error: %v\n", err.Error()))
+	os.Exit(1)
 }
 
 func ExitWithErrs(errs []error) {
-- 
2.43.0


From 2726621ba9468cfe8651acffbff245161e358916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 11/31] fix: make results independent from git user
 configuration

Settings such as diff.noprefix, diff.context, color.ui, log.decorate or
log.showRoot change the output of git log. Depending on the setting that crashed
the process or silently changed the results. Same intention as the existing
override of core.attributesFile.
---
 ripsrc/commitmeta/commitmeta.go    |  2 ++
 ripsrc/gitblame2/gitblame.go       |  1 +
 ripsrc/gitexec/gitexec.go          |  3 ++-
 ripsrc/gitexec/stable.go           | 33 ++++++++++++++++++++++++++++++
 ripsrc/history3/process/process.go |  2 ++
 ripsrc/parentsgraph/parents.go     |  2 ++
 6 files changed, 42 insertions(+), 1 deletion(-)
 create mode 100644 ripsrc/gitexec/stable.go

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index 4daf280..ea79b90 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -198,6 +198,8 @@ func (s *Processor) gitLog() (io.ReadCloser, error) {
 		"--numstat",
 		"--pretty=format:!SHA: %H%n!Parents: %P%n!Committer: %ce%n!CName: %cn%n!Author: %ae%n!AName: %an%n!Date: %aI%n!Message: %s%n",
 	}
+	args = append(gitexec.StableConfig(), args...)
+	args = append(args, gitexec.StableDiffArgs()...)
 
 	if s.opts.CommitFromIncl != "" {
 		if s.opts.AllBranches {
diff --git a/ripsrc/gitblame2/gitblame.go b/ripsrc/gitblame2/gitblame.go
index 34d8da9..04c2c34 100644
--- a/ripsrc/gitblame2/gitblame.go
+++ b/ripsrc/gitblame2/gitblame.go
@@ -30,6 +30,7 @@ func (r Result) String() string {
 
 func Run(repoDir, commitHash, file string) (res Result, _ error) {
 	args := []string{
+		"-c", "blame.ignoreRevsFile=",
 		"blame",
 		commitHash,
 		"--porcelain",
diff --git a/ripsrc/gitexec/gitexec.go b/ripsrc/gitexec/gitexec.go
index f984231..58add79 100644
--- a/ripsrc/gitexec/gitexec.go
+++ b/ripsrc/gitexec/gitexec.go
@@ -129,7 +129,8 @@ func RangeFromIncl(ctx context.Context, gitCommand string, repoDir string, commi
 	out, err := c.Output()
 	if err == nil && len(strings.Fields(string(out))) == 1 {
 		// root commit, there is no parent that could be excluded using ^
-		return "HEAD"
+		// not just HEAD, which would be ambiguous if there is a file with this name
+		return "HEAD^{commit}"
 	}
 	return commit + "^..HEAD"
 }
diff --git a/ripsrc/gitexec/stable.go b/ripsrc/gitexec/stable.go
new file mode 100644
index 0000000..bb33e85
--- /dev/null
+++ b/ripsrc/gitexec/stable.go
@@ -0,0 +1,33 @@
+package gitexec
+
+// StableConfig are the arguments for git command (before sub-command) which make the output of git log independent from user configuration.
+func StableConfig() []string {
+	return []string{
+		"-c", "core.quotePath=true",
+		"-c", "core.bigFileThreshold=512m",
+		"-c", "diff.context=3",
+		"-c", "diff.interHunkContext=0",
+		"-c", "diff.suppressBlankEmpty=false",
+		"-c", "i18n.logOutputEncoding=UTF-8",
+		"-c", "log.diffMerges=separate",
+		"-c", "log.showRoot=true",
+		"-c", "log.showSignature=false",
+	}
+}
+
+// StableDiffArgs are the arguments for git log, which make the format of diffs independent from user configuration.
+func StableDiffArgs() []string {
+	return []string{
+		"--no-color",
+		"--no-decorate",
+		"--no-ext-diff",
+		"--no-textconv",
+		"--src-prefix=a/",
+		"--dst-prefix=b/",
+		"--find-renames",
+		"--diff-algorithm=default",
+		"--indent-heuristic",
+		"--submodule=short",
+		"--ignore-submodules=none",
+	}
+}
diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index 180c358..d8fc6ba 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -825,6 +825,8 @@ func (s *Process) gitLogPatches() (io.ReadCloser, error) {
 		"--no-abbrev-commit",
 		"--pretty=short",
 	}
+	args = append(gitexec.StableConfig(), args...)
+	args = append(args, gitexec.StableDiffArgs()...)
 
 	if s.opts.CommitFromIncl != "" {
 		if s.opts.AllBranches {
diff --git a/ripsrc/parentsgraph/parents.go b/ripsrc/parentsgraph/parents.go
index 2040872..06ca230 100644
--- a/ripsrc/parentsgraph/parents.go
+++ b/ripsrc/parentsgraph/parents.go
@@ -92,6 +92,8 @@ func (s *Graph) gitLogParents() (io.ReadCloser, error) {
 		"--pretty=format:%H@%P",
 	}
 
+	args = append(gitexec.StableConfig(), args...)
+
 	if s.opts.AllBranches {
 		args = append(args, "--all")
 	}
-- 
2.43.0


From c46023f8aed9de28dfc1b4638ebc1e0855295ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 12/31] fix: return error when checkpoint does not contain
 needed parent

---
 ripsrc/history3/process/process.go | 34 ++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index d8fc6ba..1c9b057 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -195,7 +195,11 @@ func (s *Process) Run(resChan chan Result) error {
 	}
 
 	if len(s.mergeParts) > 0 {
-		s.processGotMergeParts(resChan)
+		err := s.processGotMergeParts(resChan)
+		if err != nil {
+			<-done
+			return err
+		}
 	}
 
 	if i == 0 {
@@ -244,7 +248,10 @@ func (s *Process) processCommit(resChan chan Result, commit parser.Commit) error
 			return nil
 		} else {
 			// finished
-			s.processGotMergeParts(resChan)
+			err := s.processGotMergeParts(resChan)
+			if err != nil {
+				return err
+			}
 			// new commit
 			// continue below
 		}
@@ -266,14 +273,25 @@ func (s *Process) processCommit(resChan chan Result, commit parser.Commit) error
 	return nil
 }
 
-func (s *Process) processGotMergeParts(resChan chan Result) {
+func (s *Process) processGotMergeParts(resChan chan Result) error {
 	res, err := s.processMergeCommit(s.mergePartsCommit, s.mergeParts)
 	if err != nil {
-		panic(err)
+		return err
 	}
 	s.trimGraphAfterCommitProcessed(s.mergePartsCommit)
 	s.mergeParts = nil
 	resChan <- res
+	return nil
+}
+
+// checkParents returns an error if data for one of the parents is not available. Happens when the run was resumed from a checkpoint that does not contain it anymore.
+func (s *Process) checkParents(commit string) error {
+	for _, p := range s.graph.Parents[commit] {
+		if _, ok := s.repo[p]; !ok {
+			return fmt.Errorf("checkpoint does not contain parent commit: %v needed for: %v", p, commit)
+		}
+	}
+	return nil
 }
 
 type Timing struct {
@@ -348,6 +366,10 @@ func (s *Process) processRegularCommit(commit parser.Commit) (res Result, rerr e
 	if len(commit.Parents) > 1 {
 		panic("not a regular commit")
 	}
+	rerr = s.checkParents(commit.Hash)
+	if rerr != nil {
+		return
+	}
 	// note that commit exists (important for empty commits)
 	s.repo.AddCommit(commit.Hash)
 
@@ -498,6 +520,10 @@ func (s *Process) processMergeCommit(commitHash string, parts map[string]parser.
 		s.timing.MergesCount++
 	}()
 
+	rerr = s.checkParents(commitHash)
+	if rerr != nil {
+		return
+	}
 	// note that commit exists (important for empty commits)
 	s.repo.AddCommit(commitHash)
 
-- 
2.43.0


From 067493d8006b4319a8895e5e451a97ead1ada1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 13/31] fix: return error when git command fails

---
 ripsrc/gitblame2/gitblame.go       |  2 +-
 ripsrc/gitexec/gitexec.go          |  9 ++-------
 ripsrc/history3/process/process.go | 20 ++++++++------------
 3 files changed, 11 insertions(+), 20 deletions(-)

diff --git a/ripsrc/gitblame2/gitblame.go b/ripsrc/gitblame2/gitblame.go
index 04c2c34..d680321 100644
--- a/ripsrc/gitblame2/gitblame.go
+++ b/ripsrc/gitblame2/gitblame.go
@@ -42,7 +42,7 @@ func Run(repoDir, commitHash, file string) (res Result, _ error) {
 	cmd.Stderr = os.Stderr
 	b, err := cmd.Output()
 	if err != nil {
-		panic(err)
+		return res, err
 	}
 	res0 := parseOutput(string(b))
 	for _, l0 := range res0 {
diff --git a/ripsrc/gitexec/gitexec.go b/ripsrc/gitexec/gitexec.go
index 58add79..d2d3722 100644
--- a/ripsrc/gitexec/gitexec.go
+++ b/ripsrc/gitexec/gitexec.go
@@ -139,13 +139,8 @@ func ExecPiped(ctx context.Context, gitCommand string, repoDir string, args []st
 	r, wr := io.Pipe()
 	go func() {
 		err := ExecIntoWriter(ctx, wr, gitCommand, repoDir, args)
-		if err != nil {
-			panic(err)
-		}
-		err = wr.Close()
-		if err != nil {
-			panic(err)
-		}
+		// reader gets the error, EOF if there was none
+		wr.CloseWithError(err)
 	}()
 	return r, nil
 }
diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index 1c9b057..b3a757f 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -158,16 +158,10 @@ func (s *Process) Run(resChan chan Result) error {
 	commits := make(chan parser.Commit)
 	p := parser.New(r)
 
-	done := make(chan bool)
+	done := make(chan error)
 
 	go func() {
-		defer func() {
-			done <- true
-		}()
-		err := p.Run(commits)
-		if err != nil {
-			panic(err)
-		}
+		done <- p.Run(commits)
 	}()
 
 	drainAndExit := func() {
@@ -194,10 +188,15 @@ func (s *Process) Run(resChan chan Result) error {
 		}
 	}
 
+	err = <-done
+	if err != nil {
+		// git failed, what we have is not complete
+		return err
+	}
+
 	if len(s.mergeParts) > 0 {
 		err := s.processGotMergeParts(resChan)
 		if err != nil {
-			<-done
 			return err
 		}
 	}
@@ -205,20 +204,17 @@ func (s *Process) Run(resChan chan Result) error {
 	if i == 0 {
 		// there were no items in log, happens when last processed commit was in a branch that is no longer recent and is skipped in incremental
 		// no need to write checkpoints
-		<-done
 		return nil
 	}
 
 	writer := repo.NewCheckpointWriter(s.opts.Logger)
 	err = writer.Write(s.repo, s.checkpointsDir, s.lastProcessedCommitHash)
 	if err != nil {
-		<-done
 		return err
 	}
 
 	//fmt.Println("max len of stored tree", s.maxLenOfStoredTree)
 	//fmt.Println("repo len", len(s.repo))
-	<-done
 	return nil
 }
 
-- 
2.43.0


From 4d6c0074f844c770b336a55d070a414d14684678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 14/31] fix: return error when checkpoint row can not be
 written

---
 ripsrc/history3/process/repo/writer.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/ripsrc/history3/process/repo/writer.go b/ripsrc/history3/process/repo/writer.go
index 887b830..d835b19 100644
--- a/ripsrc/history3/process/repo/writer.go
+++ b/ripsrc/history3/process/repo/writer.go
@@ -71,27 +71,30 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 
 	lineData := map[uint64]bool{}
 
-	writeRepoRow := func(commit string, filePath string, blamePointer uint64) {
+	writeRepoRow := func(commit string, filePath string, blamePointer uint64) error {
 		r := &disk.DataRow{}
 		r.Commit = commit
 		r.Path = filePath
 		r.BlamePointer = blamePointer
-		err := repoWr.Write(r)
-		if err != nil {
-			panic(err)
-		}
+		return repoWr.Write(r)
 	}
 
 	for ch, commit := range repo {
 
 		if len(commit) == 0 {
 			// commit without files, 0 is not a valid blame pointer
-			writeRepoRow(ch, "", 0)
+			err := writeRepoRow(ch, "", 0)
+			if err != nil {
+				return err
+			}
 		}
 
 		for fp, file := range commit {
 			if blp, ok := blamePointers[file]; ok {
-				writeRepoRow(ch, fp, blp)
+				err := writeRepoRow(ch, fp, blp)
+				if err != nil {
+					return err
+				}
 				continue
 			}
 			blamePointerC++
@@ -144,7 +147,10 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 				return err
 			}
 
-			writeRepoRow(ch, fp, blp)
+			err = writeRepoRow(ch, fp, blp)
+			if err != nil {
+				return err
+			}
 		}
 	}
 
-- 
2.43.0


From ce84e629eeb7db6042ce7c1784278ec102e69cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 15/31] fix: do not include commits before the start of the
 range when commit dates are not in order

---
 ripsrc/commitmeta/commitmeta.go    | 27 ++++++++++++++++++++---
 ripsrc/gitexec/gitexec.go          | 35 +++++++++++++++++++++++++-----
 ripsrc/history3/process/process.go | 12 ++++++++++
 3 files changed, 66 insertions(+), 8 deletions(-)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index ea79b90..079366c 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -136,6 +136,16 @@ const maxLine = 100 * 1000 * 1000
 
 func (s *Processor) Run(res chan Commit) error {
 	defer close(res)
+
+	var commitsBefore map[string]bool
+	if s.opts.CommitFromIncl != "" {
+		var err error
+		commitsBefore, err = gitexec.CommitsBeforeRange(context.Background(), s.gitCommand, s.repoDir, s.opts.CommitFromIncl, s.opts.CommitFromMakeNonIncl)
+		if err != nil {
+			return err
+		}
+	}
+
 	r, err := s.gitLog()
 	if err != nil {
 		return err
@@ -146,6 +156,7 @@ func (s *Processor) Run(res chan Commit) error {
 	parser.dir = s.repoDir
 	//parser.limit = limit
 	parser.commits = res
+	parser.skip = commitsBefore
 
 	// we don't need this in new code. TODO: check and remove
 	fjChan := make(chan *CommitFile, 100)
@@ -171,7 +182,7 @@ func (s *Processor) Run(res chan Commit) error {
 		return err
 	}
 	if parser.commit != nil && parser.commit.SHA != "" { // because we send when we detect the next commit
-		res <- *parser.commit
+		parser.send()
 	}
 
 	return nil
@@ -334,6 +345,14 @@ type parser struct {
 	total    int
 	ordinal  int64
 	state    parserState
+	skip     map[string]bool
+}
+
+func (p *parser) send() {
+	if p.skip[p.commit.SHA] {
+		return
+	}
+	p.commits <- *p.commit
 }
 
 func (p *parser) parse(line string) (bool, error) {
@@ -359,14 +378,16 @@ func (p *parser) parse(line string) (bool, error) {
 				// send the old commit and create a new one
 				if p.commit != nil && p.commit.SHA != "" { // because we send when we detect the next commit
 					//parentCommit = p.commit
-					p.commits <- *p.commit
+					p.send()
 					p.commit = nil
 				}
 				if p.limit > 0 && p.total == p.limit {
 					p.commit = nil
 					return false, nil
 				}
-				p.ordinal++
+				if !p.skip[sha] {
+					p.ordinal++
+				}
 				p.commit = &Commit{
 					//Dir:      p.dir,
 					SHA:     string(sha),
diff --git a/ripsrc/gitexec/gitexec.go b/ripsrc/gitexec/gitexec.go
index d2d3722..8fc7855 100644
--- a/ripsrc/gitexec/gitexec.go
+++ b/ripsrc/gitexec/gitexec.go
@@ -124,17 +124,42 @@ func headCommit(ctx context.Context, gitCommand string, repoDir string) string {
 
 // RangeFromIncl returns git revision range which starts with the passed commit (including the commit itself) and ends with HEAD.
 func RangeFromIncl(ctx context.Context, gitCommand string, repoDir string, commit string) string {
-	c := exec.CommandContext(ctx, gitCommand, "rev-list", "--parents", "-n", "1", commit, "--")
-	c.Dir = repoDir
-	out, err := c.Output()
-	if err == nil && len(strings.Fields(string(out))) == 1 {
-		// root commit, there is no parent that could be excluded using ^
+	if isRootCommit(ctx, gitCommand, repoDir, commit) {
+		// there is no parent that could be excluded using ^
 		// not just HEAD, which would be ambiguous if there is a file with this name
 		return "HEAD^{commit}"
 	}
 	return commit + "^..HEAD"
 }
 
+func isRootCommit(ctx context.Context, gitCommand string, repoDir string, commit string) bool {
+	c := exec.CommandContext(ctx, gitCommand, "rev-list", "--parents", "-n", "1", commit, "--")
+	c.Dir = repoDir
+	out, err := c.Output()
+	return err == nil && len(strings.Fields(string(out))) == 1
+}
+
+// CommitsBeforeRange returns all commits that come before the range starting with the passed commit. When the dates of commits are not in order, git log shows some of these too when using a revision range.
+func CommitsBeforeRange(ctx context.Context, gitCommand string, repoDir string, commit string, nonIncl bool) (map[string]bool, error) {
+	res := map[string]bool{}
+	rev := commit
+	if !nonIncl {
+		if isRootCommit(ctx, gitCommand, repoDir, commit) {
+			return res, nil
+		}
+		rev += "^"
+	}
+	buf := bytes.NewBuffer(nil)
+	err := ExecIntoWriter(ctx, buf, gitCommand, repoDir, []string{"rev-list", rev, "--"})
+	if err != nil {
+		return nil, err
+	}
+	for _, c := range strings.Fields(buf.String()) {
+		res[c] = true
+	}
+	return res, nil
+}
+
 func ExecPiped(ctx context.Context, gitCommand string, repoDir string, args []string) (io.ReadCloser, error) {
 	r, wr := io.Pipe()
 	go func() {
diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index b3a757f..a9296d5 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -148,6 +148,15 @@ func (s *Process) Run(resChan chan Result) error {
 
 	s.childrenProcessed = map[string]int{}
 
+	var commitsBefore map[string]bool
+	if s.opts.CommitFromIncl != "" {
+		var err error
+		commitsBefore, err = gitexec.CommitsBeforeRange(context.Background(), s.gitCommand, s.opts.RepoDir, s.opts.CommitFromIncl, s.opts.CommitFromMakeNonIncl)
+		if err != nil {
+			return err
+		}
+	}
+
 	r, err := s.gitLogPatches()
 	if err != nil {
 		return err
@@ -172,6 +181,9 @@ func (s *Process) Run(resChan chan Result) error {
 
 	i := 0
 	for commit := range commits {
+		if commitsBefore[commit.Hash] {
+			continue
+		}
 		if i == 0 {
 			err := s.initCheckpoints()
 			if err != nil {
-- 
2.43.0


From bbf9095d5dc2ea0a71bc032cad5f4ca6845ea422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 16/31] fix: find renamed file in numstat when its name
 contains braces or arrows

---
 ripsrc/commitmeta/commitmeta.go | 51 ++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index 079366c..13989c5 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -327,6 +327,39 @@ func regSplit(text string, splitter *regexp.Regexp) []string {
 	return result
 }
 
+// renameInNumstat returns the text that git shows in numstat for the rename. Paths are in the form used by git in raw output.
+func renameInNumstat(from, to string) string {
+	if strings.HasPrefix(from, "\"") || strings.HasPrefix(to, "\"") {
+		return from + " => " + to
+	}
+	pre := 0 // length of common leading directories
+	for i := 0; i < len(from) && i < len(to) && from[i] == to[i]; i++ {
+		if from[i] == '/' {
+			pre = i + 1
+		}
+	}
+	low := pre // the last slash of the prefix could be also the first one of the suffix
+	if low > 0 {
+		low--
+	}
+	suf := 0 // length of common trailing path
+	for i := 1; len(from)-i >= low && len(to)-i >= low && from[len(from)-i] == to[len(to)-i]; i++ {
+		if from[len(from)-i] == '/' {
+			suf = i
+		}
+	}
+	if pre+suf == 0 {
+		return from + " => " + to
+	}
+	mid := func(s string) string {
+		if len(s)-suf < pre {
+			return ""
+		}
+		return s[pre : len(s)-suf]
+	}
+	return from[:pre] + "{" + mid(from) + " => " + mid(to) + "}" + from[len(from)-suf:]
+}
+
 type parserState int
 
 const (
@@ -346,6 +379,8 @@ type parser struct {
 	ordinal  int64
 	state    parserState
 	skip     map[string]bool
+	// numstatPaths has paths of the files of current commit by the text used for them in numstat
+	numstatPaths map[string]string
 }
 
 func (p *parser) send() {
@@ -396,6 +431,7 @@ func (p *parser) parse(line string) (bool, error) {
 					//Parent:   parent,
 					//Previous: parentCommit,
 				}
+				p.numstatPaths = map[string]string{}
 				p.total++
 				return true, nil
 			}
@@ -440,14 +476,19 @@ func (p *parser) parse(line string) (bool, error) {
 				// :100644␠100644␠d1a02ae0...␠a452aaac...␠M␉·pandora/pom.xml
 				tok1 := bytes.Split(buf, space)
 				mask := tok1[1]
+				tok2 := bytes.Split(bytes.Join(tok1[4:], space), tab)
+				action := tok2[0]
+				paths := tok2[1:]
+				if bytes.HasPrefix(action, removePrefix) {
+					p.numstatPaths[renameInNumstat(string(paths[0]), string(paths[1]))] = gitexec.UnquotePath(string(paths[1]))
+				} else {
+					p.numstatPaths[string(paths[0])] = gitexec.UnquotePath(string(paths[0]))
+				}
 				// fmt.Println(p.commit.SHA, line, string(mask))
 				// if the mask isn't a regular file or deleted file, skip it
 				if !filenameMask.Match(mask) && !bytes.Equal(mask, deletedMask) {
 					return true, nil
 				}
-				tok2 := bytes.Split(bytes.Join(tok1[4:], space), tab)
-				action := tok2[0]
-				paths := tok2[1:]
 				if len(action) == 1 {
 					fn := gitexec.UnquotePath(string(paths[0]))
 					cf := &CommitFile{
@@ -508,7 +549,9 @@ func (p *parser) parse(line string) (bool, error) {
 			if len(tok) == 3 {
 				tok := regSplit(string(buf), tabSplitter)
 				fn := gitexec.UnquotePath(tok[2])
-				if p.commit.Files[fn] == nil {
+				if to, ok := p.numstatPaths[tok[2]]; ok {
+					fn = to
+				} else if p.commit.Files[fn] == nil {
 					fn, _, _ = getFilename(tok[2])
 				}
 				file := p.commit.Files[fn]
-- 
2.43.0


From c88378ed03a71cea25d98c34e75d204bfcb3c9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:07 +0000
Subject: [PATCH 17/31] fix: make git blame independent from git user
 configuration

---
 ripsrc/gitblame2/gitblame.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ripsrc/gitblame2/gitblame.go b/ripsrc/gitblame2/gitblame.go
index d680321..a9553e7 100644
--- a/ripsrc/gitblame2/gitblame.go
+++ b/ripsrc/gitblame2/gitblame.go
@@ -30,10 +30,13 @@ func (r Result) String() string {
 
 func Run(repoDir, commitHash, file string) (res Result, _ error) {
 	args := []string{
-		"-c", "blame.ignoreRevsFile=",
+		"-c", "diff.indentHeuristic=true",
+		"-c", "i18n.logOutputEncoding=UTF-8",
 		"blame",
 		commitHash,
 		"--porcelain",
+		"--no-textconv",
+		"--ignore-revs-file=", // resets the list, setting it to an empty value does not
 		"--",
 		file,
 	}
-- 
2.43.0


From e44a7326e476b7b27cab97bcedad99e884a1874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:15 +0000
Subject: [PATCH 18/31] fix: do not keep the empty commit graph of a failed
 call

---
 ripsrc/ripsrc.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ripsrc/ripsrc.go b/ripsrc/ripsrc.go
index 9da0c47..fc571b6 100644
--- a/ripsrc/ripsrc.go
+++ b/ripsrc/ripsrc.go
@@ -94,11 +94,16 @@ func (s *Ripsrc) buildCommitGraph(ctx context.Context) error {
 		return nil
 	}
 
-	s.commitGraph = parentsgraph.New(parentsgraph.Opts{
+	graph := parentsgraph.New(parentsgraph.Opts{
 		RepoDir:     s.opts.RepoDir,
 		AllBranches: s.opts.AllBranches,
 		Logger:      s.opts.Logger,
 	})
 
-	return s.commitGraph.Read()
+	err := graph.Read()
+	if err != nil {
+		return err
+	}
+	s.commitGraph = graph
+	return nil
 }
-- 
2.43.0


From cffff2b71afda842235c1327674b5f9b70321925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:58 +0000
Subject: [PATCH 19/31] fix: do not parse the incomplete last line when git
 fails

---
 ripsrc/gitexec/gitexec.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/ripsrc/gitexec/gitexec.go b/ripsrc/gitexec/gitexec.go
index 8fc7855..bf1ae30 100644
--- a/ripsrc/gitexec/gitexec.go
+++ b/ripsrc/gitexec/gitexec.go
@@ -163,13 +163,48 @@ func CommitsBeforeRange(ctx context.Context, gitCommand string, repoDir string,
 func ExecPiped(ctx context.Context, gitCommand string, repoDir string, args []string) (io.ReadCloser, error) {
 	r, wr := io.Pipe()
 	go func() {
-		err := ExecIntoWriter(ctx, wr, gitCommand, repoDir, args)
+		lw := &lineWriter{wr: wr}
+		err := ExecIntoWriter(ctx, lw, gitCommand, repoDir, args)
+		if err == nil {
+			err = lw.flush()
+		}
 		// reader gets the error, EOF if there was none
 		wr.CloseWithError(err)
 	}()
 	return r, nil
 }
 
+// lineWriter holds back the last line until it is complete. When git fails in the middle of a line, the rest of it would not make sense for the reader.
+type lineWriter struct {
+	wr   io.Writer
+	rest []byte
+}
+
+func (s *lineWriter) Write(p []byte) (int, error) {
+	end := bytes.LastIndexByte(p, '\n') + 1
+	if end != 0 {
+		if err := s.flush(); err != nil {
+			return 0, err
+		}
+		if _, err := s.wr.Write(p[:end]); err != nil {
+			return 0, err
+		}
+	}
+	s.rest = append(s.rest, p[end:]...)
+	return len(p), nil
+}
+
+// flush writes the last line, even if there is no newline at the end.
+func (s *lineWriter) flush() error {
+	if len(s.rest) == 0 {
+		return nil
+	}
+	rest := s.rest
+	s.rest = nil
+	_, err := s.wr.Write(rest)
+	return err
+}
+
 func Exec(ctx context.Context, gitCommand string, repoDir string, args []string) (io.ReadCloser, error) {
 	buf := bytes.NewBuffer(nil)
 	err := ExecIntoWriter(ctx, buf, gitCommand, repoDir, args)
-- 
2.43.0


From 2740832f6952f0ef4ee8fd83afebadfd70b8220a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:18 +0000
Subject: [PATCH 20/31] fix: code command printed the number of comment lines
 as blanks

---
 ripsrc/cmd/cmdcode/cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ripsrc/cmd/cmdcode/cmd.go b/ripsrc/cmd/cmdcode/cmd.go
index 04f3b43..0d07b30 100644
--- a/ripsrc/cmd/cmdcode/cmd.go
+++ b/ripsrc/cmd/cmdcode/cmd.go
@@ -116,7 +116,7 @@ func runOnRepo(ctx context.Context, wr io.Writer, opts Opts, repoDir string, glo
 						license = fmt.Sprintf("%v (%.0f%%)", color.RedString(blame.License.Name), 100*blame.License.Confidence)
 					}
 					timeSinceStartMin := int(time.Since(globalStart).Minutes())
-					fmt.Fprintf(color.Output, "[%s][%s][%sm] %s language=%s,license=%v,loc=%v,sloc=%v,comments=%v,blanks=%v,complexity=%v,skipped=%v,status=%s,author=%s\n", color.YellowString("%v", repoDir), color.CyanString(blame.Commit.SHA[0:8]), color.YellowString("%v", timeSinceStartMin), color.GreenString(blame.Filename), color.MagentaString(blame.Language), license, blame.Loc, color.YellowString("%v", blame.Sloc), blame.Comments, blame.Comments, blame.Complexity, blame.Skipped, blame.Commit.Files[blame.Filename].Status, blame.Commit.Author())
+					fmt.Fprintf(color.Output, "[%s][%s][%sm] %s language=%s,license=%v,loc=%v,sloc=%v,comments=%v,blanks=%v,complexity=%v,skipped=%v,status=%s,author=%s\n", color.YellowString("%v", repoDir), color.CyanString(blame.Commit.SHA[0:8]), color.YellowString("%v", timeSinceStartMin), color.GreenString(blame.Filename), color.MagentaString(blame.Language), license, blame.Loc, color.YellowString("%v", blame.Sloc), blame.Comments, blame.Blanks, blame.Complexity, blame.Skipped, blame.Commit.Files[blame.Filename].Status, blame.Commit.Author())
 
 				}
 			}
-- 
2.43.0


From b14506fc77ad42dbe397a823de8492513992ac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:20 +0000
Subject: [PATCH 21/31] fix: name of the detected license was chosen at random
 when variants of a license match equally

---
 ripsrc/fileinfo/license_enabled.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ripsrc/fileinfo/license_enabled.go b/ripsrc/fileinfo/license_enabled.go
index a985559..6a24e2e 100644
--- a/ripsrc/fileinfo/license_enabled.go
+++ b/ripsrc/fileinfo/license_enabled.go
@@ -56,7 +56,11 @@ func detect(filename string, buf []byte) (*License, error) {
 		}
 		if len(matches) > 0 {
 			sort.Slice(matches, func(i, j int) bool {
-				return matches[i].Confidence > matches[j].Confidence
+				if matches[i].Confidence != matches[j].Confidence {
+					return matches[i].Confidence > matches[j].Confidence
+				}
+				// variants of a license have the same text
+				return matches[i].Name < matches[j].Name
 			})
 			if matches[0].Confidence >= minConfidenceLevel {
 				return &matches[0], nil
-- 
2.43.0


From 1d84b974b66a8ae0afc09cd33eb025d74d479a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:14 +0000
Subject: [PATCH 22/31] fix: output of other goroutines could get in the middle
 of a log line

---
 ripsrc/pkg/logger/logger.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ripsrc/pkg/logger/logger.go b/ripsrc/pkg/logger/logger.go
index f717566..f63f06d 100644
--- a/ripsrc/pkg/logger/logger.go
+++ b/ripsrc/pkg/logger/logger.go
@@ -35,15 +35,12 @@ func (s *DefaultLogger) log(kind string, msg string, args ...interface{}) {
 	write := func(format string, args ...interface{}) {
 		s.mu.Lock()
 		defer s.mu.Unlock()
-		p := fmt.Sprintf(format, args...)
+		// one write, so that other output can not get in the middle of the line
+		p := fmt.Sprintf(format, args...) + "\n"
 		_, err := s.wr.Write([]byte(p))
 		if err != nil {
 			panic(err)
 		}
-		_, err = s.wr.Write([]byte("\n"))
-		if err != nil {
-			panic(err)
-		}
 	}
 	kvs, err := formatArgs(args)
 	if err != nil {
-- 
2.43.0


From 976daca867cbd3b9ddd9d9b55822491a488e0e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:46 +0000
Subject: [PATCH 23/31] fix: counts of a renamed file and a file with an arrow
 in its name were mixed up

---
 ripsrc/commitmeta/commitmeta.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index 13989c5..03de94a 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -379,8 +379,8 @@ type parser struct {
 	ordinal  int64
 	state    parserState
 	skip     map[string]bool
-	// numstatPaths has paths of the files of current commit by the text used for them in numstat
-	numstatPaths map[string]string
+	// numstatPaths has paths of the files of current commit by the text used for them in numstat, in the order of numstat
+	numstatPaths map[string][]string
 }
 
 func (p *parser) send() {
@@ -431,7 +431,7 @@ func (p *parser) parse(line string) (bool, error) {
 					//Parent:   parent,
 					//Previous: parentCommit,
 				}
-				p.numstatPaths = map[string]string{}
+				p.numstatPaths = map[string][]string{}
 				p.total++
 				return true, nil
 			}
@@ -480,9 +480,11 @@ func (p *parser) parse(line string) (bool, error) {
 				action := tok2[0]
 				paths := tok2[1:]
 				if bytes.HasPrefix(action, removePrefix) {
-					p.numstatPaths[renameInNumstat(string(paths[0]), string(paths[1]))] = gitexec.UnquotePath(string(paths[1]))
+					text := renameInNumstat(string(paths[0]), string(paths[1]))
+					p.numstatPaths[text] = append(p.numstatPaths[text], gitexec.UnquotePath(string(paths[1])))
 				} else {
-					p.numstatPaths[string(paths[0])] = gitexec.UnquotePath(string(paths[0]))
+					text := string(paths[0])
+					p.numstatPaths[text] = append(p.numstatPaths[text], gitexec.UnquotePath(text))
 				}
 				// fmt.Println(p.commit.SHA, line, string(mask))
 				// if the mask isn't a regular file or deleted file, skip it
@@ -549,8 +551,10 @@ func (p *parser) parse(line string) (bool, error) {
 			if len(tok) == 3 {
 				tok := regSplit(string(buf), tabSplitter)
 				fn := gitexec.UnquotePath(tok[2])
-				if to, ok := p.numstatPaths[tok[2]]; ok {
-					fn = to
+				if to := p.numstatPaths[tok[2]]; len(to) != 0 {
+					// a rename is shown in the same way as a file with an arrow in its name
+					fn = to[0]
+					p.numstatPaths[tok[2]] = to[1:]
 				} else if p.commit.Files[fn] == nil {
 					fn, _, _ = getFilename(tok[2])
 				}
-- 
2.43.0


From 9515ec986ec7414c14d15f27cc215ae3be0bb77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:46 +0000
Subject: [PATCH 24/31] fix: lines with the same hash got text of one another
 in the checkpoint

---
 ripsrc/history3/process/repo/writer.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ripsrc/history3/process/repo/writer.go b/ripsrc/history3/process/repo/writer.go
index d835b19..0f70224 100644
--- a/ripsrc/history3/process/repo/writer.go
+++ b/ripsrc/history3/process/repo/writer.go
@@ -1,6 +1,7 @@
 package repo
 
 import (
+	"bytes"
 	"io/ioutil"
 	"os"
 	"path/filepath"
@@ -69,7 +70,8 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 	linePointerC := uint64(0)
 	linePointers := map[*incblame.Line]uint64{}
 
-	lineData := map[uint64]bool{}
+	// line stored for each of the pointers
+	lineData := map[uint64][]byte{}
 
 	writeRepoRow := func(commit string, filePath string, blamePointer uint64) error {
 		r := &disk.DataRow{}
@@ -118,7 +120,13 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 
 				// line data
 				dp := xxhash.Sum64(l.Line)
-				if ok := lineData[dp]; !ok {
+				data, ok := lineData[dp]
+				for ok && !bytes.Equal(data, l.Line) {
+					// different line with the same hash, use the next free pointer
+					dp++
+					data, ok = lineData[dp]
+				}
+				if !ok {
 					ld := &sLineData{
 						Pointer: dp,
 						Data:    l.Line}
@@ -126,7 +134,7 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 					if err != nil {
 						return err
 					}
-					lineData[dp] = true
+					lineData[dp] = l.Line
 				}
 
 				l2 := &sLine{}
-- 
2.43.0


From c7a4bc711f503d80e2e3c61996267540d2fc2ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:46 +0000
Subject: [PATCH 25/31] fix: merge lost results or crashed when a path started
 with the marker of removed files

---
 ripsrc/history3/process/process.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index a9296d5..2e70219 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -515,7 +515,8 @@ func (s *Process) processRegularCommit(commit parser.Commit) (res Result, rerr e
 	return
 }
 
-const deletedPrefix = "@@@del@@@"
+// deletedPrefix marks removed files. Paths do not contain NUL, so it is never the start of a path.
+const deletedPrefix = "\x00"
 
 func (s *Process) processMergeCommit(commitHash string, parts map[string]parser.Commit) (res Result, rerr error) {
 	s.lastProcessedCommitHash = commitHash
-- 
2.43.0


From 5794f06f41bc46930a68edc42669bf4101203eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:46 +0000
Subject: [PATCH 26/31] fix: GIT_DIFF_OPTS in the environment broke the
 analysis

---
 ripsrc/gitexec/gitexec.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ripsrc/gitexec/gitexec.go b/ripsrc/gitexec/gitexec.go
index bf1ae30..4bd4aab 100644
--- a/ripsrc/gitexec/gitexec.go
+++ b/ripsrc/gitexec/gitexec.go
@@ -217,6 +217,8 @@ func Exec(ctx context.Context, gitCommand string, repoDir string, args []string)
 func ExecIntoWriter(ctx context.Context, wr io.Writer, gitCommand string, repoDir string, args []string) error {
 	c := exec.CommandContext(ctx, gitCommand, args...)
 	c.Dir = repoDir
+	// the number of context lines from this variable of the user would be stronger than diff.context
+	c.Env = append(os.Environ(), "GIT_DIFF_OPTS=")
 	c.Stderr = os.Stderr
 	c.Stdout = wr
 	if err := c.Run(); err != nil {
-- 
2.43.0


From ac89738b97dc966f236a4b6a8d12c5212fdf0a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:46 +0000
Subject: [PATCH 27/31] fix: names of branches that end with a unicode space
 were cut

---
 ripsrc/branchmeta/branchmeta.go | 9 +++++++--
 ripsrc/branchmeta/default.go    | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/ripsrc/branchmeta/branchmeta.go b/ripsrc/branchmeta/branchmeta.go
index 569be9e..9452cc9 100644
--- a/ripsrc/branchmeta/branchmeta.go
+++ b/ripsrc/branchmeta/branchmeta.go
@@ -49,7 +49,7 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 	lines := bytes.Split(data, []byte("\n"))
 	for _, line := range lines {
 		line := string(line)
-		line = strings.TrimSpace(line)
+		line = strings.TrimRight(line, "\r")
 		if len(line) == 0 {
 			continue
 		}
@@ -101,7 +101,7 @@ func getDefaultBranch(opts Opts) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	res := strings.TrimPrefix(strings.TrimSpace(string(data)), "refs/heads/")
+	res := strings.TrimPrefix(trimNewline(data), "refs/heads/")
 	if len(res) == 0 {
 		return "", errors.New("could not get the default branch name")
 	}
@@ -119,3 +119,8 @@ func execCommand(command string, dir string, args []string) ([]byte, error) {
 	}
 	return out.Bytes(), nil
 }
+
+// trimNewline removes new line at the end of git output. Names of branches can end with other (unicode) spaces.
+func trimNewline(data []byte) string {
+	return strings.TrimRight(string(data), "\r\n")
+}
diff --git a/ripsrc/branchmeta/default.go b/ripsrc/branchmeta/default.go
index 568c2e4..3e5194a 100644
--- a/ripsrc/branchmeta/default.go
+++ b/ripsrc/branchmeta/default.go
@@ -31,7 +31,7 @@ func headBranch(ctx context.Context, gitCommand string, repoDir string) (string,
 	if err != nil {
 		return "", err
 	}
-	res := strings.TrimSpace(string(data))
+	res := trimNewline(data)
 	if res == "HEAD" {
 		return "", errors.New("cound not retrieve the name of the default branch")
 	}
-- 
2.43.0


From 5caa960c6ef2108fccabd6cf8d9a2015dc95f8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:46 +0000
Subject: [PATCH 28/31] fix: commits with unusual offset or without valid date
 failed the analysis

---
 ripsrc/branchmeta/branchmeta.go |  8 ++++----
 ripsrc/commitmeta/commitmeta.go | 10 ++++++++--
 ripsrc/gittime/gittime.go       | 34 ++++++++++++++++++++++++++++-----
 3 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/ripsrc/branchmeta/branchmeta.go b/ripsrc/branchmeta/branchmeta.go
index 9452cc9..d9c9f37 100644
--- a/ripsrc/branchmeta/branchmeta.go
+++ b/ripsrc/branchmeta/branchmeta.go
@@ -35,7 +35,7 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 	args := []string{
 		"for-each-ref",
 		"--format",
-		"%(objectname)@@@%(committerdate)@@@%(refname:lstrip=2)",
+		"%(objectname)@@@%(committerdate:raw)@@@%(refname:lstrip=2)",
 	}
 	if opts.UseOrigin {
 		args = append(args, "refs/remotes/origin")
@@ -65,11 +65,11 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 		b := BranchWithCommitTime{}
 		b.Commit = parts[0]
 		b.Name = parts[2]
+		// commits made by broken tools could have no valid date
 		date, err := gittime.Parse(parts[1])
-		if err != nil {
-			panic("invalid date format")
+		if err == nil {
+			b.CommitCommitterTime = date
 		}
-		b.CommitCommitterTime = date
 		if opts.UseOrigin {
 			if !strings.HasPrefix(b.Name, "origin/") {
 				panic("branch name does not have origin/ prefix")
diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index 03de94a..d3d3907 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -15,6 +15,7 @@ import (
 	"time"
 
 	"github.com/pinpt/ripsrc/ripsrc/gitexec"
+	"github.com/pinpt/ripsrc/ripsrc/gittime"
 )
 
 type Opts struct {
@@ -204,10 +205,11 @@ func (s *Processor) gitLog() (io.ReadCloser, error) {
 		"-c", "diff.renameLimit=10000",
 		"log",
 		"-c",
+		"--date=raw",
 		"--raw",
 		"--reverse",
 		"--numstat",
-		"--pretty=format:!SHA: %H%n!Parents: %P%n!Committer: %ce%n!CName: %cn%n!Author: %ae%n!AName: %an%n!Date: %aI%n!Message: %s%n",
+		"--pretty=format:!SHA: %H%n!Parents: %P%n!Committer: %ce%n!CName: %cn%n!Author: %ae%n!AName: %an%n!Date: %ad%n!Message: %s%n",
 	}
 	args = append(gitexec.StableConfig(), args...)
 	args = append(args, gitexec.StableDiffArgs()...)
@@ -265,7 +267,11 @@ func toCommitStatus(name []byte) CommitStatus {
 }
 
 func parseDate(d string) (time.Time, error) {
-	t, err := time.Parse(time.RFC3339, d)
+	if d == "" {
+		// git could not parse the author of the commit
+		return time.Time{}, nil
+	}
+	t, err := gittime.Parse(d)
 	if err != nil {
 		return time.Now(), fmt.Errorf("error parsing commit date `%v`. %v", d, err)
 	}
diff --git a/ripsrc/gittime/gittime.go b/ripsrc/gittime/gittime.go
index e8d4bee..c9b9182 100644
--- a/ripsrc/gittime/gittime.go
+++ b/ripsrc/gittime/gittime.go
@@ -1,9 +1,33 @@
 package gittime
 
-import "time"
+import (
+	"fmt"
+	"strconv"
+	"strings"
+	"time"
+)
 
-// Parse parses timestamp in default git format.
-func Parse(d string) (time.Time, error) {
-	//Tue Nov 27 21:55:36 2018 +0100
-	return time.Parse("Mon Jan 2 15:04:05 2006 -0700", d)
+// Parse parses timestamp in raw git format, which is seconds since epoch and offset.
+// Any date and offset are accepted, there are commits with ones that other formats do not support, for example +51800.
+func Parse(d string) (res time.Time, _ error) {
+	//1543352136 +0100
+	parts := strings.Split(d, " ")
+	if len(parts) != 2 {
+		return res, fmt.Errorf("invalid date: %v", d)
+	}
+	seconds, err := strconv.ParseInt(parts[0], 10, 64)
+	if err != nil {
+		return res, err
+	}
+	offset, err := strconv.Atoi(parts[1])
+	if err != nil {
+		return res, err
+	}
+	offset = (offset/100*60 + offset%100) * 60
+	res = time.Unix(seconds, 0)
+	// use local time when it has the same offset, same as time.Parse
+	if _, local := res.Zone(); local != offset {
+		res = res.In(time.FixedZone("", offset))
+	}
+	return res, nil
 }
-- 
2.43.0


From 1588282d568a540d1d9f8e1d2f4abc0538304384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:46 +0000
Subject: [PATCH 29/31] fix: merges that have the same parent twice got wrong
 content or crashed

---
 ripsrc/history3/process/process.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index 2e70219..ccf283a 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -547,11 +547,6 @@ func (s *Process) processMergeCommit(commitHash string, parts map[string]parser.
 	// parse and organize all diffs for access
 	diffs := map[string][]*incblame.Diff{}
 
-	hashToParOrd := map[string]int{}
-	for i, h := range parentHashes {
-		hashToParOrd[h] = i
-	}
-
 	for parHash, part := range parts {
 		for _, ch := range part.Changes {
 			diff := incblame.Parse(ch.Diff)
@@ -566,8 +561,12 @@ func (s *Process) processMergeCommit(commitHash string, parts map[string]parser.
 				par = make([]*incblame.Diff, parentCount, parentCount)
 				diffs[key] = par
 			}
-			parInd := hashToParOrd[parHash]
-			par[parInd] = &diff
+			// the same commit could be a parent more than once
+			for i, h := range parentHashes {
+				if h == parHash {
+					par[i] = &diff
+				}
+			}
 		}
 	}
 
-- 
2.43.0


From 8bf1e45e10baf6d933210a195ae5e4c8bc8047e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:07 +0000
Subject: [PATCH 30/31] fix: report repositories that git cannot use instead of
 skipping them as empty

---
 ripsrc/cmd/cmdutils/repo_run.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ripsrc/cmd/cmdutils/repo_run.go b/ripsrc/cmd/cmdutils/repo_run.go
index b807d31..600ed6f 100644
--- a/ripsrc/cmd/cmdutils/repo_run.go
+++ b/ripsrc/cmd/cmdutils/repo_run.go
@@ -19,6 +19,11 @@ func RunOnRepo(ctx context.Context, wr io.Writer, repoDir string, run func() err
 	start := time.Now()
 	fmt.Fprintf(color.Output, "starting processing repo:%v\n", color.GreenString(repoDir))
 	if !hasHeadCommit(ctx, repoDir) {
+		err := checkRepo(ctx, repoDir)
+		if err != nil {
+			fmt.Fprintf(color.Output, "completed repo processing in %v repo: %v err: %v\n", time.Since(start), color.RedString(repoDir), color.RedString(err.Error()))
+			return err
+		}
 		fmt.Fprintf(wr, "git rev-parse HEAD failed, happens for empty repos, repo: %v \n", repoDir)
 		return ErrRevParseFailed
 	}
@@ -35,6 +40,19 @@ func RunOnRepo(ctx context.Context, wr io.Writer, repoDir string, run func() err
 	return nil
 }
 
+// checkRepo returns an error if git is not able to use the repo, for example because of invalid configuration.
+func checkRepo(ctx context.Context, repoDir string) error {
+	stderr := bytes.NewBuffer(nil)
+	c := exec.Command("git", "rev-parse", "--git-dir")
+	c.Dir = repoDir
+	c.Stderr = stderr
+	err := c.Run()
+	if err != nil {
+		return fmt.Errorf("git rev-parse --git-dir failed: %v %v", err, strings.TrimSpace(stderr.String()))
+	}
+	return nil
+}
+
 func hasHeadCommit(ctx context.Context, repoDir string) bool {
 	out := bytes.NewBuffer(nil)
 	c := exec.Command("git", "rev-parse", "HEAD")
-- 
2.43.0


From 5bb3bf0d8535052be85b15ca4ad6c5ce174c74ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:07 +0000
Subject: [PATCH 31/31] fix: diff drivers defined by the user do not decide
 which files are binary

---
 ripsrc/commitmeta/commitmeta.go    |  1 +
 ripsrc/gitexec/stable.go           | 20 ++++++++++++++++++++
 ripsrc/history3/process/process.go |  1 +
 3 files changed, 22 insertions(+)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index d3d3907..9f26ba6 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -211,6 +211,7 @@ func (s *Processor) gitLog() (io.ReadCloser, error) {
 		"--numstat",
 		"--pretty=format:!SHA: %H%n!Parents: %P%n!Committer: %ce%n!CName: %cn%n!Author: %ae%n!AName: %an%n!Date: %ad%n!Message: %s%n",
 	}
+	args = append(gitexec.StableDriverConfig(context.Background(), s.gitCommand, s.repoDir), args...)
 	args = append(gitexec.StableConfig(), args...)
 	args = append(args, gitexec.StableDiffArgs()...)
 
diff --git a/ripsrc/gitexec/stable.go b/ripsrc/gitexec/stable.go
index bb33e85..a9f0b92 100644
--- a/ripsrc/gitexec/stable.go
+++ b/ripsrc/gitexec/stable.go
@@ -1,5 +1,11 @@
 package gitexec
 
+import (
+	"context"
+	"os/exec"
+	"strings"
+)
+
 // StableConfig are the arguments for git command (before sub-command) which make the output of git log independent from user configuration.
 func StableConfig() []string {
 	return []string{
@@ -31,3 +37,17 @@ func StableDiffArgs() []string {
 		"--ignore-submodules=none",
 	}
 }
+
+// StableDriverConfig are the arguments for git command (before sub-command) for diff drivers that user has defined. When .gitattributes of the repository use one of these, it should not decide which files are binary.
+func StableDriverConfig(ctx context.Context, gitCommand string, repoDir string) (res []string) {
+	c := exec.CommandContext(ctx, gitCommand, "config", "-z", "--name-only", "--get-regexp", `^diff\..*\.binary$`)
+	c.Dir = repoDir
+	// fails when there are none
+	out, _ := c.Output()
+	for _, name := range strings.Split(string(out), "\x00") {
+		if name != "" {
+			res = append(res, "-c", name+"=auto")
+		}
+	}
+	return res
+}
diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index ccf283a..0882c25 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -859,6 +859,7 @@ func (s *Process) gitLogPatches() (io.ReadCloser, error) {
 		"--no-abbrev-commit",
 		"--pretty=short",
 	}
+	args = append(gitexec.StableDriverConfig(context.Background(), s.gitCommand, s.opts.RepoDir), args...)
 	args = append(gitexec.StableConfig(), args...)
 	args = append(args, gitexec.StableDiffArgs()...)
 
-- 
2.43.0

