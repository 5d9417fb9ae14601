package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc"
)

func init() {
	kinds["print"] = scnPrint
}

// printRepo is one of the repositories in the directory passed to the command line.
type printRepo struct {
	path string
	h    *Hist
	ck   string
}

var (
	fileLineRe   = regexp.MustCompile(`^\[(.*)\]\[([0-9a-f]{8})\]\[\d+m\] (.*) language=(.*),license=(.*),loc=(-?\d+),sloc=(-?\d+),comments=(-?\d+),blanks=(-?\d+),complexity=(-?\d+),skipped=(.*),status=(.*),author=(.*)$`)
	commitLineRe = regexp.MustCompile(`^([0-9a-f]{40}) (\d{4}.*)$`)
	branchLineRe = regexp.MustCompile(`^\[BR\] (.*) commits (\d+) first_commit ([0-9a-f]*)(?: commits\[0\] ([0-9a-f]*))?$`)
	doneLineRe   = regexp.MustCompile(`^completed repo processing in \S+ repo: (.*)$`)
	totalRe      = regexp.MustCompile(`^Finished processing repos (\d+)(?: entries (\d+))? in `)
)

// shaRef returns the number of the commit with this (short) hash.
func (p *printRepo) shaRef(sha string) int {
	if sha == "" {
		return -1
	}
	res := 0
	for i, s := range p.h.repo.Shas {
		if strings.HasPrefix(s, sha) {
			if res != 0 {
				return 0
			}
			res = i + 1
		}
	}
	return res
}

func atoi(s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	must(err)
	return n
}

// declared writes what the library delivers for a repository.
func (e *Env) declared(ids *Ids, k int, p *printRepo, cmd string, from string) {
	mark("run_begin")
	if cmd == "branches" {
		o := ripsrc.Opts{Logger: nullLogger{}, RepoDir: p.path, AllBranches: true, BranchesUseOrigin: true}
		bs, err := ripsrc.New(o).BranchesSlice(bg)
		mark("run_end")
		var res []interface{}
		for _, b := range bs {
			first := -1
			if len(b.Commits) > 0 {
				first = p.shaRef(b.Commits[0])
			}
			res = append(res, []interface{}{ids.get(b.Name), len(b.Commits), p.shaRef(b.FirstCommit), first})
		}
		e.T.emit(obj{"e": "lib", "repo": k, "cmd": cmd, "bs": list(res), "err": err != nil, "msg": errStr(err)})
		return
	}
	o := ripsrc.Opts{Logger: nullLogger{}, RepoDir: p.path, CheckpointsDir: p.ck, CommitFromIncl: from, NoStrictResume: true}
	ch := make(chan ripsrc.CommitCode)
	done := make(chan error, 1)
	go func() { done <- ripsrc.New(o).CodeByCommit(bg, ch) }()
	var res []interface{}
	for c := range ch {
		var fs []interface{}
		for b := range c.Blames {
			lic := ""
			if b.License != nil {
				lic = fmt.Sprintf("%v (%.0f%%)", b.License.Name, 100*b.License.Confidence)
			}
			author := c.AuthorName
			if author == "" {
				author = c.AuthorEmail
			}
			fs = append(fs, []interface{}{ids.get(b.Filename), ids.get(b.Language), ids.get(lic), b.Loc, b.Sloc, b.Comments, b.Blanks, b.Complexity, ids.get(b.Skipped), ids.get(string(b.Status)), ids.get(author)})
			mark("progress")
		}
		res = append(res, []interface{}{p.shaRef(c.SHA), ids.get(c.Date.String()), list(fs)})
	}
	err := <-done
	mark("run_end")
	e.T.emit(obj{"e": "lib", "repo": k, "cmd": cmd, "cs": list(res), "err": err != nil, "msg": errStr(err)})
}

func list(v []interface{}) []interface{} {
	if v == nil {
		return []interface{}{}
	}
	return v
}

// printed writes the lines of the output as events. Other lines, for example statistics, are not judged.
func (e *Env) printed(ids *Ids, ps []*printRepo, root string, arg string, cwd string, args ...string) {
	text, exit := e.runCli(cwd, append(append([]string{}, args...), arg)...)
	e.T.emit(obj{"e": "cmd", "cmd": args[0], "repos": len(ps)})
	shown := map[string]int{}
	for k, p := range ps {
		s := p.path
		if arg == "." {
			s = strings.TrimPrefix(strings.TrimPrefix(p.path, root), "/")
			if s == "" {
				s = "."
			}
		}
		shown[s] = k + 1
	}
	which := func(s string) int { return shown[strings.TrimSuffix(s, "/")] }
	cur := 0
	sha := func(s string) int {
		if cur == 0 {
			return 0
		}
		return ps[cur-1].shaRef(s)
	}
	total := int64(-1)
	repos := int64(-1)
	for _, l := range strings.Split(text, "\n") {
		if m := strings.TrimPrefix(l, "starting processing repo:"); m != l {
			cur = which(m)
			e.T.emit(obj{"e": "pstart", "repo": cur})
		} else if m := fileLineRe.FindStringSubmatch(l); m != nil {
			f := []interface{}{ids.get(m[3]), ids.get(m[4]), ids.get(m[5])}
			for _, v := range m[6:11] {
				f = append(f, atoi(v))
			}
			for _, v := range m[11:14] {
				f = append(f, ids.get(v))
			}
			e.T.emit(obj{"e": "pfile", "repo": which(m[1]), "c": sha(m[2]), "f": f})
		} else if m := commitLineRe.FindStringSubmatch(l); m != nil {
			e.T.emit(obj{"e": "pcommit", "c": sha(m[1]), "date": ids.get(m[2])})
		} else if m := branchLineRe.FindStringSubmatch(l); m != nil {
			e.T.emit(obj{"e": "pbranch", "b": []interface{}{ids.get(m[1]), atoi(m[2]), sha(m[3]), sha(m[4])}})
		} else if m := strings.TrimSuffix(l, " entries processed"); m != l {
			e.T.emit(obj{"e": "pcount", "n": atoi(m)})
		} else if m := totalRe.FindStringSubmatch(l); m != nil {
			repos = atoi(m[1])
			if m[2] != "" {
				total = atoi(m[2])
			}
		} else if m := doneLineRe.FindStringSubmatch(l); m != nil {
			if r := which(m[1]); r != 0 {
				e.T.emit(obj{"e": "pdone", "repo": r})
			}
		}
	}
	e.T.emit(obj{"e": "cmdend", "exit": exit, "total": total, "repos": repos})
}

func scnPrint(e *Env) {
	ids := newIds()
	n := []int{1, 1, 2, 3}[e.R.Intn(4)]
	root := filepath.Join(e.Dir, "in")
	must(os.MkdirAll(root, 0777))
	var ps []*printRepo
	for k := 0; k < n; k++ {
		p := RandomProfile(e.R)
		p.Code = []float64{0.3, 0.7, 1}[e.R.Intn(3)]
		p.CommentP = []float64{0.1, 0.4}[e.R.Intn(2)]
		p.WeirdMeta = chance(e.R, 0.5)
		p.Paths = nil
		for i := 0; i < 8; i++ {
			p.Paths = append(p.Paths, codePaths[e.R.Intn(len(codePaths))])
		}
		if n > 1 && p.Commits > 12 {
			p.Commits = 12
		}
		if chance(e.R, 0.2) {
			p.ManyFiles = 10 + e.R.Intn(150)
		}
		r := Generate(e.R, p)
		if chance(e.R, 0.3) {
			text := []string{mitText, lgplText}[e.R.Intn(2)]
			for _, c := range r.Commits {
				if _, ok := c.Tree["LICENSE"]; !ok {
					c.Tree["LICENSE"] = File{Mode: "100644", Data: []byte(text)}
				}
			}
		}
		for _, c := range r.Commits {
			if chance(e.R, 0.05) {
				c.AName = ""
			}
		}
		for k := e.R.Intn(4); k > 0; k-- {
			r.Refs[fmt.Sprintf("refs/remotes/origin/b%d", k)] = e.R.Intn(len(r.Commits))
		}
		loc := filepath.Join(root, fmt.Sprintf("%c%d", "xb"[e.R.Intn(2)], k))
		if n == 1 && chance(e.R, 0.6) {
			loc = filepath.Join(e.Dir, "in")
		}
		if chance(e.R, 0.2) {
			loc += ".git"
		}
		must(os.MkdirAll(loc, 0777))
		r.Build(loc)
		h := extract(r)
		ps = append(ps, &printRepo{path: loc, h: h, ck: e.ckptDir(fmt.Sprintf("ck%d", k))})
	}
	top := root
	if n == 1 && !strings.HasPrefix(ps[0].path, root+"/") {
		top = ps[0].path
	}
	run := func(cmd string, from string) {
		for k, p := range ps {
			e.declared(ids, k+1, p, cmd, from)
		}
		arg, cwd := top, "/"
		if chance(e.R, 0.2) {
			arg, cwd = ".", top
		}
		args := []string{cmd}
		if from != "" {
			args = append(args, "--sha", from)
		}
		e.printed(ids, ps, top, arg, cwd, args...)
	}
	run("code", "")
	if n == 1 {
		for k := e.R.Intn(3); k > 0; k-- {
			r := ps[0].h.repo
			from := r.Shas[e.pickFrom(r)-1]
			if chance(e.R, 0.1) {
				from = strings.Repeat("12345", 8)
			}
			run("code", from)
		}
	}
	run("branches", "")
}
