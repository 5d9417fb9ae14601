package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"github.com/pinpt/ripsrc/ripsrc/history3/process/repo"
	"github.com/pinpt/ripsrc/ripsrc/parentsgraph"
)

type nullLogger struct{}

func (nullLogger) Info(msg string, args ...interface{})  {}
func (nullLogger) Debug(msg string, args ...interface{}) {}

// Mark records what the worker is doing, so that the parent knows whose fault a crash is.
var markFile *os.File

func mark(format string, args ...interface{}) {
	if markFile == nil {
		return
	}
	_, err := fmt.Fprintf(markFile, format+"\n", args...)
	must(err)
}

// Run is one run of the history analysis.
type Run struct {
	Kind   string // full, incl, nonincl
	From   int    // commit number or 0
	Heads  []int  // tips of the history in scope: HEAD, or all refs for full runs with All
	All    bool
	Strict bool
	Graph  *parentsgraph.Graph
	Ckpt   string // checkpoints dir
	Rep    int    // number of an earlier run which has to have the same results, or 0
	Lax    bool   // may fail, what it delivers has to be right
	Cmp    int    // number of an earlier run which is compared commit by commit, or 0
	Wanted []int  // more heads of a run that continues, with All
	Rel    bool   // paths are relative to the current directory
}

// observed state of one scenario
type Scn struct {
	t     *Trace
	h     *Hist
	dir   string // scratch directory of the scenario
	runs  int
	keep  bool
	short bool
	first [][2]string // commits and digests of the first run
	exact *Ids
}

func (h *Hist) sha(n int) string {
	return h.repo.Shas[n-1]
}

// name is another way to name the commit: a ref, if there is one.
func (h *Hist) name(n int) string {
	for _, name := range sortedKeys(h.repo.Refs) {
		if h.repo.Refs[name] == n-1 && n%2 == 0 {
			if _, err := gitMayFail(h.repo.Dir, "rev-parse", "-q", "--verify", name+"^{commit}"); err == nil {
				if strings.TrimSpace(string(git(h.repo.Dir, nil, "rev-parse", name))) == h.sha(n) {
					return name
				}
			}
		}
	}
	return h.sha(n)
}

func (h *Hist) num(sha string) int {
	// 0 for unknown
	return h.commits[sha]
}

func (h *Hist) fileObs(p string, b *incblame.Blame) obj {
	l := []int{}
	a := []int{}
	for _, ln := range b.Lines {
		l = append(l, h.lines.get(stripCR(ln.Line)))
		n := h.num(ln.Commit)
		if n == 0 {
			n = -1
		}
		a = append(a, n)
	}
	bc := h.num(b.Commit)
	if bc == 0 {
		bc = -1
	}
	return obj{"p": h.paths.get(p), "b": b.IsBinary, "bc": bc, "l": l, "a": a}
}

func (h *Hist) resultObs(r process.Result) []obj {
	fs := []obj{}
	var ps []string
	for p := range r.Files {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		b := r.Files[p]
		if b == nil {
			b = &incblame.Blame{}
		}
		fs = append(fs, h.fileObs(p, b))
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i]["p"].(int) < fs[j]["p"].(int) })
	return fs
}

func digest(r process.Result) string {
	var ps []string
	for p := range r.Files {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	s := sha256.New()
	fmt.Fprintf(s, "%q\n", r.Commit)
	for _, p := range ps {
		b := r.Files[p]
		if b == nil {
			fmt.Fprintf(s, "%q nil\n", p)
			continue
		}
		fmt.Fprintf(s, "%q %q %v %v\n", p, b.Commit, b.IsBinary, len(b.Lines))
		for _, l := range b.Lines {
			fmt.Fprintf(s, "%q %q\n", l.Commit, l.Line)
		}
	}
	return hex.EncodeToString(s.Sum(nil))
}

// run runs the history analysis and writes everything that is delivered to the trace.
func (s *Scn) run(o Run) (delivered []int, err error) {
	s.runs++
	h := s.h
	po := process.Opts{
		Logger:                nullLogger{},
		RepoDir:               h.repo.Dir,
		CheckpointsDir:        o.Ckpt,
		NoStrictResume:        !o.Strict,
		CommitFromMakeNonIncl: o.Kind == "nonincl",
		AllBranches:           o.All,
		ParentsGraph:          o.Graph,
	}
	if o.Kind != "full" {
		po.CommitFromIncl = h.sha(o.From)
		for _, c := range o.Wanted {
			po.WantedBranchRefs = append(po.WantedBranchRefs, h.name(c))
		}
	}
	if o.Ckpt == h.repo.Dir {
		// the default
		po.CheckpointsDir = ""
	}
	if o.Rel {
		cwd, err := os.Getwd()
		must(err)
		must(os.Chdir(s.dir))
		defer os.Chdir(cwd)
		po.RepoDir = relative(s.dir, po.RepoDir)
		if po.CheckpointsDir != "" {
			po.CheckpointsDir = relative(s.dir, po.CheckpointsDir)
		}
	}
	v, cs, ok := s.readCkpt(o.Ckpt)
	s.t.emit(obj{"e": "run", "kind": o.Kind, "from": o.From, "heads": o.Heads, "strict": o.Strict, "rep": o.Rep, "cmp": o.Cmp, "lax": o.Lax, "haveck": ok, "v": v, "cs": cs})
	mark("run_begin")
	p := process.New(po)
	ch := make(chan process.Result)
	done := make(chan error)
	go func() { done <- p.Run(ch) }()
	var held []process.Result
	var before []string
	for r := range ch {
		delivered = append(delivered, h.num(r.Commit))
		n := h.num(r.Commit)
		if n == 0 {
			n = -1
		}
		s.result(n, r)
		if s.runs == 1 {
			s.first = append(s.first, [2]string{r.Commit, digest(r)})
		}
		if s.keep {
			held = append(held, r)
			before = append(before, digest(r))
		}
		mark("progress")
	}
	err = <-done
	mark("run_end")
	es := "none"
	if err != nil {
		es = "other"
		if strings.Contains(err.Error(), "ould not read checkpoint") {
			es = "ckpt"
		}
	}
	v2, cs2, ok2 := s.readCkpt(o.Ckpt)
	s.t.emit(obj{"e": "end", "err": es, "msg": errStr(err), "haveck": ok2, "v": v2, "cs": cs2})
	if s.keep {
		ids := newIds()
		a, b := []int{}, []int{}
		for i, r := range held {
			a = append(a, ids.get(before[i]))
			b = append(b, ids.get(digest(r)))
		}
		s.t.emit(obj{"e": "held", "before": a, "after": b})
	}
	return
}

// result is an event for what was delivered. If it is the same as in the first run it is not repeated when short is set.
func (s *Scn) result(n int, r process.Result) {
	if s.short && s.runs > 1 {
		d := digest(r)
		for _, f := range s.first {
			if f[0] == r.Commit && f[1] == d {
				s.t.emit(obj{"e": "same", "c": n})
				return
			}
		}
	}
	s.t.emit(obj{"e": "res", "c": n, "f": s.h.resultObs(r), "x": s.exact.get(digest(r))})
}

func relative(dir, loc string) string {
	res, err := filepath.Rel(dir, loc)
	must(err)
	return res
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// readCkpt returns the version and the commits in the checkpoint, using the reader of the code under test.
func (s *Scn) readCkpt(dir string) (version int, commits []int, ok bool) {
	commits = []int{}
	loc := filepath.Join(dir, "pp-git-cache")
	if _, err := os.Stat(loc); err != nil {
		return 0, commits, false
	}
	defer func() {
		if e := recover(); e != nil {
			if he, is := e.(harnessErr); is {
				panic(he)
			}
			ok = false
		}
	}()
	_, err := repo.NewCheckpointReader(nullLogger{}).Read(loc, "-")
	if e, is := err.(repo.ErrCheckpointNotExpected); is {
		version = s.h.num(e.HaveCommit)
		if version == 0 {
			version = -1
		}
	}
	r, err := repo.NewCheckpointReader(nullLogger{}).Read(loc, "")
	if err != nil {
		return version, commits, false
	}
	for c := range r {
		n := s.h.num(c)
		if n == 0 {
			n = -1
		}
		commits = append(commits, n)
	}
	sort.Ints(commits)
	return version, commits, true
}

type subArg struct {
	Dir, Ckpt string
	All       bool
}

// runSub repeats a full run in another process, with another degree of parallelism, and compares everything that is delivered with the first run.
func (s *Scn) runSub(o Run) {
	arg, err := json.Marshal(subArg{s.h.repo.Dir, filepath.Join(s.dir, "cksub"), o.All})
	must(err)
	must(os.MkdirAll(filepath.Join(s.dir, "cksub"), 0777))
	for _, procs := range []string{"1", "16"} {
		c := exec.Command(os.Args[0], "sub", "process", string(arg))
		c.Env = append(os.Environ(), "GOMAXPROCS="+procs, "LANG=de_DE.UTF-8", "TZ=Asia/Tokyo")
		c.Dir = "/"
		c.Stderr = os.Stderr
		mark("run_begin")
		out, err := c.Output()
		mark("run_end")
		if err != nil {
			// the same run worked before
			s.t.emit(obj{"e": "crash", "msg": err.Error()})
			return
		}
		ids := newIds()
		a, b := []int{}, []int{}
		for _, f := range s.first {
			a = append(a, ids.get(f[0]+" "+f[1]))
		}
		for _, l := range strings.Split(strings.TrimSpace(string(out)), "\n") {
			if l != "" {
				b = append(b, ids.get(l))
			}
		}
		s.t.emit(obj{"e": "other", "a": a, "b": b})
	}
}

func subProcess(arg string) {
	var a subArg
	must(json.Unmarshal([]byte(arg), &a))
	p := process.New(process.Opts{Logger: nullLogger{}, RepoDir: a.Dir, CheckpointsDir: a.Ckpt, AllBranches: a.All})
	ch := make(chan process.Result)
	done := make(chan error)
	go func() { done <- p.Run(ch) }()
	for r := range ch {
		fmt.Println(r.Commit, digest(r))
	}
	if err := <-done; err != nil {
		fmt.Println("error", err)
	}
}
