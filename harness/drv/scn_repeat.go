package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/branches2"
	"github.com/pinpt/ripsrc/ripsrc/commitmeta"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"github.com/pinpt/ripsrc/ripsrc/parentsgraph"
)

func init() {
	kinds["repeat"] = scnRepeat
}

// Analysis is one call with parameters.
type Analysis struct {
	What   string // process, meta, code, bycommit, branches, graph
	Dir    string
	Ckpt   string
	All    bool
	Kind   string
	From   string
	Origin bool
	PRs    []string
	Graph  bool // supply the graph
	Conc   int

	graph *parentsgraph.Graph // supply this one
	obj   *ripsrc.Ripsrc      // make the call on this object
}

func (a Analysis) readGraph(all bool) (*parentsgraph.Graph, error) {
	if a.graph != nil {
		return a.graph, nil
	}
	g := parentsgraph.New(parentsgraph.Opts{RepoDir: a.Dir, AllBranches: all, Logger: nullLogger{}})
	return g, g.Read()
}

func (a Analysis) object(o ripsrc.Opts) *ripsrc.Ripsrc {
	if a.obj != nil {
		return a.obj
	}
	return ripsrc.New(o)
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		// A moment whose offset is a day or more has no JSON form.
		b, err = json.Marshal(plain(reflect.ValueOf(v)))
	}
	must(err)
	return string(b)
}

// plain returns v with its moments as text.
func plain(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return plain(v.Elem())
	case reflect.Slice, reflect.Array:
		res := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			res = append(res, plain(v.Index(i)))
		}
		return res
	case reflect.Map:
		res := map[string]interface{}{}
		for _, k := range v.MapKeys() {
			res[fmt.Sprint(k.Interface())] = plain(v.MapIndex(k))
		}
		return res
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			_, zone := t.Zone()
			return []interface{}{t.Unix(), t.Nanosecond(), zone}
		}
		res := map[string]interface{}{}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				res[v.Type().Field(i).Name] = plain(v.Field(i))
			}
		}
		return res
	}
	return v.Interface()
}

// observe makes the call, and returns everything that was delivered as text.
func (a Analysis) observe() (res []string, err error) {
	kind := a.Kind
	switch a.What {
	case "graph":
		g := parentsgraph.New(parentsgraph.Opts{RepoDir: a.Dir, AllBranches: a.All, Logger: nullLogger{}})
		err = g.Read()
		for c, ps := range g.Parents {
			res = append(res, js([]interface{}{c, ps, g.Children[c]}))
		}
		sort.Strings(res)
	case "process":
		o := process.Opts{Logger: nullLogger{}, RepoDir: a.Dir, CheckpointsDir: a.Ckpt, AllBranches: a.All, NoStrictResume: true, CommitFromIncl: a.From, CommitFromMakeNonIncl: kind == "nonincl"}
		if a.Graph {
			g, err := a.readGraph(a.All)
			if err != nil {
				return nil, err
			}
			o.ParentsGraph = g
		}
		p := process.New(o)
		ch := make(chan process.Result)
		done := make(chan error, 1)
		go func() { done <- p.Run(ch) }()
		for r := range ch {
			res = append(res, r.Commit+" "+digest(r))
			mark("progress")
		}
		err = <-done
	case "meta":
		o := commitmeta.Opts{AllBranches: a.All, CommitFromIncl: a.From, CommitFromMakeNonIncl: kind == "nonincl"}
		ch := make(chan commitmeta.Commit)
		done := make(chan error, 1)
		go func() { done <- commitmeta.New(a.Dir, o).Run(ch) }()
		for c := range ch {
			res = append(res, js(c))
			mark("progress")
		}
		err = <-done
	case "code", "bycommit":
		o := ripsrc.Opts{Logger: nullLogger{}, RepoDir: a.Dir, CheckpointsDir: a.Ckpt, AllBranches: a.All, NoStrictResume: true, CommitFromIncl: a.From, CommitFromMakeNonIncl: kind == "nonincl"}
		rs := a.object(o)
		done := make(chan error, 1)
		cur, files := "", []string{}
		flush := func() {
			if len(files) != 0 {
				sort.Strings(files)
				res = append(res, cur+" "+strings.Join(files, " "))
			}
			files = nil
		}
		rec := func(b ripsrc.BlameResult) {
			if b.Commit.SHA != cur {
				flush()
				cur = b.Commit.SHA
			}
			files = append(files, js(b))
			mark("progress")
		}
		if a.What == "code" {
			ch := make(chan ripsrc.BlameResult)
			go func() { done <- rs.Code(bg, ch) }()
			for b := range ch {
				rec(b)
			}
		} else {
			ch := make(chan ripsrc.CommitCode)
			go func() { done <- rs.CodeByCommit(bg, ch) }()
			for c := range ch {
				flush()
				res = append(res, "commit "+js(c.Commit))
				for b := range c.Blames {
					rec(b)
				}
			}
		}
		flush()
		err = <-done
	case "branches":
		ch := make(chan branches2.Branch)
		done := make(chan error, 1)
		if a.Conc == 0 {
			rs := a.object(ripsrc.Opts{Logger: nullLogger{}, RepoDir: a.Dir, AllBranches: true, BranchesUseOrigin: a.Origin, PullRequestSHAs: a.PRs})
			go func() { done <- rs.Branches(bg, ch) }()
		} else {
			g, err := a.readGraph(true)
			if err != nil {
				return nil, err
			}
			p := branches2.New(branches2.Opts{Logger: nullLogger{}, IncludeDefaultBranch: true, Concurrency: a.Conc, RepoDir: a.Dir, CommitGraph: g, UseOrigin: a.Origin, PullRequestSHAs: a.PRs})
			go func() { done <- p.Run(bg, ch) }()
		}
		for b := range ch {
			res = append(res, js(b))
			mark("progress")
		}
		err = <-done
		sort.Strings(res)
	default:
		panic(harnessErr{fmt.Errorf("unknown analysis %v", a.What)})
	}
	return
}

type subRes struct {
	Res []string
	Err string
}

func subObserve(arg string) {
	var as []Analysis
	must(json.Unmarshal([]byte(arg), &as))
	for _, a := range as {
		res, err := a.observe()
		fmt.Println("\n@@" + js(subRes{res, errStr(err)}))
	}
}

// snapshot describes everything in the repository, except for the cache directory.
func snapshot(dir string) string {
	h := sha256.New()
	must(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		must(err)
		rel, err := filepath.Rel(dir, p)
		must(err)
		if rel == "pp-git-cache" {
			return filepath.SkipDir
		}
		mt := fi.ModTime().UnixNano()
		if rel == "." {
			mt = 0 // the cache directory is created here
		}
		fmt.Fprintf(h, "%q %v %d %d\n", rel, fi.Mode(), fi.Size(), mt)
		switch {
		case fi.Mode().IsRegular():
			b, err := ioutil.ReadFile(p)
			must(err)
			h.Write(b)
		case fi.Mode()&os.ModeSymlink != 0:
			l, err := os.Readlink(p)
			must(err)
			h.Write([]byte(l))
		}
		return nil
	}))
	return hex.EncodeToString(h.Sum(nil))
}

type repeatArg struct {
	procArg
	Configs [][][2]string `json:"configs"`
	Runs    bool          `json:"runs"`
}

// config writes the settings as global configuration and environment, and makes the code under test use it.
func (e *Env) config(set [][2]string) (restore func()) {
	restore = func() { must(os.Setenv("GIT_CONFIG_GLOBAL", "/dev/null")) }
	var env [][2]string
	loc := filepath.Join(e.Dir, "gitconfig")
	must(ioutil.WriteFile(loc, nil, 0666))
	file := func(name, text string) string {
		f := filepath.Join(e.Dir, name)
		must(ioutil.WriteFile(f, []byte(text), 0666))
		return f
	}
	for i, kv := range set {
		v := kv[1]
		switch {
		case strings.HasPrefix(v, "$FILE:"):
			v = file(fmt.Sprintf("cfg%d", i), strings.Replace(v[len("$FILE:"):], "\\n", "\n", -1)+"\n")
		case strings.HasPrefix(v, "$COMMITS"):
			v = file(fmt.Sprintf("cfg%d", i), string(git(filepath.Join(e.state["dir"].(string)), nil, "rev-list", "--all")))
		}
		if strings.HasPrefix(kv[0], "$ENV:") {
			name := kv[0][len("$ENV:"):]
			old, had := os.LookupEnv(name)
			undo := restore
			restore = func() {
				if had {
					must(os.Setenv(name, old))
				} else {
					must(os.Unsetenv(name))
				}
				undo()
			}
			env = append(env, [2]string{name, v})
			continue
		}
		git(e.Dir, nil, "config", "-f", loc, "--add", kv[0], v)
	}
	must(os.Setenv("GIT_CONFIG_GLOBAL", loc))
	for _, kv := range env {
		must(os.Setenv(kv[0], kv[1]))
	}
	return restore
}

func scnRepeat(e *Env) {
	a := repeatArg{}
	a.All = -1
	e.arg(&a)
	r := e.randomRepo(a.procArg)
	e.state = map[string]interface{}{"dir": r.Dir}
	all := chance(e.R, 0.6)
	n := len(r.Commits)
	if chance(e.R, 0.5) {
		e.randomRefs(r)
		r.SetRefs(r.Refs, r.Head)
	}
	if a.Runs && chance(e.R, 0.5) && !strings.HasSuffix(r.Dir, ".git") {
		// with files in the working copy, which the index does not know about yet
		if _, err := gitMayFail(r.Dir, "reset", "-q", "--hard"); err == nil {
			ents, err := ioutil.ReadDir(r.Dir)
			must(err)
			for _, f := range ents {
				if f.Mode().IsRegular() {
					p := filepath.Join(r.Dir, f.Name())
					now := time.Now().Add(-time.Hour)
					must(os.Chtimes(p, now, now))
				}
			}
		}
	}
	if len(a.Configs) != 0 && chance(e.R, 0.6) {
		// the repository uses diff drivers, which the user may have defined in some way
		f := filepath.Join(r.Dir, ".gitattributes")
		if strings.HasSuffix(r.Dir, ".git") {
			must(os.MkdirAll(filepath.Join(r.Dir, "info"), 0777))
			f = filepath.Join(r.Dir, "info", "attributes")
		}
		must(ioutil.WriteFile(f, []byte([]string{"* diff=up\n", "* diff=cpp\n", "* diff=up\n*.go diff=cpp\n*b* -diff\n"}[e.R.Intn(3)]), 0666))
	}
	var prs []string
	for i := 0; i < e.R.Intn(4); i++ {
		prs = append(prs, r.Shas[e.R.Intn(n)])
	}
	var as []Analysis
	ck := 0
	ckpt := func() string {
		ck++
		if a.Runs && chance(e.R, 0.3) {
			return "" // inside the repository
		}
		return e.ckptDir(fmt.Sprintf("ck%d", ck))
	}
	in := r.reach(r.Refs[r.Head])
	var from string
	for _, i := range e.R.Perm(n) {
		if in[i] {
			from = r.Shas[i]
		}
	}
	kind := []string{"incl", "nonincl"}[e.R.Intn(2)]
	c1 := ckpt()
	as = append(as,
		Analysis{What: "graph", All: all},
		Analysis{What: "process", All: all, Kind: "full", Ckpt: c1},
		Analysis{What: "process", Kind: kind, From: from, Ckpt: c1},
		Analysis{What: "meta", All: all, Kind: "full"},
		Analysis{What: "meta", Kind: kind, From: from},
		Analysis{What: "branches", PRs: prs, Origin: chance(e.R, 0.4)})
	if chance(e.R, 0.5) {
		as = append(as, Analysis{What: "code", All: all, Kind: "full", Ckpt: ckpt()})
	} else {
		as = append(as, Analysis{What: "bycommit", All: all, Kind: "full", Ckpt: ckpt()})
	}
	ids := newIds()
	reset := func() {
		// every round starts from the same checkpoints
		for i := 1; i <= ck; i++ {
			must(os.RemoveAll(filepath.Join(e.Dir, fmt.Sprintf("ck%d", i))))
			e.ckptDir(fmt.Sprintf("ck%d", i))
		}
		must(os.RemoveAll(filepath.Join(r.Dir, "pp-git-cache")))
	}
	emit := func(k int, vary string, cfg interface{}, res []string, msg string) {
		o := []int{}
		for _, s := range res {
			o = append(o, ids.get(s))
		}
		e.T.emit(obj{"e": "robs", "k": k + 1, "what": as[k].What, "var": vary, "cfg": cfg, "o": o, "err": msg != "", "msg": msg})
	}
	round := func(vary string, cfg interface{}, change func(a *Analysis)) {
		reset()
		for k, x := range as {
			x.Dir = r.Dir
			if change != nil {
				change(&x)
			}
			mark("run_begin")
			res, err := x.observe()
			mark("run_end")
			emit(k, vary, cfg, res, errStr(err))
		}
	}
	none := []int{}
	if a.Runs && chance(e.R, 0.5) {
		// What this process has seen of an earlier state of the repository has no influence.
		refs := r.Refs
		r.SetRefs(map[string]int{r.Head: e.R.Intn(n)}, r.Head)
		for _, x := range as {
			x.Dir = r.Dir
			mark("run_begin")
			x.observe()
			mark("run_end")
		}
		r.SetRefs(refs, r.Head)
	}
	before := snapshot(r.Dir)
	round("first", none, nil)
	for _, c := range a.Configs {
		restore := e.config(c)
		round("config", c, nil)
		restore()
	}
	if a.Runs {
		round("again", none, nil)
		graphs := map[bool]*parentsgraph.Graph{}
		for k := 0; k < 2; k++ {
			round("supplied", none, func(a *Analysis) {
				a.Graph = true
				if a.What == "branches" {
					a.Conc = 1 + e.R.Intn(40)
				}
				if a.What == "process" || a.What == "branches" {
					// the same one for all calls
					w := a.All || a.What == "branches"
					if graphs[w] == nil {
						g, err := a.readGraph(w)
						must(err)
						graphs[w] = g
					}
					a.graph = graphs[w]
				}
			})
		}
		objs := map[int]*ripsrc.Ripsrc{}
		for k := 0; k < 2; k++ {
			n := 0
			round("object", none, func(a *Analysis) {
				n++
				switch a.What {
				case "code", "bycommit":
					if objs[n] == nil {
						objs[n] = ripsrc.New(ripsrc.Opts{Logger: nullLogger{}, RepoDir: a.Dir, CheckpointsDir: a.Ckpt, AllBranches: a.All, NoStrictResume: true})
					}
				case "branches":
					if objs[n] == nil {
						objs[n] = ripsrc.New(ripsrc.Opts{Logger: nullLogger{}, RepoDir: a.Dir, AllBranches: true, BranchesUseOrigin: a.Origin, PullRequestSHAs: a.PRs})
					}
				}
				a.obj = objs[n]
			})
		}
		for _, procs := range []string{"1", "16"} {
			reset()
			xs := append([]Analysis{}, as...)
			for k := range xs {
				xs[k].Dir = r.Dir
			}
			c := exec.Command(os.Args[0], "sub", "observe", js(xs))
			c.Env = append(os.Environ(), "GOMAXPROCS="+procs, "LANG=de_DE.UTF-8", "TZ=Asia/Tokyo")
			c.Dir = "/"
			c.Stderr = os.Stderr
			mark("run_begin")
			out, err := c.Output()
			mark("run_end")
			if err != nil {
				// the same calls worked before
				e.T.emit(obj{"e": "crash", "msg": err.Error()})
				return
			}
			k := 0
			for _, l := range strings.Split(string(out), "\n") {
				if !strings.HasPrefix(l, "@@") {
					continue // not ours
				}
				var y subRes
				must(json.Unmarshal([]byte(l[2:]), &y))
				emit(k, "process", none, y.Res, y.Err)
				k++
			}
		}
	}
	e.T.emit(obj{"e": "snap", "before": ids.get(before), "after": ids.get(snapshot(r.Dir))})
}
