package main

import (
	"crypto/sha256"
	"encoding/gob"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"github.com/pinpt/ripsrc/ripsrc/history3/process/repo"
)

func init() {
	kinds["crash"] = scnCrash
}

// A step of a plan: a run that is disturbed at an operation on files.
type crashStep struct {
	Op   string `json:"op"`   // incl, full
	Mode string `json:"mode"` // kill, cut, fail, sticky, none
	At   string `json:"at"`   // label@occurrence or number of operation
}

type crashPlan struct {
	Start string      `json:"start"` // none, old
	Steps []crashStep `json:"steps"`
}

type crashArg struct {
	Plans  []crashPlan `json:"plans"`
	Slice  int         `json:"slice"` // all operations with number = slice modulo of
	Of     int         `json:"of"`
	Modes  []string    `json:"modes"`
	Start  string      `json:"start"`
	Op     string      `json:"op"`
	Big    bool        `json:"big"`
	Max    int         `json:"max"`
	Chains int         `json:"chains"`
}

type crashSub struct {
	Dir, Ckpt, From, Kind, Out string
	Strict                     bool
}

// subCrash is the disturbed process: the run, results are written to a file as they arrive.
func subCrash(arg string) {
	var a crashSub
	must(json.Unmarshal([]byte(arg), &a))
	f, err := os.Create(a.Out)
	must(err)
	enc := gob.NewEncoder(f)
	po := process.Opts{Logger: nullLogger{}, RepoDir: a.Dir, CheckpointsDir: a.Ckpt, NoStrictResume: !a.Strict, CommitFromMakeNonIncl: a.Kind == "nonincl"}
	if a.Kind != "full" {
		po.CommitFromIncl = a.From
	}
	p := process.New(po)
	ch := make(chan process.Result)
	done := make(chan error)
	go func() { done <- p.Run(ch) }()
	for r := range ch {
		for p, b := range r.Files {
			if b == nil {
				r.Files[p] = &incblame.Blame{}
			}
		}
		must(enc.Encode(crashMsg{Res: &r}))
	}
	if err := <-done; err != nil {
		must(enc.Encode(crashMsg{Err: err.Error()}))
		return
	}
	must(enc.Encode(crashMsg{End: true}))
}

type crashMsg struct {
	Res *process.Result
	Err string
	End bool
}

// diskState tells what the reader makes of the checkpoint: none, err, panic or ok with a digest of the content and the version.
func (s *Scn) diskState(dir string) (st string, content string, version int) {
	loc := filepath.Join(dir, "pp-git-cache")
	defer func() {
		if e := recover(); e != nil {
			if he, is := e.(harnessErr); is {
				panic(he)
			}
			st = "panic"
		}
	}()
	_, err := repo.NewCheckpointReader(nullLogger{}).Read(loc, "-")
	if e, is := err.(repo.ErrCheckpointNotExpected); is {
		version = s.h.num(e.HaveCommit)
		if version == 0 {
			version = -1
		}
	}
	r, err := repo.NewCheckpointReader(nullLogger{}).Read(loc, "")
	if err != nil {
		if _, err := os.Stat(loc); err != nil {
			return "none", "", version
		}
		return "err", "", version
	}
	var cs []string
	for c := range r {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	h := sha256.New()
	for _, c := range cs {
		fmt.Fprintf(h, "%v %v\n", c, digest(process.Result{Commit: c, Files: r[c]}))
	}
	return "ok", hex.EncodeToString(h.Sum(nil)), version
}

type crashEnv struct {
	*Scn
	e       *Env
	ids     *Ids
	old     string // directory with the earlier checkpoint
	oldLast int
	heads   []int
	next    int // HEAD of the run after all of it, or 0
	n       int
	errnos  []int
}

func (s *crashEnv) disk(role, op, err, dir string) string {
	st, c, v := s.diskState(dir)
	id := 0
	if st == "ok" {
		id = s.ids.get(c)
	}
	s.t.emit(obj{"e": "disk", "role": role, "op": op, "err": err, "st": st, "id": id, "v": v})
	return st
}

func (s *crashEnv) opRun(op string, ck string) Run {
	r := Run{Kind: "full", Heads: s.heads, Strict: true, Ckpt: ck, Cmp: 1}
	if op == "incl" {
		r.Kind = "incl"
		r.From = s.oldLast
	}
	return r
}

// traced runs the operation in another process which is disturbed. Returns the operations that were seen, and if it was hit.
func (s *crashEnv) traced(op, ck, mode, at string, errno int) (labels []string, hit bool, es string) {
	s.runs++
	o := s.opRun(op, ck)
	a := crashSub{Dir: s.h.repo.Dir, Ckpt: ck, Kind: o.Kind, Strict: true, Out: filepath.Join(s.dir, "sub.gob")}
	if o.From != 0 {
		a.From = s.h.sha(o.From)
	}
	v, cs, ok := s.readCkpt(ck)
	s.t.emit(obj{"e": "run", "kind": o.Kind, "from": o.From, "heads": o.Heads, "strict": true, "rep": 0, "cmp": 1, "lax": true, "haveck": ok, "v": v, "cs": cs})
	arg, err := json.Marshal(a)
	must(err)
	log := filepath.Join(s.dir, "ops.log")
	must(ioutil.WriteFile(log, nil, 0666))
	must(ioutil.WriteFile(a.Out, nil, 0666))
	if at == "" {
		at = "-"
	}
	m := map[string]string{"kill": "k", "cut": "c", "fail": "f", "sticky": "s", "none": "r"}[mode]
	c := exec.Command(filepath.Join(filepath.Dir(os.Args[0]), "fscrash"), ck, log, m, at, fmt.Sprint(errno), "--", os.Args[0], "sub", "crash", string(arg))
	var stderr strings.Builder
	c.Stderr = &stderr
	mark("run_begin")
	err = c.Run()
	mark("run_end")
	code := 0
	if ee, is := err.(*exec.ExitError); is {
		code = ee.ExitCode()
	} else {
		must(err)
	}
	if code == 125 || code == 126 {
		panic(harnessErr{fmt.Errorf("fscrash: %v", stderr.String())})
	}
	b, err := ioutil.ReadFile(log)
	must(err)
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Split(l, " ")
		if len(f) != 3 {
			continue
		}
		labels = append(labels, f[0])
		hit = hit || f[2] == "x"
	}
	es = "killed"
	f, err := os.Open(a.Out)
	must(err)
	dec := gob.NewDecoder(f)
	for {
		var m crashMsg
		if dec.Decode(&m) != nil {
			break
		}
		if m.Res != nil {
			n := s.h.num(m.Res.Commit)
			if n == 0 {
				n = -1
			}
			s.result(n, *m.Res)
		}
		if m.Err != "" {
			es = "other"
		}
		if m.End {
			es = "none"
		}
	}
	must(f.Close())
	if es == "killed" && code != 137 {
		if strings.Contains(stderr.String(), "HARNESS") || !strings.Contains(stderr.String(), "/repo/ripsrc/") {
			panic(harnessErr{fmt.Errorf("disturbed run: %v %v", code, stderr.String())})
		}
		// panic of the code under test
		s.t.emit(obj{"e": "crash", "msg": stderr.String()})
	}
	v2, cs2, ok2 := s.readCkpt(ck)
	s.t.emit(obj{"e": "end", "err": es, "msg": "", "haveck": ok2, "v": v2, "cs": cs2, "at": at, "mode": mode})
	return
}

func copyDir(from, to string) {
	must(os.MkdirAll(to, 0777))
	es, err := ioutil.ReadDir(from)
	must(err)
	for _, e := range es {
		a, b := filepath.Join(from, e.Name()), filepath.Join(to, e.Name())
		if e.IsDir() {
			copyDir(a, b)
			continue
		}
		data, err := ioutil.ReadFile(a)
		must(err)
		must(ioutil.WriteFile(b, data, 0666))
	}
}

// fresh is a new checkpoint directory with the state that a plan starts with.
func (s *crashEnv) fresh(start string) string {
	s.n++
	ck := filepath.Join(s.dir, fmt.Sprintf("ck%d", s.n))
	must(os.MkdirAll(ck, 0777))
	if start == "old" {
		copyDir(s.old, ck)
	}
	return ck
}

func (s *crashEnv) plan(p crashPlan) (labels []string) {
	ck := s.fresh(p.Start)
	s.disk("start", "", "none", ck)
	for _, st := range p.Steps {
		l, hit, es := s.traced(st.Op, ck, st.Mode, st.At, s.errnos[s.e.R.Intn(len(s.errnos))])
		labels = l
		role := "disturbed"
		if !hit {
			role = "normal"
		}
		s.disk(role, st.Op, es, ck)
	}
	// the next run of the user
	op := "incl"
	if p.Start == "none" && chance(s.e.R, 0.5) {
		op = "full"
	}
	o := s.opRun(op, ck)
	o.Lax = op == "incl"
	_, err := s.run(o)
	es := "none"
	if err != nil {
		es = "other"
	}
	s.disk("after", op, es, ck)
	// a complete run, whatever is left in the directory
	_, err = s.run(s.opRun("full", ck))
	es = "none"
	if err != nil {
		es = "other"
	}
	s.disk("after", "full", es, ck)
	if s.next != 0 && err == nil {
		_, _, v := s.diskState(ck)
		if v > 0 {
			s.setHead(s.next - 1)
			_, err = s.run(Run{Kind: "incl", From: v, Heads: []int{s.next}, Strict: true, Ckpt: ck, Cmp: 1})
			s.setHead(s.heads[0] - 1)
		}
	}
	must(os.RemoveAll(ck))
	return
}

func (s *crashEnv) setHead(c int) {
	s.h.repo.SetRefs(map[string]int{"refs/heads/master": c}, "refs/heads/master")
}

func scnCrash(e *Env) {
	a := crashArg{}
	e.arg(&a)
	r := e.randomRepo(procArg{Commits: 4 + e.R.Intn(6), Big: a.Big})
	h := extract(r)
	emitHistory(e.T, h)
	s := &crashEnv{Scn: e.scn(h), e: e, ids: newIds(), errnos: []int{5, 28, 13}}
	n := len(r.Commits)
	s.short = true
	s.run(Run{Kind: "full", Heads: r.SetAllTips(), All: true, Strict: true, Ckpt: e.ckptDir("ckref")})
	// HEAD at the time of the earlier run, of the disturbed run, and after it
	c2 := n - 1
	if chance(e.R, 0.6) {
		c2 = n/2 + e.R.Intn(n-n/2)
	}
	anc := []int{}
	for c := 0; c < n; c++ {
		if c != c2 && r.reach(c2)[c] {
			anc = append(anc, c)
		}
	}
	c1 := c2
	if len(anc) > 0 {
		c1 = anc[e.R.Intn(len(anc))]
	}
	for c := n - 1; c > c2; c-- {
		if r.reach(c)[c2] {
			s.next = c + 1
			break
		}
	}
	s.old = e.ckptDir("old")
	s.setHead(c1)
	s.oldLast = c1 + 1
	s.heads = []int{c1 + 1}
	s.run(s.opRun("full", s.old))
	s.setHead(c2)
	s.heads = []int{c2 + 1}
	// undisturbed
	for _, op := range []string{"full", "incl"} {
		ck := s.fresh("old")
		_, err := s.run(s.opRun(op, ck))
		es := "none"
		if err != nil {
			es = "other"
		}
		s.disk("ref", op, es, ck)
		must(os.RemoveAll(ck))
	}
	for _, p := range a.Plans {
		s.plan(p)
	}
	if a.Of > 0 {
		ck := s.fresh(a.Start)
		s.disk("start", "", "none", ck)
		labels, _, es := s.traced(a.Op, ck, "none", "", 0)
		s.disk("normal", a.Op, es, ck)
		must(os.RemoveAll(ck))
		if a.Max > 0 && len(labels) > a.Max {
			// too many to try all of them
			a.Of = a.Of * len(labels) / a.Max
			a.Slice = e.R.Intn(a.Of)
		}
		k := 0
		for _, mode := range a.Modes {
			for i, l := range labels {
				if mode == "cut" && !strings.HasPrefix(l, "write:") {
					continue
				}
				k++
				if k%a.Of != a.Slice {
					continue
				}
				s.plan(crashPlan{Start: a.Start, Steps: []crashStep{{Op: a.Op, Mode: mode, At: fmt.Sprintf("#%d", i+1)}}})
			}
		}
		for i := 0; i < a.Chains; i++ {
			p := crashPlan{Start: a.Start}
			for j := 2 + e.R.Intn(2); j > 0; j-- {
				op := "full"
				if a.Start == "old" && chance(e.R, 0.5) {
					op = "incl"
				}
				p.Steps = append(p.Steps, crashStep{Op: op, Mode: a.Modes[e.R.Intn(len(a.Modes))], At: fmt.Sprintf("#%d", 1+e.R.Intn(len(labels)))})
			}
			s.plan(p)
		}
	}
}
