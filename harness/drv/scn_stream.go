package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/branches2"
	"github.com/pinpt/ripsrc/ripsrc/commitmeta"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
)

func init() {
	kinds["stream"] = scnStream
}

// streamCase is one call together with the behaviour of its consumer and of git.
type streamCase struct {
	What   string   `json:"what"`   // process, meta, code, bycommit, branches
	Kind   string   `json:"kind"`   // full, incl, nonincl
	End    string   `json:"end"`    // how the call ends: "" (well), or reason for an error
	Cap    int      `json:"cap"`    // size of the buffer of the output
	Script []string `json:"script"` // what the consumer does, repeated
	Procs  int      `json:"procs"`
	Fault  int      `json:"fault"` // number of the git call that fails, or 0
	Cut    string   `json:"cut"`   // what is left of the output of the failed call
	At     int      `json:"at"`    // per mille of the output
	Slice  bool     `json:"slice"` // the variant which returns all at once
}

type streamArg struct {
	procArg
	Cases []streamCase `json:"cases"`
}

// item is one thing received, c is the group it belongs to.
type item struct{ c, o int }

type streamEnv struct {
	e    *Env
	r    *Repo
	num  map[string]int
	ids  *Ids
	all  bool
	from int
	base string // complete checkpoint
	old  string // checkpoint of an older state of the history
	dirs int
	refs map[string]int
	pos  map[string]int         // order of the commits of metadata in the reference call
	poss map[int]map[string]int // by reference
	note bool
}

// call is something that can be started and read.
type call struct {
	ch    reflect.Value
	start func() error
	// conv returns what was received, and the inner stream if there is one
	conv func(v interface{}) (item, reflect.Value)
	flat bool
}

func (s *streamEnv) group(sha string) int { return safeNum(s.num, sha) }

func (s *streamEnv) ckpt(from string) string {
	s.dirs++
	d := s.e.ckptDir(fmt.Sprintf("cks%d", s.dirs))
	if from != "" {
		out, err := exec.Command("cp", "-r", from+"/.", d).CombinedOutput()
		if err != nil {
			panic(harnessErr{fmt.Errorf("%v %s", err, out)})
		}
	}
	return d
}

type callOpts struct {
	dir, ckpt, kind, from string
	all, strict           bool
	ch                    int
}

// object on which a call can be made more than once
type object struct {
	rs *ripsrc.Ripsrc
	cm *commitmeta.Processor
	po process.Opts
}

func newObject(o callOpts) *object {
	x := &object{}
	ni := o.kind == "nonincl"
	from := o.from
	if o.kind == "full" {
		from = ""
	}
	x.rs = ripsrc.New(ripsrc.Opts{Logger: nullLogger{}, RepoDir: o.dir, CheckpointsDir: o.ckpt, AllBranches: o.all, NoStrictResume: !o.strict, CommitFromIncl: from, CommitFromMakeNonIncl: ni})
	x.cm = commitmeta.New(o.dir, commitmeta.Opts{AllBranches: o.all, CommitFromIncl: from, CommitFromMakeNonIncl: ni})
	x.po = process.Opts{Logger: nullLogger{}, RepoDir: o.dir, CheckpointsDir: o.ckpt, AllBranches: o.all, NoStrictResume: !o.strict, CommitFromIncl: from, CommitFromMakeNonIncl: ni}
	return x
}

func (s *streamEnv) call(x *object, what string, size int) call {
	none := reflect.Value{}
	switch what {
	case "process":
		ch := make(chan process.Result, size)
		return call{reflect.ValueOf(ch), func() error { return process.New(x.po).Run(ch) }, func(v interface{}) (item, reflect.Value) {
			r := v.(process.Result)
			return item{s.group(r.Commit), s.ids.get(r.Commit + " " + digest(r))}, none
		}, true}
	case "meta":
		ch := make(chan commitmeta.Commit, size)
		return call{reflect.ValueOf(ch), func() error { return x.cm.Run(ch) }, func(v interface{}) (item, reflect.Value) {
			r := v.(commitmeta.Commit)
			if s.note {
				s.pos[r.SHA] = len(s.pos)
			}
			return item{s.group(r.SHA), s.ids.get(js(r))}, none
		}, true}
	case "branches":
		ch := make(chan branches2.Branch, size)
		return call{reflect.ValueOf(ch), func() error { return x.rs.Branches(bg, ch) }, func(v interface{}) (item, reflect.Value) {
			// in any order
			return item{0, s.ids.get(js(v))}, none
		}, true}
	case "code":
		ch := make(chan ripsrc.BlameResult, size)
		return call{reflect.ValueOf(ch), func() error { return x.rs.Code(bg, ch) }, func(v interface{}) (item, reflect.Value) {
			r := v.(ripsrc.BlameResult)
			return item{s.group(r.Commit.SHA), s.ids.get(js(r))}, none
		}, true}
	case "bycommit":
		ch := make(chan ripsrc.CommitCode, size)
		return call{reflect.ValueOf(ch), func() error { return x.rs.CodeByCommit(bg, ch) }, func(v interface{}) (item, reflect.Value) {
			r := v.(ripsrc.CommitCode)
			return item{s.group(r.Commit.SHA), s.ids.get(js(r.Commit))}, reflect.ValueOf(r.Blames)
		}, false}
	}
	panic(harnessErr{fmt.Errorf("unknown call %v", what)})
}

// slice makes the variant of the call which returns all at once, what it returns is then read like
// the output of the other one.
func (s *streamEnv) slice(x *object, what string) call {
	c := s.call(x, what, 0)
	if !c.flat {
		return c
	}
	c.start = func() (err error) {
		defer c.ch.Close()
		var res interface{}
		switch what {
		case "process":
			res, err = process.New(x.po).RunGetAll()
		case "meta":
			if s.e.R.Intn(2) == 0 {
				var m map[string]commitmeta.Commit
				m, err = x.cm.RunMap()
				var l []commitmeta.Commit
				for k, v := range m {
					if k != v.SHA {
						v.SHA = k
					}
					l = append(l, v)
				}
				sort.Slice(l, func(i, j int) bool { return s.pos[l[i].SHA] < s.pos[l[j].SHA] })
				res = l
			} else {
				res, err = x.cm.RunSlice()
			}
		case "branches":
			res, err = x.rs.BranchesSlice(bg)
		case "code":
			res, err = x.rs.CodeSlice(bg)
		}
		v := reflect.ValueOf(res)
		for i := 0; i < v.Len(); i++ {
			c.ch.Send(v.Index(i))
		}
		return
	}
	return c
}

// consume makes the call and reads the output in the way of the script.
func (s *streamEnv) consume(c call, script []string, ev string) (err error) {
	t := s.e.T
	r := s.e.R
	if len(script) == 0 {
		script = []string{"r"}
	}
	pos := 0
	act := func() string {
		pos++
		return script[(pos-1)%len(script)]
	}
	pause := func() { time.Sleep(time.Duration(200+r.Intn(2500)) * time.Microsecond) }
	done := make(chan error, 1)
	mark("run_begin")
	go func() { done <- c.start() }()
	returned, closed, told := false, false, false
	var inner func(st reflect.Value, a string)
	got := func(v reflect.Value) {
		it, st := c.conv(v.Interface())
		mark("progress")
		if c.flat {
			t.emit(obj{"e": ev + "item", "c": it.c, "o": it.o})
			return
		}
		t.emit(obj{"e": ev + "com", "c": it.c, "o": it.o})
		if !st.IsNil() {
			inner(st, act())
		}
	}
	inner = func(st reflect.Value, a string) {
		if a == "p" {
			// ask for the next commit first
			tm := time.NewTimer(time.Duration(1+r.Intn(3)) * time.Millisecond)
			defer tm.Stop()
			n, v, ok := reflect.Select([]reflect.SelectCase{{Dir: reflect.SelectRecv, Chan: c.ch}, {Dir: reflect.SelectRecv, Chan: reflect.ValueOf(tm.C)}})
			if n == 0 {
				// the files of the previous one are not read yet, there must not be any
				x, more := st.TryRecv()
				if x.IsValid() && !more {
					t.emit(obj{"e": ev + "fend"})
				}
				if ok {
					got(v)
				} else {
					t.emit(obj{"e": ev + "close"})
				}
				if x.IsValid() && !more {
					if !ok {
						closed, told = true, true
					}
					return
				}
				if x.IsValid() {
					t.emit(obj{"e": ev + "file", "o": s.ids.get(js(x.Interface()))})
				}
			}
		}
		for {
			if a == "w" {
				pause()
			}
			x, ok := st.Recv()
			if !ok {
				t.emit(obj{"e": ev + "fend"})
				return
			}
			t.emit(obj{"e": ev + "file", "o": s.ids.get(js(x.Interface()))})
			mark("progress")
		}
	}
	for !closed {
		switch act() {
		case "w":
			pause()
		case "g":
			runtime.Gosched()
		case "l":
			// everything that can be done without the consumer is done
			time.Sleep(8 * time.Millisecond)
		}
		if !returned {
			n, v, ok := reflect.Select([]reflect.SelectCase{{Dir: reflect.SelectRecv, Chan: c.ch}, {Dir: reflect.SelectRecv, Chan: reflect.ValueOf(done)}})
			if n == 0 {
				if !ok {
					closed = true
				} else {
					got(v)
				}
				continue
			}
			returned = true
			err, _ = v.Interface().(error)
		}
		// after it has returned there is only what is in the buffer
		v, ok := c.ch.TryRecv()
		if ok {
			got(v)
			continue
		}
		closed = v.IsValid()
		break
	}
	if closed && !told {
		t.emit(obj{"e": ev + "close"})
	}
	if !returned {
		err = <-done
	}
	mark("run_end")
	return
}

func (s *streamEnv) key(c streamCase, o callOpts) string {
	return fmt.Sprint(c.What, o.kind, o.all, o.from)
}

// reference is what is delivered when nothing special happens.
func (s *streamEnv) reference(c streamCase, o callOpts) int {
	k := s.key(c, o)
	if n, ok := s.refs[k]; ok {
		return n
	}
	s.refs[k] = len(s.refs) + 1
	o.ckpt = s.ckpt("")
	if o.kind != "full" {
		o.ckpt = s.ckpt(s.base)
	}
	o.strict = false
	g := [][]int{}
	for _, x := range s.r.Commits {
		ps := []int{}
		for _, q := range x.Parents {
			ps = append(ps, q+1)
		}
		g = append(g, ps)
	}
	s.e.T.emit(obj{"e": "sref", "k": s.refs[k], "what": c.What, "kind": o.kind, "from": s.from + 1, "heads": heads(s.r, o.all && o.kind == "full"), "g": g})
	cl := s.call(newObject(o), c.What, 0)
	s.pos, s.note = map[string]int{}, true
	err := s.consume(cl, nil, "r")
	s.poss[s.refs[k]], s.note = s.pos, false
	s.e.T.emit(obj{"e": "rret", "err": err != nil, "msg": errStr(err)})
	return s.refs[k]
}

func (s *streamEnv) run(c streamCase) {
	e := s.e
	o := callOpts{dir: s.r.Dir, kind: c.Kind, all: s.all || c.What == "branches", from: s.r.Shas[s.from]}
	if o.kind == "" {
		o.kind = "full"
	}
	if c.What == "meta" || c.What == "branches" {
		switch c.End {
		case "lacks", "nockpt", "mismatch", "noroom":
			c.End = ""
		}
	}
	if o.kind == "full" || c.What == "branches" {
		switch c.End {
		case "lacks", "nockpt", "mismatch", "unknown":
			// no checkpoint is read
			c.End = ""
		}
	}
	switch {
	case c.End == "notall" && c.What != "branches":
		c.End = ""
	case c.End == "noroom":
		o.kind = "full"
	}
	natural := c.End != ""
	ref := 0
	switch c.End {
	case "empty", "nodir", "unknown", "notall":
		// there is nothing to deliver
	default:
		ref = s.reference(c, o)
	}
	o.ckpt = s.ckpt("")
	if o.kind != "full" {
		o.ckpt = s.ckpt(s.base)
	}
	switch c.End {
	case "lacks":
		o.ckpt = s.ckpt(s.old)
	case "noroom":
		// there is a file where the directory should be
		o.ckpt = filepath.Join(e.Dir, "afile")
		must(ioutil.WriteFile(o.ckpt, []byte("x"), 0666))
	case "nockpt":
		o.ckpt = s.ckpt("")
	case "mismatch":
		o.strict = true
		o.ckpt = s.ckpt(s.old)
	case "empty":
		o.dir = filepath.Join(e.Dir, "emptyrepo")
		if _, err := os.Stat(o.dir); err != nil {
			must(os.MkdirAll(o.dir, 0777))
			initRepoDir(o.dir, false)
		}
		o.kind = "full"
	case "nodir":
		o.dir = filepath.Join(e.Dir, "missing")
		o.kind = "full"
	case "unknown":
		o.from = "0123456789012345678901234567890123456789"
	case "notall":
		o.all = false
	}
	if c.Procs != 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
	}
	x := newObject(o)
	shim := ""
	if c.Fault > 0 {
		s.dirs++
		shim = filepath.Join(e.Dir, fmt.Sprintf("shim%d", s.dirs))
		must(os.MkdirAll(shim, 0777))
		must(ioutil.WriteFile(filepath.Join(shim, "ctl"), []byte(js(c)), 0666))
		must(os.Setenv("VERIF_FAULT", strconv.Itoa(c.Fault)))
		must(os.Setenv("VERIF_SHIM", shim))
	}
	s.pos = s.poss[ref]
	made := func() call {
		if c.Slice {
			return s.slice(x, c.What)
		}
		return s.call(x, c.What, c.Cap)
	}
	e.T.emit(obj{"e": "sbegin", "ref": ref, "case": c, "group": c.What == "bycommit"})
	err := s.consume(made(), c.Script, "s")
	hit := false
	if shim != "" {
		must(os.Unsetenv("VERIF_SHIM"))
		_, e2 := os.Stat(filepath.Join(shim, "hit"))
		hit = e2 == nil
	}
	e.T.emit(obj{"e": "sret", "err": err != nil, "msg": errStr(err), "may": natural || hit})
	if err == nil || !hit || natural {
		return
	}
	// the same call once more, now without the failure
	e.T.emit(obj{"e": "sbegin", "ref": ref, "case": c, "group": c.What == "bycommit"})
	err = s.consume(made(), c.Script, "s")
	e.T.emit(obj{"e": "sret", "err": err != nil, "msg": errStr(err), "may": false})
}

func scnStream(e *Env) {
	var a streamArg
	a.All = -1
	e.arg(&a)
	p := RandomProfile(e.R)
	p.Commits = 3 + e.R.Intn(8)
	p.LongLineP = 0
	p.BigFileP = []float64{0, 0.3}[e.R.Intn(2)]
	if p.ForkP < 0.2 {
		p.ForkP = 0.3
	}
	r := Generate(e.R, p)
	e.build(r)
	n := len(r.Commits)
	if chance(e.R, 0.5) {
		e.randomRefs(r)
		r.SetRefs(r.Refs, r.Head)
	}
	s := &streamEnv{e: e, r: r, num: numbers(r), ids: newIds(), refs: map[string]int{}, poss: map[int]map[string]int{}, all: chance(e.R, 0.5)}
	in := r.reach(r.Refs[r.Head])
	for _, i := range e.R.Perm(n) {
		if in[i] {
			s.from = i
		}
	}
	// a complete checkpoint, and one which was made when only a part of the history was there
	s.base, s.old = e.ckptDir("ckbase"), e.ckptDir("ckold")
	full := func(dir string) {
		must(e.quiet(callOpts{dir: r.Dir, ckpt: dir, kind: "full"}))
	}
	full(s.base)
	var cs []int
	for c := range in {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	refs := map[string]int{}
	for k, v := range r.Refs {
		refs[k] = v
	}
	r.SetRefs(map[string]int{r.Head: cs[e.R.Intn(len(cs))]}, r.Head)
	full(s.old)
	r.SetRefs(refs, r.Head)
	for _, c := range a.Cases {
		s.run(c)
	}
}

// quiet makes a run of the history analysis without writing it to the trace.
func (e *Env) quiet(o callOpts) error {
	mark("run_begin")
	defer mark("run_end")
	x := newObject(o)
	ch := make(chan process.Result)
	done := make(chan error, 1)
	go func() { done <- process.New(x.po).Run(ch) }()
	for range ch {
	}
	return <-done
}

// shim replaces git: one of the calls fails, after some of its output was written.
func shim(args []string) {
	dir := os.Getenv("VERIF_SHIM")
	real := os.Getenv("VERIF_GIT")
	var c streamCase
	b, err := ioutil.ReadFile(filepath.Join(dir, "ctl"))
	must(err)
	must(json.Unmarshal(b, &c))
	cmd := exec.Command(real, args...)
	cmd.Stdin = os.Stdin
	out, _ := cmd.Output()
	must(ioutil.WriteFile(filepath.Join(dir, "hit"), []byte(strconv.Itoa(len(out))+" "+strings.Join(args, " ")), 0666))
	n := len(out) * c.At / 1000
	switch c.Cut {
	case "start":
		n = 0
	case "all":
		n = len(out)
	case "line":
		n = bytes.LastIndexByte(out[:n], '\n') + 1
	}
	os.Stdout.Write(out[:n])
	if c.At%2 == 1 {
		must(syscall.Kill(os.Getpid(), syscall.SIGKILL))
	}
	os.Exit(128)
}
