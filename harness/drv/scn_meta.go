package main

import (
	"encoding/json"
	"fmt"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/commitmeta"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
)

func init() {
	kinds["meta"] = scnMeta
	kinds["code"] = scnCode
}

// subject returns the first paragraph of the message on one line.
func subject(msg string) string {
	const ws = " \t\n\v\f\r"
	lines := strings.Split(msg, "\n")
	for len(lines) > 0 && strings.Trim(lines[0], ws) == "" {
		lines = lines[1:]
	}
	var res []string
	for _, l := range lines {
		l = strings.TrimRight(l, ws)
		if l == "" {
			break
		}
		res = append(res, l)
	}
	return strings.Join(res, " ")
}

// offset in minutes of +hhmm
func offset(tz string) int {
	n := 0
	for _, c := range tz[1:] {
		n = n*10 + int(c-'0')
	}
	n = n/100*60 + n%100
	if tz[0] == '-' {
		return -n
	}
	return n
}

// Strings has numbers for texts of metadata.
type metaEnv struct {
	h    *Hist
	strs *Ids
	cms  *Ids
	t    *Trace
}

// ref returns the number of the metadata, which is written to the trace when it is new.
func (m *metaEnv) ref(c commitmeta.Commit) int {
	o := m.metaObs(c)
	b, err := json.Marshal(o)
	must(err)
	n := len(m.cms.rev)
	id := m.cms.get(string(b))
	if id == n {
		o["e"] = "cm"
		m.t.emit(o)
	}
	return id
}

var braces = regexp.MustCompile("(.*)\\{(.*) => (.*)\\}(.*)")

// misread returns the path that the text of numstat is taken for when it is read as a rename.
func misread(text string) string {
	if g := braces.FindStringSubmatch(text); g != nil {
		return path.Join(g[1], g[3], g[4])
	}
	return strings.Split(text, " => ")[1]
}

// emitInfo writes the metadata of all commits, as they were created.
func (m *metaEnv) emitInfo(t *Trace) {
	for i, c := range m.h.repo.Commits {
		ps := []int{}
		for _, p := range c.Parents {
			ps = append(ps, p+1)
		}
		merge := len(c.Parents) > 1
		fs := []interface{}{}
		amb, mis := []int{}, []int{}
		for _, e := range m.h.diffs[i][0] {
			add, del := 0, 0
			for _, b := range e.X {
				add += len(b.Add)
				del += b.Del
			}
			reg := e.M[:3] == "100"
			bin := e.Bin
			if f, ok := c.Tree[m.h.paths.rev[e.P]]; ok && e.S != "D" && f.Mode[:3] == "100" && isBinary(f.Data) {
				// numstat shows this even if only the mode or the name was changed
				bin = true
			}
			if e.S == "R" && !merge {
				// a rename counts as a removal and an addition
				fs = append(fs, []interface{}{e.Q, "D", -1, -1, false, reg, e.Q, e.P})
				fs = append(fs, []interface{}{e.P, "A", add, del, bin, reg, e.Q, e.P})
				continue
			}
			st := e.S
			if st == "T" {
				st = "M"
				add, del = -1, -1
			}
			if merge {
				st = "?"
				// git does not quote these names, there is more than one way to read them in the output
				from, to := m.h.paths.rev[e.P], m.h.paths.rev[e.P]
				if e.S == "R" {
					from = m.h.paths.rev[e.Q]
				}
				if strings.Contains(from+"\n"+to, " => ") || e.S == "R" && strings.ContainsAny(from+to, "{}") {
					amb = append(amb, e.P)
					text := to
					if e.S == "R" {
						text = from + " => " + to
					}
					mis = append(mis, m.h.paths.get(misread(text)))
				}
			}
			fs = append(fs, []interface{}{e.P, st, add, del, bin, reg || e.S == "D", 0, 0})
		}
		known := []int{}
		if len(amb) > 0 {
			for p := range c.Tree {
				known = append(known, m.h.paths.get(p))
			}
			for _, q := range c.Parents {
				for p := range m.h.repo.Commits[q].Tree {
					known = append(known, m.h.paths.get(p))
				}
			}
			sort.Ints(known)
		}
		at := m.moment(c.ATime)
		if c.NoDate {
			at = -1
		}
		t.emit(obj{"e": "cinfo", "c": i + 1, "ps": ps, "an": m.strs.get(c.AName), "ae": m.strs.get(c.AEmail), "cn": m.strs.get(c.CName), "ce": m.strs.get(c.CEmail),
			"at": at, "tz": offset(c.ATz), "s": m.strs.get(subject(c.Msg)), "fs": fs, "amb": amb, "mis": mis, "known": known})
	}
}

func statusCode(s commitmeta.CommitStatus) string {
	switch s {
	case commitmeta.GitFileCommitStatusAdded:
		return "A"
	case commitmeta.GitFileCommitStatusModified:
		return "M"
	case commitmeta.GitFileCommitStatusRemoved:
		return "D"
	}
	return "x"
}

// moment is a number for seconds since epoch, which could be too large for a number of the specification.
func (m *metaEnv) moment(sec int64) int { return m.strs.get(fmt.Sprintf("time %d", sec)) }

func (m *metaEnv) when(t time.Time) (int, int) {
	if t.IsZero() {
		return -1, 0
	}
	_, off := t.Zone()
	return m.moment(t.Unix()), off / 60
}

// metaObs is what was delivered for a commit.
func (m *metaEnv) metaObs(c commitmeta.Commit) obj {
	n := m.h.num(c.SHA)
	if n == 0 {
		n = -1
	}
	ps := []int{}
	for _, p := range c.Parents {
		ps = append(ps, m.h.num(p))
	}
	fs := []interface{}{}
	var names []string
	for k := range c.Files {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		f := c.Files[k]
		p := m.h.paths.get(k)
		if f.Filename != k {
			p = -1
		}
		from, to := 0, 0
		if f.Renamed || f.RenamedFrom != "" || f.RenamedTo != "" {
			from, to = m.h.paths.get(f.RenamedFrom), m.h.paths.get(f.RenamedTo)
		}
		if f.Copied || f.CopiedFrom != "" || !f.Renamed && from != 0 {
			from = -1
		}
		fs = append(fs, []interface{}{p, statusCode(f.Status), f.Additions, f.Deletions, f.Binary, from, to})
	}
	at, tz := m.when(c.Date)
	return obj{"c": n, "ps": ps, "an": m.strs.get(c.AuthorName), "ae": m.strs.get(c.AuthorEmail), "cn": m.strs.get(c.CommitterName), "ce": m.strs.get(c.CommitterEmail),
		"at": at, "tz": tz, "s": m.strs.get(c.Message), "ord": c.Ordinal, "fs": fs}
}

func (e *Env) runMeta(m *metaEnv, kind string, from int, hd []int, all bool) {
	o := commitmeta.Opts{AllBranches: all, CommitFromMakeNonIncl: kind == "nonincl"}
	if kind != "full" {
		o.CommitFromIncl = m.h.sha(from)
	}
	if kind != "full" && all {
		// more heads can be named
		for k := 0; k < e.R.Intn(3); k++ {
			c := e.R.Intn(len(m.h.repo.Commits)) + 1
			o.WantedBranchRefs = append(o.WantedBranchRefs, m.h.name(c))
			hd = append(append([]int{}, hd...), c)
		}
	}
	e.T.emit(obj{"e": "mrun", "kind": kind, "from": from, "heads": hd})
	mark("run_begin")
	ch := make(chan commitmeta.Commit)
	done := make(chan error, 1)
	go func() { done <- commitmeta.New(m.h.repo.Dir, o).Run(ch) }()
	var cs []commitmeta.Commit
	for c := range ch {
		cs = append(cs, c)
		mark("progress")
	}
	err := <-done
	mark("run_end")
	for _, c := range cs {
		o := m.metaObs(c)
		o["e"] = "mrec"
		e.T.emit(o)
	}
	e.T.emit(obj{"e": "mend", "err": err != nil, "msg": errStr(err)})
}

func (e *Env) pickFrom(r *Repo) int {
	in := r.reach(r.Refs[r.Head])
	var cs []int
	for c := range in {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	return cs[e.R.Intn(len(cs))] + 1
}

func scnMeta(e *Env) {
	a := procArg{All: -1}
	e.arg(&a)
	r := e.randomRepo(a)
	h := extract(r)
	m := &metaEnv{h: h, strs: newIds(), cms: newIds(), t: e.T}
	m.emitInfo(e.T)
	all := chance(e.R, 0.6)
	e.runMeta(m, "full", 0, heads(r, all), all)
	hd := heads(r, false)
	for _, kind := range []string{"incl", "nonincl"} {
		e.runMeta(m, kind, e.pickFrom(r), hd, chance(e.R, 0.4))
	}
}

// runProcess writes the results of the history analysis, which are the input of the join.
func (e *Env) joinInput(m *metaEnv, kind string, from int, all bool, ck string) map[string]process.Result {
	po := process.Opts{Logger: nullLogger{}, RepoDir: m.h.repo.Dir, CheckpointsDir: ck, AllBranches: all, CommitFromMakeNonIncl: kind == "nonincl", NoStrictResume: true}
	if kind != "full" {
		po.CommitFromIncl = m.h.sha(from)
	}
	mark("run_begin")
	p := process.New(po)
	ch := make(chan process.Result)
	done := make(chan error, 1)
	go func() { done <- p.Run(ch) }()
	res := map[string]process.Result{}
	for r := range ch {
		n := m.h.num(r.Commit)
		fs := []obj{}
		var ps []string
		for p := range r.Files {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			b := r.Files[p]
			a := []int{}
			size := 0
			for _, l := range b.Lines {
				a = append(a, m.h.num(l.Commit))
				size += len(l.Line) + 1
			}
			fs = append(fs, obj{"p": m.h.paths.get(p), "a": a, "size": size, "x": facts(p, b)})
		}
		e.T.emit(obj{"e": "pres", "c": n, "f": fs})
		res[r.Commit] = r
		mark("progress")
	}
	err := <-done
	mark("run_end")
	e.T.emit(obj{"e": "pend", "err": err != nil, "msg": errStr(err)})
	return res
}

func (m *metaEnv) blameObs(b ripsrc.BlameResult) obj {
	ls := []interface{}{}
	for _, l := range b.Lines {
		at, tz := m.when(l.Date)
		f := ""
		if l.Code {
			f += "c"
		}
		if l.Comment {
			f += "m"
		}
		if l.Blank {
			f += "b"
		}
		ls = append(ls, []interface{}{m.h.num(l.SHA), m.strs.get(l.Name), m.strs.get(l.Email), at, tz, f, l.Name == "" && l.Email == "" && l.Date.IsZero()})
	}
	return obj{"p": m.h.paths.get(b.Filename), "st": statusCode(b.Status), "cm": m.ref(b.Commit), "skip": skipCode(b.Skipped), "lang": b.Language, "lic": licenseObs(b.License), "cx": b.Complexity, "wcx": fmt.Sprint(b.WeightedComplexity),
		"size": b.Size, "loc": b.Loc, "sloc": b.Sloc, "com": b.Comments, "bl": b.Blanks, "ls": ls}
}

// runCode calls Code or CodeByCommit.
func (e *Env) runCode(m *metaEnv, kind string, from int, hd []int, all bool, flat bool, ck string) {
	o := ripsrc.Opts{Logger: nullLogger{}, RepoDir: m.h.repo.Dir, CheckpointsDir: ck, AllBranches: all, CommitFromMakeNonIncl: kind == "nonincl", NoStrictResume: true}
	if kind != "full" {
		o.CommitFromIncl = m.h.sha(from)
	}
	e.T.emit(obj{"e": "crun", "kind": kind, "from": from, "heads": hd, "flat": flat})
	rs := ripsrc.New(o)
	mark("run_begin")
	done := make(chan error, 1)
	if flat {
		ch := make(chan ripsrc.BlameResult)
		go func() { done <- rs.Code(bg, ch) }()
		for b := range ch {
			o := m.blameObs(b)
			e.T.emit(obj{"e": "brec", "r": o})
			mark("progress")
		}
	} else {
		ch := make(chan ripsrc.CommitCode)
		go func() { done <- rs.CodeByCommit(bg, ch) }()
		for c := range ch {
			id := m.ref(c.Commit)
			e.T.emit(obj{"e": "ccom", "cm": id})
			for b := range c.Blames {
				o := m.blameObs(b)
				e.T.emit(obj{"e": "brec", "r": o})
				mark("progress")
			}
		}
	}
	err := <-done
	mark("run_end")
	e.T.emit(obj{"e": "cend", "err": err != nil, "msg": errStr(err)})
}

func scnCode(e *Env) {
	a := procArg{All: -1}
	e.arg(&a)
	p := RandomProfile(e.R)
	if a.Hostile {
		e.hostile(&p)
	}
	p.Code = []float64{0.3, 0.7, 1}[e.R.Intn(3)]
	p.CommentP = []float64{0.1, 0.4}[e.R.Intn(2)]
	if chance(e.R, 0.7) {
		p.Paths = nil
		for i := 0; i < 8; i++ {
			p.Paths = append(p.Paths, codePaths[e.R.Intn(len(codePaths))])
		}
	}
	if a.Prof == "extreme" {
		e.extreme(&p, e.Spec.ID%8)
	}
	if a.Prof == "names" {
		e.names(&p)
	}
	if a.Prof == "manyfiles" {
		e.extreme(&p, 2)
		p.ManyFiles = 1200
	}
	var r *Repo
	if a.Table != nil {
		r = e.tableRepo(a.Table)
	} else {
		r = Generate(e.R, p)
		if k := e.Spec.Kind; (k == "full" || k == "meta" || k == "code") && chance(e.R, 0.35) {
			e.otherRefs(r)
		}
		e.build(r)
	}
	h := extract(r)
	m := &metaEnv{h: h, strs: newIds(), cms: newIds(), t: e.T}
	m.emitInfo(e.T)
	all := chance(e.R, 0.6)
	hd := heads(r, all)
	e.joinInput(m, "full", 0, all, e.ckptDir("ckp"))
	flat := chance(e.R, 0.5)
	e.runCode(m, "full", 0, hd, all, flat, e.ckptDir("ckc"))
	if chance(e.R, 0.5) {
		e.runCode(m, "full", 0, hd, all, !flat, e.ckptDir("ckc2"))
	}
	if chance(e.R, 0.4) {
		// continue
		from := e.pickFrom(r)
		kind := []string{"incl", "nonincl"}[e.R.Intn(2)]
		hd = heads(r, false)
		// the checkpoint of a run over the whole history has everything only when there are not too many commits, which is the case here
		e.joinInput(m, kind, from, false, filepath.Join(e.Dir, "ckp"))
		e.runCode(m, kind, from, hd, false, chance(e.R, 0.5), filepath.Join(e.Dir, "ckc"))
	}
}
