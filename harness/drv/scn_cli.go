package main

import (
	"bytes"
	"context"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
)

func init() {
	kinds["cli"] = scnCli
}

type dirKind struct {
	Is string `json:"is"`
	St string `json:"st"`
}

type layout struct {
	Top  dirKind   `json:"top"`
	Kids []dirKind `json:"kids"`
}

type cliArg struct {
	Layouts []layout `json:"layouts"`
}

// cliRepo creates a small repository, returns the first commit, which is different for every repository.
func (e *Env) cliRepo(dir string, bare bool, st string, id int) string {
	must(os.MkdirAll(dir, 0777))
	initRepoDir(dir, bare)
	if st == "empty" {
		switch e.R.Intn(3) {
		case 0:
			return ""
		case 1:
			// there are commits, but HEAD does not have any
			r := e.cliCommits(id)
			r.importAt(dir)
			g := filepath.Join(dir, ".git")
			if bare {
				g = dir
			}
			must(ioutil.WriteFile(filepath.Join(g, "HEAD"), []byte("ref: refs/heads/other\n"), 0666))
			return r.Shas[0]
		}
		return ""
	}
	r := e.cliCommits(id)
	r.importAt(dir)
	if st == "broken" {
		g := filepath.Join(dir, ".git")
		if bare {
			g = dir
		}
		switch how := e.R.Intn(6); {
		case how == 0:
			// git does not accept the configuration
			must(ioutil.WriteFile(filepath.Join(g, "config"), []byte("[core\n"), 0666))
			return r.Shas[0]
		case how == 1:
			git(g, nil, "config", "core.repositoryFormatVersion", "99")
			return r.Shas[0]
		case how == 2 && os.Geteuid() == 0:
			// git does not trust the owner
			must(os.Lchown(g, 54321, 54321))
			must(os.Lchown(dir, 54321, 54321))
			return r.Shas[0]
		}
		packs, err := filepath.Glob(filepath.Join(g, "objects", "pack", "*.pack"))
		must(err)
		if len(packs) != 1 {
			panic(harnessErr{fmt.Errorf("%v packs", len(packs))})
		}
		data, err := ioutil.ReadFile(packs[0])
		must(err)
		must(os.RemoveAll(filepath.Join(g, "objects", "pack")))
		must(os.MkdirAll(filepath.Join(g, "objects", "pack"), 0777))
		if chance(e.R, 0.5) {
			// only one of the objects is missing
			git(g, data, "unpack-objects", "-q")
			obj := r.Shas[e.R.Intn(len(r.Shas)-1)]
			if chance(e.R, 0.5) {
				obj = r.Shas[len(r.Shas)-1]
			}
			must(os.Remove(filepath.Join(g, "objects", obj[:2], obj[2:])))
		}
	}
	return r.Shas[0]
}

func (e *Env) cliCommits(id int) *Repo {
	r := &Repo{Refs: map[string]int{"refs/heads/master": 2, "refs/remotes/origin/x": 1}, Head: "refs/heads/master"}
	tree := map[string]File{}
	for i := 0; i < 3; i++ {
		t := cloneTree(tree)
		t[fmt.Sprintf("f%d.go", i)] = File{Mode: "100644", Data: []byte(fmt.Sprintf("a %d %d\nb\n", id, i))}
		c := &Commit{Tree: t, AName: "x", AEmail: "x@y", CName: "x", CEmail: "x@y", ATime: 1500000000 + int64(i), CTime: 1500000000 + int64(i), ATz: "+0000", CTz: "+0000", Msg: fmt.Sprintf("m %d %d", id, i)}
		if i > 0 {
			c.Parents = []int{i - 1}
		}
		r.Commits = append(r.Commits, c)
		tree = t
	}
	return r
}

// importAt is Build for a repository that is initialized already.
func (r *Repo) importAt(dir string) {
	r.Dir = dir
	r.Import(0)
	var b bytes.Buffer
	for _, name := range sortedKeys(r.Refs) {
		fmt.Fprintf(&b, "update %s %s\n", name, r.Shas[r.Refs[name]])
	}
	git(dir, b.Bytes(), "update-ref", "--stdin")
}

var finishedRe = regexp.MustCompile(`repos (\d+)`)

func (e *Env) runCli(cwd string, args ...string) (stdout string, exit int) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	x := exec.CommandContext(ctx, os.Getenv("CLI"), args...)
	x.Dir = cwd
	x.Env = append(os.Environ(), "NO_COLOR=1")
	var out bytes.Buffer
	x.Stdout = &out
	err := x.Run()
	if ctx.Err() != nil {
		exit = -2
	} else if ee, ok := err.(*exec.ExitError); ok {
		exit = ee.ExitCode()
	} else {
		must(err)
	}
	return out.String(), exit
}

func scnCli(e *Env) {
	var a cliArg
	e.arg(&a)
	id := 0
	// how often the first commit is printed when a repository is processed once
	unit := map[string]int{}
	ref := filepath.Join(e.Dir, "reference")
	first := e.cliRepo(ref, false, "ok", id)
	for _, c := range []string{"code", "branches"} {
		text, exit := e.runCli("/", c, ref)
		unit[c] = strings.Count(text, first)
		if unit[c] == 0 || exit != 0 {
			e.T.emit(obj{"e": "cli", "cmd": c, "top": dirKind{"work", "ok"}, "kids": []dirKind{}, "n": []int{0}, "notice": []bool{false}, "failed": []bool{false}, "started": []bool{true}, "exit": exit, "repos": -1, "arg": "reference"})
			return
		}
	}
	for n, l := range a.Layouts {
		root := filepath.Join(e.Dir, fmt.Sprintf("l%d", n))
		must(os.MkdirAll(root, 0777))
		place := func(parent string, k int, d dirKind) (path string, sha string) {
			id++
			name := fmt.Sprintf("%c%d", "dbrz._-@"[e.R.Intn(8)], k)
			if chance(e.R, 0.1) {
				name += " x"
			}
			switch d.Is {
			case "work":
				if chance(e.R, 0.15) {
					name += ".git"
				}
				path = filepath.Join(parent, name)
				sha = e.cliRepo(path, false, d.St, id)
			case "bare":
				path = filepath.Join(parent, name+".git")
				sha = e.cliRepo(path, true, d.St, id)
			case "nosuffix":
				path = filepath.Join(parent, name+[]string{"", ".bare", "git", ".git.old"}[e.R.Intn(4)])
				sha = e.cliRepo(path, true, "ok", id)
			case "suffix":
				path = filepath.Join(parent, name+".git")
				must(os.MkdirAll(path, 0777))
				if chance(e.R, 0.5) {
					must(ioutil.WriteFile(filepath.Join(path, "objects"), []byte("x"), 0666))
				}
			case "plain":
				path = filepath.Join(parent, name)
				must(os.MkdirAll(filepath.Join(path, "objects"), 0777))
			case "nested":
				path = filepath.Join(parent, name)
				sha = e.cliRepo(filepath.Join(path, "in"), false, "ok", id)
			case "file":
				path = filepath.Join(parent, name)
				must(ioutil.WriteFile(path, []byte("x"), 0666))
			case "gitfile":
				path = filepath.Join(parent, name)
				must(os.MkdirAll(path, 0777))
				must(ioutil.WriteFile(filepath.Join(path, ".git"), []byte("x"), 0666))
			case "link":
				target := filepath.Join(root, fmt.Sprintf("target%d", k))
				sha = e.cliRepo(target, false, "ok", id)
				path = filepath.Join(parent, name)
				must(os.Symlink(target, path))
			case "loop":
				path = filepath.Join(parent, name)
				sub := ".git"
				if chance(e.R, 0.5) {
					path, sub = path+".git", "objects"
				}
				must(os.MkdirAll(path, 0777))
				must(os.Symlink(sub, filepath.Join(path, sub)))
			case "missing":
				path = filepath.Join(parent, name)
			default:
				panic(harnessErr{fmt.Errorf("unknown kind %v", d.Is)})
			}
			return
		}
		top, topSha := place(root, 0, l.Top)
		paths, shas := []string{top}, []string{topSha}
		for k, d := range l.Kids {
			p, s := place(top, k+1, d)
			paths, shas = append(paths, p), append(shas, s)
		}
		for _, c := range []string{"code", "branches"} {
			arg := top
			cwd := "/"
			if l.Top.Is != "missing" && l.Top.Is != "file" && l.Top.Is != "loop" && chance(e.R, 0.2) {
				arg, cwd = ".", top
			} else if chance(e.R, 0.2) {
				arg = top + "/"
				if l.Top.Is == "file" {
					arg = top
				}
			}
			text, exit := e.runCli(cwd, c, arg)
			lines := strings.Split(text, "\n")
			cnt, notice, failed, started := []int{}, []bool{}, []bool{}, []bool{}
			for k := range paths {
				cn := 0
				if shas[k] != "" {
					cn = strings.Count(text, shas[k])
				}
				if cn%unit[c] == 0 {
					cn /= unit[c]
				} else {
					cn = -cn
				}
				cnt = append(cnt, cn)
				shown := paths[k]
				if arg == "." {
					shown = strings.TrimPrefix(strings.TrimPrefix(paths[k], top), "/")
					if shown == "" {
						shown = "."
					}
				}
				has, err := false, false
				for _, line := range lines {
					if strings.Contains(line, shown) {
						has = has || strings.Contains(line, "empty")
						err = err || strings.Contains(line, "err: ")
					}
				}
				notice = append(notice, has)
				failed = append(failed, err)
				_, serr := os.Stat(filepath.Join(paths[k], "pp-git-cache"))
				started = append(started, serr == nil && c == "code")
			}
			repos := -1
			if m := finishedRe.FindStringSubmatch(text); m != nil {
				repos, _ = strconv.Atoi(m[1])
			}
			e.T.emit(obj{"e": "cli", "cmd": c, "top": l.Top, "kids": l.Kids, "n": cnt, "notice": notice, "failed": failed, "started": started, "exit": exit, "repos": repos, "arg": arg})
		}
		must(os.RemoveAll(root))
	}
}
