package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
)

// Spec of one scenario, together with the version of this program it determines everything that happens.
type Spec struct {
	ID   int             `json:"id"`
	Kind string          `json:"kind"`
	Seed int64           `json:"seed"`
	Arg  json.RawMessage `json:"arg,omitempty"`
}

// a scenario has its own scratch directory and random source
type Env struct {
	Spec  Spec
	Dir   string
	R     *rand.Rand
	T     *Trace
	state map[string]interface{}
}

var kinds = map[string]func(*Env){}

// worker: reads specs from stdin, writes traces to <out>/<id>.ndjson. Answers with one line per scenario.
func worker(out string, scratch string) {
	initGitEnv()
	sc := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := sc.ReadBytes('\n')
		if err != nil {
			return
		}
		var sp Spec
		must(json.Unmarshal(line, &sp))
		f, ok := kinds[sp.Kind]
		if !ok {
			panic(harnessErr{fmt.Errorf("unknown kind %v", sp.Kind)})
		}
		dir := filepath.Join(scratch, fmt.Sprintf("s%d", sp.ID))
		must(os.MkdirAll(dir, 0777))
		must(os.Setenv("TMPDIR", dir))
		markFile, err = os.Create(filepath.Join(out, fmt.Sprintf("%d.mark", sp.ID)))
		must(err)
		t := newTrace(filepath.Join(out, fmt.Sprintf("%d.ndjson", sp.ID)))
		t.emit(obj{"e": "scn", "id": sp.ID, "kind": sp.Kind})
		f(&Env{Spec: sp, Dir: dir, R: rand.New(rand.NewSource(sp.Seed)), T: t})
		t.emit(obj{"e": "fin"})
		t.close()
		must(markFile.Close())
		if os.Getenv("KEEP") == "" {
			must(os.RemoveAll(dir))
		}
		fmt.Printf("OK %d\n", sp.ID)
	}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: drv worker OUT SCRATCH")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2], os.Args[3])
	case "shim":
		shim(os.Args[2:])
	case "sub":
		initGitEnv()
		switch os.Args[2] {
		case "process":
			subProcess(os.Args[3])
		case "crash":
			subCrash(os.Args[3])
		case "observe":
			subObserve(os.Args[3])
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(3)
	}
}
