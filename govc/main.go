package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type vcOut struct {
	Contract string  `json:"contract"`
	Name     string  `json:"name"`
	Kind     string  `json:"kind"`
	Path     string  `json:"path,omitempty"`
	Result   string  `json:"result"`
	Solver   string  `json:"solver"`
	Time     float64 `json:"time"`
	Goal     string  `json:"goal,omitempty"`
	Output   string  `json:"output,omitempty"`
}
type fnOut struct {
	Contract    string   `json:"contract"`
	Where       string   `json:"where"`
	Modular     bool     `json:"modular"`
	Obligations int      `json:"obligations"`
	Discharged  int      `json:"discharged"`
	Paths       int      `json:"paths"`
	Secs        float64  `json:"secs"`
	Funcs       []string `json:"functions"`
	Errs        []string `json:"errors,omitempty"`
}
type output struct {
	Property    string         `json:"property"`
	OK          bool           `json:"ok"`
	Functions   []fnOut        `json:"functions"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	ByBackend   map[string]int `json:"by_backend"`
	Queries     int            `json:"solver_queries"`
	SolverTime  float64        `json:"solver_time_s"`
	Trusted     []string       `json:"trusted"`
	Failed      []vcOut        `json:"failed"`
	All         []vcOut        `json:"all,omitempty"`
	Wall        float64        `json:"wall_s"`
	Notes       []string       `json:"notes,omitempty"`
}

func main() {
	prop := flag.String("prop", "", "property to verify")
	only := flag.String("only", "", "only contracts whose name contains this")
	repo := flag.String("repo", "/repo", "repository")
	base := flag.String("verif", "/verif", "directory with contracts/ and clients/")
	out := flag.String("out", "", "write JSON here")
	verbose := flag.Bool("v", false, "list obligations")
	dump := flag.String("dump", "", "directory for queries")
	deep := flag.Bool("thorough", false, "cross-check with a second solver")
	list := flag.Bool("all", false, "include every obligation in the output")
	jobs := flag.Int("jobs", 1, "processes")
	worker := flag.Int("worker", 0, "internal: verify the contracts whose numbers are read from stdin")
	flag.Parse()
	_ = deep
	t0 := time.Now()
	solver.dump = *dump
	res := &output{Property: *prop, ByBackend: map[string]int{}}
	fail := func(name, msg string) {
		res.Failed = append(res.Failed, vcOut{Name: name, Kind: "setup", Result: "error", Output: msg})
	}
	finish := func() {
		res.OK = len(res.Failed) == 0
		res.Wall = time.Since(t0).Seconds()
		if *out != "" {
			b, _ := json.MarshalIndent(res, "", " ")
			os.WriteFile(*out, b, 0644)
		}
		for _, f := range res.Failed {
			fmt.Printf("FAILED %s %s [%s] %s %s\n", f.Contract, f.Name, f.Result, f.Path, f.Output)
			if *verbose && f.Goal != "" {
				fmt.Println("   goal:", f.Goal)
			}
		}
		fmt.Printf("%s: %d/%d obligations discharged, %d functions under contract, %d queries, %.1fs solver, %.1fs\n", *prop, res.Discharged, res.Obligations, len(res.Functions), res.Queries, res.SolverTime, res.Wall)
		if !res.OK {
			os.Exit(1)
		}
		os.Exit(0)
	}
	// client files are named <anything>_Cxx[_Cyy].go or contain "common"
	want := func(rel string) bool {
		b := filepath.Base(rel)
		return *prop == "" || strings.Contains(b, strings.ToLower(*prop)) || strings.Contains(b, "common")
	}
	ov, err := overlayFor(*repo, filepath.Join(*base, "clients"), want)
	if err != nil {
		fail("load", err.Error())
		finish()
	}
	w, err := load(*repo, ov, []string{".", "./web/...", "./graceful/...", "./bind"})
	if err != nil {
		fail("load", err.Error())
		finish()
	}
	ex := newExec(w)
	files, _ := filepath.Glob(filepath.Join(*base, "contracts", "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		b := filepath.Base(f)
		if *prop != "" && !strings.Contains(b, strings.ToLower(*prop)) && !strings.Contains(b, "common") {
			continue
		}
		w.cs.parseFile(f)
	}
	for _, e := range w.cs.errs {
		fail("contracts", e)
	}
	for _, e := range w.runInit(ex) {
		fail("init", e)
	}
	w.cs.loadAxioms(ex)
	for _, b := range w.cs.checkStable(w.fns) {
		fail("stable", b)
	}
	// contracts of the property, then the modular contracts they use
	var work []*Contract
	queued := map[*Contract]bool{}
	for _, c := range w.cs.list {
		if c.Trusted {
			continue
		}
		has := *prop == ""
		for _, p := range c.Props {
			has = has || p == *prop
		}
		if has && (*only == "" || strings.Contains(c.Full, *only)) {
			work = append(work, c)
			queued[c] = true
		}
	}
	trusted := map[string]bool{}
	executed := map[string]bool{}
	byBack := map[string]int{}
	take := func(x *workResult) {
		fo := x.Fn
		for _, u := range x.Used {
			c := w.cs.list[u]
			if !c.Trusted && !queued[c] {
				queued[c] = true
				work = append(work, c)
			}
		}
		for _, t := range x.Trusted {
			trusted[t] = true
		}
		for _, f := range fo.Funcs {
			executed[f] = true
		}
		for b, n := range x.ByBackend {
			byBack[b] += n
		}
		res.Failed = append(res.Failed, x.Failed...)
		res.All = append(res.All, x.All...)
		res.Notes = append(res.Notes, x.Notes...)
		res.Obligations += fo.Obligations
		res.Discharged += fo.Discharged
		res.Functions = append(res.Functions, fo)
		res.Queries += x.Queries
		res.SolverTime += x.SolverTime
		if *verbose {
			fmt.Print(x.Log)
		}
	}
	index := map[*Contract]int{}
	for i, c := range w.cs.list {
		index[c] = i
	}
	one := func(c *Contract) *workResult {
		q0, t0 := solver.queries, solver.time
		r := w.verify(ex, c)
		solveAll([]*Report{r})
		x := summary(r, index, *list, *verbose)
		x.Queries, x.SolverTime = solver.queries-q0, solver.time-t0
		return x
	}
	if *worker > 0 {
		solver.sem = make(chan struct{}, *worker)
		in := bufio.NewScanner(os.Stdin)
		for in.Scan() {
			i, err := strconv.Atoi(in.Text())
			if err != nil || i < 0 || i >= len(w.cs.list) {
				os.Exit(2)
			}
			b, _ := json.Marshal(one(w.cs.list[i]))
			fmt.Printf("RESULT %s\n", b)
		}
		os.Exit(0)
	}
	if *jobs > len(work) {
		*jobs = len(work)
	}
	if *jobs > 1 {
		if err := parallel(*jobs, func() (int, bool) {
			if len(work) == 0 {
				return 0, false
			}
			c := work[0]
			work = work[1:]
			return index[c], true
		}, take); err != nil {
			fail("workers", err.Error())
		}
	} else {
		for len(work) > 0 {
			c := work[0]
			work = work[1:]
			take(one(c))
		}
	}
	if *only == "" {
		for _, m := range w.monitorCoverage(executed) {
			fail("monitor-coverage", m)
		}
		for _, m := range w.ownedSlices() {
			fail("owned-slices", m)
		}
	}
	res.ByBackend = byBack
	for t := range trusted {
		res.Trusted = append(res.Trusted, t)
	}
	sort.Strings(res.Trusted)
	if len(res.Functions) == 0 {
		fail("contracts", "no contract for property "+*prop)
	}
	finish()
}

// workResult is what became of one contract.
type workResult struct {
	Fn         fnOut
	Failed     []vcOut
	All        []vcOut
	Used       []int
	Trusted    []string
	Notes      []string
	ByBackend  map[string]int
	Queries    int
	SolverTime float64
	Log        string
}

func summary(r *Report, index map[*Contract]int, list, verbose bool) *workResult {
	x := &workResult{ByBackend: map[string]int{}, Trusted: r.Trusted, Notes: r.Notes}
	for _, u := range r.Used {
		x.Used = append(x.Used, index[u])
	}
	var log strings.Builder
	fmt.Fprintf(&log, "%s: %d obligations, %d paths, %.1fs\n", r.C.Full, len(r.VCs), r.Paths, r.Secs)
	fo := fnOut{Contract: r.C.Full, Where: r.C.Line, Modular: r.C.Modular, Paths: r.Paths, Secs: r.Secs, Funcs: r.Funcs, Errs: r.Errs}
	for _, e := range r.Errs {
		x.Failed = append(x.Failed, vcOut{Contract: r.C.Full, Name: "verification", Kind: "error", Result: "error", Output: e})
		fo.Obligations++
	}
	for _, v := range r.VCs {
		o := vcOut{Contract: r.C.Full, Name: v.Name, Kind: v.Kind, Path: v.Path, Result: v.Res.Res, Solver: v.Res.Solver, Time: v.Res.Time}
		fo.Obligations++
		if v.Res.Res == "unsat" {
			fo.Discharged++
			x.ByBackend[v.Res.Solver]++
		} else {
			o.Goal = v.Goal.String()
			o.Output = v.Res.Out
			if len(o.Output) > 2000 {
				o.Output = o.Output[:2000]
			}
			x.Failed = append(x.Failed, o)
		}
		if list {
			x.All = append(x.All, o)
		}
		if verbose && (v.Res.Res != "unsat" || v.Res.Solver != "simplifier" && v.Res.Solver != "houdini" && v.Res.Solver != "cover" && v.Kind != "safety" || v.Res.Time > 2) {
			fmt.Fprintf(&log, "   %-8s %-8s %5.2fs %s  %s\n", v.Res.Res, v.Res.Solver, v.Res.Time, v.Name, v.Path)
		}
	}
	x.Fn, x.Log = fo, log.String()
	return x
}

// parallel hands the contracts that next returns to n processes of its own.
func parallel(n int, next func() (int, bool), take func(*workResult)) error {
	share := 8/n + 1
	args := append(append([]string{}, os.Args[1:]...), "-worker", strconv.Itoa(share))
	type reply struct {
		w   int
		x   *workResult
		err error
	}
	replies := make(chan reply)
	type proc struct {
		cmd *exec.Cmd
		in  io.WriteCloser
	}
	var ps []proc
	for i := 0; i < n; i++ {
		cmd := exec.Command(os.Args[0], args...)
		cmd.Stderr = os.Stderr
		in, err := cmd.StdinPipe()
		if err != nil {
			return err
		}
		out, err := cmd.StdoutPipe()
		if err != nil {
			return err
		}
		if err := cmd.Start(); err != nil {
			return err
		}
		ps = append(ps, proc{cmd, in})
		go func(i int) {
			rd := bufio.NewReader(out)
			var last string
			for {
				line, err := rd.ReadString('\n')
				if rest, ok := strings.CutPrefix(line, "RESULT "); ok {
					x := &workResult{}
					if e := json.Unmarshal([]byte(rest), x); e != nil {
						replies <- reply{i, nil, e}
						return
					}
					replies <- reply{i, x, nil}
				} else if line != "" {
					last = line
				}
				if err != nil {
					replies <- reply{i, nil, fmt.Errorf("worker ended: %v %s", err, last)}
					return
				}
			}
		}(i)
	}
	defer func() {
		for _, p := range ps {
			p.in.Close()
		}
		done := make(chan bool)
		go func() {
			for range ps {
				for r := range replies {
					if r.err != nil {
						break
					}
				}
			}
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
		}
		for _, p := range ps {
			p.cmd.Process.Kill()
			p.cmd.Wait()
		}
	}()
	var idle []int
	for i := range ps {
		idle = append(idle, i)
	}
	busy := 0
	for {
		for len(idle) > 0 {
			c, ok := next()
			if !ok {
				break
			}
			i := idle[len(idle)-1]
			idle = idle[:len(idle)-1]
			if _, err := fmt.Fprintln(ps[i].in, c); err != nil {
				return err
			}
			busy++
		}
		if busy == 0 {
			return nil
		}
		r := <-replies
		if r.err != nil {
			return r.err
		}
		busy--
		idle = append(idle, r.w)
		take(r.x)
	}
}
