package core

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

func setFlag(k, v string) {
	if err := flag.Set(k, v); err != nil {
		panic(err)
	}
}

const (
	hangLimit    = 120 * time.Second // one case, with the machine shared by all workers
	confirmLimit = 60 * time.Second  // the same case alone
	nWorkers     = 8
)

// Main is the entry point of a harness binary:
//
//	h run ID            runs the check (VERIF_SEED, VERIF_TIER), writes the evidence
//	h replay FILE       evaluates one saved case
//	h worker ID N OF SEED TIER DIR [journal]
//	h list
func Main() {
	a := os.Args[1:]
	if len(a) == 0 {
		fmt.Fprintln(os.Stderr, "usage: run ID | replay FILE | list")
		os.Exit(2)
	}
	switch a[0] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "run":
		os.Exit(runCheck(a[1]))
	case "replay":
		os.Exit(replay(a[1]))
	case "worker":
		os.Exit(workerMain(a[1:]))
	default:
		os.Exit(2)
	}
}

func limits(id string) {
	if os.Getenv("VERIF_RACE") != "" {
		return // the race detector maps terabytes
	}
	memLimit := uint64(6 << 30)
	if id == "C13" {
		memLimit = 14 << 30
	}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: memLimit, Max: memLimit})
	_ = syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
}

func workerMain(a []string) int {
	testing.Init()
	_ = flag.CommandLine.Parse(nil)
	limits(a[0])
	runtime.GOMAXPROCS(3)
	p := props[a[0]]
	n, _ := strconv.Atoi(a[1])
	of, _ := strconv.Atoi(a[2])
	seed, _ := strconv.ParseUint(a[3], 10, 64)
	tier, dir := a[4], a[5]
	w := &worker{p: p, tier: tier, n: n, of: of, seed: seed,
		rep: &Report{Parts: map[string]*PartReport{}, Rule: p.Rule, Assume: p.Assumptions}, seen: map[uint64]bool{}, byLabel: map[string]bool{}}
	if len(a) > 6 {
		f, err := os.Create(filepath.Join(dir, fmt.Sprintf("journal.%d", n)))
		if err != nil {
			return 2
		}
		w.journal = f
	}
	w.deadline = time.Now().Add(150 * time.Second)
	if tier == "thorough" {
		w.deadline = time.Now().Add(1500 * time.Second)
	}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		if v, err := strconv.Atoi(s); err == nil {
			w.deadline = time.Now().Add(time.Duration(v) * time.Second)
		}
	}
	w.x = X{Tier: tier, Worker: n, Bin: os.Getenv("VERIF_GPGPDUMP")}
	w.x.Scratch = filepath.Join(dir, fmt.Sprintf("scratch.%d", n))
	if err := os.MkdirAll(w.x.Scratch, 0o755); err != nil {
		return 2
	}
	go w.watch()
	only := os.Getenv("VERIF_PART")
	for i, q := range p.parts {
		if only != "" && only != q.Name || q.race != (os.Getenv("VERIF_RACE") != "") && os.Getenv("VERIF_RACE_BIN") != "" {
			continue
		}
		total := q.Quick
		if tier == "thorough" {
			total = q.Thorough
			if total == 0 {
				total = q.Quick * 20
			}
		}
		if s := os.Getenv("VERIF_SCALE"); s != "" { // a sample, for mutation runs
			if v, err := strconv.ParseFloat(s, 64); err == nil {
				total = int(float64(total) * v)
			}
		}
		// every (seed, part, worker) gets its own stream; 0 would mean a random one
		s := (seed*131+uint64(i))*1000003 + uint64(n)*7919 + 1
		w.part(q, total, s)
		if w.rep.Fail != nil || w.rep.Bad != "" {
			break
		}
	}
	for h := range w.seen {
		w.rep.Hashes = append(w.rep.Hashes, h)
	}
	b, err := json.Marshal(w.rep)
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, fmt.Sprintf("report.%d", n)), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

// watch ends the process when one case does not end.
func (w *worker) watch() {
	// counts ticks instead of asking for the time: time.Now reads time.Local, which cases set
	const tick = 500 * time.Millisecond
	last, n := int64(0), 0
	for {
		time.Sleep(tick)
		s := atomic.LoadInt64(&w.started)
		if s == 0 || s != last {
			last, n = s, 0
			continue
		}
		if n++; time.Duration(n)*tick > hangLimit {
			fmt.Fprintln(os.Stderr, "case does not end")
			buf := make([]byte, 1<<16)
			fmt.Fprintf(os.Stderr, "%s\n", buf[:runtime.Stack(buf, true)])
			os.Exit(97)
		}
	}
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f Fail
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if f.Shard == nil {
		limits(f.Property)
	}
	p := props[f.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property:", f.Property)
		return 2
	}
	dir, err := os.MkdirTemp("", "vreplay")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(dir)
	if f.Shard != nil {
		r := spawn(dir, f.Property, f.Shard.Worker, f.Shard.Seed, f.Shard.Tier, self(), false)
		if r.err == nil && r.rep != nil && r.rep.Fail != nil {
			fmt.Printf("REPRODUCED property=%s part=%s (after the cases before it in worker %d of seed %d)\n%s\n",
				f.Property, r.rep.Fail.Part, f.Shard.Worker, f.Shard.Seed, r.rep.Fail.Message)
			return 1
		}
		fmt.Println("not reproduced", r.err)
		return 0
	}
	for _, q := range p.parts {
		if q.Name != f.Part {
			continue
		}
		c, err := q.decode(f.Case)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		x := &X{Scratch: dir, Bin: os.Getenv("VERIF_GPGPDUMP"), Tier: "quick"}
		err = q.run(c, x)
		if tr, ok := err.(*Trouble); ok {
			fmt.Fprintln(os.Stderr, tr)
			return 2
		}
		if err != nil {
			fmt.Printf("REPRODUCED property=%s part=%s\n%v\n", f.Property, f.Part, err)
			return 1
		}
		fmt.Println("the property holds on this case")
		return 0
	}
	fmt.Fprintln(os.Stderr, "no such part:", f.Part)
	return 2
}

type wres struct {
	rep  *Report
	err  error
	out  string
	code int
	n    int
	bin  string
}

func anyRace(p *Prop) bool {
	for _, q := range p.parts {
		if q.race {
			return true
		}
	}
	return false
}

// self names this binary.
func self() string { return filepath.Base(os.Args[0]) }

// command is how a harness binary beside this one is started.
func command(bin string, args ...string) *exec.Cmd {
	c := exec.Command(filepath.Join(filepath.Dir(os.Args[0]), bin), args...)
	c.Env = os.Environ()
	if rb := os.Getenv("VERIF_RACE_BIN"); rb != "" && filepath.Base(rb) == bin {
		c = exec.Command(rb, args...)
		c.Env = append(os.Environ(), "VERIF_RACE=1", "GORACE=halt_on_error=1 exitcode=66")
	} else if bin == self() {
		c = exec.Command(os.Args[0], args...)
		c.Env = os.Environ()
	}
	return c
}

func spawn(dir, id string, n int, seed uint64, tier, bin string, journal bool) wres {
	args := []string{"worker", id, fmt.Sprint(n), fmt.Sprint(nWorkers), fmt.Sprint(seed), tier, dir}
	if journal {
		args = append(args, "journal")
	}
	c := command(bin, args...)
	var out strings.Builder
	c.Stdout, c.Stderr = &out, &out
	err := c.Run()
	r := wres{err: err, out: out.String()}
	if c.ProcessState != nil {
		r.code = c.ProcessState.ExitCode()
	}
	if err != nil {
		return r
	}
	b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("report.%d", n)))
	if err != nil {
		r.err = err
		return r
	}
	r.rep = &Report{}
	r.err = json.Unmarshal(b, r.rep)
	return r
}

// confirm evaluates a saved case alone: 1 it fails, 0 it passes, 2 unclear.
func confirm(file, bin string) (int, string) {
	limit := confirmLimit
	if b, err := os.ReadFile(file); err == nil && strings.Contains(string(b), "\n \"shard\": {") {
		limit = 10 * time.Minute
	}
	c := command(bin, "replay", file)
	var out strings.Builder
	c.Stdout, c.Stderr = &out, &out
	if err := c.Start(); err != nil {
		return 2, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case <-done:
	case <-time.After(limit):
		_ = c.Process.Kill()
		<-done
		return 1, fmt.Sprintf("does not end within %v when run alone", limit)
	}
	switch code := c.ProcessState.ExitCode(); code {
	case 0, 2:
		if code == 2 && strings.Contains(out.String(), "goroutine ") { // Go's own fatal errors exit with 2
			return 1, "the process dies:\n" + head(out.String(), 3000)
		}
		return code, out.String()
	case 1:
		return 1, out.String()
	default:
		return 1, fmt.Sprintf("the process dies (exit %d)\n%s", code, head(out.String(), 3000))
	}
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func runCheck(id string) int {
	start := time.Now()
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property:", id)
		return 2
	}
	if a, err := filepath.Abs(os.Args[0]); err == nil {
		os.Args[0] = a
	}
	root := os.Getenv("VERIF_ROOT")
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 63)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	dir, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)

	var res []wres
	bins := []string{self()}
	if b := os.Getenv("VERIF_RACE_BIN"); b != "" && anyRace(p) {
		bins = append(bins, filepath.Base(b))
	}
	bins = append(bins, strings.Fields(os.Getenv("VERIF_ALSO"))...) // other binaries with parts of this property
	for _, bin := range bins {
		rs := make([]wres, nWorkers)
		var wg sync.WaitGroup
		for n := range rs {
			wg.Add(1)
			go func(n int) {
				defer wg.Done()
				rs[n] = spawn(dir, id, n, seed, tier, bin, false)
				rs[n].n, rs[n].bin = n, bin
			}(n)
		}
		wg.Wait()
		res = append(res, rs...)
	}

	var fails []*Fail
	shardOf := map[*Fail]int{}
	total := &Report{Parts: map[string]*PartReport{}}
	seen := map[uint64]bool{}
	rule, assume := p.Rule, append([]string{}, p.Assumptions...)
	broken, died := false, false
	for _, r := range res {
		n := r.n
		if r.err != nil || r.rep == nil {
			// the worker died: find the case by running the same shard with a journal
			fmt.Fprintf(os.Stderr, "worker %d: %v (exit %d)\n%s\n", n, r.err, r.code, head(r.out, 600))
			if died {
				continue // one such case is enough; finding another may take minutes
			}
			j := spawn(dir, id, n, seed, tier, r.bin, true)
			j.n, j.bin = r.n, r.bin
			if j.err == nil && j.rep != nil {
				fmt.Fprintln(os.Stderr, "the shard passed on the second run")
				broken = broken || j.rep.Fail == nil
				r = j
			} else {
				b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("journal.%d", n)))
				var f Fail
				if err == nil {
					err = json.Unmarshal(b, &f)
				}
				if err != nil {
					broken = true
					continue
				}
				f.Message = fmt.Sprintf("the process died or did not end (exit %d)\n%s", j.code, head(j.out, 1500))
				f.Bin = r.bin
				fails = append(fails, &f)
				died = true
				continue
			}
		}
		if r.rep.Bad != "" {
			fmt.Fprintf(os.Stderr, "worker %d: %s\n", n, r.rep.Bad)
			broken = true
		}
		if r.rep.Fail != nil {
			r.rep.Fail.Bin = r.bin
			fails = append(fails, r.rep.Fail)
			shardOf[r.rep.Fail] = n
		}
		if !strings.Contains(rule, r.rep.Rule) {
			rule += "; " + r.rep.Rule
			assume = append(assume, r.rep.Assume...)
		}
		total.Evals += r.rep.Evals
		total.Short = total.Short || r.rep.Short
		for k, v := range r.rep.Parts {
			t := total.Parts[k]
			if t == nil {
				t = &PartReport{Labels: map[string]int{}}
				total.Parts[k] = t
			}
			t.Evals += v.Evals
			for l, c := range v.Labels {
				t.Labels[l] += c
			}
		}
		for _, h := range r.rep.Hashes {
			seen[h] = true
		}
		if len(total.Samples) < 12 {
			s := r.rep.Samples
			if len(s) > 3 {
				s = s[len(s)-3:]
			}
			total.Samples = append(total.Samples, s...)
		}
	}

	// the smallest failing case that fails again on its own is the report
	sort.Slice(fails, func(i, j int) bool { return len(fails[i].Case) < len(fails[j].Case) })
	var lines []string
	status := 0
	for _, f := range fails {
		b, _ := json.MarshalIndent(f, "", " ")
		name := filepath.Join(root, "replays", fmt.Sprintf("%s-%s-%016x.json", id, f.Part, hashOf(f.Part, f.Case)))
		_ = os.MkdirAll(filepath.Dir(name), 0o755)
		if err := os.WriteFile(name, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			broken = true
			continue
		}
		code, out := confirm(name, f.Bin)
		if code != 1 {
			// it may need what ran before it in the same process: the shard is the history
			if n, ok := shardOf[f]; ok {
				f.Shard = &Shard{Worker: n, Seed: seed, Tier: tier}
				b, _ := json.MarshalIndent(f, "", " ")
				_ = os.WriteFile(name, b, 0o644)
				code, out = confirm(name, f.Bin)
			}
		}
		if code != 1 {
			fmt.Fprintf(os.Stderr, "not reproduced alone (%d): %s\n%s\n%s\n", code, name, head(f.Message, 2000), out)
			broken = true
			continue
		}
		fmt.Println(head(out, 4000))
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", id, name))
		status = 1
		break
	}
	if status == 0 && broken {
		status = 2
	}

	parts := map[string]interface{}{}
	for k, v := range total.Parts {
		parts[k] = map[string]interface{}{"evaluations": v.Evals, "classes": v.Labels}
	}
	samples := make([]interface{}, 0, len(total.Samples))
	for _, s := range total.Samples {
		samples = append(samples, s)
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": total.Evals, "distinct_nontrivial": len(seen), "rule": rule,
			"samples": samples, "parts": parts, "stopped_early": total.Short,
		},
		"assumptions": assume,
		"wall_s":      time.Since(start).Seconds(), "violations": len(lines),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	out := filepath.Join(root, "evidence", id+".json")
	_ = os.MkdirAll(filepath.Dir(out), 0o755)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		if status == 0 {
			status = 2
		}
	}
	fmt.Printf("%s: %d cases, %d distinct non-trivial, %.1f s\n", id, total.Evals, len(seen), time.Since(start).Seconds())
	for _, l := range lines {
		fmt.Println(l)
	}
	return status
}
