package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// Sub is one executable predicate of a property.
type Sub struct {
	Name     string
	Prop     func(*C)
	Quick    int // cases per run, quick tier (over all shards)
	Thorough int
	MaxShard int // 0 = number of workers
}

// Check is everything that decides one property.
type Check struct {
	ID          string
	Rule        string
	Assumptions []string
	Subs        []Sub
}

var registry = map[string]*Check{}

func register(c *Check) {
	if registry[c.ID] != nil {
		panic("duplicate " + c.ID)
	}
	registry[c.ID] = c
}

type result struct {
	ID, Sub     string
	Shard       int
	Evals       int
	Nontrivial  []uint64
	Classes     map[string]int
	Samples     []string
	Max         map[string]float64
	Failed      bool
	Message     string
	FailFile    string
	Interrupted string
}

const workersWanted = 7

func hash64(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }

func mixSeed(parts ...interface{}) uint64 {
	s := hash64(fmt.Sprint(parts...))
	s ^= s >> 31
	s *= 0x9E3779B97F4A7C15
	s ^= s >> 29
	s &= 1<<62 - 1
	if s == 0 {
		s = 1
	}
	return s
}

func driver(root, id, tier string, seed int64) int {
	start := time.Now()
	ck := registry[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	evDir := filepath.Join(root, "evidence")
	repDir := filepath.Join(root, "replays")
	os.MkdirAll(evDir, 0o755)
	os.MkdirAll(repDir, 0o755)
	os.MkdirAll(filepath.Join(root, ".build"), 0o755)
	work, err := os.MkdirTemp(filepath.Join(root, ".build"), "work-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)

	limit := 840 * time.Second
	if tier == "thorough" {
		limit = 4 * time.Hour
	}
	if s := os.Getenv("VERIF_LIMIT_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			limit = time.Duration(n) * time.Second
		}
	}
	scale := 1.0
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		scale, _ = strconv.ParseFloat(s, 64)
	}

	type job struct {
		sub    Sub
		shard  int
		checks int
	}
	var jobs []job
	for _, s := range ck.Subs {
		n := s.Quick
		if tier == "thorough" {
			n = s.Thorough
			if n < 30*s.Quick {
				n = 30 * s.Quick
			}
		}
		n = int(float64(n) * scale)
		if n <= 0 {
			continue
		}
		sh := workersWanted
		if s.MaxShard > 0 && s.MaxShard < sh {
			sh = s.MaxShard
		}
		if n < sh {
			sh = n
		}
		for i := 0; i < sh; i++ {
			k := n / sh
			if i < n%sh {
				k++
			}
			jobs = append(jobs, job{s, i, k})
		}
	}
	var mu sync.Mutex
	var results []result
	var infra []string
	sem := make(chan struct{}, workersWanted)
	var wg sync.WaitGroup
	deadline := start.Add(limit)
	self, _ := os.Executable()
	stop := false
	for _, j := range jobs {
		wg.Add(1)
		sem <- struct{}{}
		mu.Lock()
		st := stop
		mu.Unlock()
		if st {
			<-sem
			wg.Done()
			continue
		}
		go func(j job) {
			defer wg.Done()
			defer func() { <-sem }()
			tag := fmt.Sprintf("%s-%d", j.sub.Name, j.shard)
			wd := filepath.Join(work, tag)
			os.MkdirAll(wd, 0o755)
			out := filepath.Join(wd, "result.json")
			cmd := exec.Command(self, "worker", "-id", id, "-sub", j.sub.Name, "-shard", strconv.Itoa(j.shard),
				"-seed", strconv.FormatInt(seed, 10), "-checks", strconv.Itoa(j.checks), "-out", out, "-work", wd)
			var buf bytes.Buffer
			cmd.Stdout, cmd.Stderr = &buf, &buf
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=3500MiB")
			done := make(chan error, 1)
			if err := cmd.Start(); err != nil {
				mu.Lock()
				infra = append(infra, tag+": "+err.Error())
				mu.Unlock()
				return
			}
			go func() { done <- cmd.Wait() }()
			var werr error
			timedOut := false
			select {
			case werr = <-done:
			case <-time.After(time.Until(deadline)):
				timedOut = true
				cmd.Process.Kill()
				<-done
			}
			mu.Lock()
			defer mu.Unlock()
			if timedOut {
				infra = append(infra, tag+": time limit reached (inconclusive)")
				return
			}
			data, rerr := os.ReadFile(out)
			var r result
			if rerr != nil || json.Unmarshal(data, &r) != nil {
				t := buf.String()
				if len(t) > 4000 {
					t = t[:2000] + "\n...\n" + t[len(t)-2000:]
				}
				if crashed(t) {
					r = result{ID: id, Sub: j.sub.Name, Shard: j.shard, Failed: true, Message: "the code under test brought the process down:\n" + t}
				} else {
					infra = append(infra, fmt.Sprintf("%s: no result (%v)\n%s", tag, werr, t))
					return
				}
			}
			if r.Failed {
				dst := filepath.Join(repDir, fmt.Sprintf("%s.%s.seed%d.shard%d.fail", id, j.sub.Name, seed, j.shard))
				if r.FailFile != "" {
					if b, err := os.ReadFile(r.FailFile); err == nil {
						os.WriteFile(dst, b, 0o644)
					}
				} else {
					os.WriteFile(dst, []byte("# "+strings.ReplaceAll(r.Message, "\n", "\n# ")+"\n"), 0o644)
				}
				r.FailFile = dst
				stop = true
			}
			results = append(results, r)
		}(j)
	}
	wg.Wait()

	sort.Slice(results, func(a, b int) bool {
		if results[a].Sub != results[b].Sub {
			return results[a].Sub < results[b].Sub
		}
		return results[a].Shard < results[b].Shard
	})
	evals := 0
	distinct := map[uint64]bool{}
	classes := map[string]int{}
	maxes := map[string]float64{}
	perSub := map[string]int{}
	samples := []string{}
	violations := []map[string]string{}
	subSamples := map[string]int{}
	for _, r := range results {
		evals += r.Evals
		perSub[r.Sub] += r.Evals
		for _, h := range r.Nontrivial {
			distinct[h] = true
		}
		for k, v := range r.Classes {
			classes[k] += v
		}
		for k, v := range r.Max {
			if v > maxes[k] {
				maxes[k] = v
			}
		}
		for _, s := range r.Samples {
			if subSamples[r.Sub] < 3 {
				subSamples[r.Sub]++
				samples = append(samples, r.Sub+": "+s)
			}
		}
		if r.Failed {
			violations = append(violations, map[string]string{"sub": r.Sub, "message": r.Message, "replay": r.FailFile})
		}
	}
	cov := map[string]interface{}{
		"evaluations":         evals,
		"distinct_nontrivial": len(distinct),
		"rule":                ck.Rule,
		"samples":             samples,
		"classes":             classes,
		"cases_per_predicate": perSub,
		"shards":              len(results),
	}
	if len(maxes) > 0 {
		cov["max_error_over_bound"] = maxes
	}
	ev := map[string]interface{}{
		"property":    id,
		"tier":        tier,
		"seed":        seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": ck.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	if len(infra) > 0 {
		ev["errors"] = infra
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, id+".json"), append(js, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(violations) > 0 {
		shown := map[string]bool{}
		for _, v := range violations {
			if shown[v["sub"]] {
				continue
			}
			shown[v["sub"]] = true
			m := v["message"]
			if len(m) > 2500 {
				m = m[:2500] + "\n..."
			}
			fmt.Printf("--- %s/%s\n%s\n", id, v["sub"], m)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, violations[0]["replay"])
		return 1
	}
	if len(infra) > 0 {
		for i, s := range infra {
			if i == 2 {
				fmt.Fprintln(os.Stderr, "ERROR and", len(infra)-2, "more")
				break
			}
			fmt.Fprintln(os.Stderr, "ERROR", s)
		}
		return 2
	}
	printKnownFindings(root, id)
	fmt.Printf("OK property=%s tier=%s cases=%d distinct_nontrivial=%d wall=%.1fs\n", id, tier, evals, len(distinct), time.Since(start).Seconds())
	return 0
}

// crashed tells a runtime failure that cannot be recovered from apart from a harness problem.
func crashed(out string) bool {
	for _, m := range []string{"fatal error: stack overflow", "fatal error: concurrent map", "fatal error: all goroutines are asleep", "unexpected signal"} {
		if strings.Contains(out, m) {
			return true
		}
	}
	return false
}

// caseLimit is the time after which a single case (milliseconds to seconds normally) counts as one
// that does not end.
const caseLimit = 240 * time.Second

// printKnownFindings reports the committed, unrepaired findings of a property.
func printKnownFindings(root, id string) {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "KNOWN-FINDING: property="+id+" ") {
			fmt.Println(l)
		}
	}
}

// wtb is the TB handed to rapid in a worker.
type wtb struct {
	name   string
	failed bool
	log    strings.Builder
}

func (t *wtb) Helper()                   {}
func (t *wtb) Name() string              { return t.name }
func (t *wtb) Logf(f string, a ...any)   { t.write(fmt.Sprintf(f, a...)) }
func (t *wtb) Log(a ...any)              { t.write(fmt.Sprintln(a...)) }
func (t *wtb) Skipf(f string, a ...any)  { t.Logf(f, a...); t.SkipNow() }
func (t *wtb) Skip(a ...any)             { t.Log(a...); t.SkipNow() }
func (t *wtb) SkipNow()                  { runtime.Goexit() }
func (t *wtb) Errorf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *wtb) Error(a ...any)            { t.failed = true; t.Log(a...) }
func (t *wtb) Fatalf(f string, a ...any) { t.failed = true; t.Logf(f, a...); runtime.Goexit() }
func (t *wtb) Fatal(a ...any)            { t.failed = true; t.Log(a...); runtime.Goexit() }
func (t *wtb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *wtb) Fail()                     { t.failed = true }
func (t *wtb) Failed() bool              { return t.failed }
func (t *wtb) write(s string) {
	if t.log.Len() < 20000 {
		t.log.WriteString(strings.TrimRight(s, "\n") + "\n")
	}
}

func findSub(id, sub string) *Sub {
	ck := registry[id]
	if ck == nil {
		return nil
	}
	for i := range ck.Subs {
		if ck.Subs[i].Name == sub {
			return &ck.Subs[i]
		}
	}
	return nil
}

func worker(id, sub string, shard int, seed int64, checks int, out, work, failfile string) int {
	debug.SetGCPercent(400)
	s := findSub(id, sub)
	if s == nil {
		fmt.Fprintln(os.Stderr, "unknown predicate", id, sub)
		return 2
	}
	if work != "" {
		if err := os.Chdir(work); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	flag.Set("rapid.checks", strconv.Itoa(checks))
	flag.Set("rapid.seed", strconv.FormatUint(mixSeed(id, sub, shard, seed), 10))
	shrink := "15s"
	if s := os.Getenv("VERIF_SHRINK"); s != "" {
		shrink = s
	}
	flag.Set("rapid.shrinktime", shrink)
	if failfile != "" {
		flag.Set("rapid.failfile", failfile)
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.v", "true")
	}
	rec := newRecorder(id, sub)
	tb := &wtb{name: id + "_" + sub}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(tb, rec.wrap(s.Prop))
	}()
	hung := false
	for wait := true; wait; {
		select {
		case <-done:
			wait = false
		case <-time.After(2 * time.Second):
			if t := rec.began.Load(); t != 0 && time.Since(time.Unix(0, t)) > caseLimit {
				hung, wait = true, false
			}
		}
	}
	if hung {
		msg := fmt.Sprintf("a single case did not end within %v (base seed %d, shard %d)", caseLimit, seed, shard)
		if out == "" {
			fmt.Println(msg)
			return 1
		}
		b, _ := json.Marshal(result{ID: id, Sub: sub, Shard: shard, Failed: true, Message: msg})
		os.WriteFile(out, b, 0o644)
		return 1
	}
	r := rec.result()
	r.ID, r.Sub, r.Shard = id, sub, shard
	r.Failed = tb.failed
	if tb.failed {
		r.Message = tb.log.String()
		if strings.Contains(r.Message, "[rapid] only generated") {
			// generator problem, not a property violation
			fmt.Fprintln(os.Stderr, r.Message)
			return 2
		}
		if harnessBug != "" {
			fmt.Fprintln(os.Stderr, "HARNESS:", harnessBug)
			fmt.Fprintln(os.Stderr, r.Message)
			return 2
		}
		m, _ := filepath.Glob("testdata/rapid/*/*.fail")
		if len(m) > 0 {
			r.FailFile, _ = filepath.Abs(m[0])
		}
	}
	if out == "" {
		fmt.Println(tb.log.String())
		if tb.failed {
			return 1
		}
		return 0
	}
	b, err := json.Marshal(r)
	if err == nil {
		err = os.WriteFile(out, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

// replay re-runs a stored failing case; exit 1 if it still fails.
func replay(id, file string) int {
	base := filepath.Base(file)
	parts := strings.Split(base, ".")
	if len(parts) < 3 {
		fmt.Fprintln(os.Stderr, "replay file name must be <ID>.<predicate>.*")
		return 2
	}
	if id == "" {
		id = parts[0]
	}
	abs, _ := filepath.Abs(file)
	rc := worker(id, parts[1], 0, 1, 0, "", "", abs)
	if rc == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, abs)
	}
	return rc
}
