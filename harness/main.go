package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fatalf("usage: vh check|worker|replay|variants|list ...")
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "worker":
		workerMain(os.Args[2:])
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	case "variants":
		p := props[os.Args[2]]
		if p == nil {
			fatalf("unknown property %s", os.Args[2])
		}
		fmt.Println(strings.Join(variantsOf(p), " "))
	case "list":
		for _, id := range sortedKeys(props) {
			fmt.Println(id)
		}
	case "selftest":
		selftest()
	default:
		fatalf("unknown command %s", os.Args[1])
	}
}

func variantsOf(p *Prop) []string {
	set := map[string]bool{}
	for _, s := range p.Suites {
		if len(s.Variants) == 0 {
			set["plain"] = true
		}
		for _, v := range s.Variants {
			set[v] = true
		}
	}
	return sortedKeys(set)
}

// ---------------------------------------------------------------- known findings

// loadKnown reads lines "finding: property=<id> key=<key> <what>"
func loadKnown(path string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		w := strings.SplitN(sc.Text(), " ", 4)
		if len(w) < 4 || w[0] != "finding:" || !strings.HasPrefix(w[1], "property=") || !strings.HasPrefix(w[2], "key=") {
			continue
		}
		m[w[1][9:]+":"+w[2][4:]] = w[3]
	}
	return m
}

// ---------------------------------------------------------------- worker

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	variant := fs.String("variant", "plain", "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	out := fs.String("out", "", "")
	known := fs.String("known", "", "")
	only := fs.String("only", "", "")
	idx := fs.Int("idx", -1, "")
	_ = fs.Parse(args)
	p := props[*prop]
	if p == nil {
		fatalf("unknown property %s", *prop)
	}
	w := &Worker{prop: p, seed: *seed, tier: *tier, variant: *variant, shard: *shard, shards: *shards, outPath: *out, known: map[string]bool{}}
	for k := range loadKnown(*known) {
		w.known[k] = true
	}
	w.openJournal(*out + ".journal")
	w.run(*only, *idx)
}

// ---------------------------------------------------------------- parent

type job struct {
	variant string
	shard   int
	shards  int
}

type jobResult struct {
	job
	res    workerResult
	viols  []violation
	err    string // inconclusive
	stderr string
}

type tail struct {
	mu  sync.Mutex
	buf bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.buf.Len() < 64<<10 {
		t.buf.Write(p)
	}
	return len(p), nil
}

func workerEnv(variant string, procs int) []string {
	env := os.Environ()
	env = append(env, fmt.Sprintf("GOMAXPROCS=%d", procs), "GOTRACEBACK=all")
	switch variant {
	case "race":
		env = append(env, "GORACE=halt_on_error=1 exitcode=66 history_size=2")
	case "gc":
		env = append(env, "GODEBUG=clobberfree=1", "GOGC=10")
	case "asan":
		env = append(env, "ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:halt_on_error=1:exitcode=67")
	}
	return env
}

func runJob(bin string, args []string, variant string, procs int, deadline time.Time) (code int, sig syscall.Signal, stderr string, timedOut bool) {
	cmd := exec.Command(bin, args...)
	var t tail
	cmd.Stderr = &t
	cmd.Stdout = &t
	cmd.Env = workerEnv(variant, procs)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	if err := cmd.Start(); err != nil {
		return -1, 0, err.Error(), false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(time.Until(deadline)):
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		timedOut = true
	}
	st := cmd.ProcessState
	if wst, ok := st.Sys().(syscall.WaitStatus); ok && wst.Signaled() {
		sig = wst.Signal()
	}
	return st.ExitCode(), sig, t.buf.String(), timedOut
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	bins := fs.String("bins", "", "variant=path,...")
	root := fs.String("root", "/verif", "")
	tmp := fs.String("tmp", "", "")
	_ = fs.Parse(args)
	p := props[*prop]
	if p == nil {
		fatalf("unknown property %s", *prop)
	}
	start := time.Now()
	limit := 780 * time.Second
	if *tier == "thorough" {
		limit = 6 * time.Hour
	}
	deadline := start.Add(limit)
	binOf := map[string]string{}
	for _, x := range strings.Split(*bins, ",") {
		if i := strings.IndexByte(x, '='); i > 0 {
			binOf[x[:i]] = x[i+1:]
		}
	}
	knownPath := filepath.Join(*root, "known_findings.txt")
	known := loadKnown(knownPath)

	var jobs []job
	for _, v := range variantsOf(p) {
		n := 8
		if v == "race" || v == "asan" {
			n = 4
		}
		for i := 0; i < n; i++ {
			jobs = append(jobs, job{v, i, n})
		}
	}
	results := make([]jobResult, len(jobs))
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	var stop sync.Once
	stopped := make(chan struct{})
	for i, j := range jobs {
		wg.Add(1)
		go func(i int, j job) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			select {
			case <-stopped:
				results[i] = jobResult{job: j, err: "skipped after a violation"}
				return
			default:
			}
			results[i] = oneJob(p, j, binOf[j.variant], *tier, *seed, *tmp, knownPath, deadline)
			if len(results[i].viols) > 0 {
				stop.Do(func() { close(stopped) })
			}
		}(i, j)
	}
	wg.Wait()

	// merge
	counters := map[string]int64{}
	distinct := map[uint64]struct{}{}
	var evals, cases int64
	var samples []string
	var viols []violation
	incon := []string{}
	hitKnown := map[string]bool{}
	byVariant := map[string]int64{}
	suiteWall := map[string]float64{}
	var largest [3]int64
	for i := range results {
		r := &results[i]
		evals += r.res.Evals
		cases += r.res.Cases
		byVariant[r.variant] += r.res.Evals
		for k, n := range r.res.SuiteWall {
			suiteWall[k] += n
		}
		for k, n := range r.res.Largest {
			if n > largest[k] {
				largest[k] = n
			}
		}
		for k, n := range r.res.Counters {
			counters[k] += n
		}
		samples = append(samples, r.res.Samples...)
		viols = append(viols, r.viols...)
		for _, k := range r.res.Known {
			hitKnown[k] = true
		}
		if r.err != "" {
			incon = append(incon, fmt.Sprintf("%s shard %d: %s", r.variant, r.shard, r.err))
		}
		b, _ := os.ReadFile(jobOut(*tmp, r.job) + ".set")
		for ; len(b) >= 8; b = b[8:] {
			distinct[binary.LittleEndian.Uint64(b)] = struct{}{}
		}
	}
	sort.Strings(samples)
	if len(samples) > 12 {
		step := len(samples) / 12
		var s []string
		for i := 0; i < len(samples) && len(s) < 12; i += step {
			s = append(s, samples[i])
		}
		samples = s
	}
	for _, n := range p.Need {
		if counters[n] == 0 && len(viols) == 0 {
			incon = append(incon, "monitor observed no event of kind "+n)
		}
	}
	if len(viols) == 0 && evals == 0 {
		incon = append(incon, "nothing was evaluated")
	}

	ev := map[string]any{
		"property": p.ID, "tier": *tier, "seed": *seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":          evals,
			"distinct_nontrivial":  len(distinct),
			"rule":                 p.Rule,
			"samples":              samples,
			"cases":                cases,
			"events_observed":      counters,
			"evaluations_by_build": byVariant,
			"worker_s_by_suite":    suiteWall,
			"largest_compared":     map[string]int64{"array": largest[0], "object": largest[1], "string_bytes": largest[2]},
			"inconclusive":         incon,
		},
		"assumptions": assumptions(p),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(viols),
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*root, "evidence", p.ID+".json"), append(eb, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 2
	}

	if len(viols) > 0 {
		v := viols[0]
		dir := filepath.Join(*root, "replays")
		_ = os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%s.json", v.Property, strings.ReplaceAll(v.Suite, "/", "_"), v.Index, v.Variant))
		vb, _ := json.MarshalIndent(v, "", " ")
		_ = os.WriteFile(path, append(vb, '\n'), 0o644)
		fmt.Printf("%s: %s case %d (%s build, %s): %s\n", v.Property, v.Suite, v.Index, v.Variant, v.Kind, trunc(v.Message, 3000))
		if v.Note != "" {
			fmt.Printf("case: %s\n", trunc(v.Note, 2000))
		}
		if v.Stack != "" {
			fmt.Printf("%s\n", trunc(v.Stack, 4000))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
		return 1
	}
	for _, k := range sortedKeys(known) {
		if strings.HasPrefix(k, p.ID+":") {
			seen := ""
			if !hitKnown[k[len(p.ID)+1:]] {
				seen = " (not reproduced in this run)"
			}
			fmt.Printf("KNOWN-FINDING: property=%s %s%s\n", p.ID, known[k], seen)
		}
	}
	if len(incon) > 0 {
		fmt.Printf("INCONCLUSIVE property=%s: %s\n", p.ID, strings.Join(incon, "; "))
		return 2
	}
	fmt.Printf("OK property=%s tier=%s evaluations=%d distinct=%d cases=%d wall=%.1fs\n", p.ID, *tier, evals, len(distinct), cases, time.Since(start).Seconds())
	return 0
}

func jobOut(tmp string, j job) string {
	return filepath.Join(tmp, fmt.Sprintf("%s-%d.json", j.variant, j.shard))
}

func oneJob(p *Prop, j job, bin, tier string, seed int64, tmp, knownPath string, deadline time.Time) (r jobResult) {
	r.job = j
	if bin == "" {
		r.err = "no binary for this build"
		return
	}
	out := jobOut(tmp, j)
	args := []string{"worker", "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-variant", j.variant,
		"-shard", fmt.Sprint(j.shard), "-shards", fmt.Sprint(j.shards), "-out", out, "-known", knownPath}
	procs := 2
	if j.variant == "race" {
		procs = 4
	}
	for attempt := 0; ; attempt++ {
		_ = os.Remove(out)
		code, sig, stderr, timedOut := runJob(bin, args, j.variant, procs, deadline)
		r.stderr = stderr
		if b, err := os.ReadFile(out); err == nil {
			r.res = workerResult{}
			_ = json.Unmarshal(b, &r.res)
		}
		switch {
		case code == 0 && r.res.Done:
			return
		case timedOut:
			s, i, _ := readJournal(out + ".journal")
			r.err = fmt.Sprintf("time limit reached in %s case %d", s, i)
			return
		case code == 3 && len(r.res.Violations) > 0:
			r.viols = r.res.Violations
			return
		case code == 4:
			r.err = "harness error: " + trunc(stderr, 2000)
			return
		case sig == syscall.SIGKILL || sig == syscall.SIGTERM:
			// ended from outside, by the memory limit of the machine perhaps: no verdict about the code
			if attempt == 0 {
				continue
			}
			s, i, _ := readJournal(out + ".journal")
			r.err = fmt.Sprintf("killed twice, in %s case %d", s, i)
			return
		}
		s, i, note := readJournal(out + ".journal")
		if i < 0 {
			r.err = fmt.Sprintf("worker ended with code %d before its first case: %s", code, trunc(stderr, 2000))
			return
		}
		k := "crash"
		msg := fmt.Sprintf("the process died (exit code %d, signal %v)", code, sig)
		switch {
		case code == 66 || strings.Contains(stderr, "DATA RACE"):
			k, msg = "race", "data race reported by the race detector"
		case code == 67 || strings.Contains(stderr, "AddressSanitizer"):
			k, msg = "asan", "memory error reported by AddressSanitizer"
		case strings.Contains(stderr, "fatal error: checkptr"):
			k, msg = "checkptr", "invalid pointer use reported by checkptr"
		case strings.Contains(stderr, "fatal error:"):
			k = "fatal"
			p := strings.Index(stderr, "fatal error:")
			msg += ": " + strings.SplitN(stderr[p:], "\n", 2)[0]
		}
		r.viols = []violation{{Property: p.ID, Suite: s, Index: i, Seed: seed, Tier: tier, Variant: j.variant, Kind: k, Message: msg, Note: note, Stack: trunc(stderr, 20000)}}
		return
	}
}

func assumptions(p *Prop) []string {
	return []string{
		"held on the executions observed in this run, which the counts describe; nothing is claimed about inputs, histories or schedules that were not driven",
		"the reference parser, models and encoders of /verif/harness are trusted; the parser is cross-checked against encoding/json by 'vh selftest' in every check",
		"Go 1.27.3 on linux/amd64, 64-bit int",
	}
}

func replayMain(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	file := fs.String("file", "", "")
	bins := fs.String("bins", "", "")
	tmp := fs.String("tmp", "", "")
	_ = fs.Parse(args)
	b, err := os.ReadFile(*file)
	if err != nil {
		fatalf("%v", err)
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fatalf("%v", err)
	}
	bin := ""
	for _, x := range strings.Split(*bins, ",") {
		if strings.HasPrefix(x, v.Variant+"=") {
			bin = x[len(v.Variant)+1:]
		}
	}
	args2 := []string{"worker", "-prop", v.Property, "-tier", v.Tier, "-seed", fmt.Sprint(v.Seed), "-variant", v.Variant, "-out", filepath.Join(*tmp, "replay.json"), "-only", v.Suite, "-idx", fmt.Sprint(v.Index)}
	code, sig, stderr, _ := runJob(bin, args2, v.Variant, 4, time.Now().Add(15*time.Minute))
	if code == 0 {
		fmt.Printf("case %s %s #%d holds now\n", v.Property, v.Suite, v.Index)
		return 0
	}
	fmt.Printf("case %s %s #%d fails (code %d, signal %v)\n%s\n", v.Property, v.Suite, v.Index, code, sig, stderr)
	if rb, err := os.ReadFile(filepath.Join(*tmp, "replay.json")); err == nil {
		var res workerResult
		_ = json.Unmarshal(rb, &res)
		for _, x := range res.Violations {
			fmt.Printf("%s\ncase: %s\n%s\n", x.Message, x.Note, x.Stack)
		}
	}
	return 1
}
