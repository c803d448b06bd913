package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- registry

// Suite is one workload: N deterministic cases, each derived from (seed, property, suite, index).
type Suite struct {
	Name     string
	Quick    int
	Thorough int
	// Variants lists the builds this suite runs under; empty means {"plain"}.
	Variants []string
	Run      func(c *Case)
	// Solo suites run in their own worker process, one process in total (heavy memory or many goroutines).
	Solo bool
}

// Prop is one property with its monitors.
type Prop struct {
	ID     string
	Rule   string
	Need   []string // counters that must be non-zero, or the run was inconclusive
	Suites []Suite
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// ---------------------------------------------------------------- worker

type violation struct {
	Property string `json:"property"`
	Suite    string `json:"suite"`
	Index    int    `json:"index"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Variant  string `json:"variant"`
	Kind     string `json:"kind"`
	Message  string `json:"message"`
	Note     string `json:"note"`
	Stack    string `json:"stack,omitempty"`
}

type workerResult struct {
	Done       bool             `json:"done"`
	Evals      int64            `json:"evals"`
	Cases      int64            `json:"cases"`
	Counters   map[string]int64 `json:"counters"`
	Samples    []string         `json:"samples"`
	Violations []violation      `json:"violations"`
	Known      []string         `json:"known"`
	Wall       float64          `json:"wall"`

	SuiteWall map[string]float64 `json:"suite_wall"`
	Largest   [3]int64           `json:"largest"`
}

type Worker struct {
	prop    *Prop
	seed    int64
	tier    string
	variant string
	shard   int
	shards  int
	outPath string

	mu       sync.Mutex
	res      workerResult
	distinct map[uint64]struct{}
	known    map[string]bool

	journal  []byte // shared mapping: survives the death of this process
	progress int64
	curSuite string
	curIndex int
}

const journalSize = 1 << 16

func (w *Worker) openJournal(path string) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		fatalf("journal: %v", err)
	}
	if err := f.Truncate(journalSize); err != nil {
		fatalf("journal: %v", err)
	}
	w.journal, err = syscall.Mmap(int(f.Fd()), 0, journalSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fatalf("journal: %v", err)
	}
	f.Close()
}

// journal layout: u32 suiteLen, suite, u64 index, u32 noteLen, note
func (w *Worker) journalCase(suite string, idx int) {
	b := w.journal
	binary.LittleEndian.PutUint32(b[0:], uint32(len(suite)))
	copy(b[4:], suite)
	o := 4 + len(suite)
	binary.LittleEndian.PutUint64(b[o:], uint64(idx))
	binary.LittleEndian.PutUint32(b[o+8:], 0)
}

func (w *Worker) journalNote(note []byte) {
	if w.journal == nil { // a goroutine of a case
		return
	}
	b := w.journal
	o := 4 + int(binary.LittleEndian.Uint32(b[0:])) + 8
	if max := len(b) - o - 4; len(note) > max {
		note = note[:max]
	}
	copy(b[o+4:], note)
	binary.LittleEndian.PutUint32(b[o:], uint32(len(note)))
}

func readJournal(path string) (suite string, idx int, note string) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 16 {
		return "", -1, ""
	}
	n := int(binary.LittleEndian.Uint32(b))
	if n == 0 || n > 200 {
		return "", -1, ""
	}
	suite = string(b[4 : 4+n])
	o := 4 + n
	idx = int(binary.LittleEndian.Uint64(b[o:]))
	nl := int(binary.LittleEndian.Uint32(b[o+8:]))
	if o+12+nl <= len(b) {
		note = string(b[o+12 : o+12+nl])
	}
	return
}

// ---------------------------------------------------------------- case

type Case struct {
	meddled int // uses of the library inside callbacks
	R       *rand.Rand
	W       *Worker
	Suite   string
	Index   int
	note    []byte
	evals   int64
	big     int  // documents of this many leaves
	f32ok   bool // values may have been made from a float32, whose float64 value is not that of its text
}

type caseFail struct{ msg string }

// Fail reports a violation found by a monitor and ends the case.
func (c *Case) Fail(format string, a ...any) {
	panic(caseFail{fmt.Sprintf(format, a...)})
}

// Note describes what the case is about to do. It is journalled so that it survives a crash.
func (c *Case) Note(format string, a ...any) {
	if len(a) == 0 {
		c.note = append(c.note[:0], format...)
	} else {
		c.note = fmt.Appendf(c.note[:0], format, a...)
	}
	c.W.journalNote(c.note)
}

// NoteMore appends to the note.
func (c *Case) NoteMore(format string, a ...any) {
	c.note = fmt.Appendf(c.note, format, a...)
	if len(c.note) < journalSize {
		c.W.journalNote(c.note)
	}
}

func (c *Case) Hit(name string) { c.W.hit(name, 1) }
func (c *Case) HitN(name string, n int) {
	if n != 0 {
		c.W.hit(name, int64(n))
	}
}

// Eval counts n oracle-checked executions in this case.
func (c *Case) Eval(n int) { c.evals += int64(n) }

// Distinct records a distinct, non-trivial situation, identified by the given parts.
func (c *Case) Distinct(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch x := p.(type) {
		case string:
			h.Write([]byte(x))
		case []byte:
			h.Write(x)
		default:
			fmt.Fprint(h, x)
		}
		h.Write([]byte{0xFF, 0})
	}
	w := c.W
	w.mu.Lock()
	if len(w.distinct) < 3_000_000 {
		w.distinct[h.Sum64()] = struct{}{}
	}
	w.mu.Unlock()
}

func (c *Case) Sample(format string, a ...any) {
	w := c.W
	w.mu.Lock()
	if len(w.res.Samples) < 6 {
		s := fmt.Sprintf("[%s #%d] ", c.Suite, c.Index) + fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "…"
		}
		w.res.Samples = append(w.res.Samples, s)
	}
	w.mu.Unlock()
}

// Known reports a failure that may be listed in known_findings.json under key.
func (c *Case) Known(key, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	if c.W.known[c.W.prop.ID+":"+key] {
		w := c.W
		w.mu.Lock()
		w.res.Known = append(w.res.Known, key)
		w.mu.Unlock()
		return
	}
	c.Fail("%s", msg)
}

func (w *Worker) hit(name string, n int64) {
	w.mu.Lock()
	w.res.Counters[name] += n
	w.mu.Unlock()
}

func caseSeed(seed int64, prop, suite string, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%d", seed, prop, suite, idx)
	x := h.Sum64()
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return int64(x)
}

// splitmix is a small, fast rand.Source64: seeding math/rand's default source costs ~10us per case.
type splitmix struct{ s uint64 }

func (s *splitmix) Seed(x int64) { s.s = uint64(x) }
func (s *splitmix) Uint64() uint64 {
	s.s += 0x9e3779b97f4a7c15
	z := s.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (s *splitmix) Int63() int64 { return int64(s.Uint64() >> 1) }

func newRand(seed int64) *rand.Rand { return rand.New(&splitmix{uint64(seed)}) }

// runCase runs one case; it returns a violation or nil.
func (w *Worker) runCase(s *Suite, idx int) (v *violation) {
	c := &Case{W: w, Suite: s.Name, Index: idx}
	c.R = newRand(caseSeed(w.seed, w.prop.ID, s.Name, idx))
	w.journalCase(s.Name, idx)
	w.curSuite, w.curIndex = s.Name, idx
	atomic.AddInt64(&w.progress, 1)
	defer func() {
		w.mu.Lock()
		w.res.Cases++
		w.res.Evals += c.evals
		w.mu.Unlock()
		if r := recover(); r != nil {
			v = &violation{Property: w.prop.ID, Suite: s.Name, Index: idx, Seed: w.seed, Tier: w.tier, Variant: w.variant, Note: string(c.note)}
			if f, ok := r.(caseFail); ok {
				v.Kind = "monitor"
				v.Message = f.msg
			} else {
				v.Kind = "panic"
				v.Message = fmt.Sprint(r)
				v.Stack = string(debug.Stack())
			}
		}
	}()
	s.Run(c)
	return nil
}

// parallel runs f in n goroutines, each with a case of its own which shares nothing with the others, so that no
// lock of the harness orders what they do. The first failure becomes that of this case.
func (c *Case) parallel(n int, f func(c *Case, i int)) {
	kids := make([]*Case, n)
	fails := make([]string, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range kids {
		w := &Worker{prop: c.W.prop, seed: c.W.seed, tier: c.W.tier, variant: c.W.variant, known: c.W.known, distinct: map[uint64]struct{}{}}
		w.res.Counters = map[string]int64{}
		k := &Case{R: newRand(c.R.Int63()), W: w, Suite: c.Suite, Index: c.Index, f32ok: c.f32ok}
		kids[i] = k
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					if x, ok := r.(caseFail); ok {
						fails[i] = x.msg
					} else {
						fails[i] = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
					}
				}
			}()
			<-start
			f(k, i)
		}(i)
	}
	close(start)
	wg.Wait()
	for _, k := range kids {
		for name, m := range k.W.res.Counters {
			c.W.hit(name, m)
		}
		c.W.mu.Lock()
		for h := range k.W.distinct {
			c.W.distinct[h] = struct{}{}
		}
		for _, x := range k.W.res.Known {
			c.W.res.Known = append(c.W.res.Known, x)
		}
		c.W.mu.Unlock()
		c.evals += k.evals
	}
	for i, m := range fails {
		if m != "" {
			c.NoteMore(" goroutine %d: %s", i, kids[i].note)
			c.Fail("goroutine %d of %d: %s", i, n, m)
		}
	}
}

func (w *Worker) flush(distinct bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	b, _ := json.Marshal(&w.res)
	if err := os.WriteFile(w.outPath, b, 0o644); err != nil {
		fatalf("write result: %v", err)
	}
	if distinct {
		buf := make([]byte, 0, 8*len(w.distinct))
		for h := range w.distinct {
			buf = binary.LittleEndian.AppendUint64(buf, h)
		}
		_ = os.WriteFile(w.outPath+".set", buf, 0o644)
	}
}

func rssBytes() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// Limits of a single case before the watchdog calls it a hang or a memory blow-up. A normal case costs
// micro- to milliseconds; CPU time, not wall time, is used so that a loaded machine raises no alarm.
var (
	hangCPU  = 60.0
	hangWall = 400.0
	maxRSS   = int64(3 << 30)
)

func (w *Worker) watchdog() {
	last := int64(-1)
	var cpu0 float64
	var t0 time.Time
	blocked := 0
	for {
		time.Sleep(100 * time.Millisecond)
		p := atomic.LoadInt64(&w.progress)
		if p != last {
			last, cpu0, t0 = p, cpuSeconds(), time.Now()
			blocked = 0
		}
		kind := ""
		if cpu := cpuSeconds() - cpu0; cpu > hangCPU {
			kind = fmt.Sprintf("hang: one case used %.0fs of CPU", cpu)
		} else if wall := time.Since(t0).Seconds(); wall > hangWall {
			kind = fmt.Sprintf("hang: one case took %.0fs", wall)
		} else if wall > 20 && cpu < 2 && allBlocked() {
			if blocked++; blocked > 20 {
				kind = fmt.Sprintf("deadlock: after %.0fs every goroutine is waiting for another", wall)
			}
		} else if rss := rssBytes(); rss > maxRSS {
			kind = fmt.Sprintf("memory: process grew to %d MB", rss>>20)
		}
		if kind == "" {
			continue
		}
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		s, i, note := journalOf(w)
		w.mu.Lock()
		w.res.Violations = append(w.res.Violations, violation{
			Property: w.prop.ID, Suite: s, Index: i, Seed: w.seed, Tier: w.tier, Variant: w.variant,
			Kind: "watchdog", Message: kind, Note: note, Stack: string(buf),
		})
		w.mu.Unlock()
		w.flush(false)
		os.Exit(3)
	}
}

// allBlocked tells if no goroutine but the caller's can run, or will be able to without another
func allBlocked() bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for i, g := range strings.Split(string(buf), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if i == 0 || !strings.HasPrefix(head, "goroutine ") {
			continue
		}
		waits := false
		for _, s := range []string{"[sync.", "[semacquire", "[chan ", "[select"} {
			waits = waits || strings.Contains(head, s)
		}
		if !waits {
			return false
		}
	}
	return true
}

func journalOf(w *Worker) (string, int, string) {
	b := w.journal
	n := int(binary.LittleEndian.Uint32(b))
	o := 4 + n
	nl := int(binary.LittleEndian.Uint32(b[o+8:]))
	return string(b[4 : 4+n]), int(binary.LittleEndian.Uint64(b[o:])), string(b[o+12 : o+12+nl])
}

func (w *Worker) run(only string, onlyIdx int) {
	start := time.Now()
	trackSizes = w.variant != "race"
	w.res.Counters = map[string]int64{}
	w.res.SuiteWall = map[string]float64{}
	w.distinct = map[uint64]struct{}{}
	w.journalCase("(start)", 0)
	go w.watchdog()
	for si := range w.prop.Suites {
		s := &w.prop.Suites[si]
		if only != "" && s.Name != only {
			continue
		}
		if only == "" {
			vs := s.Variants
			if len(vs) == 0 {
				vs = []string{"plain"}
			}
			ok := false
			for _, x := range vs {
				ok = ok || x == w.variant
			}
			if !ok {
				continue
			}
		}
		n := s.Quick
		if w.tier == "thorough" {
			n = s.Thorough
		}
		if s.Solo && w.shard != 0 && only == "" {
			continue
		}
		step, from := w.shards, w.shard
		if s.Solo {
			step, from = 1, 0
		}
		if only != "" && onlyIdx >= 0 {
			from, step, n = onlyIdx, 1, onlyIdx+1
		}
		t0 := time.Now()
		for i := from; i < n; i += step {
			if v := w.runCase(s, i); v != nil {
				w.mu.Lock()
				w.res.Violations = append(w.res.Violations, *v)
				w.mu.Unlock()
				w.flush(true)
				os.Exit(3)
			}
		}
		w.res.SuiteWall[s.Name+"/"+w.variant] = time.Since(t0).Seconds()
	}
	w.res.Largest = largestSeen
	w.res.Done = true
	w.res.Wall = time.Since(start).Seconds()
	w.flush(true)
}

func fatalf(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness error: "+format+"\n", a...)
	os.Exit(4)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
