// Package core drives one property check: it generates cases with rapid, runs
// each against the real code under an oracle, shrinks and saves any failing
// case as a replay file, and reports what was actually covered.
package core

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Prop is one executable property over generated cases of type C.
type Prop[C any] struct {
	Rule     string // how a case is made and what makes it non-trivial
	Quick    int    // cases over all shards
	Thorough int
	Gen      func(t *rapid.T) C
	Run      func(t *testing.T, c C, r *Rec) error
}

// Rec collects what a single case exercised.
type Rec struct {
	nontrivial bool
	skipped    bool
	labels     []string
}

// NonTrivial marks the case as one that reaches the point of the property.
func (r *Rec) NonTrivial(cond bool) {
	if cond {
		r.nontrivial = true
	}
}

// Label counts a class of cases.
func (r *Rec) Label(format string, a ...interface{}) {
	if len(a) > 0 {
		format = fmt.Sprintf(format, a...)
	}
	r.labels = append(r.labels, format)
}

// LabelIf counts a class of cases when cond holds.
func (r *Rec) LabelIf(cond bool, l string) {
	if cond {
		r.labels = append(r.labels, l)
	}
}

// Inconclusive discards a case that could not be decided (never a failure).
func (r *Rec) Inconclusive(why string) {
	r.skipped = true
	r.labels = append(r.labels, "inconclusive:"+why)
}

// Report is what one shard of one test wrote out.
type Report struct {
	Test          string         `json:"test"`
	Rule          string         `json:"rule"`
	Planned       int            `json:"planned"`
	Evaluations   int            `json:"evaluations"`
	NonTrivial    int            `json:"nontrivial"`
	BudgetSkipped int            `json:"budget_skipped"`
	Labels        map[string]int `json:"labels"`
	Samples       []string       `json:"samples"`
	WallS         float64        `json:"wall_s"`
}

// Replay is a saved failing case.
type Replay struct {
	Property string          `json:"property"`
	Test     string          `json:"test"`
	Kind     string          `json:"kind"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

var (
	out    = os.Getenv("VERIF_OUT")
	seedE  = envInt("VERIF_SEED", 1)
	budget = time.Duration(envInt("VERIF_BUDGET", 600)) * time.Second
	scale  = envInt("VERIF_SCALE", 100) // per cent, for experiments
	shard  = 0
	shards = 1
)

func init() {
	if s := os.Getenv("VERIF_SHARD"); s != "" {
		fmt.Sscanf(s, "%d/%d", &shard, &shards)
	}
}

// Thorough reports whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func propID(test string) string {
	s := strings.TrimPrefix(test, "Test")
	if i := strings.IndexByte(s, '_'); i > 0 {
		s = s[:i]
	}
	return s
}

// Check runs the property on this shard's cases, or on one saved case.
func Check[C any](t *testing.T, p Prop[C]) {
	name := t.Name()
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		replay(t, p, f)
		return
	}
	total := p.Quick * envInt("VERIF_TIMES", 1)
	if Thorough() {
		total = max(p.Thorough, 12*total)
	}
	n := (total*scale/100 + shards - 1) / shards
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%d", seedE, name, shard)
	seed := h.Sum64()
	if seed == 0 {
		seed = 1
	}
	set("rapid.checks", strconv.Itoa(n))
	set("rapid.seed", strconv.FormatUint(seed, 10))
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", "15s")

	rep := Report{Test: name, Rule: p.Rule, Planned: n, Labels: map[string]int{}}
	distinct := map[uint64]struct{}{}
	cur := openCurrent(name)
	defer cur.close()
	began := time.Now()
	// The tests of a process share its time.
	mine := budget / time.Duration(max(1, envInt("VERIF_TESTS", 1)))
	failed := false
	best := -1
	defer func() {
		rep.WallS = time.Since(began).Seconds()
		rep.NonTrivial = len(distinct)
		writeReport(name, rep, distinct)
	}()
	rapid.Check(t, func(rt *rapid.T) {
		if !failed && time.Since(began) > mine {
			rep.BudgetSkipped++
			return
		}
		c := p.Gen(rt)
		js, err := json.Marshal(c)
		if err != nil {
			panic("harness: case does not marshal: " + err.Error())
		}
		cur.set(js)
		var rec Rec
		ferr := runCase(t, p, c, &rec)
		cur.done()
		if !failed {
			rep.Evaluations++
			for _, l := range rec.labels {
				rep.Labels[l]++
			}
			if rec.nontrivial && !rec.skipped {
				h := fnv.New64a()
				h.Write(js)
				k := h.Sum64()
				if _, ok := distinct[k]; !ok && len(distinct) < 400000 {
					distinct[k] = struct{}{}
					sample(&rep, js, len(distinct))
				}
			}
		}
		if ferr != nil {
			failed = true
			if best < 0 || len(js) <= best {
				best = len(js)
				saveViolation(name, "oracle", ferr.Error(), js)
			}
			rt.Fatalf("%v", ferr)
		}
	})
}

func set(k, v string) {
	if err := flag.Set(k, v); err != nil {
		panic(err)
	}
}

func sample(r *Report, js []byte, n int) {
	if len(js) > 1500 {
		return
	}
	switch {
	case len(r.Samples) < 2:
		r.Samples = append(r.Samples, string(js))
	case n&(n-1) == 0: // powers of two: later, typically larger cases
		if len(r.Samples) < 4 {
			r.Samples = append(r.Samples, string(js))
		} else {
			r.Samples[2+n%2] = string(js)
		}
	}
}

func runCase[C any](t *testing.T, p Prop[C], c C, rec *Rec) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if strings.Contains(st, "github.com/chenquan/go-pkg/") || strings.Contains(fmt.Sprint(r), "github.com/chenquan/go-pkg/") {
				err = fmt.Errorf("unexpected panic: %v\n%s", r, st)
				return
			}
			panic(fmt.Sprintf("harness: %v\n%s", r, st))
		}
	}()
	return p.Run(t, c, rec)
}

func replay[C any](t *testing.T, p Prop[C], f string) {
	b, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	if r.Test != t.Name() {
		return
	}
	var c C
	if err := json.Unmarshal(r.Case, &c); err != nil {
		panic("harness: replay does not parse: " + err.Error())
	}
	cur := openCurrent(t.Name())
	defer cur.close()
	for i := 0; i < envInt("VERIF_REPEAT", 1); i++ {
		cur.set(r.Case)
		var rec Rec
		if err := runCase(t, p, c, &rec); err != nil {
			saveViolation(t.Name(), "oracle", err.Error(), r.Case)
			t.Fatalf("%v", err)
		}
		cur.done()
	}
	fmt.Println("REPLAY-OK", t.Name())
}

// ---------------------------------------------------------------- output

func outFile(kind, test, ext string) string {
	d := out
	if d == "" {
		d = os.TempDir()
	}
	return filepath.Join(d, fmt.Sprintf("%s-%s-%d%s", kind, strings.ReplaceAll(test, "/", "_"), shard, ext))
}

func saveViolation(test, kind, msg string, js []byte) {
	if len(msg) > 20000 {
		msg = msg[:20000]
	}
	b, _ := json.MarshalIndent(Replay{propID(test), test, kind, msg, js}, "", " ")
	_ = os.WriteFile(outFile("viol", test, ".json"), b, 0o644)
}

func writeReport(test string, r Report, d map[uint64]struct{}) {
	b, _ := json.Marshal(r)
	_ = os.WriteFile(outFile("rep", test, ".json"), b, 0o644)
	buf := make([]byte, 0, 8*len(d))
	ks := make([]uint64, 0, len(d))
	for k := range d {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, k := range ks {
		buf = binary.LittleEndian.AppendUint64(buf, k)
	}
	_ = os.WriteFile(outFile("rep", test, ".bin"), buf, 0o644)
}

// current remembers the case being run so that a crash of the process can be
// attributed to it, and hosts the watchdog.
type current struct {
	test string
	f    *os.File
	mu   sync.Mutex
	js   []byte
	buf  []byte
	seq  atomic.Int64 // odd: a case is running
	quit chan struct{}
}

func openCurrent(test string) *current {
	c := &current{test: test, quit: make(chan struct{})}
	if f, err := os.Create(outFile("cur", test, ".json")); err == nil {
		c.f = f
	}
	go c.watch()
	return c
}

func (c *current) set(js []byte) {
	c.mu.Lock()
	c.js = js
	c.mu.Unlock()
	if c.f != nil {
		c.buf = append(c.buf[:0], fmt.Sprintf("%010d", len(js))...)
		c.buf = append(c.buf, js...)
		_, _ = c.f.WriteAt(c.buf, 0)
	}
	c.seq.Add(1)
}

func (c *current) done() { c.seq.Add(1) }

func (c *current) close() {
	close(c.quit)
	if c.f != nil {
		c.f.Close()
		os.Remove(c.f.Name())
	}
}

func cpu() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Limits of the watchdog. A case normally takes microseconds to milliseconds.
const (
	runaway  = 40 * time.Second // processor time of one case
	idleWall = 40 * time.Second // wall time before looking for a standstill
)

func (c *current) watch() {
	last := int64(-1)
	var since time.Time
	var cpu0 time.Duration
	for {
		select {
		case <-c.quit:
			return
		case <-time.After(time.Second):
		}
		s := c.seq.Load()
		if s != last || s%2 == 0 {
			last, since, cpu0 = s, time.Now(), cpu()
			continue
		}
		if time.Since(since) < idleWall/2 {
			continue
		}
		if cpu()-cpu0 > runaway {
			c.hang("runaway", "one case consumed more than "+runaway.String()+" of processor time")
		}
		if time.Since(since) > idleWall {
			a := snapshot()
			if standstill(a) {
				time.Sleep(5 * time.Second)
				if c.seq.Load() == s && standstill(snapshot()) {
					c.hang("standstill", "every goroutine of the case is blocked and can never continue\n"+a)
				}
			}
		}
	}
}

func (c *current) hang(kind, msg string) {
	c.mu.Lock()
	js := c.js
	c.mu.Unlock()
	if kind == "runaway" {
		msg += "\n" + snapshot()
	}
	saveViolation(c.test, kind, msg, js)
	fmt.Fprintln(os.Stderr, "watchdog:", kind)
	os.Exit(3)
}

func snapshot() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// standstill: no goroutine besides the watchdog can run.
func standstill(stacks string) bool {
	for i, g := range strings.Split(stacks, "\n\n") {
		if i == 0 || !strings.HasPrefix(g, "goroutine ") {
			continue // the watchdog itself comes first
		}
		head, _, _ := strings.Cut(g, "\n")
		for _, s := range []string{"[running", "[runnable", "[syscall", "[sleep", "[GC", "[IO wait"} {
			if strings.Contains(head, s) {
				return false
			}
		}
	}
	return true
}
