// Command check decides one property: it rebuilds the harness against the
// repository's current working tree (plain, with the race detector, and with
// scheduling points inserted, as the property needs), runs the generated cases
// on all cores, attributes crashes and races to the case that was running, and
// writes the evidence file.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type area struct {
	pkg   string
	modes string // p: plain, r: race detector, s: controlled schedules
	times int    // multiplies the quick tier's number of cases
}

type report struct {
	Test          string         `json:"test"`
	Rule          string         `json:"rule"`
	Planned       int            `json:"planned"`
	Evaluations   int            `json:"evaluations"`
	NonTrivial    int            `json:"nontrivial"`
	BudgetSkipped int            `json:"budget_skipped"`
	Labels        map[string]int `json:"labels"`
	Samples       []string       `json:"samples"`
	WallS         float64        `json:"wall_s"`
}

type replayFile struct {
	Property string          `json:"property"`
	Test     string          `json:"test"`
	Kind     string          `json:"kind"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

type proc struct {
	mode   string
	shard  int
	shards int
	weight int
	out    string
	exit   int
	signal string
	kill   bool
	log    string
}

var (
	verif   string // /verif
	harness string
	repo    = envOr("VERIF_REPO", "/repo")
	work    string
	tier    = "quick"
	seed    = 1
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "check: "+format+"\n", a...)
	cleanup()
	os.Exit(3)
}

func cleanup() {
	if work != "" && strings.HasPrefix(filepath.Base(work), "verif-check-") {
		os.RemoveAll(work)
	}
}

func main() {
	exe, _ := os.Getwd()
	harness = exe
	verif = filepath.Dir(harness)
	if v, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = v
	}
	args := os.Args[1:]
	if len(args) == 1 && args[0] == "--list" {
		for _, id := range ids() {
			fmt.Println(id)
		}
		return
	}
	var err error
	work, err = os.MkdirTemp("", "verif-check-")
	if err != nil {
		fatal("%v", err)
	}
	switch {
	case len(args) == 1 && args[0] == "--setup":
		setup()
		cleanup()
	case len(args) == 2 && args[0] == "--replay":
		code := doReplay(args[1])
		cleanup()
		os.Exit(code)
	case len(args) >= 1:
		if len(args) > 1 {
			tier = args[1]
		} else if os.Getenv("VERIF_TIER") != "" {
			tier = os.Getenv("VERIF_TIER")
		}
		code := run(args[0])
		cleanup()
		os.Exit(code)
	default:
		fatal("usage: check ID [quick|thorough] | --replay FILE | --setup | --list")
	}
}

func ids() []string {
	var r []string
	for id := range areas {
		r = append(r, id)
	}
	sort.Strings(r)
	return r
}

// ---------------------------------------------------------------- building

func goCmd(args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = harness
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GONOSUMDB=*", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=1")
	b, err := cmd.CombinedOutput()
	return string(b), err
}

type built struct {
	mu    sync.Mutex
	bin   map[string]string
	notes []string
	errs  []string
}

// repoModfile writes a copy of the harness' module file (with extra replace
// lines, and with the repository's location) into the work directory.
func modfile(name string, extra string) (string, error) {
	b, err := os.ReadFile(filepath.Join(harness, "go.mod"))
	if err != nil {
		return "", err
	}
	s := strings.Replace(string(b), "=> /repo", "=> "+repo, 1)
	p := filepath.Join(work, name+".mod")
	if err := os.WriteFile(p, []byte(s+extra), 0o644); err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(harness, "go.sum"))
	if err != nil {
		return "", err
	}
	return p, os.WriteFile(filepath.Join(work, name+".sum"), sum, 0o644)
}

func instrument(all bool) error {
	bin := filepath.Join(work, "instr.bin")
	if o, err := goCmd("build", "-o", bin, "./cmd/instr"); err != nil {
		return fmt.Errorf("building instr: %v\n%s", err, o)
	}
	dir := filepath.Join(work, "instr")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	b, err := exec.Command(bin, "-repo", repo, "-out", dir, fmt.Sprintf("-all=%v", all)).CombinedOutput()
	if err != nil {
		return fmt.Errorf("instr: %v\n%s", err, b)
	}
	return nil
}

func build(pkg, modes string) *built {
	r := &built{bin: map[string]string{}}
	plainMod, err := modfile("plain", "")
	if err != nil {
		fatal("%v", err)
	}
	instrErr := instrument(pkg == "apart")
	if instrErr != nil {
		r.notes = append(r.notes, "instrumentation unavailable: "+instrErr.Error())
	}
	var wg sync.WaitGroup
	one := func(mode string, f func() (string, error)) {
		if !strings.Contains(modes, mode) {
			return
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			bin, err := f()
			r.mu.Lock()
			defer r.mu.Unlock()
			if err != nil {
				r.errs = append(r.errs, mode+": "+err.Error())
				return
			}
			r.bin[mode] = bin
		}()
	}
	test := func(out string, extra ...string) (string, error) {
		bin := filepath.Join(work, out)
		a := append([]string{"test", "-c", "-vet=off", "-o", bin}, extra...)
		o, err := goCmd(append(a, "./props/"+pkg)...)
		if err != nil {
			return "", fmt.Errorf("%v\n%s", err, o)
		}
		return bin, nil
	}
	one("p", func() (string, error) { return test("plain.test", "-modfile", plainMod) })
	one("r", func() (string, error) {
		// The executions live in synctest bubbles, so tasks must not run on the
		// real pool's long-lived goroutines.
		m, err := modfile("race", "\nreplace github.com/panjf2000/ants/v2 => "+filepath.Join(harness, "shim/ants")+"\n")
		if err != nil {
			return "", err
		}
		bin, err := test("race.test", "-race", "-modfile", m)
		if err == nil {
			return bin, nil
		}
		r.mu.Lock()
		r.notes = append(r.notes, "race build with the pool stand-in failed: "+err.Error())
		r.mu.Unlock()
		return test("race.test", "-race", "-modfile", plainMod)
	})
	one("s", func() (string, error) {
		m, err := modfile("sched", "\nreplace github.com/panjf2000/ants/v2 => "+filepath.Join(harness, "shim/ants")+"\n")
		if err != nil {
			return "", err
		}
		if instrErr == nil {
			bin, err := test("sched.test", "-modfile", m, "-overlay", filepath.Join(work, "instr", "overlay.json"))
			if err == nil {
				return bin, nil
			}
			r.mu.Lock()
			r.notes = append(r.notes, "instrumented build failed: "+err.Error())
			r.mu.Unlock()
		}
		// Without statement-level points: only the harness' own points and the
		// blocking operations separate steps.
		bin, err := test("sched.test", "-modfile", m)
		if err == nil {
			return bin, nil
		}
		r.mu.Lock()
		r.notes = append(r.notes, "controlled build with the pool stand-in failed: "+err.Error())
		r.mu.Unlock()
		return test("sched.test", "-modfile", plainMod)
	})
	wg.Wait()
	return r
}

func setup() {
	// Warms the build cache; every check rebuilds on its own anyway.
	done := map[string]bool{}
	for _, id := range ids() {
		a := areas[id]
		if done[a.pkg+a.modes] {
			continue
		}
		done[a.pkg+a.modes] = true
		b := build(a.pkg, a.modes)
		for _, n := range append(b.notes, b.errs...) {
			fmt.Println("setup:", a.pkg, n)
		}
		if len(b.errs) > 0 {
			fatal("setup: %s does not build", a.pkg)
		}
	}
	fmt.Println("setup: ok")
}

// ---------------------------------------------------------------- running

func run(id string) int {
	a, ok := areas[id]
	if !ok {
		fatal("unknown property %s", id)
	}
	began := time.Now()
	b := build(a.pkg, a.modes)
	for _, n := range b.notes {
		fmt.Println("note:", firstLines(n, 15))
	}
	if len(b.errs) > 0 {
		fatal("build failed:\n%s", strings.Join(b.errs, "\n"))
	}
	buildS := time.Since(began).Seconds()

	// Seconds for the cases of each mode; modes run one after another.
	budget, limit := 75/len(a.modes), 300*time.Second
	if tier == "thorough" {
		budget, limit = 560/len(a.modes), time.Duration(560/len(a.modes)+150)*time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil {
		budget = v
	}
	var procs []*proc
	for _, m := range a.modes {
		switch m {
		case 'p', 's':
			for i := 0; i < 8; i++ {
				procs = append(procs, &proc{mode: string(m), shard: i, shards: 8, weight: 1})
			}
		case 'r':
			for i := 0; i < 4; i++ {
				procs = append(procs, &proc{mode: "r", shard: i, shards: 4, weight: 2})
			}
		}
	}
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	var gate sync.Mutex
	for _, p := range procs {
		gate.Lock()
		for i := 0; i < p.weight; i++ {
			sem <- struct{}{}
		}
		gate.Unlock()
		wg.Add(1)
		go func(p *proc) {
			defer wg.Done()
			p.run(b.bin[p.mode], id, budget, limit, "", 1)
			for i := 0; i < p.weight; i++ {
				<-sem
			}
		}(p)
	}
	wg.Wait()
	return conclude(id, a, b, procs, began, buildS)
}

var (
	countMu sync.Mutex
	counts  = map[string]int{}
)

// count is the number of tests that match the pattern.
func count(bin, pattern string) int {
	countMu.Lock()
	defer countMu.Unlock()
	if n, ok := counts[pattern]; ok {
		return n
	}
	n := 0
	if b, err := exec.Command(bin, "-test.list", pattern).Output(); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "Test") {
				n++
			}
		}
	}
	if n == 0 {
		n = 1
	}
	counts[pattern] = n
	return n
}

func modeName(m string) string {
	return map[string]string{"p": "P", "r": "R", "s": "S"}[m]
}

func (p *proc) run(bin, id string, budget int, limit time.Duration, replay string, repeat int) {
	p.out = filepath.Join(work, fmt.Sprintf("out-%s-%d", p.mode, p.shard))
	_ = os.MkdirAll(p.out, 0o755)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	pattern := "^Test" + id + "_" + modeName(p.mode) + "_"
	cmd := exec.CommandContext(ctx, bin, "-test.run", pattern, "-test.timeout", "0")
	times := 1
	if areas[id].times > 0 {
		times = areas[id].times
	}
	cmd.Dir = p.out
	procsN := "1"
	if p.mode == "r" {
		procsN = "4"
	}
	cmd.Env = append(os.Environ(),
		"GOMAXPROCS="+procsN,
		"GORACE=halt_on_error=1 exitcode=66 history_size=2",
		"GOTRACEBACK=all",
		"VERIF_OUT="+p.out,
		"VERIF_SEED="+strconv.Itoa(seed),
		"VERIF_TIER="+tier,
		"VERIF_BUDGET="+strconv.Itoa(budget),
		"VERIF_TESTS="+strconv.Itoa(count(bin, pattern)),
		"VERIF_TIMES="+strconv.Itoa(times),
		fmt.Sprintf("VERIF_SHARD=%d/%d", p.shard, p.shards),
		"VERIF_DICT="+filepath.Join(work, "instr", "dict.json"),
		"VERIF_REPLAY="+replay,
		"VERIF_REPEAT="+strconv.Itoa(repeat),
	)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	p.log = filepath.Join(p.out, "log")
	f, err := os.Create(p.log)
	if err != nil {
		fatal("%v", err)
	}
	defer f.Close()
	cmd.Stdout, cmd.Stderr = f, f
	err = cmd.Run()
	if ctx.Err() != nil {
		p.kill = true
	}
	if ee, ok := err.(*exec.ExitError); ok {
		p.exit = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			p.signal = ws.Signal().String()
		}
	} else if err != nil {
		p.exit = 125
	}
}

type violation struct {
	replayFile
	mode string
}

var goPkgFrame = regexp.MustCompile(`github\.com/chenquan/go-pkg/`)

// diagnose turns the outcome of a process into a violation, an error, or neither.
func (p *proc) diagnose(id string) (v *violation, errMsg string) {
	if m, _ := filepath.Glob(filepath.Join(p.out, "viol-*.json")); len(m) > 0 {
		sort.Strings(m)
		b, _ := os.ReadFile(m[0])
		var r replayFile
		if json.Unmarshal(b, &r) == nil {
			return &violation{r, p.mode}, ""
		}
	}
	if p.exit == 0 {
		return nil, ""
	}
	logb, _ := os.ReadFile(p.log)
	text := string(logb)
	var cur replayFile
	if m, _ := filepath.Glob(filepath.Join(p.out, "cur-*.json")); len(m) > 0 {
		b, _ := os.ReadFile(m[0])
		if len(b) > 10 {
			n, _ := strconv.Atoi(string(b[:10]))
			if 10+n <= len(b) {
				cur.Case = json.RawMessage(b[10 : 10+n])
			}
		}
		base := filepath.Base(m[0])
		base = strings.TrimPrefix(base, "cur-")
		cur.Test = base[:strings.LastIndex(base, "-")]
	}
	cur.Property = id
	if len(cur.Case) > 0 && !p.kill {
		if i := strings.Index(text, "WARNING: DATA RACE"); i >= 0 {
			cur.Kind, cur.Message = "race", firstLines(text[i:], 60)
			return &violation{cur, p.mode}, ""
		}
		for _, mark := range []string{"fatal error: ", "panic: "} {
			i := strings.Index(text, mark)
			if i < 0 {
				continue
			}
			// The first goroutine listed is the one that crashed.
			rest := text[i:]
			if strings.Contains(firstLines(rest, 3), "harness:") {
				break
			}
			first := rest
			if j := strings.Index(rest, "\n\ngoroutine "); j >= 0 {
				k := strings.Index(rest[j+2:], "\n\n")
				if k >= 0 {
					first = rest[:j+2+k]
				}
			}
			if goPkgFrame.MatchString(first) {
				cur.Kind, cur.Message = "crash", firstLines(first, 60)
				return &violation{cur, p.mode}, ""
			}
		}
	}
	why := fmt.Sprintf("exit %d", p.exit)
	if p.signal != "" {
		why += " (" + p.signal + ")"
	}
	if p.kill {
		why = "time limit"
	}
	return nil, fmt.Sprintf("mode %s shard %d: %s\n%s", p.mode, p.shard, why, lastLines(text, 60))
}

func saveReplay(v *violation) string {
	dir := filepath.Join(verif, "replays")
	_ = os.MkdirAll(dir, 0o755)
	h := fnv.New32a()
	h.Write(v.Case)
	h.Write([]byte(v.Test))
	p := filepath.Join(dir, fmt.Sprintf("%s-%08x.json", v.Property, h.Sum32()))
	b, _ := json.MarshalIndent(v.replayFile, "", " ")
	_ = os.WriteFile(p, b, 0o644)
	return p
}

func conclude(id string, a area, b *built, procs []*proc, began time.Time, buildS float64) int {
	var viols []*violation
	var errs []string
	for _, p := range procs {
		v, e := p.diagnose(id)
		if v != nil {
			viols = append(viols, v)
		} else if e != "" {
			errs = append(errs, e)
		}
	}
	parts := map[string]map[string]interface{}{}
	evals, nontriv := 0, 0
	var samples []interface{}
	var rules []string
	tests := map[string][]report{}
	hashes := map[string]map[uint64]struct{}{}
	for _, p := range procs {
		m, _ := filepath.Glob(filepath.Join(p.out, "rep-*.json"))
		for _, f := range m {
			var r report
			bb, _ := os.ReadFile(f)
			if json.Unmarshal(bb, &r) != nil {
				continue
			}
			tests[r.Test] = append(tests[r.Test], r)
			hb, _ := os.ReadFile(strings.TrimSuffix(f, ".json") + ".bin")
			if hashes[r.Test] == nil {
				hashes[r.Test] = map[uint64]struct{}{}
			}
			for i := 0; i+8 <= len(hb); i += 8 {
				hashes[r.Test][binary.LittleEndian.Uint64(hb[i:])] = struct{}{}
			}
		}
	}
	var names []string
	for n := range tests {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		ev, skip := 0, 0
		labels := map[string]int{}
		for i, r := range tests[n] {
			ev += r.Evaluations
			skip += r.BudgetSkipped
			for k, v := range r.Labels {
				labels[k] += v
			}
			if i == 0 {
				rules = append(rules, n+": "+r.Rule)
			}
			if i < 2 {
				for _, s := range r.Samples {
					if len(s) < 1200 && len(samples) < 24 {
						var j interface{}
						_ = json.Unmarshal([]byte(s), &j)
						samples = append(samples, map[string]interface{}{"test": n, "case": j})
					}
				}
			}
		}
		evals += ev
		nontriv += len(hashes[n])
		parts[n] = map[string]interface{}{"evaluations": ev, "distinct_nontrivial": len(hashes[n]), "not_run_for_time": skip, "classes": labels}
		fmt.Printf("%s: %d cases, %d distinct non-trivial, %d not run for time %s\n", n, ev, len(hashes[n]), skip, labelLine(labels))
	}
	if samples == nil {
		samples = []interface{}{"none: the run failed before a case was completed"}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": nontriv,
			"rule": strings.Join(rules, " || "), "samples": samples, "parts": parts,
			"build_s": buildS, "notes": b.notes, "errors": len(errs),
		},
		"assumptions": assumptions(a),
		"wall_s":      time.Since(began).Seconds(),
		"violations":  len(viols),
	}
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(eb, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	if len(viols) > 0 {
		sort.SliceStable(viols, func(i, j int) bool {
			// deterministic replays first, then the smallest
			di, dj := viols[i].mode == "r", viols[j].mode == "r"
			if di != dj {
				return !di
			}
			return len(viols[i].Case) < len(viols[j].Case)
		})
		v := viols[0]
		p := saveReplay(v)
		fmt.Printf("%s (%s): %s\ncase: %s\n", v.Test, v.Kind, firstLines(v.Message, 40), clip(string(compact(v.Case)), 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		return 1
	}
	if len(errs) > 0 {
		fmt.Fprintf(os.Stderr, "check: %s\n", strings.Join(errs, "\n----\n"))
		return 3
	}
	want := 0
	for range a.modes {
		want++
	}
	got := map[byte]bool{}
	for _, n := range names {
		if i := strings.IndexByte(n, '_'); i > 0 && i+1 < len(n) {
			got[n[i+1]] = true
		}
	}
	if len(got) < want || evals == 0 {
		fmt.Fprintf(os.Stderr, "check: only %d of %d modes reported\n", len(got), want)
		return 3
	}
	fmt.Printf("%s %s: held on %d cases (%d distinct non-trivial), %.1f s (build %.1f s)\n", id, tier, evals, nontriv, time.Since(began).Seconds(), buildS)
	return 0
}

func assumptions(a area) []string {
	r := []string{"the reference model in harness/props/" + a.pkg + " states the property", "the Go toolchain and its race detector are correct"}
	if strings.Contains(a.modes, "s") {
		r = append(r, "controlled interleavings are sequentially consistent and switch at statements, locks, atomics and blocking operations; locks, atomics, pools and the goroutine pool are stand-ins with the same contract")
	}
	return r
}

func compact(b []byte) []byte {
	var o bytes.Buffer
	if json.Compact(&o, b) != nil {
		return b
	}
	return o.Bytes()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func labelLine(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, " %s=%d", k, m[k])
	}
	return b.String()
}

func firstLines(s string, n int) string {
	sc := bufio.NewScanner(strings.NewReader(s))
	sc.Buffer(nil, 1<<20)
	var r []string
	for sc.Scan() && len(r) < n {
		r = append(r, sc.Text())
	}
	return strings.Join(r, "\n")
}

func lastLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, "\n")
}

// ---------------------------------------------------------------- replay

func doReplay(file string) int {
	file, _ = filepath.Abs(file)
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	a, ok := areas[r.Property]
	if !ok {
		fatal("unknown property %q", r.Property)
	}
	mode := strings.ToLower(strings.Split(r.Test, "_")[1])
	bl := build(a.pkg, mode)
	if len(bl.errs) > 0 {
		fatal("build failed:\n%s", strings.Join(bl.errs, "\n"))
	}
	repeat := 1
	if mode == "r" {
		repeat = 300
	} else {
		repeat = 20 // selects among ready channels are resolved by the runtime
	}
	p := &proc{mode: mode, shard: 0, shards: 1}
	p.run(bl.bin[mode], r.Property, 600, 600*time.Second, file, repeat)
	v, e := p.diagnose(r.Property)
	if v != nil {
		fmt.Printf("%s (%s): %s\n", v.Test, v.Kind, firstLines(v.Message, 60))
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
		return 1
	}
	if e != "" {
		fatal("%s", e)
	}
	fmt.Println("replay: the property held")
	return 0
}
