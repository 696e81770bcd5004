package main

// The engine: runs one property as a number of shard processes, each of which
// drives the property through rapid with its own seed, watches the CPU time and
// memory of every case, and reports what it covered.

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Obs collects what one evaluation of a check looked at.
type Obs struct {
	nontrivial bool
	key        uint64
	labels     map[string]int
}

// NonTrivial marks the case as non-trivial; the parts identify it.
func (o *Obs) NonTrivial(parts ...string) {
	h := fnv.New64a()
	for _, p := range parts {
		_, _ = h.Write([]byte(p))
		_, _ = h.Write([]byte{0})
	}
	o.nontrivial = true
	o.key = h.Sum64()
}

func (o *Obs) Label(s string) {
	if o.labels == nil {
		o.labels = map[string]int{}
	}
	o.labels[s]++
}

func (o *Obs) LabelIf(b bool, s string) {
	if b {
		o.Label(s)
	}
}

// Def defines the check of one property over cases of type T. T must survive a
// round trip through JSON.
type Def[T any] struct {
	ID   string
	Rule string // how cases are made and what makes one non-trivial
	// Number of generated cases in each tier, over all shards.
	Quick, Thorough int
	Gen             func(g G) T
	Check           func(c T, o *Obs) error
	Enum            func() []T // cases that run every time, before the generated ones
	// Shrink makes a failing case smaller, after rapid has done its part. It
	// stops when more returns false.
	Shrink func(c T, fails func(T) bool, more func() bool) T
	// FromSrc makes a case from a source, for fuzzing.
	FromSrc     func(mode byte, src string) T
	CPULimit    time.Duration
	Exhaustive  bool // Enum lists a finite space completely
	Assumptions []string
}

type prop struct {
	id, rule        string
	quick, thorough int
	exhaustive      bool
	assumptions     []string
	cpuLimit        time.Duration
	run             func(e *childEnv)
	replay          func(raw []byte) error
	// fuzz makes a case from the choices of a coverage-guided fuzzer and checks
	// it. It returns the case of a failure.
	fuzz func(t *rapid.T) (c any, err error)
	// fuzzSrc checks one source; nil if the cases aren't sources.
	fuzzSrc func(mode byte, src string) (c any, err error)
}

var props = map[string]*prop{}

func register[T any](d Def[T]) {
	if d.CPULimit == 0 {
		d.CPULimit = 25 * time.Second
	}
	props[d.ID] = &prop{
		id: d.ID, rule: d.Rule, quick: d.Quick, thorough: d.Thorough,
		exhaustive: d.Exhaustive, cpuLimit: d.CPULimit, assumptions: d.Assumptions,
		run: func(e *childEnv) { runChild(d, e) },
		replay: func(raw []byte) error {
			var c T
			if err := json.Unmarshal(raw, &c); err != nil {
				return fmt.Errorf("bad replay file: %w", err)
			}
			return safeCheck(d.Check, c, &Obs{})
		},
		fuzz: func(t *rapid.T) (any, error) {
			c := d.Gen(G{t: t})
			return c, safeCheck(d.Check, c, &Obs{})
		},
	}
	if d.FromSrc != nil {
		props[d.ID].fuzzSrc = func(mode byte, src string) (any, error) {
			c := d.FromSrc(mode, src)
			return c, safeCheck(d.Check, c, &Obs{})
		}
	}
}

// safeCheck runs check and turns a panic into an error.
func safeCheck[T any](check func(T, *Obs) error, c T, o *Obs) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v\n%s", e, trimStack(debug.Stack()))
		}
	}()
	return check(c, o)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") && i+2 < len(lines) {
			lines = lines[i+2:]
			break
		}
	}
	if len(lines) > 16 {
		lines = lines[:16]
	}
	return strings.Join(lines, "\n")
}

// ----------------------------------------------------------------------------
// Child

type childEnv struct {
	seed    uint64
	checks  int
	shard   int
	shards  int
	budget  time.Duration
	outFile string
	journal string
	res     *childResult
	cpu     time.Duration
}

type childResult struct {
	Evaluations int
	Generated   int
	Enumerated  int
	Skipped     int // cases not run because the time budget was used up
	Hashes      []byte
	Labels      map[string]int
	Samples     []json.RawMessage
	Failed      bool
	Case        json.RawMessage
	Error       string
	Kind        string // "check", "hang", "memory"
}

func (r *childResult) write(path string) {
	b, err := json.Marshal(r)
	if err == nil {
		err = os.WriteFile(path+".tmp", b, 0o644)
	}
	if err == nil {
		err = os.Rename(path+".tmp", path)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "write result:", err)
		os.Exit(4)
	}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const heapLimit = 4 << 30

func heapBytes() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}, {Name: "/memory/classes/heap/stacks:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64() + s[1].Value.Uint64()
}

// childTB receives the outcome of rapid.Check.
type childTB struct {
	failed bool
	msg    string
}

func (t *childTB) Helper()                   {}
func (t *childTB) Name() string              { return "check" }
func (t *childTB) Logf(string, ...any)       {}
func (t *childTB) Log(...any)                {}
func (t *childTB) Skipf(string, ...any)      { runtime.Goexit() }
func (t *childTB) Skip(...any)               { runtime.Goexit() }
func (t *childTB) SkipNow()                  { runtime.Goexit() }
func (t *childTB) Errorf(f string, a ...any) { t.failed = true; t.msg = fmt.Sprintf(f, a...) }
func (t *childTB) Error(a ...any)            { t.failed = true; t.msg = fmt.Sprint(a...) }
func (t *childTB) Fatalf(f string, a ...any) { t.Errorf(f, a...); runtime.Goexit() }
func (t *childTB) Fatal(a ...any)            { t.Error(a...); runtime.Goexit() }
func (t *childTB) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *childTB) Fail()                     { t.failed = true }
func (t *childTB) Failed() bool              { return t.failed }

func runChild[T any](d Def[T], e *childEnv) {
	start := time.Now()
	res := e.res
	res.Labels = map[string]int{}
	seen := map[uint64]struct{}{}

	// The case under evaluation, for the watchdog.
	type running struct {
		c   T
		cpu time.Duration
	}
	var cur atomic.Pointer[running]
	var mu sync.Mutex // held by whoever writes the result

	limit := d.CPULimit
	go func() {
		for range time.Tick(50 * time.Millisecond) {
			r := cur.Load()
			if r == nil {
				continue
			}
			kind := ""
			if used := cpuTime() - r.cpu; used > limit {
				kind = "hang"
			}
			if heapBytes() > heapLimit {
				kind = "memory"
			}
			if kind == "" || cur.Load() != r {
				continue
			}
			mu.Lock()
			raw, _ := json.Marshal(r.c)
			out := &childResult{Failed: true, Kind: kind, Case: raw}
			if kind == "hang" {
				out.Error = fmt.Sprintf("case still running after %v of CPU time", limit)
			} else {
				out.Error = fmt.Sprintf("case holds more than %d MB of memory", heapLimit>>20)
			}
			out.write(e.outFile)
			os.Exit(0)
		}
	}()

	var journal []byte
	if e.journal != "" {
		f, err := os.OpenFile(e.journal, os.O_RDWR|os.O_CREATE, 0o644)
		if err == nil {
			err = f.Truncate(64 << 20)
		}
		if err == nil {
			journal, err = syscall.Mmap(int(f.Fd()), 0, 64<<20, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "journal:", err)
			os.Exit(4)
		}
	}

	sampleAt := map[int]bool{1: true, 7: true, 50: true, 400: true}
	nonTrivial := 0
	exec := func(c T, count bool) error {
		if journal != nil {
			raw, _ := json.Marshal(c)
			if len(raw) < len(journal)-8 {
				copy(journal[8:], raw)
				binary.LittleEndian.PutUint64(journal, uint64(len(raw)))
			}
		}
		o := &Obs{}
		cur.Store(&running{c: c, cpu: cpuTime()})
		err := safeCheck(d.Check, c, o)
		cur.Store(nil)
		if count {
			res.Evaluations++
			for l, n := range o.labels {
				res.Labels[l] += n
			}
			if o.nontrivial {
				if _, ok := seen[o.key]; !ok {
					seen[o.key] = struct{}{}
					nonTrivial++
					if sampleAt[nonTrivial] && e.shard < 2 {
						if raw, err := json.Marshal(c); err == nil && len(raw) < 6000 {
							res.Samples = append(res.Samples, raw)
						}
					}
				}
			}
		}
		return err
	}
	fail := func(c T, err error, kind string) {
		mu.Lock()
		defer mu.Unlock()
		raw, jerr := json.Marshal(c)
		if jerr != nil {
			raw, _ = json.Marshal("unmarshalable case: " + jerr.Error())
		}
		res.Failed, res.Case, res.Error, res.Kind = true, raw, err.Error(), kind
	}

	if d.Enum != nil {
		for i, c := range d.Enum() {
			if i%e.shards != e.shard {
				continue
			}
			res.Enumerated++
			if err := exec(c, true); err != nil {
				fail(c, err, "check")
				break
			}
		}
	}

	if !res.Failed && d.Gen != nil && e.checks > 0 {
		setFlag("rapid.seed", strconv.FormatUint(e.seed, 10))
		setFlag("rapid.checks", strconv.Itoa(e.checks))
		var lastCase *T
		var lastErr error
		var skipping bool
		tb := &childTB{}
		done := make(chan struct{})
		go func() {
			defer close(done)
			rapid.Check(tb, func(t *rapid.T) {
				if skipping && lastCase == nil {
					return
				}
				c := d.Gen(G{t: t})
				first := lastCase == nil
				if first {
					res.Generated++
				}
				if err := exec(c, first); err != nil {
					lastCase, lastErr = &c, err
					t.Fatalf("the check failed")
				}
				if first && time.Since(start) > e.budget {
					skipping = true
				}
			})
		}()
		<-done
		switch {
		case lastCase != nil:
			c, err := *lastCase, lastErr
			if d.Shrink != nil {
				until := time.Now().Add(15 * time.Second)
				d.Shrink(c, func(x T) bool {
					if e := exec(x, false); e != nil {
						c, err = x, e
						return true
					}
					return false
				}, func() bool { return time.Now().Before(until) })
			}
			fail(c, err, "check")
		case tb.failed:
			fmt.Fprintln(os.Stderr, "rapid:", tb.msg)
			os.Exit(4)
		}
		if skipping {
			res.Skipped = e.checks - res.Generated
		}
	}

	mu.Lock()
	for h := range seen {
		res.Hashes = binary.LittleEndian.AppendUint64(res.Hashes, h)
	}
	res.write(e.outFile)
	os.Exit(0)
}

func setFlag(name, val string) {
	if err := flag.Set(name, val); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
}

// mix is splitmix64.
func mix(x uint64) uint64 {
	x += 0x9E3779B97F4A7C15
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
	x = (x ^ (x >> 27)) * 0x94D049BB133111EB
	return x ^ (x >> 31)
}

func shardSeed(seed uint64, id string, shard int) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(id))
	s := mix(mix(mix(seed)^h.Sum64()) + uint64(shard))
	if s == 0 {
		s = 1
	}
	return s
}

// ----------------------------------------------------------------------------
// Parent

func envOr(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

const defaultShards = 8

func main() {
	testing.Init()
	var (
		child    = flag.Int("child", -1, "shard number of a child process")
		outFile  = flag.String("out", "", "result file of a child process")
		journal  = flag.String("journal", "", "journal file of a child process")
		checks   = flag.Int("n", -1, "number of generated cases, over all shards")
		shards   = flag.Int("shards", defaultShards, "number of shard processes")
		replay   = flag.String("replay", "", "replay this case file")
		evidence = flag.String("evidence", "", "evidence file")
		replays  = flag.String("replays", "", "directory for replay files")
		known    = flag.String("known", "", "known findings file")
		scratch  = flag.String("scratch", "", "scratch directory")
		list     = flag.Bool("list", false, "list the properties")
		hist     = flag.Bool("history", false, "run the history on the standard input")
		budget   = flag.Duration("budget", 0, "time budget per shard")
		dictDir  = flag.String("dict", "", "print the literals of the Go files in this directory, for dict_base.json")
		fuzzed   = flag.Int("fuzzed", 0, "number of cases that a fuzzer has run before, for the evidence")
	)
	flag.Parse()
	for _, kv := range [][2]string{
		{"rapid.nofailfile", "true"}, {"rapid.failfile", ""}, {"rapid.log", "false"}, {"rapid.v", "false"},
		{"rapid.debug", "false"}, {"rapid.shrinktime", "15s"}, {"rapid.steps", "30"},
	} {
		setFlag(kv[0], kv[1])
	}
	if *list {
		ids := make([]string, 0)
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	if *dictDir != "" {
		b, _ := json.MarshalIndent(literals(*dictDir), "", "")
		fmt.Println(string(b))
		return
	}
	if flag.NArg() != 1 || props[flag.Arg(0)] == nil {
		fmt.Fprintln(os.Stderr, "usage: bibcheck [flags] PROPERTY")
		os.Exit(2)
	}
	p := props[flag.Arg(0)]
	scratchDir = *scratch
	if *hist {
		os.Exit(historyMain())
	}

	seed, err := strconv.ParseUint(envOr("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		// Any other text is a seed too.
		h := fnv.New64a()
		_, _ = h.Write([]byte(os.Getenv("VERIF_SEED")))
		seed = h.Sum64() >> 1
	}
	tier := envOr("VERIF_TIER", "quick")
	total := p.quick
	bud := 300 * time.Second
	if tier == "thorough" {
		total = p.thorough
		bud = 3 * time.Hour
	} else {
		tier = "quick"
	}
	if *checks >= 0 {
		total = *checks
	}
	if *budget > 0 {
		bud = *budget
	}

	if *replay != "" {
		os.Exit(doReplay(p, *replay))
	}
	if *child >= 0 {
		per := total / *shards
		if *child < total%*shards {
			per++
		}
		debug.SetGCPercent(400)
		debug.SetMaxStack(1 << 30)
		e := &childEnv{
			seed: shardSeed(seed, p.id, *child), checks: per, shard: *child, shards: *shards,
			budget: bud, outFile: *outFile, journal: *journal, res: &childResult{},
		}
		runSeed = e.seed
		p.run(e)
		return
	}
	fuzzExecs = *fuzzed
	os.Exit(parent(p, seed, tier, total, *shards, bud, *evidence, *replays, *known, *scratch))
}

// runSeed is the seed of a child process.
var runSeed uint64

// fuzzExecs is the number of cases that a coverage-guided fuzzer ran before.
var fuzzExecs int

// scratchDir is where checks may write files.
var scratchDir string

type replayFile struct {
	Property string          `json:"property"`
	Seed     uint64          `json:"seed"`
	Tier     string          `json:"tier"`
	Kind     string          `json:"kind"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

func doReplay(p *prop, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	done := make(chan error, 1)
	startCPU := cpuTime()
	go func() { done <- p.replay(rf.Case) }()
	for {
		select {
		case err = <-done:
		case <-time.After(100 * time.Millisecond):
			if cpuTime()-startCPU > p.cpuLimit {
				err = fmt.Errorf("case still running after %v of CPU time", p.cpuLimit)
			} else if heapBytes() > heapLimit {
				err = fmt.Errorf("case holds more than %d MB of memory", heapLimit>>20)
			} else {
				continue
			}
		}
		break
	}
	if err != nil {
		fmt.Println(err)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
		return 1
	}
	fmt.Printf("property=%s replay=%s: holds\n", p.id, path)
	return 0
}

var fatalRE = regexp.MustCompile(`(?m)^(fatal error: .*|panic: .*|runtime: goroutine stack exceeds.*|WARNING: DATA RACE)$`)

func parent(p *prop, seed uint64, tier string, total, shards int, budget time.Duration, evidence, replays, known, scratch string) int {
	start := time.Now()
	exe, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if scratch == "" {
		scratch, err = os.MkdirTemp("", "bibcheck")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		defer os.RemoveAll(scratch)
	}

	type outcome struct {
		shard  int
		res    *childResult
		err    error
		stderr string
	}
	var procMu sync.Mutex
	procs := map[int]*os.Process{}
	runShard := func(i int, journal string) outcome {
		out := filepath.Join(scratch, fmt.Sprintf("shard%d.json", i))
		dir := filepath.Join(scratch, fmt.Sprintf("dir%d", i))
		_ = os.MkdirAll(dir, 0o755)
		_ = os.Remove(out)
		args := []string{"-child", strconv.Itoa(i), "-shards", strconv.Itoa(shards), "-n", strconv.Itoa(total),
			"-out", out, "-scratch", dir, "-budget", budget.String()}
		if journal != "" {
			args = append(args, "-journal", journal)
		}
		args = append(args, p.id)
		cmd := exec.Command(exe, args...)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66",
			"VERIF_SEED="+strconv.FormatUint(seed, 10), "VERIF_TIER="+tier)
		var stderr bytes.Buffer
		cmd.Stderr = &limitedWriter{w: &stderr, n: 1 << 20}
		cmd.Stdout = nil
		err := cmd.Start()
		if err == nil {
			procMu.Lock()
			procs[i] = cmd.Process
			procMu.Unlock()
			err = cmd.Wait()
			procMu.Lock()
			delete(procs, i)
			procMu.Unlock()
		}
		o := outcome{shard: i, err: err, stderr: stderr.String()}
		if b, rerr := os.ReadFile(out); rerr == nil {
			var r childResult
			if json.Unmarshal(b, &r) == nil {
				o.res = &r
			}
		}
		return o
	}

	results := make(chan outcome, shards)
	for i := 0; i < shards; i++ {
		go func() { results <- runShard(i, "") }()
	}
	var (
		merged    = childResult{Labels: map[string]int{}}
		hashes    = map[uint64]struct{}{}
		failures  []outcome
		crashes   []outcome
		errs      []string
		killed    bool
		knownHits []string
	)
	findings := readKnown(known, p.id)
	for n := 0; n < shards; n++ {
		o := <-results
		if o.res != nil {
			r := o.res
			merged.Evaluations += r.Evaluations
			merged.Generated += r.Generated
			merged.Enumerated += r.Enumerated
			merged.Skipped += r.Skipped
			for l, k := range r.Labels {
				merged.Labels[l] += k
			}
			for b := r.Hashes; len(b) >= 8; b = b[8:] {
				hashes[binary.LittleEndian.Uint64(b)] = struct{}{}
			}
			merged.Samples = append(merged.Samples, r.Samples...)
		}
		switch {
		case o.res != nil && o.res.Failed:
			failures = append(failures, o)
		case o.err != nil && killed:
			// stopped by the parent
		case o.err != nil && fatalRE.MatchString(o.stderr) && strings.Contains(o.stderr, "github.com/jschaf/bibtex"):
			crashes = append(crashes, o)
		case o.err != nil:
			errs = append(errs, fmt.Sprintf("shard %d: %v\n%s", o.shard, o.err, tail(o.stderr, 2000)))
		case o.res == nil:
			errs = append(errs, fmt.Sprintf("shard %d: no result\n%s", o.shard, tail(o.stderr, 2000)))
		}
		if len(failures)+len(crashes) > 0 && !killed {
			// One failing case is enough; don't wait for the other shards.
			killed = true
			procMu.Lock()
			for _, pr := range procs {
				_ = pr.Kill()
			}
			procMu.Unlock()
		}
	}

	// Find the case of a crash by running its shard again with a journal.
	for _, o := range crashes {
		j := filepath.Join(scratch, "journal")
		again := runShard(o.shard, j)
		b, _ := os.ReadFile(j)
		msg := fatalRE.FindString(o.stderr)
		var raw json.RawMessage
		if len(b) > 8 {
			if n := binary.LittleEndian.Uint64(b); n > 0 && n < uint64(len(b)-8) {
				raw = append(raw, b[8:8+n]...)
			}
		}
		if again.err == nil && again.res != nil && !again.res.Failed {
			// Not reproduced: for example a race that needs an unlucky schedule.
			if !strings.Contains(o.stderr, "DATA RACE") && !strings.Contains(o.stderr, "concurrent map") {
				errs = append(errs, fmt.Sprintf("shard %d crashed once: %s\n%s", o.shard, msg, tail(o.stderr, 3000)))
				continue
			}
			raw = nil
		}
		if raw == nil {
			raw, _ = json.Marshal(nil)
		}
		o.res = &childResult{Failed: true, Kind: "crash", Case: raw, Error: msg + "\n" + head(o.stderr, 4000)}
		failures = append(failures, o)
	}

	code := 0
	violations := 0
	for _, f := range failures {
		r := f.res
		if k := matchKnown(findings, r); k != "" {
			knownHits = append(knownHits, k)
			continue
		}
		violations++
		h := fnv.New64a()
		_, _ = h.Write(r.Case)
		name := filepath.Join(replays, fmt.Sprintf("%s-%016x.json", p.id, h.Sum64()))
		b, _ := json.MarshalIndent(replayFile{Property: p.id, Seed: seed, Tier: tier, Kind: r.Kind, Error: r.Error, Case: r.Case}, "", " ")
		_ = os.MkdirAll(replays, 0o755)
		if err := os.WriteFile(name, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		fmt.Printf("%s: %s\n", p.id, head(r.Error, 3000))
		fmt.Printf("case: %s\n", head(string(r.Case), 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, name)
		code = 1
	}
	for _, k := range findings {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.id, k.text)
	}
	_ = knownHits
	if code == 0 && len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "error:", e)
		}
		code = 2
	}

	if evidence != "" {
		samples := merged.Samples
		if len(samples) > 6 {
			samples = samples[:6]
		}
		if samples == nil {
			samples = []json.RawMessage{}
		}
		cov := map[string]any{
			"evaluations":         merged.Evaluations,
			"generated":           merged.Generated,
			"enumerated":          merged.Enumerated,
			"distinct_nontrivial": len(hashes),
			"rule":                p.rule,
			"samples":             samples,
			"labels":              merged.Labels,
			"shards":              shards,
		}
		if p.exhaustive {
			cov["enumeration_complete"] = true
		}
		if fuzzExecs > 0 {
			cov["coverage_guided_executions"] = fuzzExecs
		}
		if merged.Skipped > 0 {
			cov["skipped_for_time"] = merged.Skipped
		}
		ev := map[string]any{
			"property": p.id, "tier": tier, "seed": int64(seed & (1<<63 - 1)), "level": "exploration",
			"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": violations,
			"assumptions": append([]string{
				"generated-input search: no violation was found among the cases run; it is not a proof",
			}, p.assumptions...),
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		_ = os.MkdirAll(filepath.Dir(evidence), 0o755)
		if err := os.WriteFile(evidence, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			if code == 0 {
				code = 2
			}
		}
	}
	if code == 0 {
		fmt.Printf("%s: held on %d cases (%d distinct non-trivial), %.1f s\n", p.id, merged.Evaluations, len(hashes), time.Since(start).Seconds())
	}
	return code
}

type limitedWriter struct {
	w *bytes.Buffer
	n int
}

func (l *limitedWriter) Write(b []byte) (int, error) {
	if room := l.n - l.w.Len(); room > 0 {
		l.w.Write(b[:min(room, len(b))])
	}
	return len(b), nil
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// ----------------------------------------------------------------------------
// Known findings

type finding struct {
	substr string // of the failing case
	text   string
}

// readKnown reads lines of the form
//
//	known: property=C01 case="substring of the failing case" what fails
//
// Lines that start with "fixed:" suppress nothing.
func readKnown(path, id string) []finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+id+" case=")
		if !ok {
			continue
		}
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		s, err := strconv.Unquote(q)
		if err != nil || s == "" {
			continue
		}
		out = append(out, finding{substr: s, text: strings.TrimSpace(rest[len(q):])})
	}
	return out
}

func matchKnown(fs []finding, r *childResult) string {
	for _, f := range fs {
		if strings.Contains(string(r.Case), f.substr) {
			return f.text
		}
	}
	return ""
}
