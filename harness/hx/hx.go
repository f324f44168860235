// Package hx is the common machinery of the generated-input checks: it runs a
// property through rapid with a seed derived from VERIF_SEED, counts what was
// generated, and turns process-killing failures of the code under test
// (log.Fatal, non-termination, runaway allocation) into reported violations.
package hx

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Limits on one case. They are orders of magnitude above what any generated
// case needs (milliseconds, megabytes); reaching one means the code under test
// did not terminate.
const (
	caseCPULimit  = 60 * time.Second
	caseHeapLimit = 5 << 30
)

type subStats struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  []string       `json:"nontrivial"` // hashes
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Rule        string         `json:"rule"`
	Known       map[string]int `json:"known"`

	seen map[uint64]struct{}
}

var (
	mu    sync.Mutex
	stats = map[string]*subStats{}

	caseSeq    atomic.Int64
	caseActive atomic.Int64
	caseCPU    atomic.Int64
	curSub     atomic.Value
	curSeed    atomic.Uint64
	lastDraws  atomic.Value
)

// Case is one generated case.
type Case struct {
	*rapid.T
	st *subStats
}

// Nontrivial records that the case met the sub-check's non-triviality rule;
// the key identifies the case (equal keys count once).
func (c *Case) Nontrivial(key ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, key...)
	mu.Lock()
	c.st.seen[h.Sum64()] = struct{}{}
	mu.Unlock()
}

// Label counts a class of cases.
func (c *Case) Label(l string) {
	mu.Lock()
	c.st.Labels[l]++
	mu.Unlock()
}

// LabelIf counts a class when cond holds.
func (c *Case) LabelIf(cond bool, l string) {
	if cond {
		c.Label(l)
	}
}

// Sample keeps a written-out case for the evidence (the first few only).
func (c *Case) Sample(format string, args ...any) {
	mu.Lock()
	defer mu.Unlock()
	if len(c.st.Samples) < 3 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.st.Samples = append(c.st.Samples, s)
	}
}

// stdout stays even while a case redirects os.Stdout.
var stdout = os.Stdout

type fatalWriter struct{}

func (fatalWriter) Write(p []byte) (int, error) {
	pc := make([]uintptr, 32)
	n := runtime.Callers(2, pc)
	frames := runtime.CallersFrames(pc[:n])
	for {
		f, more := frames.Next()
		if strings.HasPrefix(f.Function, "log.Fatal") || strings.HasPrefix(f.Function, "log.(*Logger).Fatal") {
			panic("code under test called log.Fatal: " + strings.TrimSpace(string(p)))
		}
		if !more {
			break
		}
	}
	return len(p), nil
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

var startOnce sync.Once

func startWatch() {
	log.SetOutput(fatalWriter{})
	debug.SetMaxStack(256 << 20)
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(250 * time.Millisecond)
			if caseActive.Load() == 0 {
				continue
			}
			why := ""
			if d := cpuTime() - time.Duration(caseCPU.Load()); d > caseCPULimit {
				why = fmt.Sprintf("one case used more than %v of CPU time: the code under test does not terminate", caseCPULimit)
			} else {
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > caseHeapLimit {
					why = "one case allocated more than 5 GB: the code under test does not terminate"
				}
			}
			if why != "" {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(stdout, "HX-RUNAWAY sub=%v seed=%d case=%d %s\n%s\n", curSub.Load(), curSeed.Load(), caseSeq.Load(), why, buf)
				flush()
				os.Exit(97)
			}
		}
	}()
}

// Thorough tells which tier is running.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func shard() (i, n int) {
	n = 1
	if s := os.Getenv("HX_SHARD"); s != "" {
		fmt.Sscanf(s, "%d/%d", &i, &n)
	}
	return i, n
}

// Seed returns VERIF_SEED.
func Seed() uint64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return uint64(s)
}

func mix(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	v := h.Sum64()
	v ^= v >> 31
	v *= 0x9e3779b97f4a7c15
	v ^= v >> 29
	v &= 1<<62 - 1
	if v == 0 {
		v = 1
	}
	return v
}

// Run drives prop over generated cases: two and a half times quick, or thorough
// of them in total, shared between the shards of the run.
func Run(t *testing.T, name, rule string, quick, thorough int, prop func(c *Case)) {
	t.Helper()
	startOnce.Do(startWatch)
	if only := os.Getenv("HX_SUB"); only != "" && only != name {
		return
	}
	i, n := shard()
	checks := quick * 5 / 2
	if Thorough() {
		checks = thorough
	}
	if s := os.Getenv("HX_SCALE"); s != "" {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			checks = int(float64(checks) * f)
		}
	}
	checks = (checks + n - 1) / n
	if checks < 1 {
		checks = 1
	}
	seed := mix(Seed(), "/", t.Name(), "/", name, "/", i)
	if s := os.Getenv("HX_SEED"); s != "" { // replay of a run that killed its process
		seed, _ = strconv.ParseUint(s, 10, 64)
	}
	mu.Lock()
	st := stats[name]
	if st == nil {
		st = &subStats{Labels: map[string]int{}, Known: map[string]int{}, seen: map[uint64]struct{}{}, Rule: rule}
		stats[name] = st
	}
	mu.Unlock()
	curSub.Store(name)
	curSeed.Store(seed)
	flag.Set("rapid.checks", strconv.Itoa(checks))
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.shrinktime", "20s")
	if quick < 50 { // cases of seconds
		flag.Set("rapid.shrinktime", "1ms")
	}
	if t.Failed() {
		return
	}
	fmt.Printf("HX-START sub=%s seed=%d checks=%d\n", name, seed, checks)
	t.Run(name, func(t *testing.T) {
		defer flush()
		rapid.Check(t, func(rt *rapid.T) {
			c := &Case{T: rt, st: st}
			mu.Lock()
			st.Evaluations++
			mu.Unlock()
			caseSeq.Add(1)
			caseCPU.Store(int64(cpuTime()))
			caseActive.Store(1)
			defer caseActive.Store(0)
			prop(c)
		})
	})
}

func flush() {
	out := os.Getenv("HX_STATS")
	if out == "" {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	for _, st := range stats {
		st.Nontrivial = st.Nontrivial[:0]
		for h := range st.seen {
			st.Nontrivial = append(st.Nontrivial, strconv.FormatUint(h, 16))
		}
		sort.Strings(st.Nontrivial)
	}
	b, err := json.Marshal(stats)
	if err == nil {
		os.WriteFile(out, b, 0o644)
	}
}

// Main is called from TestMain.
func Main(m *testing.M) {
	code := m.Run()
	flush()
	os.Exit(code)
}

// Repo returns the path of a file of the repository under test.
func Repo(parts ...string) string {
	return filepath.Join(append([]string{"/repo"}, parts...)...)
}

// Discard is where code under test may print.
var Discard io.Writer = io.Discard
