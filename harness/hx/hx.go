// Package hx is the common driver of every generated check: it sizes and seeds
// rapid runs, counts what the generators actually produced, keeps samples, and
// watches for cases that never finish.
package hx

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Case collects what one generated case looked like.
type Case struct {
	buf    strings.Builder
	key    strings.Builder
	nt     bool
	labels []string
	big    bool
}

// Logf appends a line to the case's trace; the trace is the sample text, the
// identity used to count distinct cases, and is printed when the case fails.
func (c *Case) Logf(format string, args ...interface{}) {
	if c.buf.Len() > 1<<16 {
		c.big = true
		return
	}
	fmt.Fprintf(&c.buf, format, args...)
	c.buf.WriteByte('\n')
}

// NT marks the case as non-trivial when cond holds.
func (c *Case) NT(cond bool) {
	if cond {
		c.nt = true
	}
}

// Label counts a class of case in the evidence.
func (c *Case) Label(name string) { c.labels = append(c.labels, name) }

// LabelIf counts a class of case when cond holds.
func (c *Case) LabelIf(cond bool, name string) {
	if cond {
		c.labels = append(c.labels, name)
	}
}

type testStats struct {
	Test        string         `json:"test"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Distinct    int            `json:"distinct_nontrivial"`
	Labels      map[string]int `json:"labels,omitempty"`
	Samples     []string       `json:"samples,omitempty"`
	Rule        string         `json:"rule,omitempty"`
	Exhaustive  bool           `json:"exhaustive,omitempty"`
}

type stats struct {
	testStats
	seen map[uint64]struct{}
}

var (
	mu       sync.Mutex
	all      = map[string]*stats{}
	caseFrom int64 // unix nanos of the running case's start; 0 when idle
	caseCPU  int64 // process CPU nanos at the running case's start
	caseText atomic.Value
	caseName atomic.Value
)

// Tier returns the running tier, "quick" or "thorough".
func Tier() string {
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		return t
	}
	return "quick"
}

// Thorough is true when running the thorough tier.
func Thorough() bool { return Tier() == "thorough" }

// Seed returns the run seed.
func Seed() uint64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		n = 1
	}
	s := uint64(n)
	if s == 0 {
		s = 0x9e3779b97f4a7c15
	}
	return s
}

func getStats(name string) *stats {
	st := all[name]
	if st == nil {
		st = &stats{seen: map[uint64]struct{}{}}
		st.Test = name
		st.Labels = map[string]int{}
		all[name] = st
	}
	return st
}

func record(name, rule string, c *Case) {
	mu.Lock()
	defer mu.Unlock()
	st := getStats(name)
	st.Rule = rule
	st.Evaluations++
	for _, l := range c.labels {
		st.Labels[l]++
	}
	if !c.nt {
		return
	}
	st.Nontrivial++
	h := fnv.New64a()
	h.Write([]byte(c.buf.String()))
	k := h.Sum64()
	if _, dup := st.seen[k]; dup {
		return
	}
	st.seen[k] = struct{}{}
	st.Distinct++
	// deterministic sparse sampling: 1st, 10th, 100th, 1000th, 10000th distinct case
	switch st.Distinct {
	case 1, 10, 100, 1000, 10000:
		s := c.buf.String()
		if len(s) > 1500 {
			s = s[:1500] + "...(cut)"
		}
		st.Samples = append(st.Samples, s)
	}
}

func cpuNanos() int64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// Scale is how many more cases the thorough tier runs.
const Scale = 12

// Check runs prop on n generated cases in the quick tier, Scale times as many
// in the thorough one. rule says what makes a case non-trivial.
func Check(t *testing.T, n int, rule string, prop func(t *rapid.T, c *Case)) {
	t.Helper()
	if Thorough() {
		n *= Scale
	}
	if v, err := strconv.ParseFloat(os.Getenv("HX_MULT"), 64); err == nil && v > 0 {
		n = int(float64(n) * v)
		if n < 1 {
			n = 1
		}
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d", t.Name(), Seed())
	seed := h.Sum64()
	if seed == 0 {
		seed = 1
	}
	must(flag.Set("rapid.checks", strconv.Itoa(n)))
	must(flag.Set("rapid.seed", strconv.FormatUint(seed, 10)))
	must(flag.Set("rapid.shrinktime", "20s"))
	name := t.Name()
	defer atomic.StoreInt64(&slowFailure, 0)
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{}
		ok := false
		began := time.Now()
		begin(name)
		defer func() {
			end()
			if rt.Failed() && time.Since(began) > patience/4 {
				atomic.CompareAndSwapInt64(&slowFailure, 0, time.Now().UnixNano())
			}
			if !ok {
				rt.Logf("CASE TRACE:\n%s", c.buf.String())
			}
		}()
		prop(rt, c)
		ok = true
		if !rt.Failed() {
			record(name, rule, c)
		} else {
			ok = false
		}
	})
}

// Each runs prop over every value of an enumerated finite space; it stops at
// the first failing case.
func Each(t *testing.T, rule string, exhaustive bool, run func(check func(prop func(c *Case) error))) {
	t.Helper()
	name := t.Name()
	failed := false
	run(func(prop func(c *Case) error) {
		if failed {
			return
		}
		c := &Case{}
		begin(name)
		err := prop(c)
		end()
		if err != nil {
			failed = true
			t.Errorf("%v\nCASE TRACE:\n%s", err, c.buf.String())
			return
		}
		record(name, rule, c)
	})
	mu.Lock()
	getStats(name).Exhaustive = exhaustive
	mu.Unlock()
}

func begin(name string) {
	caseName.Store(name)
	atomic.StoreInt64(&caseCPU, cpuNanos())
	atomic.StoreInt64(&caseFrom, time.Now().UnixNano())
}

func end() {
	if from := atomic.SwapInt64(&caseFrom, 0); os.Getenv("HX_SLOW") != "" {
		if d := time.Since(time.Unix(0, from)); d > 5*time.Second {
			fmt.Fprintf(os.Stderr, "HX-SLOW %v %v\n", caseName.Load(), d)
		}
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// A case is normally micro- to milliseconds. One that burns this much
// processor time (not wall-clock time) on its own is a non-terminating call.
const (
	hangCPU  = 40 * time.Second
	hangWall = 45 * time.Second

	// A case that takes this many seconds of the watchdog's own running time
	// (so not ones that the machine was stopped) waits for what never comes.
	hangTicks = 240
)

// HangExit is the exit status the watchdog uses.
const HangExit = 97

func watchdog() {
	var last int64
	ticks := 0
	for {
		time.Sleep(time.Second)
		from := atomic.LoadInt64(&caseFrom)
		if ticks++; from != last {
			last, ticks = from, 0
		}
		if from == 0 {
			continue
		}
		if time.Since(time.Unix(0, from)) < hangWall {
			continue
		}
		what := fmt.Sprintf("used over %v of processor time", hangCPU)
		if ticks >= hangTicks {
			what = fmt.Sprintf("waited for %v seconds", hangTicks)
		} else if cpuNanos()-atomic.LoadInt64(&caseCPU) < int64(hangCPU) {
			continue
		}
		if atomic.LoadInt64(&caseFrom) != from {
			continue
		}
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		name, _ := caseName.Load().(string)
		fmt.Printf("HX-HANG test=%s: one generated case has %s without finishing\n%s\n", name, what, buf)
		flush()
		os.Exit(HangExit)
	}
}

func flush() {
	path := os.Getenv("HX_STATS")
	if path == "" {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	var names []string
	for k := range all {
		names = append(names, k)
	}
	sort.Strings(names)
	var out []testStats
	for _, k := range names {
		out = append(out, all[k].testStats)
	}
	b, err := json.MarshalIndent(out, "", " ")
	must(err)
	must(os.WriteFile(path, b, 0o644))
}

// Main is what each check package's TestMain calls.
func Main(m *testing.M) {
	go watchdog()
	code := m.Run()
	flush()
	os.Exit(code)
}

// Known reports a listed known finding: key identifies it in the
// KNOWN_FINDINGS file of /verif. broken says whether the finding still shows.
// It fails the test when the finding shows but is not listed.
func Known(t *testing.T, property, key string, broken bool, what string) {
	t.Helper()
	if !broken {
		return
	}
	if KnownListed(property, key) {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", property, key, what)
		return
	}
	t.Errorf("unlisted finding %s: %s", key, what)
}

// KnownListed says whether a finding is listed.
func KnownListed(property, key string) bool {
	b, err := os.ReadFile(os.Getenv("HX_KNOWN"))
	if err != nil {
		return false
	}
	for _, line := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(line, "finding: property="+property+" key="+key+" ") {
			return true
		}
	}
	return false
}
