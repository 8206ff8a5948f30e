package c28

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/plat"
)

// tap keeps what is logged with the log package.
var tap logTap

type logTap struct {
	sync.Mutex
	lines []string
}

func (lt *logTap) Write(p []byte) (int, error) {
	lt.Lock()
	defer lt.Unlock()
	lt.lines = append(lt.lines, strings.TrimSuffix(string(p), "\n"))
	return len(p), nil
}

// take returns what was logged with the given text, from thereon.
func (lt *logTap) take(text string) (ls []string) {
	lt.Lock()
	defer lt.Unlock()
	for _, l := range lt.lines {
		if i := strings.Index(l, text); i >= 0 {
			ls = append(ls, l[i+len(text):])
		}
	}
	lt.lines = nil
	return ls
}

func TestMain(m *testing.M) {
	log.SetOutput(&tap)
	plat.Init()
	hx.Main(m)
}

// rec is what was told of a frame.
type rec struct {
	t       time.Time
	stats   platform.TimingStats
	stalls  platform.StallsStats
	est     float64
	fps     float64
	enabled bool // before the client acts
	wall    time.Time
	left    time.Time // when the client was done
	ru      [2]time.Duration
}

var errEnd = errors.New("enough frames")

// act is what the client does in a frame.
type act struct {
	frame  int
	timing bool
}

// sess is one session.
type sess struct {
	rate    int
	frames  int
	start   bool
	logging bool
	stalls  bool // logged
	acts    []act
	file    string
	burn    bool // most of the time
	sum     int

	begun [2]time.Duration
	recs  []rec
	err   error
}

func (s *sess) String() string {
	return fmt.Sprintf("rate %d, %d frames, timing %v, log timing %v, stalls %v, then %v", s.rate, s.frames, s.start, s.logging, s.stalls, s.acts)
}

func (s *sess) cfg() platform.Config {
	return platform.Config{StartTiming: s.start, LogTiming: s.logging, TelemetryLogFileName: s.file}
}

func (s *sess) hook(ctx *platform.Context) error {
	s.recs = append(s.recs, rec{
		t: ctx.Platform.Time, stats: ctx.Timing.Stats, stalls: ctx.Telemetry.Stalls.Stats, wall: time.Now(),
		est: ctx.FPSEstimate.Value, fps: ctx.FPS(), enabled: ctx.TimingEnabled || ctx.Telemetry.LogTiming,
		ru: used(),
	})
	n := len(s.recs)
	for _, a := range s.acts {
		if a.frame == n {
			ctx.SetTimingEnabled(a.timing)
		}
	}
	if n == s.frames {
		return errEnd
	}
	return nil
}

// used is the CPU time of this process, in user and system mode.
func used() (r [2]time.Duration) {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		panic("HX-INFRA " + err.Error())
	}
	for i, tv := range []syscall.Timeval{ru.Utime, ru.Stime} {
		r[i] = time.Duration(tv.Nano())
	}
	return r
}

// usage checks usage that was told in the frame of a time: the platform looks
// right before each frame's client.
func (s *sess) usage(t int64, u usage) error {
	k := 0
	for k < len(s.recs) && s.recs[k].t.UnixNano() != t {
		k++
	}
	if k == len(s.recs) {
		return fmt.Errorf("at no frame's time")
	}
	for j := k - 1; j >= 0; j-- {
		if s.recs[k].t.Sub(s.recs[j].t) != time.Duration(*u.Dt) {
			continue
		}
		from := s.begun
		if j > 0 {
			from = s.recs[j-1].ru
		}
		for i, d := range []time.Duration{time.Duration(*u.Utime), time.Duration(*u.Stime)} {
			if lo, hi := s.recs[k-1].ru[i]-s.recs[j].ru[i], s.recs[k].ru[i]-from[i]; d < lo || d > hi {
				return fmt.Errorf("CPU time %d is %v, should be %v to %v", i, d, lo, hi)
			}
		}
		return nil
	}
	return fmt.Errorf("usage over %v, which are no frames'", time.Duration(*u.Dt))
}

func (s *sess) run(w, h int, with func(*plat.Sess)) {
	s.begun = used()
	ps, err := plat.New(w, h, true, platform.FrameRate(s.rate), s.cfg())
	if err != nil {
		s.err = err
		return
	}
	defer ps.Close()
	ps.Hook = func(ctx *platform.Context) error {
		err := s.hook(ctx)
		if s.burn {
			// in both modes, so that whole seconds of each are used up
			for from := time.Now(); time.Since(from) < time.Second*2/3/time.Duration(s.rate); {
				var st syscall.Stat_t
				_ = syscall.Stat("/", &st)
				for i := 0; i < 300; i++ {
					s.sum = s.sum*7 + i
				}
			}
		}
		s.recs[len(s.recs)-1].left = time.Now()
		return err
	}
	if with != nil {
		with(ps)
	}
	ps.Start(&plat.Client{})
	err, ended := ps.Done()
	if !ended {
		s.err = fmt.Errorf("never ended after %d frames", len(s.recs))
		return
	}
	if err != errEnd {
		s.err = fmt.Errorf("ended with %v", err)
	}
}

// line is a line of a telemetry log.
type line struct {
	T      int64           `json:"t"`
	Name   string          `json:"name"`
	Data   json.RawMessage `json:"data"`
	Stalls []time.Duration `json:"stalls"`

	durs []time.Duration
	ru   []usage
}

type usage struct{ Dt, Utime, Stime *int64 }

func lines(file string) (ls []line, err error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	if len(b) > 0 && b[len(b)-1] != '\n' {
		return nil, fmt.Errorf("log ends within a line: %q", b[max(0, len(b)-80):])
	}
	for _, s := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		if s == "" && len(b) == 0 {
			break
		}
		var l line
		dec := json.NewDecoder(strings.NewReader(s))
		dec.DisallowUnknownFields()
		if err := dec.Decode(&l); err != nil {
			return nil, fmt.Errorf("log line %q: %v", s, err)
		}
		switch l.Name {
		case "timing":
			err = json.Unmarshal(l.Data, &l.durs)
		case "rusage_delta":
			err = json.Unmarshal(l.Data, &l.ru)
		case "stalls":
			l.durs = l.Stalls
		default:
			err = errors.New("unknown name")
		}
		if err != nil {
			return nil, fmt.Errorf("log line %q: %v", s, err)
		}
		ls = append(ls, l)
	}
	return ls, nil
}

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-6*math.Max(1, math.Abs(b)) }

// window is a round of timing.
type window struct {
	frame int
	first bool
	ds    []time.Duration // sorted
	stats platform.TimingStats
}

// model is what should have been told.
func (s *sess) model() (ws []window, err error) {
	n := max(1, s.rate/4)
	var ts []time.Time
	var prior time.Time
	var cur platform.TimingStats
	first := true
	var est []float64
	for k, r := range s.recs {
		if k == 0 {
			est = append(est, 0)
		} else if d := r.t.Sub(s.recs[k-1].t); d <= 0 {
			return nil, fmt.Errorf("frame %d: time went on by %v", k, d)
		} else {
			est = append(est, float64(time.Second)/float64(d))
		}
		sum := 0.0
		for i := max(0, len(est)-s.rate); i < len(est); i++ {
			sum += est[i] / float64(s.rate)
		}
		if !near(r.est, sum) {
			return nil, fmt.Errorf("frame %d: estimate is %v, should be %v", k, r.est, sum)
		}
		if r.enabled {
			if ts = append(ts, r.t); len(ts) == n {
				w := window{frame: k, first: first}
				w.stats.Time = r.t
				for i, t := range ts {
					d := time.Duration(0)
					if !prior.IsZero() {
						d = t.Sub(prior)
					}
					prior = t
					w.ds = append(w.ds, d)
					w.stats.Elapsed += d
					if i > 0 || !first {
						if w.stats.Min == 0 || d < w.stats.Min {
							w.stats.Min = d
						}
						w.stats.Max = max(w.stats.Max, d)
					}
				}
				sort.Slice(w.ds, func(i, j int) bool { return w.ds[i] < w.ds[j] })
				w.stats.FPS = float64(n) / w.stats.Elapsed.Seconds()
				q := n / 4
				w.stats.Q1, w.stats.Q2, w.stats.Q3 = w.ds[q], w.ds[2*q], w.ds[3*q]
				ws = append(ws, w)
				cur, first, ts = w.stats, false, nil
				if w.first { // has no delta for its first frame: not told how it counts
					cur.FPS, cur.Q1, cur.Q2, cur.Q3 = r.stats.FPS, r.stats.Q1, r.stats.Q2, r.stats.Q3
				}
			}
		}
		got := r.stats
		if !got.Time.Equal(cur.Time) {
			return nil, fmt.Errorf("frame %d: stats of %v, should be of %v", k, got.Time, cur.Time)
		}
		if !near(got.FPS, cur.FPS) && got.FPS != cur.FPS {
			return nil, fmt.Errorf("frame %d: %v frames/s, should be %v", k, got.FPS, cur.FPS)
		}
		g := got
		g.Time, g.FPS = cur.Time, cur.FPS
		if g != cur {
			return nil, fmt.Errorf("frame %d: stats %+v, should be %+v", k, got, cur)
		}
		if want := r.est; r.fps != want && !r.enabled || r.enabled && r.fps != got.FPS {
			return nil, fmt.Errorf("frame %d: FPS() is %v; estimate %v, measured %v, enabled %v", k, r.fps, r.est, got.FPS, r.enabled)
		}
		for _, a := range s.acts {
			if a.frame == k+1 {
				was := r.enabled
				if !a.timing && !s.logging && was {
					ts, prior, cur, first = nil, time.Time{}, platform.TimingStats{}, true
				}
			}
		}
	}
	return ws, nil
}

func (s *sess) check() error {
	if s.err != nil {
		return s.err
	}
	if len(s.recs) != s.frames {
		return fmt.Errorf("%d frames, should be %d", len(s.recs), s.frames)
	}
	ws, err := s.model()
	if err != nil {
		return err
	}
	if s.file == "" {
		return nil
	}
	ls, err := lines(s.file)
	if err != nil {
		return err
	}
	next, missed := 0, 0
	last := int64(0)
	for i, l := range ls {
		if l.T < last {
			return fmt.Errorf("log line %d: time went back", i)
		}
		last = l.T
		switch l.Name {
		case "timing":
			if !s.logging {
				return fmt.Errorf("timing logged, but not to be")
			}
			for {
				if next >= len(ws) {
					return fmt.Errorf("log line %d: timing %v of no window", i, l.durs)
				}
				if fmt.Sprint(ws[next].ds) == fmt.Sprint(l.durs) {
					break
				}
				next++
				missed++
			}
			if at := ws[next].stats.Time.UnixNano(); l.T < at {
				return fmt.Errorf("log line %d: before its frame", i)
			}
			next++
		case "rusage_delta":
			d := int64(0)
			for _, u := range l.ru {
				if u.Dt == nil || u.Utime == nil || u.Stime == nil {
					return fmt.Errorf("log line %d: misses values", i)
				}
				if *u.Dt < d || *u.Utime < 0 || *u.Stime < 0 {
					return fmt.Errorf("log line %d: usage %d %d in %d after %d", i, *u.Utime, *u.Stime, *u.Dt, d)
				}
				d = *u.Dt
				if err := s.usage(l.T, u); err != nil {
					return fmt.Errorf("log line %d: %v", i, err)
				}
			}
		case "stalls":
			return fmt.Errorf("stalls logged, but not tracked")
		}
	}
	if s.logging {
		if missed += len(ws) - next; missed > 1 { // the worker might have been held up
			return fmt.Errorf("%d of %d windows were not logged", missed, len(ws))
		}
	}
	return nil
}

const timingRule = "sets of sessions at once, each a live platform on a pty with its own frame rate, flags, telemetry file and times at which timing is switched; non-trivial = a session with at least three rounds of timing, or one at a rate of less than 4"

// TestTiming: what is told, and logged, of the timing of frames is so.
func TestTiming(t *testing.T) {
	dir, err := os.MkdirTemp("", "c28")
	if err != nil {
		panic("HX-INFRA " + err.Error())
	}
	defer os.RemoveAll(dir)
	hx.Check(t, 14, timingRule, func(t *rapid.T, c *hx.Case) {
		var ss []*sess
		for n := rapid.IntRange(4, 12).Draw(t, "sessions"); n > 0; n-- {
			s := &sess{rate: rapid.IntRange(4, 400).Draw(t, "rate")}
			s.frames = rapid.IntRange(1, s.rate+5).Draw(t, "frames")
			if rapid.IntRange(0, 7).Draw(t, "slow") == 0 {
				s.rate = rapid.IntRange(1, 3).Draw(t, "slowRate")
				s.frames = rapid.IntRange(1, s.rate).Draw(t, "slowFrames")
			}
			s.start, s.logging = rapid.Bool().Draw(t, "start"), rapid.Bool().Draw(t, "log")
			if rapid.Bool().Draw(t, "telemetry") {
				s.file = filepath.Join(dir, fmt.Sprint(n))
			}
			on := s.start || s.logging
			for k, at := rapid.IntRange(0, 3).Draw(t, "acts"), 0; k > 0; k-- {
				at += rapid.IntRange(1, s.rate).Draw(t, "at")
				on = !on
				s.acts = append(s.acts, act{at, on})
			}
			ss = append(ss, s)
			c.Logf("%v", s)
		}
		tap.take("")
		var wg sync.WaitGroup
		for _, s := range ss {
			wg.Add(1)
			go func(s *sess) {
				defer wg.Done()
				s.run(20, 5, nil)
			}(s)
		}
		wg.Wait()
		for _, s := range ss {
			if err := s.check(); err != nil {
				t.Fatalf("session %v: %v", s, err)
			}
			ws, _ := s.model()
			c.NT(len(ws) >= 3 || s.rate < 4)
			c.LabelIf(len(ws) >= 3, "rounds")
			c.LabelIf(s.rate < 4, "slow rate")
		}
		// timing that is to be logged, but has no file, is in the log
		due := map[string]int{}
		most, sessions := 0, 0
		for _, s := range ss {
			if s.logging && s.file == "" {
				sessions++
				ws, _ := s.model()
				for _, w := range ws {
					due[fmt.Sprint(w.ds)]++
					most++
				}
			}
		}
		logged := tap.take("timing data: ")
		for _, l := range logged {
			if due[l]--; due[l] < 0 {
				t.Fatalf("timing %s logged, but not told, not to be, or already logged", l)
			}
		}
		if n := most - len(logged); n > sessions { // the workers might have been held up
			t.Fatalf("%d of %d windows of %d sessions were not logged", n, most, sessions)
		}
		c.LabelIf(most > 0, "rounds logged without a file")
	})
}

const usageRule = "sessions of some seconds with a telemetry file; every one is non-trivial"

// TestUsage: resource usage is logged about once per second.
func TestUsage(t *testing.T) {
	dir, err := os.MkdirTemp("", "c28")
	if err != nil {
		panic("HX-INFRA " + err.Error())
	}
	defer os.RemoveAll(dir)
	hx.Check(t, 1, usageRule, func(t *rapid.T, c *hx.Case) {
		s := &sess{rate: rapid.IntRange(30, 60).Draw(t, "rate"), file: filepath.Join(dir, "log"), burn: true}
		s.frames = s.rate * 7 / 2
		c.Logf("%v", s)
		c.NT(true)
		s.run(20, 5, nil)
		if err := s.check(); err != nil {
			t.Fatalf("session %v: %v", s, err)
		}
		ls, _ := lines(s.file)
		if n := len(ls); n < 2 || n > 4 {
			t.Fatalf("%d lines of usage logged in 3.5 s", n)
		}
		for i, l := range ls {
			// what went before, as far as whole seconds of it are known
			for j, u := range l.ru {
				if d := time.Duration(*u.Dt); d <= time.Duration(j)*time.Second/2 || d > time.Duration(i+2)*time.Second {
					t.Fatalf("usage line %d: %d is over %v", i, j, d)
				}
			}
		}
	})
}

const stallRule = "sessions drawing large frames on a terminal that does not read for a while now and then, with a telemetry file; non-trivial = at least one stall"

// TestStalls: each output stall is told, and logged, once.
func TestStalls(t *testing.T) {
	dir, err := os.MkdirTemp("", "c28")
	if err != nil {
		panic("HX-INFRA " + err.Error())
	}
	defer os.RemoveAll(dir)
	hx.Check(t, 7, stallRule, func(t *rapid.T, c *hx.Case) {
		s := &sess{rate: rapid.IntRange(5, 50).Draw(t, "rate"), start: true, file: filepath.Join(dir, "log")}
		s.frames = max(12, s.rate*5/4)
		// after that many frames, there may be some time with nothing to stall
		busy := s.frames
		if rapid.IntRange(0, 2).Draw(t, "quiet") == 0 {
			s.frames += max(8, s.rate)
			c.Label("quiet-after")
		}
		s.stalls = rapid.IntRange(0, 4).Draw(t, "logged") > 0
		pauses := rapid.SliceOfN(rapid.IntRange(60, 250), 2, 4).Draw(t, "pauses")
		c.Logf("%v, pauses %v ms", s, pauses)
		type span struct{ a, b time.Time }
		var held []span
		frame := 0
		begun := make(chan struct{})
		done := make(chan struct{})
		s.run(200, 60, func(ps *plat.Sess) {
			ps.P.Telemetry.LogStallData = s.stalls
			ps.P.SetStallTracking(true)
			hook := ps.Hook
			ps.Hook = func(ctx *platform.Context) error {
				frame++
				if frame == 1 {
					close(begun)
				}
				for y := 1; y <= 60; y++ {
					ctx.Output.To(ansi.Pt(1, y))
					for x := 1; x < 200; x++ {
						if x%2 == 0 {
							ctx.Output.WriteSGR(ansi.RGB(uint8(x), uint8(y), uint8(min(frame, busy))).FG())
						}
						ctx.Output.WriteRune(rune('a' + (x+y+min(frame, busy))%26))
					}
				}
				return hook(ctx)
			}
			go func() {
				defer close(done)
				<-begun
				ps.Pair.Input([]byte("x")) // reading it makes the terminal non-blocking
				for _, ms := range pauses {
					time.Sleep(20 * time.Millisecond)
					ps.Gate.Lock()
					a := time.Now()
					time.Sleep(time.Duration(ms) * time.Millisecond)
					held = append(held, span{a, time.Now()})
					ps.Gate.Unlock()
				}
			}()
		})
		<-done
		if s.err != nil {
			t.Fatalf("session %v: %v", s, s.err)
		}
		ls, err := lines(s.file)
		if err != nil {
			t.Fatalf("%v", err)
		}
		// frames at which stalls were told
		type told struct {
			frame int
			stats platform.StallsStats
		}
		var ts []told
		for k, r := range s.recs {
			if prior := s.recs[max(0, k-1)].stalls; !r.stalls.Time.Equal(prior.Time) {
				ts = append(ts, told{k, r.stalls})
			}
		}
		var total time.Duration
		from := 0
		var longest time.Duration
		for i, x := range ts {
			// the time between frames is all that can be stalled
			var gaps time.Duration
			for k := max(1, from); k <= x.frame; k++ {
				gaps += s.recs[k].wall.Sub(s.recs[k-1].left)
			}
			var least, most time.Duration
			if x.stats.N > 0 {
				least, most = x.stats.Sum/time.Duration(x.stats.N), x.stats.Sum
			}
			if x.stats.Max > most || x.stats.Max < least || x.stats.Min > least || x.stats.N > 0 && x.stats.Min <= 0 {
				t.Fatalf("frame %d: stalls told are %+v", x.frame, x.stats)
			}
			if x.stats.N == 0 && (x.stats.Min != 0 || x.stats.Max != 0 || x.stats.Sum != 0) {
				t.Fatalf("frame %d: no stalls told, but %+v", x.frame, x.stats)
			}
			if x.stats.N > x.frame-from {
				t.Fatalf("frame %d: %d stalls in %d frames", x.frame, x.stats.N, x.frame-from)
			}
			if x.stats.Sum > gaps {
				t.Fatalf("frame %d: stalled for %v in %v", x.frame, x.stats.Sum, gaps)
			}
			if i > 0 {
				if p := float64(x.stats.Sum) / float64(x.stats.Time.Sub(ts[i-1].stats.Time)); !near(x.stats.Pct, p) {
					t.Fatalf("frame %d: stalled for %v of the time, should be %v", x.frame, x.stats.Pct, p)
				}
			}
			from = x.frame
			total += x.stats.Sum
			longest = max(longest, x.stats.Max)
		}
		if len(ts) == 0 || ts[len(ts)-1].frame < len(s.recs)-max(1, s.rate/4)-1 {
			t.Fatalf("not told of stalls since %d frames", len(s.recs)-from)
		}
		// one line may hold what was told more than once, where the worker was held up
		next, missed := 0, 0
		for i, l := range ls {
			if l.Name != "stalls" {
				continue
			}
			if !s.stalls {
				t.Fatalf("stalls logged, but not to be")
			}
			if len(l.durs) == 0 {
				t.Fatalf("log line %d: no stalls logged", i)
			}
			var sum time.Duration
			for _, d := range l.durs {
				sum += d
			}
			var n int
			var of time.Duration
			for next < len(ts) && (n < len(l.durs) || of < sum) {
				n += ts[next].stats.N
				of += ts[next].stats.Sum
				next++
			}
			if n != len(l.durs) || of != sum {
				t.Fatalf("log line %d: %d stalls of %v, told were %d of %v", i, len(l.durs), sum, n, of)
			}
		}
		for ; next < len(ts) && s.stalls; next++ {
			missed += ts[next].stats.N
		}
		if missed > 0 {
			t.Fatalf("%d stalls were not logged", missed)
		}
		// a frame is more than fits the terminal while it does not read
		due, saw := 0, 0
		var draw time.Duration
		for _, r := range s.recs {
			draw = max(draw, r.left.Sub(r.wall))
		}
		for _, h := range held {
			for k, r := range s.recs {
				if k < 3 || k >= busy-1 || h.a.After(r.left) || h.b.Sub(r.left) < 4*draw+20*time.Millisecond {
					continue
				}
				for _, x := range ts {
					if x.frame > k {
						due++
						if x.stats.N > 0 && x.stats.Max > h.b.Sub(r.left)/4 {
							saw++
						}
						break
					}
				}
				break
			}
		}
		c.NT(total > 0)
		c.LabelIf(due > 0, "due")
		c.Logf("told %d times of stalls, of %v, longest %v; %d due, %d told", len(ts), total, longest, due, saw)
		if due > 1 && saw == 0 {
			t.Fatalf("terminal did not read for %v ms, but no such stall was told", pauses)
		}
	})
}

// names of the files of a configuration, by kind
var kinds = []string{"logfile", "cpuprofile", "memprofile", "tracefile", "telemetry"}

func field(cfg *platform.Config, kind string) *string {
	switch kind {
	case "logfile":
		return &cfg.LogFileName
	case "cpuprofile":
		return &cfg.CPUProfileName
	case "memprofile":
		return &cfg.MemProfileName
	case "tracefile":
		return &cfg.TraceFileName
	}
	return &cfg.TelemetryLogFileName
}

// config generates a configuration, set in part by flags; all of the files
// named are within the directory.
func config(t *rapid.T, c *hx.Case, dir string, i int) (cfg platform.Config) {
	args := []string{}
	prefix := rapid.SampledFrom([]string{"", "platform.", "x-"}).Draw(t, "prefix")
	fs := flag.NewFlagSet("x", flag.ContinueOnError)
	fs.SetOutput(io.Discard)
	flagged := rapid.Bool().Draw(t, "flagged")
	want := platform.Config{}
	for _, kind := range kinds {
		if rapid.IntRange(0, 3).Draw(t, kind) > 0 {
			continue
		}
		name := filepath.Join(dir, fmt.Sprintf("%s-%d", kind, i))
		if rapid.IntRange(0, 9).Draw(t, "bad") == 0 {
			name = filepath.Join(dir, "missing", kind)
		} else if kind == "memprofile" && rapid.IntRange(0, 2).Draw(t, "full") == 0 {
			// can be opened, but takes nothing
			name = filepath.Join(dir, fmt.Sprintf("full-%d", i))
			if err := os.Symlink("/dev/full", name); err != nil {
				panic("HX-INFRA " + err.Error())
			}
		}
		*field(&want, kind) = name
		if kind == "telemetry" || !flagged || rapid.IntRange(0, 3).Draw(t, "byFlag") == 0 {
			*field(&cfg, kind) = name // also the default of the flag
			if flagged && kind != "telemetry" && rapid.Bool().Draw(t, "overridden") {
				*field(&cfg, kind) = filepath.Join(dir, "unused")
				args = append(args, "-"+prefix+kind+"="+name)
			}
		} else {
			args = append(args, "--"+prefix+kind, name)
		}
	}
	want.StartTiming = rapid.IntRange(0, 3).Draw(t, "timing") == 0
	want.LogTiming = rapid.IntRange(0, 3).Draw(t, "logTiming") == 0
	if !flagged || prefix == "" {
		cfg.StartTiming, cfg.LogTiming = want.StartTiming, want.LogTiming
	} else {
		if want.StartTiming {
			args = append(args, "-"+prefix+"timing")
		}
		if want.LogTiming {
			args = append(args, "-"+prefix+"timing.log=true")
		}
	}
	if flagged {
		cfg.AddFlags(fs, prefix)
		if err := fs.Parse(append(args, "rest", "-timing")); err != nil || fs.NArg() != 2 {
			t.Fatalf("flags %q: %v, left %q", args, err, fs.Args())
		}
		if err := fs.Parse([]string{"-timing"}); err == nil && prefix == "" {
			t.Fatalf("timing flag without a prefix")
		}
	}
	c.Logf("config %d: %+v by flags %q", i, want, args)
	if cfg.StartTiming != want.StartTiming || cfg.LogTiming != want.LogTiming {
		t.Fatalf("flags %q: timing %v and %v", args, cfg.StartTiming, cfg.LogTiming)
	}
	for _, kind := range kinds {
		if got, want := *field(&cfg, kind), *field(&want, kind); got != want {
			t.Fatalf("flags %q: %s is %q, should be %q", args, kind, got, want)
		}
	}
	return cfg
}

const configRule = "platforms on ptys with up to three configurations, in part set by flags, naming log, profile, trace and telemetry files, some of which cannot be created, run once or twice; non-trivial = at least two files made"

// TestConfig: what is configured is written where configured.
func TestConfig(t *testing.T) {
	hx.Check(t, 60, configRule, func(t *rapid.T, c *hx.Case) {
		dir, err := os.MkdirTemp("", "c28")
		if err != nil {
			panic("HX-INFRA " + err.Error())
		}
		defer os.RemoveAll(dir)
		var opts []platform.Option
		want := platform.Config{}
		opts = append(opts, platform.FrameRate(rapid.IntRange(20, 500).Draw(t, "rate")))
		for i := rapid.IntRange(1, 3).Draw(t, "configs"); i > 0; i-- {
			cfg := config(t, c, dir, i)
			opts = append(opts, cfg)
			for _, kind := range kinds {
				if w := field(&want, kind); *w == "" {
					*w = *field(&cfg, kind)
				}
			}
			want.StartTiming = want.StartTiming || cfg.StartTiming
			want.LogTiming = want.LogTiming || cfg.LogTiming
		}
		bad := false
		files := map[string]bool{}
		full := strings.Contains(want.MemProfileName, "full-")
		c.LabelIf(full, "full")
		for _, kind := range kinds {
			if name := *field(&want, kind); strings.Contains(name, "missing") {
				bad = true
			} else if name != "" {
				files[filepath.Base(name)] = true
			}
		}
		defer platform.Logs.SetFile(nil)
		ps, err := plat.New(20, 5, true, opts...)
		if bad {
			if err == nil {
				t.Fatalf("no error, though a file could not be created")
			}
			c.Label("uncreatable")
			return
		}
		if err != nil {
			t.Fatalf("%v", err)
		}
		defer ps.Close()
		if on, logged := ps.P.TimingEnabled, ps.P.Telemetry.LogTiming; on != (want.StartTiming || want.LogTiming) || logged != want.LogTiming {
			t.Fatalf("timing %v, logged %v", on, logged)
		}
		c.NT(len(files) > 1)
		c.LabelIf(len(files) > 1, "files")
		var logged strings.Builder
		say := func(s string) {
			logged.WriteString(s)
			if n, err := platform.Logs.Write([]byte(s)); n != len(s) || err != nil {
				t.Fatalf("logging: %d, %v", n, err)
			}
		}
		say("before\n")
		runs := rapid.IntRange(1, 2).Draw(t, "runs")
		for run := 1; run <= runs; run++ {
			n, frames := 0, rapid.IntRange(1, 12).Draw(t, "frames")
			ps.Hook = func(ctx *platform.Context) error {
				if n++; n == frames {
					return errEnd
				}
				say(fmt.Sprintf("run %d frame %d\n", run, n))
				return nil
			}
			ps.Start(&plat.Client{})
			// a profile that cannot be written is none of the other files' business
			if err, ended := ps.Done(); !ended || err == nil || err != errEnd && !full {
				t.Fatalf("run %d: ended %v, with %v", run, ended, err)
			}
			say(fmt.Sprintf("run %d over\n", run))
			ents, err := os.ReadDir(dir)
			if err != nil {
				panic("HX-INFRA " + err.Error())
			}
			for _, ent := range ents {
				if !files[ent.Name()] && !strings.HasPrefix(ent.Name(), "full-") {
					t.Fatalf("file %q was made", ent.Name())
				}
			}
			for _, kind := range kinds {
				name := *field(&want, kind)
				if name == "" || kind == "memprofile" && full {
					continue
				}
				b, err := os.ReadFile(name)
				if err != nil {
					t.Fatalf("%s: %v", kind, err)
				}
				if bytes.Contains(b, stale) {
					t.Fatalf("run %d: %s: still holds what it held before", run, kind)
				}
				if strings.Contains("cpuprofile memprofile tracefile", kind) && run < runs {
					// a longer one of the run before
					if err := os.WriteFile(name, append(b[:len(b):len(b)], bytes.Repeat(stale, 1<<17/len(stale))...), 0666); err != nil {
						panic("HX-INFRA " + err.Error())
					}
				}
				head := string(b[:min(len(b), 40)])
				switch kind {
				case "logfile":
					if string(b) != logged.String() {
						t.Fatalf("run %d: logged %q, should be %q", run, b, logged.String())
					}
				case "cpuprofile":
					if err = gunzip(b); err != nil {
						t.Fatalf("run %d: cpu profile %q: %v", run, head, err)
					}
				case "memprofile":
					if !strings.HasPrefix(head, "heap profile:") {
						t.Fatalf("run %d: memory profile %q", run, head)
					}
				case "tracefile":
					if !strings.HasPrefix(head, "go 1.") {
						t.Fatalf("run %d: trace %q", run, head)
					}
				case "telemetry":
					if _, err := lines(name); err != nil {
						t.Fatalf("run %d: %v", run, err)
					}
				}
			}
		}
		c.LabelIf(runs > 1, "twice")
	})
}

var stale = []byte("what the run before left\n")

const rateRule = "platforms at frame rates from 10 to 40, and at 400, run for some frames; all are non-trivial"

// TestRate: frames come at the rate asked for.
func TestRate(t *testing.T) {
	hx.Check(t, 6, rateRule, func(t *rapid.T, c *hx.Case) {
		c.NT(true)
		run := func(rate, frames int) (ts []time.Time) {
			ps, err := plat.New(20, 5, true, platform.FrameRate(rate))
			if err != nil {
				t.Fatalf("%v", err)
			}
			defer ps.Close()
			ps.Hook = func(ctx *platform.Context) error {
				if ts = append(ts, ctx.Time); len(ts) == frames {
					return errEnd
				}
				return nil
			}
			ps.Start(&plat.Client{})
			if err, ended := ps.Done(); !ended || err != errEnd {
				t.Fatalf("ended %v, with %v", ended, err)
			}
			return ts
		}
		if rapid.Bool().Draw(t, "fast") {
			c.Label("fast")
			best := time.Hour
			for i := 0; i < 8 && best > 600*time.Millisecond; i++ {
				ts := run(400, 80)
				best = min(best, ts[79].Sub(ts[0]))
			}
			if best > 600*time.Millisecond {
				t.Fatalf("80 frames at 400 per second never took less than %v", best)
			}
			return
		}
		rate := rapid.IntRange(10, 40).Draw(t, "rate")
		ts := run(rate, 14)
		d := time.Second / time.Duration(rate)
		// ticks may be late, each on its own, but none is early
		base := ts[1]
		for i := 2; i < 7; i++ {
			if b := ts[i].Add(-time.Duration(i-1) * d); b.Before(base) {
				base = b
			}
		}
		if took, want := ts[13].Sub(base), 12*d-d/2; took < want {
			t.Fatalf("12 frames at %d per second took %v, should be at least %v: %v", rate, took, want, ts)
		}
	})
}

var over = []byte("that was all\n")

const pipeRule = "platforms that log to a pipe nobody reads while they run, more and less than fits in; non-trivial = more"

// TestPipe: a log file that takes nothing keeps no frame from coming, and gets
// everything in the end.
func TestPipe(t *testing.T) {
	dir, err := os.MkdirTemp("", "c28")
	if err != nil {
		panic("HX-INFRA " + err.Error())
	}
	defer os.RemoveAll(dir)
	hx.Check(t, 12, pipeRule, func(t *rapid.T, c *hx.Case) {
		name := filepath.Join(dir, "fifo")
		_ = os.Remove(name)
		if err := syscall.Mkfifo(name, 0600); err != nil {
			panic("HX-INFRA " + err.Error())
		}
		rd, err := os.OpenFile(name, os.O_RDWR, 0) // not to wait for a writer
		if err != nil {
			panic("HX-INFRA " + err.Error())
		}
		defer rd.Close()
		var got bytes.Buffer
		all, read := make(chan error, 1), make(chan struct{}, 1)
		drain := sync.OnceFunc(func() {
			go func() {
				var b [4096]byte
				for {
					m, err := rd.Read(b[:])
					got.Write(b[:m])
					if done := bytes.HasSuffix(got.Bytes(), over); done || err != nil {
						all <- err
						return
					}
					select {
					case read <- struct{}{}:
					default:
					}
				}
			}()
		})
		defer platform.Logs.SetFile(nil)
		ps, err := plat.New(20, 5, true, platform.Config{LogFileName: name})
		if err != nil {
			t.Fatalf("%v", err)
		}
		defer ps.Close()
		defer ps.Kill()
		defer drain() // nothing is to hang on
		if rapid.Bool().Draw(t, "second") {
			ps.Hook = func(ctx *platform.Context) error { return errEnd }
			ps.Start(&plat.Client{})
			if err, ended := ps.Done(); !ended || err != errEnd {
				t.Fatalf("ended %v, with %v", ended, err)
			}
			c.Label("second run")
		}
		frames, size := rapid.IntRange(20, 150).Draw(t, "frames"), rapid.IntRange(10, 6000).Draw(t, "size")
		c.NT(frames*size > 1<<17)
		c.Logf("%d frames, %d bytes each", frames, size)
		var want strings.Builder
		var count atomic.Int32
		end := make(chan struct{})
		ps.Hook = func(ctx *platform.Context) error {
			if n := int(count.Add(1)); n <= frames {
				line := fmt.Sprintf("%d %s\n", n, strings.Repeat("x", size))
				want.WriteString(line)
				if m, err := platform.Logs.Write([]byte(line)); m != len(line) || err != nil {
					return fmt.Errorf("logging: %d, %v", m, err)
				}
			}
			select {
			case <-end:
				return errEnd
			default:
				return nil
			}
		}
		ps.Start(&plat.Client{})
		if !hx.Eventually(func() bool { return int(count.Load()) > frames+10 }) {
			t.Fatalf("no more frames, after %d, while the log file is busy", count.Load())
		}
		drain()
		// what is logged is filed as frames go by, not just in the end
		if _, ok := hx.Within(func() { <-read }); !ok {
			t.Fatalf("nothing was filed in the course of %d frames", count.Load())
		}
		close(end)
		if err, ended := ps.Done(); !ended || err != errEnd {
			t.Fatalf("ended %v, with %v", ended, err)
		}
		want.Write(over)
		_, _ = platform.Logs.Write(over)
		if _, ok := hx.Within(func() { err = <-all }); !ok {
			t.Fatalf("the last line logged was not filed after the run")
		}
		if err != nil || got.String() != want.String() {
			g, w := got.String(), want.String()
			i := 0
			for i < len(g) && i < len(w) && g[i] == w[i] {
				i++
			}
			t.Fatalf("filed %d bytes of %d, the same up to %d: %v", len(g), len(w), i, err)
		}
	})
}

const fullRule = "platforms whose log or telemetry file is on a full device; all are non-trivial"

// TestFull: a log that cannot be written ends the run with the error, rather
// than being lost.
func TestFull(t *testing.T) {
	hx.Check(t, 4, fullRule, func(t *rapid.T, c *hx.Case) {
		c.NT(true)
		cfg := platform.Config{StartTiming: true, LogTiming: true}
		tele := rapid.Bool().Draw(t, "telemetry")
		if tele {
			cfg.TelemetryLogFileName = "/dev/full"
		} else {
			cfg.LogFileName = "/dev/full"
		}
		c.Logf("%+v", cfg)
		defer platform.Logs.SetFile(nil)
		ps, err := plat.New(20, 5, true, cfg)
		if err != nil {
			t.Fatalf("%v", err)
		}
		defer ps.Close()
		defer ps.Kill()
		n, t0 := 0, time.Now()
		ps.Hook = func(ctx *platform.Context) error {
			if n++; n%10 == 0 {
				_, _ = platform.Logs.Write([]byte("some\n"))
			}
			if time.Since(t0) > hx.Patience() {
				return errEnd
			}
			return nil
		}
		ps.Start(&plat.Client{})
		if err, ended := ps.Done(); !ended || !errors.Is(err, syscall.ENOSPC) {
			t.Fatalf("ended %v, with %v, after %d frames", ended, err, n)
		}
	})
}

const newRule = "Run with a configuration that fails; all are non-trivial"

// TestRunFails: Run tells the error of New, and never runs anything.
func TestRunFails(t *testing.T) {
	hx.Check(t, 10, newRule, func(t *rapid.T, c *hx.Case) {
		c.NT(true)
		null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
		if err != nil {
			panic("HX-INFRA " + err.Error())
		}
		defer null.Close()
		cfg := platform.Config{}
		*field(&cfg, rapid.SampledFrom(kinds).Draw(t, "kind")) = filepath.Join(os.Getenv("HX_TMP"), "missing", "file")
		ran := false
		err = platform.Run(null, null, func(*platform.Platform) error {
			ran = true
			return nil
		}, cfg)
		if err == nil || ran {
			t.Fatalf("error %v, ran %v", err, ran)
		}
	})
}

// gunzip checks that it is all there, once.
func gunzip(b []byte) error {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return err
	}
	p, err := io.ReadAll(r)
	if err == nil && len(p) == 0 {
		err = errors.New("empty")
	}
	return err
}

const renameRule = "sessions that log frame timing, in which the user names the telemetry file on the overlay once, or again; non-trivial = again"

// TestRename: telemetry goes to the log, then where the user of the overlay
// says, each round once.
func TestRename(t *testing.T) {
	dir, err := os.MkdirTemp("", "c28")
	if err != nil {
		panic("HX-INFRA " + err.Error())
	}
	defer os.RemoveAll(dir)
	home, err := os.Getwd()
	if err == nil {
		err = os.Chdir(dir)
	}
	if err != nil {
		panic("HX-INFRA " + err.Error())
	}
	defer os.Chdir(home)
	id := 0
	hx.Check(t, 4, renameRule, func(t *rapid.T, c *hx.Case) {
		id++
		tap.take("")
		s := &sess{rate: rapid.IntRange(40, 200).Draw(t, "rate"), logging: true, frames: 1e9}
		w, h := rapid.IntRange(70, 100).Draw(t, "w"), rapid.IntRange(15, 40).Draw(t, "h")
		names := rapid.IntRange(1, 3).Draw(t, "names")
		c.Logf("%v, %dx%d, %d names", s, w, h, names)
		ps, err := plat.New(w, h, true, platform.FrameRate(s.rate), s.cfg())
		if err != nil {
			t.Fatalf("New: %v", err)
		}
		defer ps.Close()
		defer ps.Kill()
		ps.P.HUD.Visible, ps.P.HUD.FPSDetail = true, true
		ps.Hook = s.hook
		ps.Start(&plat.Client{})
		ps.Entered(t)
		row := func() (y int) {
			if !hx.Eventually(func() bool {
				ps.Feed()
				for y = 1; y <= h; y++ {
					var line []rune
					for x := 1; x <= w; x++ {
						line = append(line, ps.Term.Cells[(y-1)*w+x-1].R)
					}
					if strings.Contains(string(line), "Telemetry Log") {
						return true
					}
				}
				return false
			}) {
				t.Fatalf("no row for the telemetry file")
			}
			return y
		}
		var files []string
		timings := func(file string) (ds []string) {
			ls, err := lines(file)
			if err != nil {
				t.Fatalf("%v", err)
			}
			for _, l := range ls {
				if l.Name == "timing" {
					ds = append(ds, fmt.Sprint(l.durs))
				}
			}
			return ds
		}
		for i := 0; i < names; i++ {
			ps.Step(t, rapid.IntRange(1, s.rate/2).Draw(t, "frames"))
			ps.Pair.Input([]byte(fmt.Sprintf("\x1b[<0;%d;%dM", w-rapid.IntRange(1, 10).Draw(t, "at"), row())))
			ps.Step(t, 2)
			name := fmt.Sprintf("%c%d", 'a'+i, id)
			ps.Pair.Input([]byte(name))
			ps.Step(t, 2)
			ps.Pair.Input([]byte("\r"))
			if len(files) > 0 {
				name += files[len(files)-1] // was typed before it
			}
			files = append(files, name)
			if !hx.Eventually(func() bool {
				ps.Running(t)
				b, err := os.ReadFile(name)
				return err == nil && strings.Contains(string(b), `"timing"`)
			}) {
				t.Fatalf("no timing in %q, chosen on the overlay", name)
			}
		}
		ps.Fail(errEnd)
		if e := ps.Ret(t); e != errEnd {
			t.Fatalf("Run returned %v", e)
		}
		if e, _ := ps.End(t); e != errEnd {
			t.Fatalf("RunWith returned %v", e)
		}
		ws, err := s.model()
		if err != nil {
			t.Fatalf("%v", err)
		}
		got := tap.take("timing data: ")
		for _, file := range files {
			got = append(got, timings(file)...)
		}
		missed := 0
		for _, w := range ws {
			if len(got) > 0 && got[0] == fmt.Sprint(w.ds) {
				got = got[1:]
			} else {
				missed++
			}
		}
		if len(got) > 0 || missed > 1 {
			t.Fatalf("%d of %d windows were not logged, and %d times others than told or not in order", missed, len(ws), len(got))
		}
		c.NT(names > 1)
	})
}
