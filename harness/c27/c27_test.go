package c27

import (
	"errors"
	"fmt"
	"image"
	"io"
	"log"
	"os"
	"runtime/pprof"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/x/platform"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/plat"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	plat.Init()
	hx.Main(m)
}

// state is what the overlay's controls control.
type state struct {
	Visible, Time, FPS, Prof, FPSControl     bool
	Paused, Timing, LogTiming, Stall, Stall2 bool
}

func stateOf(p *platform.Platform) state {
	h := &p.HUD.HUDState
	return state{
		h.Visible, h.TimeDetail, h.FPSDetail, h.ProfDetail, h.FPSControl,
		p.Paused, p.TimingEnabled, p.Telemetry.LogTiming, p.Telemetry.StallDataEnabled, p.Telemetry.LogStallData,
	}
}

// keyRow is what pressing the value of a row with the given key does; headers
// may be pressed anywhere.
var keyRow = map[string]func(*state){
	"paused":                func(s *state) { s.Paused = !s.Paused },
	"Log Timing":            func(s *state) { s.LogTiming = !s.LogTiming },
	"Log Stalls":            func(s *state) { s.Stall2 = !s.Stall2 },
	"# Frame Control: ":     func(s *state) { s.FPSControl = !s.FPSControl },
	"# Frame Timing: ":      func(s *state) { s.Timing = !s.Timing },
	"# Output Stalls: ":     func(s *state) { s.Stall = !s.Stall },
	"# Profiling Control: ": func(s *state) { s.Prof = !s.Prof },
	"# Telemetry: ":         func(s *state) {},
}

const valWidth = 16

type control struct {
	name string
	box  image.Rectangle
	do   func(*state)
}

// shown finds the controls on the screen.
func shown(g anansi.Grid, w, h int, now string) (cs []control) {
	row := func(y int) []rune { return g.Rune[(y-1)*w : y*w] }
	r1 := make([]rune, w)
	for i, r := range row(1) {
		if r1[i] = r; r == 0 {
			r1[i] = ' '
		}
	}
	find := func(s string) (image.Rectangle, bool) {
		rs := []rune(s)
	at:
		for x := w - len(rs); x >= 0; x-- {
			for i, r := range rs {
				if r1[x+i] != r {
					continue at
				}
			}
			return image.Rect(x+1, 1, x+1+len(rs), 2), true
		}
		return image.Rectangle{}, false
	}
	if box, ok := find(now); ok {
		cs = append(cs, control{"time", box, func(s *state) { s.Time = !s.Time }})
	}
	if box, ok := find("FPS:"); ok {
		for x := box.Max.X; x <= w && r1[x-2] != '/'; x++ {
			box.Max.X++
		}
		box.Max.X++ // the s of /s
		cs = append(cs, control{"fps", box, func(s *state) { s.FPS = !s.FPS }})
	}
	for _, icon := range "⊙◴◷◶◵" {
		if box, ok := find(string(icon)); ok {
			cs = append(cs, control{"prof", box, func(s *state) { s.Prof = !s.Prof }})
		}
	}
	if w <= valWidth {
		return cs
	}
	for y := 2; y < h; y++ {
		key := string(row(y)[:w-valWidth-1])
		for k, do := range keyRow {
			name, box := k, image.Rect(w+1-valWidth, y, w+1, y+1)
			if k[0] == '#' {
				name = strings.TrimSpace(k)
				box.Min.X = w - valWidth - len(name)
				if string(row(y)[w-valWidth:]) != strings.Repeat("-", valWidth) {
					continue
				}
			}
			if strings.HasSuffix(key, name) {
				cs = append(cs, control{k, box, do})
			}
		}
		for _, k := range editRows() {
			if strings.HasSuffix(key, k) {
				cs = append(cs, control{k, image.Rect(w-valWidth, y, w+1, y+1), nil})
			}
		}
	}
	return cs
}

// editRows are the keys of rows that have controls that the first test leaves
// alone.
func editRows() (ks []string) {
	ks = []string{"recording", "replaying", "Telemetry Log", "All", "CPU profiler", "Trace profiler", "PProf"}
	for _, p := range pprof.Profiles() {
		ks = append(ks, p.Name()+" profiler")
	}
	return ks
}

func show(g anansi.Grid, w, h int) string {
	var sb strings.Builder
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			if r := g.Rune[y*w+x]; r != 0 {
				sb.WriteRune(r)
			} else {
				sb.WriteRune(' ')
			}
		}
		sb.WriteByte('\n')
	}
	return sb.String()
}

func size(t *rapid.T) (w, h int) {
	wide := rapid.IntRange(70, 130)
	tall := rapid.IntRange(12, 45)
	switch rapid.IntRange(0, 3).Draw(t, "shape") {
	case 0:
		wide, tall = rapid.IntRange(0, 70), rapid.IntRange(0, 12)
		if rapid.IntRange(0, 9).Draw(t, "none") == 0 {
			return 0, 0
		}
	case 1:
		wide = rapid.IntRange(1, 70)
	case 2:
		tall = rapid.IntRange(1, 12)
	}
	return max(1, wide.Draw(t, "w")), max(1, tall.Draw(t, "h"))
}

func events(in *platform.Events) (evs []string) {
	for i, kind := range in.Type {
		switch kind {
		case platform.EventNone:
		case platform.EventMouse:
			m := in.Mouse(i)
			evs = append(evs, fmt.Sprintf("mouse %d %d,%d", m.State, m.X, m.Y))
		default:
			e := in.Escape(i)
			evs = append(evs, fmt.Sprintf("%d %U %q", kind, e.ID, e.Arg))
		}
	}
	return evs
}

var errClient = errors.New("of the client")

const overRule = "random histories of frames under the overlay: sizes from nothing up, log lines, toggles, presses on what is shown or anywhere, other input; non-trivial = a shown control was pressed, or a panel open on a screen too small for it"

// TestOverlay: the overlay draws over only its own part of the screen, leaves
// everything else to the client, and its controls do what they say.
func TestOverlay(t *testing.T) {
	null, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	if err != nil {
		panic("HX-INFRA " + err.Error())
	}
	defer null.Close()
	hx.Check(t, 30000, overRule, func(t *rapid.T, c *hx.Case) {
		p, err := platform.New(null, null, platform.Config{})
		if err != nil {
			t.Fatalf("New: %v", err)
		}
		defer p.Config.Exit(nil) // a press may have started profiles
		platform.Logs.Read(make([]byte, 1<<16))
		logged := 0
		if rapid.IntRange(0, 3).Draw(t, "logs") == 0 {
			logged = rapid.IntRange(1, 30).Draw(t, "lines")
			for i := 0; i < logged; i++ {
				fmt.Fprintf(&platform.Logs, "line %d\n", i)
			}
		}
		maxKey := 0
		for _, k := range editRows() {
			maxKey = max(maxKey, len(k))
		}
		w, h := size(t)
		p.Time = time.Unix(rapid.Int64Range(0, 1e9).Draw(t, "t"), rapid.Int64Range(0, 999999999).Draw(t, "ns"))
		if rapid.Bool().Draw(t, "open") { // from an earlier session
			p.HUD.Visible = true
			p.HUD.TimeDetail = rapid.Bool().Draw(t, "time")
			p.HUD.FPSDetail = rapid.Bool().Draw(t, "fps")
			p.HUD.ProfDetail = rapid.Bool().Draw(t, "prof")
			p.HUD.FPSControl = rapid.Bool().Draw(t, "control")
			p.Paused = rapid.Bool().Draw(t, "paused")
			p.SetTimingEnabled(rapid.Bool().Draw(t, "timing"))
			p.Telemetry.LogTiming = rapid.IntRange(0, 3).Draw(t, "logTiming") == 0
			p.SetStallTracking(rapid.Bool().Draw(t, "stalls"))
			p.Telemetry.LogStallData = rapid.IntRange(0, 3).Draw(t, "logStalls") == 0
			p.LastTime = p.Time
			c.Logf("%+v", stateOf(p))
		}
		var last []control
		for n := rapid.IntRange(1, 10).Draw(t, "frames"); n > 0; n-- {
			if rapid.IntRange(0, 5).Draw(t, "resize") == 0 {
				w, h = size(t)
				last = nil
			}
			p.Time = p.Time.Add(time.Duration(rapid.Int64Range(1, 2e9).Draw(t, "dt")))
			var input []byte
			var press image.Point
			toggles := 0
			for k := rapid.IntRange(0, 4).Draw(t, "tokens"); k > 0; k-- {
				switch op := rapid.IntRange(0, 9).Draw(t, "token"); {
				case op == 0 || !p.HUD.Visible && op < 5:
					input = append(input, 0x0b)
					toggles++
				case op < 5 && press == image.ZP:
					press = image.Pt(rapid.IntRange(1, w+2).Draw(t, "x"), rapid.IntRange(1, h+2).Draw(t, "y"))
					if len(last) > 0 && rapid.IntRange(0, 3).Draw(t, "random") > 0 {
						b := last[rapid.IntRange(0, len(last)-1).Draw(t, "on")].box
						press = image.Pt(rapid.IntRange(b.Min.X, b.Max.X-1).Draw(t, "px"), b.Min.Y)
						if rapid.IntRange(0, 5).Draw(t, "near") == 0 {
							press = press.Add(image.Pt(rapid.IntRange(-1, 1).Draw(t, "dx"), rapid.IntRange(-1, 1).Draw(t, "dy")))
						}
					}
					input = append(input, fmt.Sprintf("\x1b[<0;%d;%dM", press.X, press.Y)...)
				case op == 5:
					input = append(input, fmt.Sprintf("\x1b[<%d;%d;%d%s", rapid.SampledFrom([]int{0, 1, 2, 3, 32, 35, 64, 65}).Draw(t, "b"),
						rapid.IntRange(0, w+2).Draw(t, "mx"), rapid.IntRange(0, h+2).Draw(t, "my"), "m")...)
				case op == 6 && logged > 0:
					input = append(input, fmt.Sprintf("\x1b[<%d;%d;%dM", rapid.IntRange(64, 65).Draw(t, "b"),
						rapid.IntRange(1, w+2).Draw(t, "mx"), rapid.IntRange(1, h+2).Draw(t, "my"))...)
				default:
					input = append(input, rapid.SampledFrom([]string{"a", "x", " ", "\x1b[A", "\x1b[C", "é", "\t", "\x1b[200~"}).Draw(t, "key")...)
				}
			}
			c.Logf("%dx%d %q", w, h, input)
			ctx := p.Context()
			if p.Paused {
				ctx.Time = p.LastTime
			}
			ctx.Output.Resize(image.Pt(w, h))
			ctx.Output.Reset()
			ctx.Input.Clear()
			ctx.Input.DecodeBytes(input)
			var want []string
			for _, e := range events(ctx.Input) {
				if !strings.Contains(e, fmt.Sprintf("%d U+000B ", platform.EventRune)) {
					want = append(want, e)
				}
			}
			lastMouse := p.HUD.Mouse
			if m, have := ctx.Input.LastMouse(false); have {
				lastMouse = m
			}

			pic := plat.Draws(t, max(1, w), max(1, h))
			filler := rune(rapid.SampledFrom([]rune{0, 0, '░', '▓'}).Draw(t, "filler"))
			var clErr error
			if rapid.IntRange(0, 19).Draw(t, "err") == 0 {
				clErr = errClient
			}
			var got [][]string
			var now string
			var cl anansi.Grid
			before := stateOf(p)
			active := p.HUD.Active
			// what was measured before now
			p.Timing.Stats.FPS, p.Stalls.Stats.N = 42, 42
			client := platform.ClientFunc(func(ctx *platform.Context) error {
				got = append(got, events(ctx.Input))
				now = ctx.Time.Format("15:04:05.000000")
				for i := range ctx.Output.Grid.Rune {
					ctx.Output.Grid.Rune[i] = filler
				}
				ctx.Output.Write(pic.Bytes)
				ctx.Output.UserCursor = pic.UC
				cl.Resize(image.Pt(w, h))
				copy(cl.Rune, ctx.Output.Grid.Rune)
				copy(cl.Attr, ctx.Output.Grid.Attr)
				return clErr
			})
			func() {
				defer func() {
					if e := recover(); e != nil {
						t.Fatalf("overlay %+v at %dx%d panics: %v", before, w, h, e)
					}
				}()
				err = p.HUD.Update(&ctx, client)
			}()
			p.LastTime = ctx.Time
			if len(got) != 1 {
				t.Fatalf("client ran %d times", len(got))
			}
			if fmt.Sprint(got[0]) != fmt.Sprint(want) {
				t.Fatalf("client got %q, should %q", got[0], want)
			}
			if err != clErr && p.HUD.Active == 0 {
				t.Fatalf("error %v, should be the client's %v", err, clErr)
			}
			if p.HUD.Mouse != lastMouse {
				t.Fatalf("mouse %v, should be %v", p.HUD.Mouse, lastMouse)
			}

			g := ctx.Output.Grid
			s := before
			if toggles%2 == 1 {
				s.Visible = !s.Visible
			}
			last = nil
			if g.Bounds().Size() != image.Pt(w, h) {
				t.Fatalf("screen is %v, should be %dx%d", g.Bounds().Size(), w, h)
			}
			if s.Visible && w > 0 {
				last = shown(g, w, h, now)
			}
			panels := before.Time || before.FPS || before.Prof
			hide := func() {
				// hiding the overlay ends what was edited in it
				for i := 0; i < 2; i++ {
					p.Time = p.Time.Add(time.Millisecond)
					ctx := p.Context()
					ctx.Output.Resize(image.Pt(w, h))
					ctx.Output.Reset()
					ctx.Input.Clear()
					ctx.Input.DecodeBytes([]byte("\x0b"))
					if err := p.HUD.Update(&ctx, platform.ClientFunc(func(ctx *platform.Context) error { return nil })); err != nil {
						t.Fatalf("toggling the overlay while editing: %v", err)
					}
					if p.HUD.Active != 0 {
						t.Fatalf("still editing after the overlay was hidden (visible %v)\n%s", p.HUD.Visible, show(ctx.Output.Grid, w, h))
					}
				}
				c.Label("hidden while editing")
			}
			hit := false
			for _, ctl := range last {
				if press.In(ctl.box) {
					if ctl.do == nil {
						if p.HUD.Active != 0 {
							hide()
						}
						return // the rest of this would need a model of files
					}
					c.Logf("press %s", ctl.name)
					c.NT(true)
					c.Label(ctl.name)
					ctl.do(&s)
					hit = true
					break
				}
			}
			c.LabelIf(!hit && press != image.ZP && s.Visible, "press elsewhere")
			c.NT(s.Visible && panels && (w < 40 || h < 12))
			covered := logged > 0 // a log may be over a control
			if covered && press != image.ZP {
				s = stateOf(p)
			}
			if after := stateOf(p); after != s {
				t.Fatalf("pressed %v, hit %v: state %+v became %+v, should %+v\n%s", press, hit, before, after, s, show(g, w, h))
			}
			if n, want := p.Timing.Stats.FPS, !before.Timing || s.Timing || s.LogTiming || before.LogTiming; n == 0 && want || n != 0 && !want {
				t.Fatalf("frame timing was on: %v, is %v, logged: %v; its old statistics must stay: %v, got %v", before.Timing, s.Timing, s.LogTiming, want, n)
			}
			if n, want := p.Stalls.Stats.N, !before.Stall || s.Stall; n == 0 && want || n != 0 && !want {
				t.Fatalf("stall tracking was on: %v, is %v; its old statistics must stay: %v, got %v", before.Stall, s.Stall, want, n)
			}
			// resuming, time goes on from now: it does not run through the pause
			// in one frame
			if s.Paused != before.Paused && !ctx.Time.Equal(p.Time) {
				t.Fatalf("paused: %v, time is %v, should be %v", s.Paused, ctx.Time, p.Time)
			}
			for _, ctl := range last {
				want := ""
				switch ctl.name {
				case "paused":
					if want = "Pause"; p.Paused {
						want = "Resume"
					}
				case "Log Timing":
					want = fmt.Sprint(p.Telemetry.LogTiming)
				case "Log Stalls":
					want = fmt.Sprint(p.Telemetry.LogStallData)
				}
				y := ctl.box.Min.Y
				if val := string(g.Rune[y*w-min(w, valWidth) : y*w]); !covered && !strings.Contains(val, want) {
					t.Fatalf("%s shows %q, should %q\n%s", ctl.name, val, want, show(g, w, h))
				}
			}
			if p.HUD.Active != 0 && active == 0 && !covered {
				t.Fatalf("press at %v activated %d\n%s", press, p.HUD.Active, show(g, w, h))
			}

			// what is not the overlay's is as the client drew it
			logRows := 0
			if logged > 0 {
				logRows = 11
			}
			panels = panels || p.HUD.TimeDetail || p.HUD.FPSDetail || p.HUD.ProfDetail
			for y := 1; y <= h; y++ {
				for x := 1; x <= w; x++ {
					i := (y-1)*w + x - 1
					own := s.Visible && (y == 1 || y > h-logRows || panels && x >= w-valWidth-maxKey && y < h)
					if !own && (g.Rune[i] != cl.Rune[i] || g.Attr[i] != cl.Attr[i]) {
						t.Fatalf("cell %d,%d is %q %v, should be the client's %q %v\n%s", x, y, g.Rune[i], g.Attr[i], cl.Rune[i], cl.Attr[i], show(g, w, h))
					}
				}
			}
			if p.HUD.Active == 0 && ctx.Output.UserCursor != pic.UC {
				t.Fatalf("cursor %v, should be the client's %v", ctx.Output.UserCursor, pic.UC)
			}
			if p.HUD.Active != 0 {
				hide()
				return
			}
			// the status must be there when there's room for it
			if s.Visible && w >= valWidth && h > logRows {
				found := 0
				for _, ctl := range last {
					if ctl.box.Min.Y == 1 {
						found++
					}
				}
				if need := 1; found < need || w > 60 && found < 3 {
					t.Fatalf("%d status controls on\n%s", found, show(g, w, h))
				}
			}
		}
	})
}

const liveRule = "a platform running on a pseudo terminal of any size with panels open from the start, the overlay toggled, other input in pieces, sizes changing, the client drawing; non-trivial = shown and hidden, or on a screen too small for all of it"

// TestLive: under a running platform, the overlay does not get in the way of
// input, of drawing, or of leaving the terminal as it was found.
func TestLive(t *testing.T) {
	hx.Check(t, 600, liveRule, func(t *rapid.T, c *hx.Case) {
		w, h := size(t)
		w, h = max(w, 1), max(h, 1)
		s, err := plat.New(w, h, rapid.Bool().Draw(t, "sharedFile"))
		if err != nil {
			t.Fatalf("New: %v", err)
		}
		defer s.Close()
		defer s.Kill()
		platform.Logs.Read(make([]byte, 1<<16))
		hud := &s.P.HUD.HUDState
		hud.Visible = rapid.Bool().Draw(t, "visible")
		hud.TimeDetail = rapid.Bool().Draw(t, "time")
		hud.FPSDetail = rapid.Bool().Draw(t, "fps")
		hud.ProfDetail = rapid.Bool().Draw(t, "prof")
		s.P.SetTimingEnabled(rapid.Bool().Draw(t, "timing"))
		s.P.SetStallTracking(rapid.Bool().Draw(t, "stalls"))
		c.Logf("%dx%d %v", w, h, stateOf(s.P))
		visible := hud.Visible
		panels := hud.TimeDetail || hud.FPSDetail || hud.ProfDetail
		maxKey := 0
		for _, k := range editRows() {
			maxKey = max(maxKey, len(k))
		}
		s.Own = func(x, y int) bool {
			return visible && (y == 1 || panels && x >= w-valWidth-maxKey && y < h)
		}
		s.Draw(plat.Draws(t, w, h))
		s.Start(&plat.Client{})
		s.Entered(t)
		var want []string
		both := map[bool]bool{visible: true}
		for n := rapid.IntRange(1, 5).Draw(t, "steps"); n > 0; n-- {
			switch rapid.IntRange(0, 3).Draw(t, "step") {
			case 0:
				var all []byte
				for k := rapid.IntRange(1, 6).Draw(t, "tokens"); k > 0; k-- {
					if rapid.IntRange(0, 2).Draw(t, "toggle") == 0 {
						all = append(all, 0x0b)
						visible = !visible
						continue
					}
					if tok := plat.Token(t); !strings.Contains(string(tok), "<") { // no presses
						all = append(all, tok...)
					}
				}
				c.Logf("type %q", all)
				want = append(want, plat.Events(all)...)
				for _, p := range plat.Pieces(t, all) {
					s.Pair.Input(p)
				}
				both[visible] = true
			case 1:
				s.Settle(t)
				w, h = size(t)
				w, h = max(w, 1), max(h, 1)
				s.SetSize(w, h)
				c.Logf("size %dx%d", w, h)
				plat.Raise(syscall.SIGWINCH)
				s.Wait(t, "the new size", func(fs []plat.Frame) bool { return fs[len(fs)-1].Size == image.Pt(w, h) })
			case 2:
				c.Logf("draw")
				s.Draw(plat.Draws(t, w, h))
			case 3:
				s.Step(t, rapid.IntRange(1, 20).Draw(t, "frames"))
			}
			s.Wait(t, "input", func(fs []plat.Frame) bool {
				var got []string
				for _, f := range fs {
					got = append(got, f.Evs...)
				}
				if len(got) > len(want) || fmt.Sprint(got) != fmt.Sprint(want[:len(got)]) {
					t.Fatalf("client got %q, should %q", got, want)
				}
				return len(got) == len(want)
			})
			s.Settle(t)
		}
		c.NT(len(both) == 2 || both[true] && (w < 40 || h < 12))
		werr := errors.New("client failed at last")
		s.Fail(werr)
		if e := s.Ret(t); e != werr {
			t.Fatalf("Run returned %v, the client %v", e, werr)
		}
		if e, _ := s.End(t); e != werr {
			t.Fatalf("RunWith returned %v, its function %v", e, werr)
		}
		s.Restored(t)
	})
}

// prof is a profiler of the model.
type prof struct {
	key    string // of its row
	file   string // named for it
	active bool
}

func (p *prof) defaultName() string {
	switch p.key {
	case "CPU profiler":
		return "prof.cpu"
	case "Trace profiler":
		return "prof.trace"
	}
	return "prof." + strings.TrimSuffix(p.key, " profiler")
}

const profRule = "random histories of one user action a frame on the profiling panel: starting, stopping and naming profiles, adding some, cancelling, pressing elsewhere; non-trivial = a profile was taken in a file the user named"

// TestProfiles: profiles start, stop and go where the user of the panel says.
func TestProfiles(t *testing.T) {
	null, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	if err != nil {
		panic("HX-INFRA " + err.Error())
	}
	defer null.Close()
	home, err := os.Getwd()
	if err != nil {
		panic("HX-INFRA " + err.Error())
	}
	hx.Check(t, 2000, profRule, func(t *rapid.T, c *hx.Case) {
		dir, err := os.MkdirTemp(home, "prof")
		if err == nil {
			err = os.Chdir(dir)
		}
		if err != nil {
			panic("HX-INFRA " + err.Error())
		}
		defer os.RemoveAll(dir)
		defer os.Chdir(home)
		p, err := platform.New(null, null, platform.Config{})
		if err != nil {
			t.Fatalf("New: %v", err)
		}
		defer p.Config.Exit(nil)
		platform.Logs.Read(make([]byte, 1<<16))
		w, h := 80, 40
		p.HUD.Visible, p.HUD.ProfDetail = true, true
		p.HUD.TimeDetail, p.HUD.FPSDetail = rapid.Bool().Draw(t, "time"), rapid.Bool().Draw(t, "fps")
		p.Time = time.Unix(1000, 0)

		var g anansi.Grid
		frame := func(input string) {
			c.Logf("%q", input)
			p.Time = p.Time.Add(time.Duration(rapid.Int64Range(1, 2e9).Draw(t, "dt")))
			ctx := p.Context()
			ctx.Output.Resize(image.Pt(w, h))
			ctx.Output.Reset()
			ctx.Input.Clear()
			ctx.Input.DecodeBytes([]byte(input))
			if err := p.HUD.Update(&ctx, platform.ClientFunc(func(ctx *platform.Context) error { return nil })); err != nil {
				t.Fatalf("%v", err)
			}
			g = ctx.Output.Grid
		}
		rowOf := func(key string) int {
			for y := 2; y < h; y++ {
				if strings.HasSuffix(strings.TrimRight(string(g.Rune[(y-1)*w:y*w-valWidth-1]), "\x00 "), key) {
					return y
				}
			}
			t.Fatalf("no row %q on\n%s", key, show(g, w, h))
			return 0
		}
		press := func(x, y int) string { return fmt.Sprintf("\x1b[<0;%d;%dM", x, y) }
		value := func(y int) string { return string(g.Rune[y*w-valWidth : y*w]) }
		// val is any place within a value
		val := func() int { return w + 1 - rapid.IntRange(1, valWidth).Draw(t, "at") }
		profs := []*prof{{key: "CPU profiler"}, {key: "Trace profiler"}}
		frame("")
		check := func() {
			any := false
			for _, pr := range profs {
				any = any || pr.active
			}
			for _, pr := range profs {
				y := rowOf(pr.key)
				if on := g.Rune[y*w-valWidth-1] != '⊙'; on != pr.active {
					t.Fatalf("%s shown active: %v, should be %v\n%s", pr.key, on, pr.active, show(g, w, h))
				}
				label := pr.file
				if label == "" {
					label = "Choose File"
				}
				if rs := []rune(label); len(rs) > valWidth-4 {
					label = string(rs[:valWidth-5])
				}
				if !strings.Contains(value(y), label) {
					t.Fatalf("%s shown with file %q, should be %q\n%s", pr.key, value(y), label, show(g, w, h))
				}
				if pr.file != "" {
					b, err := os.ReadFile(pr.file)
					if err != nil {
						t.Fatalf("%s has no file: %v", pr.key, err)
					}
					if !pr.active {
						want := pr.key[:strings.Index(pr.key, " ")] + " profile:"
						switch pr.key {
						case "CPU profiler":
							want = "\x1f\x8b"
						case "Trace profiler":
							want = "go 1."
						case "allocs profiler", "heap profiler":
							want = "heap profile:"
						case "mutex profiler":
							want = "--- mutex:"
						case "block profiler":
							want = "--- contention:"
						}
						if !strings.HasPrefix(string(b), want) {
							t.Fatalf("profile %s in %q starts with %q, should with %q", pr.key, pr.file, b[:min(len(b), 30)], want)
						}
						c.NT(pr.file != pr.defaultName())
					}
				}
			}
			if on := string(g.Rune[:w]); strings.Contains(on, "⊙") == any {
				t.Fatalf("any profile active: %v, status is %s", any, on)
			}
			if y := rowOf("All"); g.Rune[y*w-valWidth-1] != '⊙' != any {
				t.Fatalf("any profile active: %v, should be shown\n%s", any, show(g, w, h))
			}
		}
		toggle := func(pr *prof, on bool) {
			if pr.active = on; on && pr.file == "" {
				pr.file = pr.defaultName()
			}
		}
		for n := rapid.IntRange(1, 12).Draw(t, "actions"); n > 0; n-- {
			pr := profs[rapid.IntRange(0, len(profs)-1).Draw(t, "prof")]
			y := rowOf(pr.key)
			switch op := rapid.IntRange(0, 6).Draw(t, "op"); op {
			case 0, 1: // start or stop
				frame(press(w-valWidth, y))
				toggle(pr, !pr.active)
			case 2: // all
				on := true
				for _, pr := range profs {
					on = on && !pr.active
				}
				frame(press(w-valWidth, rowOf("All")))
				for _, pr := range profs {
					toggle(pr, on)
				}
			case 3, 4: // name a file
				frame(press(val(), y))
				if p.HUD.Active == 0 {
					t.Fatalf("pressing the file of %s does nothing", pr.key)
				}
				name := rapid.StringMatching(`[a-z]{0,15}|[ a-zé世]{1,12}`).Draw(t, "name")
				for _, other := range profs {
					if name+pr.file == other.file && other != pr {
						name = ""
					}
				}
				if name != "" && rapid.Bool().Draw(t, "fix") {
					frame("z\x7f" + name)
				} else {
					frame(name)
				}
				switch rapid.IntRange(0, 3).Draw(t, "end") {
				case 0:
					frame("\x1b")
				case 1:
					frame(press(1, h-1))
				default:
					if clash(profs, pr, name) {
						frame("\x1b")
						break
					}
					frame("\r")
					if name += pr.file; name == "" {
						name = pr.defaultName()
					}
					pr.file, pr.active = name, true
				}
				if p.HUD.Active != 0 {
					t.Fatalf("still editing the file of %s", pr.key)
				}
			case 5: // add one
				y := rowOf("PProf")
				frame(press(val(), y))
				names := map[string]bool{}
				for _, pr := range pprof.Profiles() {
					names[pr.Name()] = true
				}
				for _, pr := range profs {
					delete(names, strings.TrimSuffix(pr.key, " profiler"))
				}
				var at []string
				for i := 0; i < len(names); i++ {
					name := strings.Trim(value(y+i), "\x00 ")
					if !names[name] {
						t.Fatalf("row %d offers %q, should one of %v\n%s", y+i, name, names, show(g, w, h))
					}
					at = append(at, name)
				}
				if len(at) == 0 {
					frame(press(1, h-1))
					break
				}
				i := rapid.IntRange(0, len(at)).Draw(t, "choice")
				if i == len(at) {
					frame(press(1, h-1))
				} else {
					frame(press(w+1-rapid.IntRange(2, valWidth).Draw(t, "at"), y+i))
					profs = append(profs, &prof{key: at[i] + " profiler"})
				}
			case 6:
				frame(press(rapid.IntRange(1, 20).Draw(t, "x"), rapid.IntRange(2, h).Draw(t, "y")))
			}
			frame("")
			check()
		}
	})
}

// clash says whether naming a file so would put two profiles in one.
func clash(profs []*prof, pr *prof, name string) bool {
	if name += pr.file; name == "" {
		name = pr.defaultName()
	}
	for _, other := range profs {
		if other != pr && (other.file == name || other.defaultName() == name) {
			return true
		}
	}
	return false
}
