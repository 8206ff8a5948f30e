// Package plat runs a platform on a pseudo terminal, for the checks of it.
package plat

import (
	"fmt"
	"image"
	"os"
	"os/signal"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/x/platform"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
	"verif/ops"
	"verif/pty"
	"verif/ref"
	"verif/scr"
	"verif/vt"
)

// Frame is what a client saw of a frame.
type Frame struct {
	Client   int
	Evs      []string
	Redraw   bool
	Size     image.Point
	Time     time.Time
	Now      time.Time // of the platform
	LastTime time.Time
	Paused   bool
}

// Pic is what the client is to draw.
type Pic struct {
	Bytes []byte
	UC    anansi.Cursor
}

// Client is a client that keeps what it gets, and draws what it is told to.
type Client struct {
	Evs  []string
	Mark int

	id int
	s  *Sess
}

// Sess is a platform on a pseudo terminal.
type Sess struct {
	P    *platform.Platform
	Pair *pty.Pair
	Term *vt.Term
	Own  func(x, y int) bool // cells that are not the client's

	Hook func(*platform.Context) error // called by the client in each frame, if set
	Gate sync.Mutex                    // held while the terminal must not read

	Pipe *os.File // where input is written, if piped

	in, out   *os.File
	inFlags   int
	outFlags  int
	attr      syscall.Termios
	readerEnd chan struct{}

	mu     sync.Mutex
	raw    []byte
	frames []Frame
	pic    Pic
	grid   anansi.Grid
	uc     anansi.Cursor
	clErr  error
	clBoom bool

	runs chan *Client
	rets chan error // of Run
	done chan error // of RunWith
	boom interface{}
	nid  int
}

// Witness gets the signals the checks send, so that none ends the process.
var Witness = make(chan os.Signal, 16)

// Init must be called first.
func Init() {
	signal.Notify(Witness, syscall.SIGWINCH, syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP, syscall.SIGIO)
}

// Raise sends a signal to this process and waits until it was handed out.
func Raise(sig syscall.Signal) {
	ch := make(chan os.Signal, 1)
	signal.Notify(ch, sig)
	if err := syscall.Kill(syscall.Getpid(), sig); err != nil {
		panic("HX-INFRA kill: " + err.Error())
	}
	select {
	case <-ch:
	case <-time.After(30 * time.Second):
		panic("HX-INFRA signal never came")
	}
	signal.Stop(ch) // handing out holds the lock that this takes
	for {
		select {
		case <-Witness:
		default:
			return
		}
	}
}

// Until waits until the given signal comes as f runs.
func Until(sig syscall.Signal, f func()) {
	for drained := false; !drained; {
		select {
		case <-Witness:
		default:
			drained = true
		}
	}
	f()
	for end := time.After(hx.Patience()); ; {
		select {
		case got := <-Witness:
			if got == sig {
				// handing out holds the lock that this takes
				ch := make(chan os.Signal, 1)
				signal.Notify(ch, sig)
				signal.Stop(ch)
				return
			}
		case <-end:
			return // up to the caller to find out
		}
	}
}

// Update is called for each frame.
func (c *Client) Update(ctx *platform.Context) error {
	s := c.s
	s.mu.Lock()
	defer s.mu.Unlock()
	f := Frame{
		Client: c.id, Redraw: ctx.Redraw, Size: ctx.Output.Bounds().Size(),
		Time: ctx.Time, Now: ctx.Platform.Time, LastTime: ctx.LastTime, Paused: ctx.Paused,
	}
	for i, kind := range ctx.Input.Type {
		if kind != platform.EventNone {
			f.Evs = append(f.Evs, seen(ctx.Input, i))
		}
	}
	c.Evs = append(c.Evs, f.Evs...)
	s.frames = append(s.frames, f)
	if s.clBoom {
		panic(boomText)
	}
	if s.Hook != nil {
		if err := s.Hook(ctx); err != nil {
			return err
		}
	}
	ctx.Output.Write(s.pic.Bytes)
	ctx.Output.UserCursor = s.pic.UC
	s.grid.Resize(f.Size)
	copy(s.grid.Rune, ctx.Output.Grid.Rune)
	copy(s.grid.Attr, ctx.Output.Grid.Attr)
	s.uc = s.pic.UC
	return s.clErr
}

const boomText = "client goes boom"

func seen(es *platform.Events, i int) string {
	switch es.Type[i] {
	case platform.EventRune:
		return fmt.Sprintf("rune %U", es.Rune(i))
	case platform.EventEscape:
		e := es.Escape(i)
		return fmt.Sprintf("esc %U %q", rune(e.ID), e.Arg)
	case platform.EventMouse:
		m := es.Mouse(i)
		return fmt.Sprintf("mouse %d@%d,%d", uint8(m.State), m.X, m.Y)
	}
	return fmt.Sprintf("type %d", es.Type[i])
}

// Events are the events that bytes should arrive as, but for the platform's own.
func Events(p []byte) (evs []string) {
	toks, left := ref.Tokenize(p)
	if left != 0 {
		panic("HX-INFRA incomplete input generated")
	}
	for _, r := range toks {
		switch r.ID {
		case 0x0b, 0x0c, 0x12:
			continue
		}
		s := fmt.Sprintf("rune %U", r.ID)
		if 0xEF00 <= r.ID && r.ID <= 0xEFFF {
			s = fmt.Sprintf("esc %U %q", r.ID, r.Arg)
		}
		if r.ID == 0xEF80|'M' || r.ID == 0xEF80|'m' {
			if m, ok := mouse(r); ok {
				s = m
			}
		}
		evs = append(evs, s)
	}
	return evs
}

func mouse(r ref.Ev) (string, bool) {
	if !strings.HasPrefix(r.Arg, "<") {
		return "", false
	}
	var n []int
	for _, s := range strings.Split(r.Arg[1:], ";") {
		if len(s) == 0 || strings.Trim(s, "0123456789") != "" {
			return "", false
		}
		v, err := strconv.ParseUint(s, 10, 32)
		if err != nil {
			return "", false
		}
		n = append(n, int(v))
	}
	if len(n) != 3 || n[0] > 255 {
		return "", false
	}
	if r.ID == 0xEF80|'m' {
		n[0] |= 128
	}
	if n[0] == 0 && (n[1] <= 0 || n[2] <= 0) {
		return "", false
	}
	return fmt.Sprintf("mouse %d@%d,%d", n[0], n[1], n[2]), true
}

// Token generates a token of input, of which none is for the platform itself.
func Token(t *rapid.T) []byte {
	for {
		p := token(t)
		if s := string(p); strings.ContainsAny(s, "\x0b\x0c\x12\x03 .") || strings.Contains(s, "\x1b_") || strings.Contains(s, "\u009f") {
			continue
		}
		return p
	}
}

func token(t *rapid.T) []byte {
	switch rapid.IntRange(0, 5).Draw(t, "kind") {
	case 0:
		b := rapid.SampledFrom([]int{0, 1, 2, 64, 65, 32, 33, 35}).Draw(t, "button")
		final := "M"
		if b < 32 && rapid.IntRange(0, 2).Draw(t, "release") == 0 {
			final = "m"
		}
		c := rapid.IntRange(1, 12)
		return []byte(fmt.Sprintf("\x1b[<%d;%d;%d%s", b, c.Draw(t, "x"), c.Draw(t, "y"), final))
	case 1:
		return []byte("\x1b[" + rapid.SampledFrom([]string{"", "", "5", "1;2"}).Draw(t, "arg") + string("ABCD"[rapid.IntRange(0, 3).Draw(t, "dir")]))
	case 2:
		return ref.Token(t)
	}
	return ref.Plain(t)
}

// Input generates whole tokens, and the pieces that they arrive in.
func Input(t *rapid.T, max int) (all []byte, pieces [][]byte) {
	for k := rapid.IntRange(1, max).Draw(t, "tokens"); k > 0; k-- {
		all = append(all, Token(t)...)
	}
	if len(all) > 1500 {
		all = []byte("long")
	}
	return all, Pieces(t, all)
}

// Pieces generates how whole tokens arrive.
func Pieces(t *rapid.T, all []byte) (pieces [][]byte) {
	max := 200
	if rapid.Bool().Draw(t, "cut") {
		max = rapid.IntRange(1, 20).Draw(t, "longest")
	}
	from := 0
	for from < len(all) {
		n := min(from+max, len(all))
		if max < 200 {
			n = rapid.IntRange(from+1, n).Draw(t, "to")
		}
		for n < len(all) && !cuttable(all[:n]) {
			n++
		}
		pieces = append(pieces, all[from:n])
		from = n
	}
	return pieces
}

// cuttable says whether what comes after p can come later: an escape byte is
// not waited with, unless what follows it makes it an introducer.
func cuttable(p []byte) bool {
	_, left := ref.Tokenize(p)
	p = p[len(p)-left:]
	return left == 0 || p[0] != 0x1B || left > 1 && strings.IndexByte("[P]^_", p[1]) >= 0
}

// Draws generates what to draw on a w x h screen.
func Draws(t *rapid.T, w, h int) (p Pic) {
	for k := rapid.IntRange(0, 8).Draw(t, "ops"); k > 0; k-- {
		p.Bytes = append(p.Bytes, ops.Gen(w, h).Draw(t, "op").Enc...)
	}
	if rapid.Bool().Draw(t, "cursor") {
		p.UC.Point = scr.Point(t, w, h)
		p.UC.Visible = true
		p.UC.Attr = gen.SGR(gen.Attr().Draw(t, "cursorAttr"))
	}
	return p
}

// New opens a platform on a terminal of the given size.
func New(w, h int, shared bool, opts ...platform.Option) (*Sess, error) {
	return open(w, h, shared, false, opts...)
}

// NewPiped is like New, but input comes from a pipe.
func NewPiped(w, h int, opts ...platform.Option) (*Sess, error) {
	return open(w, h, false, true, opts...)
}

func open(w, h int, shared, piped bool, opts ...platform.Option) (*Sess, error) {
	pair, err := pty.Open()
	if err != nil {
		panic(err)
	}
	s := &Sess{Pair: pair, Term: vt.New(w, h)}
	pair.SetSize(w, h)
	pollable := (w+h)%2 == 1
	switch {
	case piped:
		if s.in, s.Pipe, err = os.Pipe(); err != nil {
			panic("HX-INFRA pipe: " + err.Error())
		}
		s.in.Fd() // makes it blocking
		s.out = pair.Any(pollable, os.O_WRONLY)
	case shared:
		s.in = pair.Any(pollable, os.O_RDWR)
		s.out = s.in
	default:
		s.in, s.out = pair.Any(pollable, os.O_RDONLY), pair.Any(pollable, os.O_WRONLY)
	}
	s.attr = pair.Attr()
	s.inFlags, s.outFlags = pty.Flags(s.in), pty.Flags(s.out)
	s.P, err = platform.New(s.in, s.out, append([]platform.Option{platform.Config{}, platform.FrameRate(1000)}, opts...)...)
	if err != nil {
		s.in.Close()
		s.out.Close()
		pair.Close()
		return nil, err
	}
	s.readerEnd = make(chan struct{})
	go s.reader()
	return s, nil
}

func (s *Sess) reader() {
	defer close(s.readerEnd)
	var buf [4096]byte
	for {
		n, err := syscall.Read(s.Pair.Master, buf[:])
		if err == syscall.EINTR {
			continue
		}
		if n <= 0 || err != nil {
			return
		}
		s.mu.Lock()
		s.raw = append(s.raw, buf[:n]...)
		s.mu.Unlock()
		s.Gate.Lock()
		s.Gate.Unlock()
	}
}

// Close ends it all; the platform must have ended.
func (s *Sess) Close() {
	done := make(chan struct{})
	go func() {
		defer close(done)
		s.in.Close()
		s.out.Close()
		if s.Pipe != nil {
			s.Pipe.Close()
		}
		syscall.Close(s.Pair.Slave)
		<-s.readerEnd
		syscall.Close(s.Pair.Master)
	}()
	select {
	case <-done:
	case <-time.After(hx.Patience()): // after a failure: something still uses it
	}
}

// Start calls RunWith, in which Run is called with each client given.
func (s *Sess) Start(c *Client) {
	s.runs, s.rets, s.done = make(chan *Client, 1), make(chan error, 1), make(chan error, 1)
	s.boom = nil
	s.Next(c)
	go func() {
		var err error
		defer func() {
			if e := recover(); e != nil {
				if e != boomText {
					e = fmt.Sprintf("%v\n%s", e, debug.Stack())
				}
				s.boom = e
			}
			s.done <- err
		}()
		err = s.P.RunWith(func(p *platform.Platform) (err error) {
			for c := range s.runs {
				err = p.Run(c)
				s.rets <- err
			}
			return err
		})
	}()
}

// Next gives the next client.
func (s *Sess) Next(c *Client) {
	s.nid++
	c.id, c.s = s.nid, s
	s.mu.Lock()
	s.clErr, s.clBoom = nil, false
	s.mu.Unlock()
	s.runs <- c
}

// Ret waits for Run to return.
func (s *Sess) Ret(t *rapid.T) error {
	select {
	case err := <-s.rets:
		return err
	case err := <-s.done:
		t.Fatalf("platform ended instead: %v, panic %v", err, s.boom)
	case <-time.After(hx.Patience()):
		t.Fatalf("Run did not return")
	}
	return nil
}

// Running fails if Run returned.
func (s *Sess) Running(t *rapid.T) {
	select {
	case err := <-s.rets:
		t.Fatalf("Run returned: %v", err)
	case err := <-s.done:
		t.Fatalf("platform ended: %v, panic %v", err, s.boom)
	default:
	}
}

// Done tells the error of RunWith once Run ended by itself.
func (s *Sess) Done() (err error, ended bool) {
	close(s.runs)
	select {
	case err := <-s.done:
		if s.boom != nil {
			err = fmt.Errorf("panic: %v", s.boom)
		}
		return err, true
	case <-time.After(3 * hx.Patience()):
		return nil, false
	}
}

// End waits for RunWith to end after the last run.
func (s *Sess) End(t *rapid.T) (error, interface{}) {
	close(s.runs)
	select {
	case err := <-s.done:
		if s.boom != nil && s.boom != boomText {
			t.Fatalf("panic: %v", s.boom)
		}
		return err, s.boom
	case <-time.After(hx.Patience()):
		t.Fatalf("RunWith did not return")
	}
	return nil, nil
}

// Kill ends whatever still runs, after a failure.
func (s *Sess) Kill() {
	if s.done == nil {
		return
	}
	defer func() { _ = recover() }()
	// a client may be held in its hook
	for end := time.Now().Add(time.Second); !s.mu.TryLock(); time.Sleep(time.Millisecond) {
		if time.Now().After(end) {
			close(s.runs)
			return
		}
	}
	s.clErr = fmt.Errorf("killed")
	s.mu.Unlock()
	close(s.runs)
	select {
	case <-s.done:
	case <-time.After(time.Second):
	}
}

// Fail makes the client fail, with a panic if the error is nil.
func (s *Sess) Fail(err error) {
	s.mu.Lock()
	s.clErr, s.clBoom = err, err == nil
	s.mu.Unlock()
}

// SetHook sets what the client calls in each frame.
func (s *Sess) SetHook(f func(*platform.Context) error) {
	s.mu.Lock()
	s.Hook = f
	s.mu.Unlock()
}

// Draw changes what the client draws.
func (s *Sess) Draw(p Pic) {
	s.mu.Lock()
	s.pic = p
	s.mu.Unlock()
}

// Frames returns all frames so far.
func (s *Sess) Frames() []Frame {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.frames[:len(s.frames):len(s.frames)]
}

// Wait waits for a condition on the frames.
func (s *Sess) Wait(t *rapid.T, what string, cond func(fs []Frame) bool) {
	if !hx.Eventually(func() bool {
		s.Running(t)
		return cond(s.Frames())
	}) {
		t.Fatalf("never came: %s", what)
	}
}

// Step waits for whole frames to go by.
func (s *Sess) Step(t *rapid.T, n int) {
	from := len(s.Frames())
	s.Wait(t, "another frame", func(fs []Frame) bool { return len(fs) >= from+n+1 })
}

// Feed hands over what the terminal got.
func (s *Sess) Feed() {
	s.mu.Lock()
	p := s.raw
	s.raw = nil
	s.mu.Unlock()
	s.Term.Write(p)
}

// Settle waits until the terminal shows what the client last drew.
func (s *Sess) Settle(t *rapid.T) {
	s.Step(t, 2)
	var err error
	if !hx.Eventually(func() bool {
		s.Running(t)
		s.Feed()
		s.mu.Lock()
		defer s.mu.Unlock()
		if size := s.grid.Rect.Size(); size != image.Pt(s.Term.W, s.Term.H) {
			err = fmt.Errorf("screen is %v, the terminal %dx%d", size, s.Term.W, s.Term.H)
			return false
		}
		term := *s.Term
		if s.Own != nil {
			term.Cells = append([]vt.Cell(nil), term.Cells...)
			for i, c := range scr.Want(s.grid) {
				if s.Own(i%term.W+1, i/term.W+1) {
					term.Cells[i] = c
				}
			}
		}
		err = scr.Diff(&term, s.grid, s.uc)
		return err == nil
	}) {
		t.Fatalf("terminal never showed what was drawn: %v", err)
	}
}

// Quiet waits for anything on its way to the terminal.
func (s *Sess) Quiet(t *rapid.T, what string, cond func() error) {
	var err error
	if !hx.Eventually(func() bool {
		s.Feed()
		err = cond()
		return err == nil
	}) {
		t.Fatalf("%s: %v", what, err)
	}
}

// Restored checks that the terminal is as it was.
func (s *Sess) Restored(t *rapid.T) {
	if a := s.Pair.Attr(); a != s.attr {
		t.Fatalf("terminal attributes left %+v, were %+v", a, s.attr)
	}
	if f := pty.Flags(s.in); f != s.inFlags {
		t.Fatalf("input flags left %#x, were %#x", f, s.inFlags)
	}
	if f := pty.Flags(s.out); f != s.outFlags {
		t.Fatalf("output flags left %#x, were %#x", f, s.outFlags)
	}
	s.Quiet(t, "terminal left as it should not be", func() error {
		for m, on := range s.Term.Modes {
			if on && m != "?25" {
				return fmt.Errorf("mode %s is set", m)
			}
		}
		if !s.Term.Visible {
			return fmt.Errorf("cursor is hidden")
		}
		if s.Term.A != (vt.Attr{}) {
			return fmt.Errorf("rendition %v", s.Term.A)
		}
		if !s.Term.Idle() {
			return fmt.Errorf("within a sequence")
		}
		return nil
	})
}

// Entered waits until the terminal is set up.
func (s *Sess) Entered(t *rapid.T) {
	s.Step(t, 1)
	s.Quiet(t, "terminal not set up", func() error {
		s.Running(t)
		for _, m := range []string{"?1049", "?1002", "?1003", "?1006"} {
			if !s.Term.Modes[m] {
				return fmt.Errorf("mode %s is not set", m)
			}
		}
		return nil
	})
	if a := s.Pair.Attr(); a.Lflag&(syscall.ICANON|syscall.ECHO|syscall.ISIG) != 0 {
		t.Fatalf("terminal is not raw: %#x", a.Lflag)
	}
	s.Term.Trace = nil
}

// SetSize changes the size of the terminal.
func (s *Sess) SetSize(w, h int) {
	s.Feed()
	s.Term.Resize(w, h)
	s.Pair.SetSize(w, h)
}

// ID is the number of the client given last.
func (s *Sess) ID() int { return s.nid }

// Rets is where Run's results go.
func (s *Sess) Rets() <-chan error { return s.rets }

// SetMark changes the client's state.
func (c *Client) SetMark(n int) {
	c.s.mu.Lock()
	c.Mark = n
	c.s.mu.Unlock()
}

// Scribble puts foreign content on the terminal.
func Scribble(t *rapid.T, s *Sess) {
	s.Feed()
	for i := range s.Term.Cells {
		s.Term.Cells[i].R = '%'
	}
	if rapid.Bool().Draw(t, "moved") {
		s.Term.X, s.Term.Y = rapid.IntRange(1, s.Term.W).Draw(t, "tx"), rapid.IntRange(1, s.Term.H).Draw(t, "ty")
	}
}
