package c19

import (
	"fmt"
	"os"
	"strings"
	"syscall"
	"testing"

	"github.com/jcorbin/anansi"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/pty"
)

func TestMain(m *testing.M) { hx.Main(m) }

// script decides which calls of which contexts fail.
type script struct {
	seed uint64
	rate uint64 // 1 in rate fails; 0 for never
}

func (s script) fails(id int, what string, n int) error {
	if s.rate == 0 {
		return nil
	}
	h := s.seed + uint64(id)*0x9e3779b97f4a7c15 + uint64(what[0])*0xbf58476d1ce4e5b9 + uint64(n)*0x94d049bb133111eb
	h ^= h >> 31
	h *= 0xd6e8feb86659fd93
	h ^= h >> 32
	if h%s.rate != 0 {
		return nil
	}
	return fail(fmt.Sprintf("%s%d failed at %d", what, id, n))
}

type fail string

func (f fail) Error() string { return string(f) }

// counter keeps the trace of one run: the real or the model's.
type counter struct {
	s     script
	calls map[string]int
	trace []string
}

func (k *counter) call(id int, what string) error {
	key := fmt.Sprintf("%s%d", what, id)
	k.calls[key]++
	k.trace = append(k.trace, key)
	return k.s.fails(id, what, k.calls[key])
}

// ctx is a recording context; ctxCloser one that also closes.
type ctx struct {
	id int
	k  **counter
}

func (c *ctx) Enter(term *anansi.Term) error { return (*c.k).call(c.id, "E") }
func (c *ctx) Exit(term *anansi.Term) error  { return (*c.k).call(c.id, "X") }

type ctxCloser struct{ ctx }

func (c *ctxCloser) Close() error { return (*c.k).call(c.id, "C") }

// leaf is a context of the model.
type leaf struct {
	id     int
	closer bool
}

// op is a step of a function run by the terminal.
type op struct {
	kind    int // 0 RunWith, 1 RunWithout, 2 return an error, 3 panic, 4 AddContext
	body    []op
	keep    bool // go on after an error
	recover bool // go on after a panic
	id      int
}

func (o op) String() string {
	s := ""
	switch o.kind {
	case 0:
		s = fmt.Sprintf("with%v", o.body)
	case 1:
		s = fmt.Sprintf("without%v", o.body)
	case 2:
		s = "error"
	case 3:
		s = "panic"
	case 4:
		s = "add"
	}
	if o.keep {
		s += "+"
	}
	if o.recover {
		s += "!"
	}
	return s
}

func genOps(t *rapid.T, depth int, next *int) (ops []op) {
	for n := rapid.IntRange(0, 3).Draw(t, "ops"); n > 0; n-- {
		*next++
		o := op{id: *next, kind: rapid.SampledFrom([]int{0, 0, 0, 1, 1, 1, 1, 2, 3, 4}).Draw(t, "op")}
		o.keep = rapid.Bool().Draw(t, "keep")
		o.recover = rapid.Bool().Draw(t, "recover")
		if o.kind < 2 && depth > 0 {
			o.body = genOps(t, depth-1, next)
		}
		ops = append(ops, o)
	}
	return ops
}

// real runs ops on the terminal.
func real(term *anansi.Term, kp **counter, ops []op) error {
	k := *kp
	for _, o := range ops {
		o := o
		err := func() (err error) {
			if o.recover {
				defer func() {
					if e := recover(); e != nil {
						k.trace = append(k.trace, fmt.Sprint("recovered ", e))
					}
				}()
			}
			body := func(tt *anansi.Term) error {
				k.trace = append(k.trace, fmt.Sprintf("B%d", o.id))
				if tt != term {
					k.trace = append(k.trace, "wrong terminal")
				}
				return real(term, kp, o.body)
			}
			switch o.kind {
			case 0:
				return term.RunWith(body)
			case 1:
				return term.RunWithout(body)
			case 2:
				return fail(fmt.Sprintf("op %d", o.id))
			case 3:
				panic(fmt.Sprintf("op %d", o.id))
			}
			func() {
				defer func() { k.trace = append(k.trace, fmt.Sprint("add panics ", recover() != nil)) }()
				term.AddContext(&ctx{99, kp})
			}()
			return nil
		}()
		if o.kind < 2 {
			k.trace = append(k.trace, fmt.Sprintf("R%d %v", o.id, err))
		}
		if err != nil && !o.keep {
			return err
		}
	}
	return nil
}

// model is the documented behavior.
type model struct {
	k             *counter
	cs            []leaf
	under, active bool
	reentered     bool
}

func first(a, b error) error {
	if a != nil {
		return a
	}
	return b
}

func (m *model) enter() error {
	for _, c := range m.cs {
		if err := m.k.call(c.id, "E"); err != nil {
			return err
		}
	}
	return nil
}

func (m *model) exit() (err error) {
	for i := len(m.cs) - 1; i >= 0; i-- {
		err = first(err, m.k.call(m.cs[i].id, "X"))
	}
	return err
}

func (m *model) close() (err error) {
	for i := len(m.cs) - 1; i >= 0; i-- {
		if m.cs[i].closer {
			err = first(err, m.k.call(m.cs[i].id, "C"))
		}
	}
	return err
}

func (m *model) with(body func() error) (err error) {
	if m.active {
		return body()
	}
	outer := !m.under
	m.active, m.under = true, true
	var p interface{}
	if err = m.enter(); err == nil {
		func() {
			defer func() { p = recover() }()
			err = body()
		}()
	}
	err = first(err, m.exit())
	if outer {
		err = first(err, m.close())
		m.under = false
	}
	m.active = false
	if p != nil {
		panic(p)
	}
	return err
}

func (m *model) without(body func() error) error {
	if !m.active {
		return body()
	}
	if err := m.exit(); err != nil {
		return err
	}
	m.active = false
	if err := body(); err != nil {
		return err
	}
	if err := m.enter(); err != nil {
		return err
	}
	m.active, m.reentered = true, true
	return nil
}

func (m *model) run(ops []op) error {
	k := m.k
	for _, o := range ops {
		o := o
		err := func() (err error) {
			if o.recover {
				defer func() {
					if e := recover(); e != nil {
						k.trace = append(k.trace, fmt.Sprint("recovered ", e))
					}
				}()
			}
			body := func() error {
				k.trace = append(k.trace, fmt.Sprintf("B%d", o.id))
				return m.run(o.body)
			}
			switch o.kind {
			case 0:
				return m.with(body)
			case 1:
				return m.without(body)
			case 2:
				return fail(fmt.Sprintf("op %d", o.id))
			case 3:
				panic(fmt.Sprintf("op %d", o.id))
			}
			k.trace = append(k.trace, fmt.Sprint("add panics ", m.under))
			if !m.under {
				m.cs = append(m.cs, leaf{id: 99})
			}
			return nil
		}()
		if o.kind < 2 {
			k.trace = append(k.trace, fmt.Sprintf("R%d %v", o.id, err))
		}
		if err != nil && !o.keep {
			return err
		}
	}
	return nil
}

// pool makes recording contexts and combinations of them (some shared).
type combo struct {
	c  anansi.Context
	cs []leaf
}

func genCombos(t *rapid.T, k **counter) []combo {
	var pool []combo
	for i := rapid.IntRange(0, 4).Draw(t, "contexts"); i > 0; i-- {
		id := len(pool) + 1
		if rapid.Bool().Draw(t, "closer") {
			pool = append(pool, combo{&ctxCloser{ctx{id, k}}, []leaf{{id, true}}})
		} else {
			pool = append(pool, combo{&ctx{id, k}, []leaf{{id, false}}})
		}
	}
	pool = append(pool, combo{})
	for i := rapid.IntRange(0, 5).Draw(t, "combos"); i > 0; i-- {
		var in []anansi.Context
		var cs []leaf
		for j := rapid.IntRange(0, 4).Draw(t, "parts"); j > 0; j-- {
			p := pool[rapid.IntRange(0, len(pool)-1).Draw(t, "part")]
			if len(cs)+len(p.cs) > 12 {
				break
			}
			in = append(in, p.c)
			cs = append(cs, p.cs...)
		}
		pool = append(pool, combo{anansi.Contexts(in...), cs})
	}
	return pool
}

const runRule = "random nestings of RunWith and RunWithout with errors, panics, failing contexts and context combinations, also run twice; non-trivial = the context was left and entered again within, or something failed"

// TestRun: contexts are entered, exited and closed as documented, whatever
// fails.
func TestRun(t *testing.T) {
	hx.Check(t, 40000, runRule, func(t *rapid.T, c *hx.Case) {
		var k *counter
		pool := genCombos(t, &k)
		s := script{seed: rapid.Uint64().Draw(t, "fail"), rate: rapid.SampledFrom([]uint64{0, 0, 5, 20}).Draw(t, "rate")}
		k = &counter{s: s, calls: map[string]int{}}
		m := &model{k: &counter{s: s, calls: map[string]int{}}}
		var in []anansi.Context
		for j := rapid.IntRange(0, 3).Draw(t, "given"); j > 0; j-- {
			p := pool[rapid.IntRange(0, len(pool)-1).Draw(t, "given")]
			in = append(in, p.c)
			m.cs = append(m.cs, p.cs...)
		}
		term := anansi.NewTerm(nil, nil, in...)
		if rapid.Bool().Draw(t, "literal") {
			term = &anansi.Term{}
			m.cs = nil
		}
		for n := rapid.IntRange(1, 2).Draw(t, "runs"); n > 0; n-- {
			for j := rapid.IntRange(0, 2).Draw(t, "added"); j > 0; j-- {
				p := pool[rapid.IntRange(0, len(pool)-1).Draw(t, "add")]
				if len(m.cs)+len(p.cs) < 20 {
					term.AddContext(p.c)
					m.cs = append(m.cs, p.cs...)
				}
			}
			next := 0
			ops := genOps(t, 3, &next)
			for i := range ops {
				ops[i].recover = true
			}
			c.Logf("%d contexts: %v", len(m.cs), ops)
			rerr := real(term, &k, ops)
			merr := m.run(ops)
			got, want := strings.Join(k.trace, ", "), strings.Join(m.k.trace, ", ")
			c.Logf("%s", got)
			if got != want {
				t.Fatalf("run was\n%s\nshould be\n%s", got, want)
			}
			if rerr != merr {
				t.Fatalf("run returned %v, should %v", rerr, merr)
			}
			c.NT(m.reentered && len(m.cs) > 1 || s.rate > 0 && strings.Contains(got, "failed"))
			c.LabelIf(m.reentered, "re-entered")
			c.LabelIf(strings.Contains(got, "recovered"), "panic")
			c.LabelIf(strings.Contains(got, "failed"), "context failed")
		}
	})
}

const comboRule = "random trees of combined contexts (nil ones and shared parts included), each called after all are built; non-trivial = a combination of three or more contexts"

// TestContexts: a combination calls its contexts in order, exits them all in
// reverse, and is not affected by further combinations.
func TestContexts(t *testing.T) {
	hx.Check(t, 40000, comboRule, func(t *rapid.T, c *hx.Case) {
		var k *counter
		pool := genCombos(t, &k)
		s := script{seed: rapid.Uint64().Draw(t, "fail"), rate: rapid.SampledFrom([]uint64{0, 3, 8}).Draw(t, "rate")}
		for i, p := range pool {
			c.Logf("%v", p.cs)
			if p.c == nil {
				if len(p.cs) > 0 {
					t.Fatalf("combination %d of %v is nil", i, p.cs)
				}
				continue
			}
			c.NT(len(p.cs) > 2)
			k = &counter{s: s, calls: map[string]int{}}
			m := &model{k: &counter{s: s, calls: map[string]int{}}, cs: p.cs}
			for what, f := range map[string]struct{ got, want func() error }{
				"Enter": {func() error { return p.c.Enter(nil) }, m.enter},
				"Exit":  {func() error { return p.c.Exit(nil) }, m.exit},
				"Close": {func() error {
					if cl, ok := p.c.(interface{ Close() error }); ok {
						return cl.Close()
					}
					return nil
				}, m.close},
			} {
				k.trace, m.k.trace = nil, nil
				got, want := f.got(), f.want()
				if got != want || strings.Join(k.trace, ",") != strings.Join(m.k.trace, ",") {
					t.Fatalf("%s of %v: %v %v, should be %v %v", what, p.cs, k.trace, got, m.k.trace, want)
				}
			}
		}
	})
}

type own struct{ enter, exit func() error }

func (o *own) Enter(*anansi.Term) error { return o.enter() }
func (o *own) Exit(*anansi.Term) error  { return o.exit() }

const defaultRule = "a terminal of its own input, attributes and modes on a pty, with a context that watches, left and entered again, and with an input or output that cannot be entered; all are non-trivial"

// TestDefault: a terminal's own contexts come first: input, output,
// attributes, then modes; added ones after them.
func TestDefault(t *testing.T) {
	hx.Check(t, 3000, defaultRule, func(t *rapid.T, c *hx.Case) {
		p, err := pty.Open()
		if err != nil {
			panic(err)
		}
		defer p.Close()
		orig := p.Attr()
		orig.Oflag |= syscall.OPOST | syscall.ONLCR
		p.SetAttr(orig)
		orig = p.Attr()
		in, out := p.File(os.O_RDONLY), p.File(os.O_WRONLY)
		defer in.Close()
		defer out.Close()
		inFlags := pty.Flags(in)
		c.NT(true)
		fault := rapid.SampledFrom([]string{"", "", "input", "output", "added"}).Draw(t, "fault")
		r, w, err := os.Pipe()
		if err != nil {
			panic("HX-INFRA " + err.Error())
		}
		defer r.Close()
		defer w.Close()
		raw := rapid.Bool().Draw(t, "raw")
		nl := "\r\n"
		if raw {
			nl = "\n"
		}
		entered := 0
		var bad string
		watch := &own{
			enter: func() error {
				entered++
				if got := string(p.Output()); got != "Set"+nl {
					bad = fmt.Sprintf("before the added context entered, %q was written", got)
				}
				if fault == "added" {
					return fail("added")
				}
				return nil
			},
			exit: func() error {
				if fault == "" || fault == "added" {
					if got := string(p.Output()); got != "" {
						bad = fmt.Sprintf("before the added context left, %q was written", got)
					}
					if raw && p.Attr().Oflag&syscall.OPOST != 0 {
						bad = "attributes were restored before the added context left"
					}
					if f := pty.Flags(in); f&(syscall.O_ASYNC|syscall.O_NONBLOCK) == 0 {
						bad = fmt.Sprintf("input flags %#x before the added context left", f)
					}
				}
				return nil
			},
		}
		tin, tout := in, out
		switch fault {
		case "input":
			tin, err = os.Open(os.DevNull)
			if err != nil {
				panic("HX-INFRA " + err.Error())
			}
			tin.Close()
		case "output":
			tout = w
		}
		var given []anansi.Context
		add := rapid.Bool().Draw(t, "add")
		if !add {
			given = append(given, watch)
		}
		term := anansi.NewTerm(tin, tout, given...)
		if add {
			term.AddContext(watch)
		}
		if err := term.Input.Notify(make(chan os.Signal, 1)); err != nil && fault != "input" {
			t.Fatalf("Notify: %v", err)
		}
		_ = term.SetRaw(raw)
		term.Mode.Set, term.Mode.Reset = []byte("Set\n"), []byte("Reset\n")
		ran := false
		leave := rapid.Bool().Draw(t, "leave")
		rerr := term.RunWith(func(term *anansi.Term) error {
			ran = true
			if fault == "" && leave {
				return term.RunWithout(func(*anansi.Term) error {
					if got := string(p.Output()); got != "Reset"+nl {
						t.Fatalf("leaving wrote %q", got)
					}
					if p.Attr() != orig {
						t.Fatalf("attributes not restored")
					}
					return nil
				})
			}
			return nil
		})
		c.Logf("fault %q raw %v: ran %v %v", fault, raw, ran, rerr)
		if bad != "" {
			t.Fatalf("%s", bad)
		}
		if (fault == "") != ran || ran == (rerr != nil) {
			t.Fatalf("ran %v: %v", ran, rerr)
		}
		if want := map[string]int{"": 1, "added": 1}[fault]; entered != want && !(leave && entered == 2*want) {
			t.Fatalf("the added context entered %d times", entered)
		}
		got := string(p.Output())
		if fault == "output" {
			w.Close()
			var b [100]byte
			n, _ := r.Read(b[:])
			got = string(b[:n])
		}
		switch fault {
		case "", "added":
			if got != "Reset"+nl {
				t.Fatalf("leaving wrote %q", got)
			}
		default:
			if strings.Contains(got, "Set") {
				t.Fatalf("modes were set though what comes before failed: %q", got)
			}
		}
		if p.Attr() != orig {
			t.Fatalf("attributes not restored")
		}
		if f := pty.Flags(in); fault != "input" && f&^syscall.O_ASYNC != inFlags&^syscall.O_ASYNC {
			t.Fatalf("input flags %#x, were %#x", f, inFlags)
		}
	})
}
