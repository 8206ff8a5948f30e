package c29

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/user"
	"path/filepath"
	"strings"
	"testing"

	"github.com/jcorbin/anansi/terminfo"
	"pgregory.net/rapid"

	"verif/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

// capIndex is where term(5) has the capabilities of capNames.
var capIndex = []int{66, 68, 69, 70, 71, 72, 73, 74, 75, 67, 216, 217, 77, 59, 76, 164, 82, 81, 87, 61, 79, 83,
	28, 40, 16, 13, 5, 39, 36, 27, 26, 34, 89, 88}

const nkeys = 22

const (
	mouseOn  = "\x1b[?1000h\x1b[?1002h\x1b[?1015h\x1b[?1006h"
	mouseOff = "\x1b[?1006l\x1b[?1015l\x1b[?1002l\x1b[?1000l"
)

// caps are the capabilities of an entry in the order of capNames.
func caps(ti *terminfo.Terminfo) (r []string) {
	r = append(r, ti.Keys[1:]...)
	return append(r, ti.Funcs[1:1+len(capNames)-nkeys]...)
}

// entry is a compiled entry.
type entry struct {
	names   string
	strs    []string // by index
	b       []byte
	strOff  int
	tabOff  int
	tabSize int
}

func (e *entry) name() string { return strings.SplitN(e.names, "|", 2)[0] }

func (e *entry) want() (r []string) {
	for _, i := range capIndex {
		s := ""
		if i < len(e.strs) {
			s = e.strs[i]
		}
		r = append(r, s)
	}
	return r
}

// Entry generates a compiled entry by the rules of term(5).
func Entry(t *rapid.T, name string) *entry {
	e := &entry{}
	e.names = name
	for n := rapid.IntRange(0, 3).Draw(t, "aliases"); n > 0; n-- {
		e.names += "|" + rapid.StringMatching(`[a-z0-9 +.-]{1,12}`).Draw(t, "alias")
	}
	nbool := rapid.IntRange(0, 44).Draw(t, "bools")
	nnum := rapid.IntRange(0, 39).Draw(t, "nums")
	nstr := rapid.SampledFrom([]int{0, 1, 6, 28, 40, 60, 67, 77, 90, 165, 216, 217, 218, 300, 414}).Draw(t, "strs")
	if rapid.Bool().Draw(t, "oddStrs") {
		nstr = rapid.IntRange(0, 420).Draw(t, "nstrs")
	}
	big := rapid.IntRange(0, 9).Draw(t, "big") == 0
	var index []int16
	var table []byte
	if big { // sections of which only the types of their sizes are a bound
		nnum = rapid.IntRange(39, 16000).Draw(t, "bigNums")
		nstr = rapid.IntRange(nstr, 16000).Draw(t, "bigStrs")
		table = bytes.Repeat([]byte("x\x00"), rapid.IntRange(0, 16000).Draw(t, "bigTable"))
	}
	byIndex := map[int]bool{}
	for _, i := range capIndex {
		byIndex[i] = true
	}
	var offs []int
	e.strs = make([]string, nstr)
	index = make([]int16, nstr)
	for i := range index {
		index[i] = -1
		if !byIndex[i] && (i > 420 || rapid.IntRange(0, 9).Draw(t, "other") > 0) {
			continue
		}
		switch rapid.IntRange(0, 9).Draw(t, "kind") {
		case 0, 1:
		case 2:
			index[i] = -2
		case 3: // shares what is there
			if len(table) > 0 {
				at := rapid.IntRange(0, len(table)-1).Draw(t, "at")
				if len(offs) > 0 && rapid.Bool().Draw(t, "same") {
					at = offs[rapid.IntRange(0, len(offs)-1).Draw(t, "of")]
				}
				index[i] = int16(at)
				end := bytes.IndexByte(table[at:], 0)
				e.strs[i] = string(table[at : at+end])
			}
		default:
			s := text(t)
			if len(table)+len(s)+1 > 32767 {
				continue
			}
			index[i] = int16(len(table))
			offs = append(offs, len(table))
			table = append(append(table, s...), 0)
			e.strs[i] = s
		}
	}
	var b bytes.Buffer
	put := func(ns ...int) {
		for _, n := range ns {
			binary.Write(&b, binary.LittleEndian, int16(n))
		}
	}
	put(0432, len(e.names)+1, nbool, nnum, nstr, len(table))
	b.WriteString(e.names)
	b.WriteByte(0)
	for i := 0; i < nbool; i++ {
		b.WriteByte(byte(rapid.IntRange(0, 1).Draw(t, "bool")))
	}
	if b.Len()%2 != 0 {
		b.WriteByte(0)
	}
	for i := 0; i < nnum; i++ {
		put(i*31 - 1)
	}
	e.strOff = b.Len()
	for _, i := range index {
		put(int(i))
	}
	e.tabOff, e.tabSize = b.Len(), len(table)
	b.Write(table)
	if rapid.Bool().Draw(t, "extended") { // extended capabilities follow
		if b.Len()%2 != 0 {
			b.WriteByte(0)
		}
		b.Write(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "ext"))
	}
	e.b = b.Bytes()
	return e
}

func text(t *rapid.T) string {
	switch rapid.IntRange(0, 4).Draw(t, "text") {
	case 0:
		return ""
	case 1:
		return "\x1b" + rapid.StringMatching(`[O\[][?0-9]{0,3}[A-Z~]`).Draw(t, "seq")
	case 2: // about the size of reads
		return rapid.StringMatching(`[a-z]{6,10}`).Draw(t, "eight")
	}
	return strings.ReplaceAll(string(rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "bytes")), "\x00", "\x80")
}

// slow reads in pieces, and may tell of the end along with the last of it.
type slow struct {
	*bytes.Reader
	n   int
	eof bool
}

func (s slow) Read(p []byte) (int, error) {
	if s.n > 0 && len(p) > s.n {
		p = p[:s.n]
	}
	n, err := s.Reader.Read(p)
	if err == nil && s.eof && s.Len() == 0 {
		err = io.EOF
	}
	return n, err
}

func reader(t *rapid.T, b []byte) io.ReadSeeker {
	s := slow{Reader: bytes.NewReader(b), eof: rapid.Bool().Draw(t, "eof")}
	if rapid.Bool().Draw(t, "pieces") {
		s.n = rapid.IntRange(1, 9).Draw(t, "piece")
	}
	return s
}

func differ(got, want []string) error {
	for i := range want {
		if got[i] != want[i] {
			return fmt.Errorf("%s is %q, should be %q", capNames[i], got[i], want[i])
		}
	}
	return nil
}

// like checks all that is told of an entry.
func like(ti *terminfo.Terminfo, e *entry) error {
	if err := differ(caps(ti), e.want()); err != nil {
		return err
	}
	if ti.Name != e.name() {
		return fmt.Errorf("name is %q, should be %q", ti.Name, e.name())
	}
	if ti.Keys[0] != "" || ti.Funcs[0] != "" {
		return fmt.Errorf("code 0 is used")
	}
	if on, off := ti.Funcs[terminfo.FuncEnterMouse], ti.Funcs[terminfo.FuncExitMouse]; on != mouseOn || off != mouseOff {
		return fmt.Errorf("mouse functions are %q and %q", on, off)
	}
	return maps(*ti)
}

var keyNames = "F1 F2 F3 F4 F5 F6 F7 F8 F9 F10 F11 F12 Insert Delete Home End PageUp PageDown Up Down Left Right"
var funcNames = "EnterCA ExitCA ShowCursor HideCursor ClearScreen SGR0 Underline Bold Blink Reverse EnterKeypad ExitKeypad EnterMouse ExitMouse"

func maps(ti terminfo.Terminfo) error {
	for i, m := range []map[string]string{ti.KeyMap(), ti.FuncMap()} {
		names, by := strings.Fields(keyNames), ti.Keys[1:]
		if i > 0 {
			names, by = strings.Fields(funcNames), ti.Funcs[1:]
		}
		for j, name := range names {
			if s, ok := m[name]; !ok || s != by[j] {
				return fmt.Errorf("map has %s as %q, should be %q", name, s, by[j])
			}
		}
		if len(m) != len(names) {
			return fmt.Errorf("map has %d of %d names", len(m), len(names))
		}
	}
	return nil
}

const readRule = "compiled terminfo entries of any section sizes, with absent, cancelled and shared strings, read in pieces; non-trivial = at least 5 strings of interest"

// TestRead: entries are read as term(5) has them.
func TestRead(t *testing.T) {
	hx.Check(t, 15000, readRule, func(t *rapid.T, c *hx.Case) {
		e := Entry(t, rapid.StringMatching(`[a-zA-Z0-9+-]{1,9}`).Draw(t, "name"))
		n := 0
		for _, s := range e.want() {
			if s != "" {
				n++
			}
		}
		c.NT(n >= 5)
		c.Logf("%d bytes, %d strings, %d of interest", len(e.b), len(e.strs), n)
		c.LabelIf(len(e.b) > 32767, "large")
		var ti terminfo.Terminfo
		var err error
		r := reader(t, e.b)
		if stacks, ok := hx.Within(func() { err = ti.ReadFrom(r) }); !ok {
			t.Fatalf("%d bytes: reading goes on\n%s", len(e.b), stacks)
		}
		if err == nil {
			err = like(&ti, e)
		}
		if err != nil {
			t.Fatalf("%d bytes % x: %v", len(e.b), e.b[:min(400, len(e.b))], err)
		}
	})
}

const brokenRule = "compiled terminfo entries cut off, or with bytes or section sizes changed; non-trivial = reading fails"

// TestBroken: what is no entry fails to read, or is read as far as it goes.
func TestBroken(t *testing.T) {
	hx.Check(t, 15000, brokenRule, func(t *rapid.T, c *hx.Case) {
		e := Entry(t, "x")
		b := append([]byte(nil), e.b...)
		if rapid.IntRange(0, 19).Draw(t, "bare") == 0 {
			// nothing but a name, or a part of it
			b = append(make([]byte, 12), e.b[12:]...)
			binary.LittleEndian.PutUint16(b, 0432)
			copy(b[2:4], e.b[2:4])
			b = b[:min(len(b), 12+int(binary.LittleEndian.Uint16(b[2:])))]
		}
		for n := rapid.IntRange(1, 3).Draw(t, "changes"); n > 0; n-- {
			v := rapid.SampledFrom([]int{-1, 1, 0, 0x7fff, -0x8000, -2, 0x7ffe, 100}).Draw(t, "value")
			at := 0
			switch rapid.IntRange(0, 3).Draw(t, "change") {
			case 0:
				b = b[:rapid.IntRange(0, len(b)).Draw(t, "cut")]
				continue
			case 1:
				at = 2 * rapid.IntRange(0, 5).Draw(t, "field")
			case 2:
				at = e.strOff + 2*rapid.SampledFrom(capIndex).Draw(t, "string")
				if rapid.Bool().Draw(t, "nearEnd") {
					v = e.tabSize - rapid.IntRange(-3, 3).Draw(t, "near")
				}
			case 3:
				at = rapid.IntRange(0, len(e.b)).Draw(t, "at")
			}
			if at+2 <= len(b) {
				binary.LittleEndian.PutUint16(b[at:], uint16(v))
			}
		}
		var ti terminfo.Terminfo
		var err error
		r := reader(t, b)
		if stacks, ok := hx.Within(func() { err = ti.ReadFrom(r) }); !ok {
			t.Fatalf("%d bytes: reading goes on\n%s", len(e.b), stacks)
		}
		c.NT(err != nil)
		c.Logf("%d bytes, error %v", len(b), err)
		want, ok := lenient(b)
		if err != nil {
			if ok {
				t.Fatalf("%d bytes % x: %v, but it is all there", len(b), b[:min(400, len(b))], err)
			}
			return
		}
		if want == nil {
			t.Fatalf("%d bytes % x: read without an error", len(b), b[:min(400, len(b))])
		}
		names := b[12:min(len(b), 12+int(binary.LittleEndian.Uint16(b[2:])))]
		if len(names) < int(binary.LittleEndian.Uint16(b[2:])) {
			t.Fatalf("% x: read without an error, though the names are cut off", b)
		}
		if i := bytes.IndexAny(names, "|\x00"); i >= 0 {
			names = names[:i]
		}
		if ti.Name != string(names) {
			t.Fatalf("%d bytes % x: name is %q, should be %q", len(b), b[:min(400, len(b))], ti.Name, names)
		}
		for i, s := range caps(&ti) {
			if s != want[i] && s != "" {
				t.Fatalf("%d bytes % x: %s is %q, should be %q", len(b), b[:min(400, len(b))], capNames[i], s, want[i])
			}
			if ok && s != want[i] {
				t.Fatalf("%d bytes % x: %s is missing, should be %q", len(b), b[:min(400, len(b))], capNames[i], want[i])
			}
		}
	})
}

// lenient reads whatever strings are fully there; ok if nothing is amiss.
func lenient(b []byte) (r []string, ok bool) {
	if len(b) < 12 {
		return nil, false
	}
	h := make([]int, 6)
	for i := range h {
		h[i] = int(int16(binary.LittleEndian.Uint16(b[2*i:])))
		if h[i] < 0 {
			return nil, false
		}
	}
	if h[0] != 0432 {
		return nil, false
	}
	off := 12 + h[1] + h[2]
	off += off%2 + 2*h[3]
	tab := off + 2*h[4]
	ok = tab+h[5] <= len(b)
	for _, i := range capIndex {
		s := ""
		if i < h[4] {
			if at := off + 2*i; at+2 > len(b) {
				ok = false
			} else if x := int(int16(binary.LittleEndian.Uint16(b[at:]))); x >= 0 {
				end := tab + h[5]
				if end > len(b) {
					end = len(b)
				}
				if x >= h[5] || tab+x >= end {
					ok = false
				} else if n := bytes.IndexByte(b[tab+x:end], 0); n < 0 {
					ok = false
				} else {
					s = string(b[tab+x : tab+x+n])
				}
			}
		}
		r = append(r, s)
	}
	return r, ok
}

var serial int

const loadRule = "terminal names with entries, sound, broken or none, in directories that TERMINFO and TERMINFO_DIRS name; non-trivial = at least two candidate files"

// TestLoad: the first sound entry of the search path is loaded, or else a
// builtin, and is cached.
func TestLoad(t *testing.T) {
	u, err := user.Current()
	if err != nil {
		panic("HX-INFRA " + err.Error())
	}
	hx.Check(t, 5000, loadRule, func(t *rapid.T, c *hx.Case) {
		root, err := os.MkdirTemp("", "c29")
		if err != nil {
			panic("HX-INFRA " + err.Error())
		}
		defer os.RemoveAll(root)
		const std = "/usr/share/terminfo"
		var dirs, path []string
		for i := rapid.IntRange(0, 4).Draw(t, "dirs"); i > 0; i-- {
			d := filepath.Join(root, fmt.Sprint("d", i))
			if rapid.IntRange(0, 4).Draw(t, "emptyDir") == 0 {
				d = ""
			} else if len(dirs) > 0 && rapid.IntRange(0, 6).Draw(t, "again") == 0 {
				d = dirs[0]
			}
			dirs = append(dirs, d)
		}
		os.Unsetenv("TERMINFO")
		os.Unsetenv("TERMINFO_DIRS")
		if rapid.IntRange(0, 3).Draw(t, "TERMINFO") == 0 {
			d := filepath.Join(root, "own")
			os.Setenv("TERMINFO", d)
			path = []string{d}
			if len(dirs) > 0 {
				os.Setenv("TERMINFO_DIRS", strings.Join(dirs, ":"))
			}
		} else {
			path = []string{filepath.Join(u.HomeDir, ".terminfo")}
			listed := false
			if s := strings.Join(dirs, ":"); s != "" {
				os.Setenv("TERMINFO_DIRS", s)
				for _, d := range dirs {
					if d == "" {
						d, listed = std, true
					}
					path = append(path, d)
				}
			} else if rapid.Bool().Draw(t, "set") {
				os.Setenv("TERMINFO_DIRS", "")
			}
			if !listed {
				path = append(path, std)
			}
		}
		if got := terminfo.SearchPath(); fmt.Sprint(uniq(got)) != fmt.Sprint(uniq(path)) {
			t.Fatalf("TERMINFO=%q TERMINFO_DIRS=%q: searches %q, should be %q", os.Getenv("TERMINFO"), os.Getenv("TERMINFO_DIRS"), got, path)
		}

		serial++
		name := fmt.Sprintf("%s%dz", rapid.SampledFrom([]string{"q", "Z", "xterm-", "my-screen", "rxvt-", "linux", "Eterm.", "7"}).Draw(t, "family"), serial)
		if rapid.IntRange(0, 9).Draw(t, "wide") == 0 {
			name = "é" + name
		}
		builtin, berr := terminfo.GetBuiltin(name)

		var first *entry // that must be loaded
		sound := []*entry{}
		broken, n := false, 0
		been := map[string]bool{}
		for _, d := range path {
			if !strings.HasPrefix(d, root) || been[d] {
				continue
			}
			been[d] = true
			for _, sub := range []string{name[:1], hex.EncodeToString([]byte(name[:1]))} {
				kind := rapid.IntRange(0, 5).Draw(t, "file")
				fn := filepath.Join(d, sub, name)
				if kind > 2 {
					continue
				}
				if err := os.MkdirAll(filepath.Join(d, sub), 0777); err != nil {
					panic("HX-INFRA " + err.Error())
				}
				n++
				e := Entry(t, name)
				switch kind {
				case 0, 1:
					if err := os.WriteFile(fn, e.b, 0666); err != nil {
						panic("HX-INFRA " + err.Error())
					}
					if sound = append(sound, e); first == nil && !broken {
						first = e
					}
				case 2:
					broken = true
					if rapid.IntRange(0, 3).Draw(t, "dir") == 0 {
						err = os.Mkdir(fn, 0777)
					} else {
						b := e.b[:rapid.IntRange(0, 12).Draw(t, "cut")]
						if len(b) == 12 {
							b[1] ^= 2 // of another format
						}
						err = os.WriteFile(fn, b, 0666)
					}
					if err != nil {
						panic("HX-INFRA " + err.Error())
					}
				}
			}
		}
		c.NT(n > 1)
		c.LabelIf(broken, "broken")
		c.LabelIf(len(sound) > 0 && berr == nil, "sound and builtin")
		c.Logf("%q in %q: %d sound of %d files", name, path, len(sound), n)
		ti, err := terminfo.Load(name)
		switch {
		case err != nil:
			if berr == nil || len(sound) > 0 {
				t.Fatalf("%q in %q: %v; there are %d sound entries, and builtin: %v", name, path, err, len(sound), berr)
			}
			return
		case ti == nil:
			t.Fatalf("%q: neither loaded nor an error", name)
		case first != nil:
			if err := like(ti, first); err != nil {
				t.Fatalf("%q in %q: %v", name, path, err)
			}
		case ti == builtin: // pointers
			if !broken {
				break
			}
			c.Label("builtin after a broken one")
		default:
			ok := false
			for _, e := range sound {
				ok = ok || broken && like(ti, e) == nil
			}
			if !ok {
				t.Fatalf("%q in %q: loaded %+v", name, path, ti)
			}
		}
		// it stays
		os.RemoveAll(root)
		again, err := terminfo.Load(name)
		if err != nil || again != ti {
			t.Fatalf("%q: loading it again: %v, another %v", name, err, again != ti)
		}
	})
}

// differ between versions of ncurses
var versions = map[string]string{
	"xterm smcup":        "\x1b[?1049h",
	"xterm rmcup":        "\x1b[?1049l",
	"linux sgr0":         "\x1b[0;10m",
	"rxvt-unicode cnorm": "\x1b[?25h",
}

const builtinRule = "names of builtin terminals, with prefixes and suffixes, without any database; non-trivial = not the exact name"

// TestBuiltin: builtins are as ncurses has them, and found by parts of a name.
func TestBuiltin(t *testing.T) {
	root, err := os.MkdirTemp("", "c29")
	if err != nil {
		panic("HX-INFRA " + err.Error())
	}
	defer os.RemoveAll(root)
	os.Setenv("TERMINFO", root)
	check := func(name string, ti *terminfo.Terminfo) error {
		if ti.Name != name {
			return fmt.Errorf("name is %q", ti.Name)
		}
		want := append([]string(nil), ncurses[name]...)
		got := caps(ti)
		for i := range want {
			if s, ok := versions[name+" "+capNames[i]]; ok && got[i] == s {
				want[i] = s
			}
		}
		if err := differ(got, want); err != nil {
			return err
		}
		on, off := ti.Funcs[terminfo.FuncEnterMouse], ti.Funcs[terminfo.FuncExitMouse]
		if (on != mouseOn || off != mouseOff) && on+off != "" {
			return fmt.Errorf("mouse functions are %q and %q", on, off)
		}
		return maps(*ti)
	}
	names := []string{"xterm", "linux", "screen", "rxvt-unicode", "rxvt-256color", "Eterm"}
	parts := map[string]string{"xterm": "xterm", "linux": "linux", "screen": "screen", "rxvt": "rxvt-unicode", "Eterm": "Eterm", "cygwin": "xterm"}
	for _, load := range []func(string) (*terminfo.Terminfo, error){terminfo.GetBuiltin, terminfo.Load} {
		if ti, err := load(""); err == nil || ti != nil {
			t.Fatalf("no name: %v, %v", ti, err)
		}
		for _, name := range names {
			ti, err := load(name)
			if err == nil {
				err = check(name, ti)
			}
			if err != nil {
				t.Fatalf("builtin %q: %v", name, err)
			}
		}
	}
	hx.Check(t, 300, builtinRule, func(t *rapid.T, c *hx.Case) {
		part := rapid.SampledFrom([]string{"xterm", "linux", "screen", "rxvt", "Eterm", "cygwin", ""}).Draw(t, "part")
		affix := rapid.StringMatching(`[a-mA-D0-9+.]{0,6}`)
		name := affix.Draw(t, "pre") + part + affix.Draw(t, "post")
		ti, err := terminfo.GetBuiltin(name)
		c.NT(name != part)
		c.Logf("%q", name)
		if part == "" {
			if err == nil {
				t.Fatalf("builtin %q: got %q", name, ti.Name)
			}
			return
		}
		if err == nil {
			err = check(parts[part], ti)
		}
		if err != nil {
			t.Fatalf("builtin %q: %v", name, err)
		}
	})
}

const ticRule = "terminfo sources of random strings, compiled by tic and read back; non-trivial = at least 5 strings"

// TestTic: what tic(1) compiles is read the same.
func TestTic(t *testing.T) {
	tic, err := exec.LookPath("tic")
	if err != nil {
		tic = ""
	}
	root, err := os.MkdirTemp("", "c29")
	if err != nil {
		panic("HX-INFRA " + err.Error())
	}
	defer os.RemoveAll(root)
	hx.Check(t, 60, ticRule, func(t *rapid.T, c *hx.Case) {
		serial++
		name := fmt.Sprintf("t%dz", serial)
		var src strings.Builder
		fmt.Fprintf(&src, "%s|for %s,\n", name, strings.Repeat("o", rapid.IntRange(0, 3).Draw(t, "odd")))
		for _, b := range []string{"am", "bce", "xenl", "mir"} {
			if rapid.Bool().Draw(t, b) {
				fmt.Fprintf(&src, "\t%s,\n", b)
			}
		}
		if rapid.Bool().Draw(t, "cols") {
			fmt.Fprintf(&src, "\tcols#80, colors#256,\n")
		}
		want := make([]string, len(capNames))
		n := 0
		for i, k := range capNames {
			if rapid.IntRange(0, 2).Draw(t, k) == 0 {
				continue
			}
			n++
			s := rapid.StringMatching(`[A-Za-z0-9\[;~]{1,12}`).Draw(t, "value")
			want[i] = "\x1b" + s
			fmt.Fprintf(&src, "\t%s=\\E%s,\n", k, s)
		}
		c.NT(n >= 5)
		c.Logf("%q", src.String())
		if tic == "" {
			return
		}
		fn := filepath.Join(root, "src")
		if err := os.WriteFile(fn, []byte(src.String()), 0666); err != nil {
			panic("HX-INFRA " + err.Error())
		}
		if out, err := exec.Command(tic, "-x", "-o", root, fn).CombinedOutput(); err != nil {
			panic(fmt.Sprintf("HX-INFRA tic: %v: %s", err, out))
		}
		os.Setenv("TERMINFO", root)
		ti, err := terminfo.Load(name)
		if err == nil {
			err = differ(caps(ti), want)
		}
		if err != nil {
			t.Fatalf("%s: %v", src.String(), err)
		}
	})
}

// uniq drops what comes again: searching it again finds nothing else.
func uniq(ss []string) (us []string) {
	been := map[string]bool{}
	for _, s := range ss {
		if !been[s] {
			us = append(us, s)
		}
		been[s] = true
	}
	return us
}
