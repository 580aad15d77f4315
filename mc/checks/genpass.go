package checks

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"
	"syscall"

	"bpassmc/core"
)

// GenPassword is the program's generator (set by the in-package binary).
var GenPassword func(length, upper, lower, numbers, basic, extra int) (string, error)

var passClasses = []string{"ABCDEFGHIJKLMNOPQRSTUVWXYZ", "abcdefghijklmnopqrstuvwxyz", "0123456789", "!@#$%^&*", "()_+-=<>,.{}[]\\|?/~\"'`"}

func classOf(c byte) int {
	for i, s := range passClasses {
		if strings.IndexByte(s, c) >= 0 {
			return i
		}
	}
	return -1
}

// satisfiable says whether a password with these settings exists; sure is false where refusing is
// fine as well (absurd sizes).
func satisfiable(length int, s []int) (ok, sure bool) {
	if length < 0 {
		return false, true
	}
	need, enabled := 0, 0
	for _, n := range s {
		if n > length {
			return false, true
		}
		if n > 0 {
			need += n
		}
		if n >= 0 {
			enabled++
		}
	}
	if need > length || (enabled == 0 && length > 0) {
		return false, true
	}
	return true, length <= 1024
}

// validPass checks a password against its settings.
func validPass(p string, length int, s []int) string {
	if len(p) != length {
		return fmt.Sprintf("%d characters instead of %d", len(p), length)
	}
	var n [5]int
	for i := 0; i < len(p); i++ {
		c := classOf(p[i])
		if c < 0 {
			return fmt.Sprintf("character %q of no class", p[i])
		}
		if s[c] < 0 {
			return fmt.Sprintf("character %q of a disabled class", p[i])
		}
		n[c]++
	}
	for c := range n {
		if n[c] < s[c] {
			return fmt.Sprintf("%d characters of class %d instead of at least %d", n[c], c, s[c])
		}
	}
	return ""
}

// pattern is a source of random bytes: constant base with two positions overwritten.
type pattern struct {
	base   byte
	count  bool // base+position instead of base
	p1, p2 int
	v1, v2 byte
	off    int
}

func (r *pattern) Read(b []byte) (int, error) {
	for i := range b {
		o := r.off + i
		v := r.base
		if r.count {
			v += byte(o)
		}
		if o == r.p1 {
			v = r.v1
		}
		if o == r.p2 {
			v = r.v2
		}
		b[i] = v
	}
	r.off += len(b)
	return len(b), nil
}

// GenCase: settings; every pattern of the sweep is executed.
type GenCase struct {
	Length   int   `json:"length"`
	Settings []int `json:"settings"`
	// Sweep: 1 single bytes over all values, 2 pairs of bytes over Values values each
	Sweep  int   `json:"sweep"`
	Bases  []int `json:"bases"`
	Values int   `json:"values"`
	Reach  bool  `json:"reach,omitempty"`
}

func callGen(x *core.X, r io.Reader, c GenCase) (string, error) {
	old := rand.Reader
	rand.Reader = r
	defer func() { rand.Reader = old }()
	s := c.Settings
	return GenPassword(c.Length, s[0], s[1], s[2], s[3], s[4])
}

func runGen(x *core.X, c GenCase) {
	ok, sure := satisfiable(c.Length, c.Settings)
	var reach [][256]bool
	one := func(r *pattern) int {
		p, err := callGen(x, r, c)
		x.Step()
		if !ok {
			x.Check(err != nil && p == "", "length %d, settings %v can not be satisfied, but gives %q, %v", c.Length, c.Settings, p, err)
			return 0
		}
		if err != nil {
			x.Check(!sure, "length %d, settings %v refused: %v", c.Length, c.Settings, err)
			return 0
		}
		if m := validPass(p, c.Length, c.Settings); m != "" {
			x.Failf("length %d, settings %v, random bytes %+v: %q has %s", c.Length, c.Settings, *r, p, m)
		}
		if c.Reach {
			if reach == nil {
				reach = make([][256]bool, c.Length)
			}
			for i := 0; i < len(p); i++ {
				reach[i][p[i]] = true
			}
		}
		return r.off
	}
	for _, bs := range c.Bases {
		base := pattern{base: byte(bs), p1: -1, p2: -1}
		if bs > 255 {
			base.count = true
		}
		r := base
		n := one(&r)
		if !ok || n == 0 {
			x.Outcome("refused")
			continue
		}
		x.Outcome("generated")
		switch c.Sweep {
		case 1:
			for p := 0; p < n; p++ {
				for v := 0; v < c.Values; v++ {
					r := base
					r.p1, r.v1 = p, byte(v)
					one(&r)
				}
			}
		case 2:
			for p := 0; p < n; p++ {
				for q := p + 1; q < n; q++ {
					for v := 0; v < c.Values; v++ {
						for w := 0; w < c.Values; w++ {
							r := base
							r.p1, r.v1, r.p2, r.v2 = p, byte(v), q, byte(w)
							one(&r)
						}
					}
				}
			}
		}
	}
	if c.Reach && ok && reach != nil {
		need := 0
		for _, n := range c.Settings {
			if n > 0 {
				need += n
			}
		}
		for i := range reach {
			for k, s := range c.Settings {
				if s > 0 || (s == 0 && need < c.Length) {
					for _, ch := range []byte(passClasses[k]) {
						if !reach[i][ch] {
							x.Failf("length %d, settings %v: position %d never receives %q", c.Length, c.Settings, i, ch)
						}
					}
				}
			}
		}
	}
	x.State(fmt.Sprint(c.Length, c.Settings))
}

// GenUI: answers given to the interactive generator.
type GenUI struct {
	In []string `json:"in"`
}

// genModel follows the documented behaviour of the generator's dialogue.
type genModel struct {
	length   int
	set      [5]int
	shown    string // last shown password, "" if there is none to accept
	manual   int
	m1       string
	finished bool
	want     string
}

var genKeys = "ulnbe"

func (m *genModel) regen(s *Sess, out string) {
	ok, sure := satisfiable(m.length, m.set[:])
	i := strings.LastIndex(out, "password: ")
	// the password shown is the rest of the line
	p, shown := "", i >= 0
	if shown {
		p = strings.SplitN(out[i+len("password: "):], "\n", 2)[0]
	}
	if !ok {
		s.Check(!shown, "length %d %v can not be satisfied, but a password is shown", m.length, m.set)
		m.shown = ""
		return
	}
	if !shown {
		s.Check(!sure, "no password shown for length %d %v", m.length, m.set)
		m.shown = ""
		return
	}
	if v := validPass(p, m.length, m.set[:]); v != "" {
		s.Fail("length %d %v: shown password has %s", m.length, m.set, v)
	}
	m.shown = p
}

func runGenUI(x *core.X, c GenUI) {
	a := newApp(x).WithClip()
	a.Sub = []string{"gen"}
	s := a.Start()
	m := &genModel{length: 32}
	s.Check(s.Cur.Kind == "line", "no question but %v", s.Cur)
	m.regen(s, s.Out())
	clips := 0
	for _, in := range c.In {
		hidden := s.Cur.Kind == "hidden"
		before := m.shown
		s.Send(in)
		out := s.Out()
		s.NoCrash()
		if in == ctrlD || in == ctrlC {
			s.Check(s.Cur.Kind == "exit" && s.Code != 0, "aborted, but %v status %d", s.Cur, s.Code)
			s.Check(before == "" || !strings.Contains(out, before), "aborted, but the password is printed")
			x.Outcome("aborted")
			return
		}
		if hidden {
			switch m.manual {
			case 1:
				m.m1, m.manual = in, 2
				s.Check(s.Cur.Kind == "hidden", "no verification but %v", s.Cur)
				continue
			case 2:
				m.manual = 0
				if in == m.m1 {
					s.Check(s.Cur.Kind == "exit" && s.Code == 0 && strings.TrimSuffix(out, "\n") == in, "entered %q, got %q, %v", in, out, s.Cur)
					x.Outcome("manual")
					return
				}
				s.Check(s.Cur.Kind == "line", "mismatch must ask again, got %v", s.Cur)
				m.regen(s, out)
				continue
			}
		}
		f := strings.Fields(in)
		switch {
		case in == "y":
			if before == "" && m.length != 0 {
				s.Check(s.Cur.Kind == "line", "there was no password to accept, but %v: %q", s.Cur, out)
				x.Outcome("nothing to accept")
				if strings.Contains(out, "password: ") {
					m.regen(s, out)
				}
				continue
			}
			if s.Cur.Kind == "line" && m.length == 0 {
				continue // refusing an empty password is fine
			}
			s.Check(s.Cur.Kind == "exit" && s.Code == 0, "accepted, but %v status %d", s.Cur, s.Code)
			s.Check(strings.TrimSuffix(out, "\n") == before, "accepted %q, got %q", before, out)
			x.Outcome("accepted")
			return
		case in == "m":
			s.Check(s.Cur.Kind == "hidden", "no manual entry but %v", s.Cur)
			m.manual = 1
			continue
		case in == "?":
		case in == "c" && before != "":
			cl := a.Clips()
			s.Check(len(cl) > clips && cl[len(cl)-1] == before, "copied %q, want %q", cl, before)
			clips = len(cl)
		case len(f) == 1 && len(f[0]) == 1 && strings.Contains(genKeys, f[0]):
			k := strings.Index(genKeys, f[0])
			if m.set[k] >= 0 {
				m.set[k] = -1
			} else {
				m.set[k] = 0
			}
		case len(f) == 2 && len(f[0]) == 1 && strings.Contains(genKeys, f[0]):
			if n, err := strconv.Atoi(f[1]); err == nil {
				m.set[strings.Index(genKeys, f[0])] = n
			}
		default:
			if n, err := strconv.Atoi(in); err == nil {
				m.length = n
			}
		}
		s.Check(s.Cur.Kind == "line", "%q leads to %v", in, s.Cur)
		if strings.Contains(out, "password: ") {
			m.regen(s, out)
			s.Check(before == "" || in != "c" && in != "?" || m.shown == before, "%q replaces the password %q by %q", in, before, m.shown)
		} else if ok, sure := satisfiable(m.length, m.set[:]); ok && sure && in != "c" && in != "?" && before == "" {
			s.Fail("%q: no password although the settings can be satisfied", in)
		} else if !ok || !sure {
			m.shown = ""
		}
		x.State(fmt.Sprint(m.length, m.set, m.shown != ""))
	}
}

func init() {
	gen := core.NewFamily("C18", "generate", runGen)
	gen.Serial = true
	ui := core.NewFamily("C18", "dialogue", runGenUI)
	core.Register(&core.Check{
		ID: "C18", Level: "model_checking",
		Rule:        "one execution runs the real generator for one setting over a sweep of random byte sequences, checking every password and the set of characters reached per position; or one dialogue with the real program, every shown and accepted password checked against the settings made so far",
		Assumptions: []string{"random bytes are constant or counting sequences with one or two bytes replaced by every (chosen) value"},
		Run: func(ctx *core.Ctx) {
			if GenPassword == nil {
				core.Harness("not the in-package binary")
			}
			var lim syscall.Rlimit
			lim.Cur, lim.Max = 24<<30, 24<<30
			syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
			var all [][]int
			var rec func(cur []int)
			vals := []int{-1, 0, 1, 2}
			rec = func(cur []int) {
				if len(cur) == 5 {
					all = append(all, append([]int{}, cur...))
					return
				}
				for _, v := range vals {
					rec(append(cur, v))
				}
			}
			rec(nil)
			maxL := ctx.Pick(4, 8)
			gen.Explore(ctx, fmt.Sprintf("all 1024 settings {off,any,1,2}^5, lengths -1..%d, constant and counting random bytes with every byte replaced by every value", maxL), func(y func(GenCase) bool) {
				for l := -1; l <= maxL; l++ {
					for _, s := range all {
						if !y(GenCase{Length: l, Settings: s, Sweep: 1, Bases: []int{0, 300}[:ctx.Pick(1, 2)], Values: 256}) {
							return
						}
					}
				}
			})
			gen.Explore(ctx, "reachability of every character at every position: lengths 1-3, all pairs of bytes over 0..63, bases 0..4", func(y func(GenCase) bool) {
				for _, c := range []GenCase{
					{Length: 1, Settings: []int{0, 0, 0, 0, 0}}, {Length: 2, Settings: []int{0, 0, 0, 0, 0}}, {Length: 2, Settings: []int{1, 0, -1, -1, 0}}, {Length: 2, Settings: []int{-1, 1, -1, 1, -1}},
					{Length: 1, Settings: []int{1, 0, 0, 0, 0}}, {Length: 1, Settings: []int{-1, -1, -1, -1, 1}}, {Length: 3, Settings: []int{0, 0, 0, 0, 0}}, {Length: 3, Settings: []int{-1, 1, 1, 1, -1}}, {Length: 3, Settings: []int{-1, -1, 2, 0, -1}},
				} {
					c.Sweep, c.Values, c.Bases, c.Reach = 2, 64, []int{0, 1, 2, 3, 4}, true
					if c.Length == 3 && !ctx.Thorough() {
						c.Values = 32
					}
					if !y(c) {
						return
					}
				}
			})
			gen.Explore(ctx, "long passwords: lengths around 32, 64, 128, 256, 512, 1024, every random byte replaced by every value (quick: 8 lengths, 32 values)", func(y func(GenCase) bool) {
				ls := []int{31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 768, 1000, 1024}
				if !ctx.Thorough() {
					ls = []int{32, 128, 255, 256, 257, 300, 512, 1024}
				}
				for _, l := range ls {
					for _, s := range [][]int{{0, 0, 0, 0, 0}, {1, 1, 1, 1, 1}, {-1, -1, 0, -1, -1}, {l, -1, -1, -1, -1}, {l / 2, l - l/2, 0, 0, 0}, {1, -1, -1, -1, 0}} {
						v := ctx.Pick(32, 256)
						if l > 256 {
							v = ctx.Pick(2, 32)
						}
						if !y(GenCase{Length: l, Settings: s, Sweep: 1, Bases: []int{0, 255}, Values: v}) {
							return
						}
					}
				}
				for _, l := range []int{2, 100, 255, 256, 257, 300} { // a single required character reaches every position
					y(GenCase{Length: l, Settings: []int{-1, -1, l - 1, 1, -1}, Sweep: 1, Bases: []int{0, 300, 1, 2, 3, 77}[:ctx.Pick(2, 6)], Values: ctx.Pick(48, 256)})
				}
			})
			gen.Explore(ctx, "absurd lengths and requirements", func(y func(GenCase) bool) {
				for _, l := range []int{math.MinInt, -1 << 40, -2, 0, 5, 1 << 16, 1 << 20, 1 << 33, 1 << 40, 1 << 47, 1 << 62, math.MaxInt - 1, math.MaxInt} {
					for _, s := range [][]int{{0, 0, 0, 0, 0}, {-1, -1, -1, -1, -1}, {math.MinInt, 0, 0, 0, 0}, {math.MaxInt, 0, 0, 0, 0}, {math.MaxInt, 1, 0, 0, 0}, {math.MaxInt, math.MaxInt, 2, 0, 0}, {math.MaxInt, math.MaxInt, math.MaxInt, math.MaxInt, math.MaxInt}, {1 << 40, 0, 0, 0, 0}, {-1, 1 << 62, 1 << 62, 1 << 62, 1 << 62}, {0, -1, 6, 0, 0}} {
						if !y(GenCase{Length: l, Settings: s, Bases: []int{0, 255}}) {
							return
						}
					}
				}
			})
			alpha := []string{"", "y", "?", "c", "u", "l", "u 3", "n 40", "e -5", "8", "0", "3", "-5", "256", "abc", " ", " y", "u x", "9999999999999", "c c", "yy", ctrlD}
			d := ctx.Pick(2, 3)
			ui.Explore(ctx, fmt.Sprintf("all dialogues of %d answers out of %d, followed by acceptance; manual entry; all classes off", d, len(alpha)), func(y func(GenUI) bool) {
				for _, l := range lists(alpha, d) {
					bad := false
					for i, s := range l {
						if s == ctrlD && i < len(l)-1 || s == "y" && i < len(l)-1 && i == 0 {
							bad = true
						}
					}
					if bad {
						continue
					}
					if len(l) == 0 || (l[len(l)-1] != ctrlD && l[len(l)-1] != "y") {
						l = append(append([]string{}, l...), "y")
					}
					if !y(GenUI{l}) {
						return
					}
				}
				for _, l := range [][]string{{"m", "abc", "abc"}, {"m", "abc", "abd", "y"}, {"m", "", ""}, {"m", "x", ctrlD}, {"m", ctrlD}, {"m", "é x\t ", "é x\t "}, {ctrlC}, {"m", "x", ctrlC},
					{"u", "l", "n", "b", "e", "y", "e", "y"}, {"u", "l", "n", "b", "e", "", "c", "?", "y", "n", "y"}, {"u 33", "y", "34", "y"}, {"u 33", "?", "y", "u", "y"}, {"u 33", "c", "y", "m", "k", "k"}, {"0", "", "?", "5", "y"}} {
					if !y(GenUI{l}) {
						return
					}
				}
			})
		},
	})
	_ = bytes.Equal
}
