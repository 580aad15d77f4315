package checks

import (
	"bytes"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/txlogs"
)

// UsCase is a sequence of user and password commands, "@name" leaves and reopens as that user ("@"
// as the current one).
type UsCase struct {
	Start string   `json:"start"`
	Ops   []string `json:"ops"`
}

// usModel knows who may open the file.
type usModel struct {
	users   map[string]string // name -> password, nil: single user
	pass    string            // of the single user
	me      string
	entries map[string]bool // other entries
	names   map[string]bool // every name ever used
	passes  map[string]bool // every password ever used
	masters [][]byte        // keys that must not be in use any more
	demoted bool
}

func (m *usModel) clone() *usModel {
	c := *m
	if m.users != nil {
		c.users = map[string]string{}
		for k, v := range m.users {
			c.users[k] = v
		}
	}
	return &c
}

var (
	reGenerated = regexp.MustCompile(`(?m)^password: (.*)$`)
	reRekeyed   = regexp.MustCompile(`(?m)^ *([^ :\n]+): ([[:graph:]]{32})$`)
)

// usOps are the commands with their answers, ";" separated.
var usOps = []string{
	"adduser A;m;pa;pa", "adduser B;m;pb;pb", "adduser u1;y",
	"passwd;m;n1;n1", "passwd u2;m;n2;n2", "passwd A;m;n3;n3", "passwd;m;x1;x2;m;;", "passwd B;^D", "passwd zz;m;n4;n4",
	"rekey", "rekey u2;m;r2;r2", "rekey A;m;r3;r3", "rekey u1;m;r1;r1", "rekey zz;m;r4;r4",
	"rekeyall;y", "rekeyall;n", "rekeyall;x;^D", "rekeyall;;^D",
	"rm user/u1;user/u1", "rm user/u2;user/u2", "rm user/A;user/A", "rm user/u2;no",
	"mv user/u1 user/C", "mv user/u2 user/D", "mv user/u2 x", "mv user/A user/u2", "mv user/u1 y", "mv x user/E",
	"add user/Z;;;m;z;z", "rmk user/u2 mkey", "rmk user/u1 salt", "set user/u2 iv 00", "@", "@u2", "@A",
}

// usCore is the reduced alphabet for longer sequences.
var usCore = []string{"adduser A;m;pa;pa", "adduser u1;m;pb;pb", "passwd;m;n1;n1", "passwd u2;m;n2;n2", "rekey", "rekey u2;m;r2;r2", "rekeyall;y", "rm user/u1;user/u1", "rm user/u2;user/u2", "mv user/u1 user/C", "mv user/u2 user/u1", "@", "@u2", "@A"}

// usCase has two users whose names differ only in case.
var usCase = []string{"adduser U1;m;pu;pu", "passwd U1;m;n5;n5", "rekey U1;m;r5;r5", "passwd;m;n1;n1", "rekey", "rekeyall;y", "rm user/U1;user/U1", "rm user/u1;user/u1", "mv user/u1 user/X", "mv user/u2 user/U1", "mv user/U1 user/U2", "@", "@U1"}

func (m *usModel) set(name, pass string) {
	m.names[name], m.passes[pass] = true, true
	if m.users == nil {
		m.pass = pass
	} else {
		m.users[name] = pass
	}
}

func runUsers(x *core.X, c UsCase) {
	a := newApp(x)
	m := &usModel{names: map[string]bool{"": true, "zz": true, "u1": true, "u2": true}, passes: map[string]bool{"": true, "zz": true}, entries: map[string]bool{"a": true}}
	log := mkTxs(1000, Ent{uid(1), []string{"name", "a", "k", "v"}})
	var s *Sess
	switch c.Start {
	case "new":
		s = a.Start().Open("", "pw")
		s.Send("pw")
		s.Check(s.Cur.Main(), "new file can not be opened")
		m.set("", "pw")
	case "single":
		a.put("pw", log)
		m.set("", "pw")
		s = a.Start().MustOpen("", "pw")
	case "multi", "multi3", "crowd11", "crowd65", "crowd129", "crowd257":
		us := shUsers
		if n, ok := strings.CutPrefix(c.Start, "crowd"); ok {
			us = append([]ref.FileUser{}, us...)
			for k, _ := strconv.Atoi(n); len(us) < k; {
				us = append(us, ref.FileUser{Name: fmt.Sprint("v", len(us)), Pass: "pv"})
			}
		}
		if c.Start == "multi3" {
			us = append(append([]ref.FileUser{}, us...), ref.FileUser{Name: "A", Pass: "p3"})
		}
		a.putUsers(us, shMaster, log)
		m.users = map[string]string{}
		for _, u := range us {
			m.set(u.Name, u.Pass)
		}
		m.me = "u1"
		s = a.Start().MustOpen("u1", "p1")
	}
	verify := func(d DBState) {
		b := a.bytes()
		h, _, err := ref.Header(b)
		s.Check(err == nil, "the saved file is damaged: %v", err)
		s.Check(h.Multi == (m.users != nil), "multi-user is %v", h.Multi)
		if m.users != nil {
			s.Check(h.NUsers == len(m.users), "the file has %d users instead of %d", h.NUsers, len(m.users))
		}
		for n := range m.names {
			for p := range m.passes {
				if len(m.names) > 40 && p != m.users[n] && p != "pv" && p != "n7" && len(n)+len(p) > 4 { // of many, its own, a few others
					continue
				}
				dec, st, err := readFile(b, n, p)
				ok := m.users == nil && p == m.pass
				if m.users != nil {
					pw, is := m.users[n]
					ok = is && pw == p
				}
				s.Check(ok == (err == nil), "user %q with password %q: %v (users are %q, single password %q)", n, p, err, m.users, m.pass)
				if err == nil {
					s.Check(ref.EqualLogs(st.Log, d.Log), "user %q sees another database", n)
					for _, o := range m.masters {
						s.Check(!bytes.Equal(o, dec.Master), "a master key that was replaced is still in use")
					}
				}
			}
		}
	}
	reopen := func(as string) {
		d := s.Dump()
		s.MustExit()
		verify(d)
		user, pass := "", m.pass
		if m.users != nil {
			if as == "" {
				as = m.me
			}
			if _, ok := m.users[as]; !ok {
				as = m.me
			}
			user, pass = as, m.users[as]
		}
		m.me = user
		s = a.Start().MustOpen(user, pass)
		d2 := s.Dump()
		s.Check(ref.EqualLogs(d.Log, d2.Log), "reopening shows another database")
	}
	// master is the current master key according to the saved file
	for _, op := range c.Ops {
		if as, ok := strings.CutPrefix(op, "@"); ok {
			reopen(as)
			continue
		}
		f := strings.Split(op, ";")
		before := s.Dump()
		b4 := a.bytes()
		out := answer(s, ShLine{L: f[0], A: f[1:]})
		s.Check(s.Cur.Main(), "%q ended the session", f[0])
		s.Check(string(b4) == string(a.bytes()), "%q wrote the file before the end of the session", f[0])
		ans := f[1:]
		// the password the answers give
		pw, given := "", false
		for len(ans) > 0 && !given {
			switch {
			case ans[0] == "m" && len(ans) >= 3:
				pw, given = ans[1], ans[1] == ans[2]
				ans = ans[3:]
			case ans[0] == "y":
				if g := reGenerated.FindAllStringSubmatch(out, -1); len(g) > 0 {
					pw, given = g[len(g)-1][1], true
				}
				ans = nil
			default:
				ans = nil
			}
		}
		given = given && pw != ""
		w := strings.Fields(f[0])
		arg := ""
		if len(w) > 1 {
			arg = w[1]
		}
		changed := false
		isUser := func(n string) bool { _, ok := m.users[n]; return ok }
		// fresh checks that a user got a new salt
		fresh := func(n string) {
			if m.users == nil {
				return
			}
			o, salts := "", map[string]bool{}
			for _, e := range stateOf(x, before.Log) {
				if e["name"] == "user/"+n {
					o = e["salt"]
				}
			}
			for _, e := range stateOf(x, s.Dump().Log) {
				if u := strings.TrimPrefix(e["name"], "user/"); isUser(u) && e["name"] != u {
					s.Check(u != n || e["salt"] != o, "%q uses the old salt again", f[0])
					s.Check(!salts[e["salt"]], "two users have the same salt")
					salts[e["salt"]] = true
				}
			}
		}
		switch w[0] {
		case "adduser":
			switch {
			case isUser(arg) || m.entries["user/"+arg]:
			case m.users == nil:
				m.users, m.me, changed = map[string]string{}, arg, true
				m.set(arg, m.pass)
				m.pass = ""
			case given:
				m.set(arg, pw)
				changed = true
				fresh(arg)
			}
		case "passwd", "rekey":
			who := arg
			if who == "" {
				who = m.me
			}
			if w[0] == "rekey" && arg == "" {
				pw, given = m.pass, true
				if m.users != nil {
					pw = m.users[who]
				}
			}
			switch {
			case m.users == nil && arg == "" && given, isUser(who) && given:
				m.set(who, pw)
				changed = true
				fresh(who)
			}
		case "rekeyall":
			if m.users == nil || len(f) < 2 || f[1] != "y" {
				break
			}
			changed = true
			got := map[string]string{}
			for _, l := range reRekeyed.FindAllStringSubmatch(out, -1) {
				got[l[1]] = l[2]
			}
			s.Check(len(got) == len(m.users), "rekeyall shows passwords of %q", got)
			for n := range m.users {
				s.Check(got[n] != "" && !m.passes[got[n]], "rekeyall shows no new password for %q", n)
				m.set(n, got[n])
				fresh(n)
			}
			for _, e := range before.Snapshot {
				if n := strings.TrimPrefix(e["name"], "user/"); isUser(n) && n != e["name"] {
					// the master key before, from the entry
				}
			}
			if h := masterOf(b4, m); h != nil {
				m.masters = append(m.masters, h)
			}
		case "rm":
			n, user := strings.CutPrefix(arg, "user/")
			if len(f) < 2 || f[1] != arg || !user || !isUser(n) && !m.entries[arg] {
				break
			}
			switch {
			case m.entries[arg]:
				delete(m.entries, arg)
				changed = true
			case n == m.me && len(m.users) > 1:
			case n == m.me:
				m.pass = m.users[n]
				m.users, m.me, changed = nil, "", true
			default:
				delete(m.users, n)
				changed = true
			}
		case "mv":
			from, fu := strings.CutPrefix(w[1], "user/")
			to, tu := strings.CutPrefix(w[2], "user/")
			if fu && !isUser(from) && !m.entries[w[1]] || !fu && !m.entries[from] || tu && (isUser(to) || m.entries[w[2]]) || !tu && m.entries[to] {
				break
			}
			switch {
			case fu && isUser(from) && tu:
				p := m.users[from]
				delete(m.users, from)
				m.set(to, p)
				if m.me == from {
					m.me = to
				}
				changed = true
			case fu && isUser(from):
				if m.me == from {
					break
				}
				delete(m.users, from)
				m.entries[to] = true
				m.demoted = true
				changed = true
			default: // a former user becomes one again: out of the model
				if m.demoted {
					x.Outcome("former user renamed")
					return
				}
				delete(m.entries, w[1])
				m.entries[w[2]] = true
				changed = true
			}
		case "add":
			if m.entries[arg] || isUser(strings.TrimPrefix(arg, "user/")) {
				break
			}
			d := s.Dump()
			m.entries[arg] = len(d.Log) > len(before.Log)
			changed = m.entries[arg]
			if !changed {
				delete(m.entries, arg)
			}
		case "rmk", "set": // protected keys
		}
		if !changed {
			d := s.Dump()
			s.Check(ref.EqualLogs(d.Log, before.Log), "%q must not change anything but adds %s", f[0], ref.ShowLog(d.Log[min(len(before.Log), len(d.Log)):]))
			s.Check(strings.TrimSpace(out) != "", "%q is refused silently", f[0])
			x.Outcome("refused " + w[0])
		} else {
			x.Outcome("did " + w[0])
		}
	}
	reopen("")
	var l []string
	for n, p := range m.users {
		l = append(l, n+"="+p)
	}
	sort.Strings(l)
	x.State(fmt.Sprint(l, m.pass, m.me))
	s.MustExit()
	verify(s.finalDump(m))
}

// finalDump reads the database from the file as the current user.
func (s *Sess) finalDump(m *usModel) DBState {
	p := m.pass
	if m.users != nil {
		p = m.users[m.me]
	}
	_, st, err := readFile(s.a.bytes(), m.me, p)
	s.Check(err == nil, "the file can not be opened by %q: %v", m.me, err)
	return st
}

// masterOf finds the master key in a saved file, with any password ever used.
func masterOf(b []byte, m *usModel) []byte {
	for n := range m.names {
		for p := range m.passes {
			if d, err := ref.Decode(b, n, p, ref.StubKDF); err == nil && d.Multi {
				return d.Master
			}
		}
	}
	return nil
}

// UsNameCase is a user name, and a password.
type UsNameCase struct {
	First bool   `json:"first"`
	Name  string `json:"name"`
	Pass  string `json:"pass"`
}

func runUserName(x *core.X, c UsNameCase) {
	a := newApp(x)
	log := mkTxs(1000, Ent{uid(1), []string{"name", "a", "k", "v"}})
	me, mp := "", "pw"
	if c.First {
		a.put("pw", log)
	} else {
		a.putUsers(shUsers, shMaster, log)
		me, mp = "u1", "p1"
	}
	s := a.Start().MustOpen(me, mp)
	before := s.Dump()
	out := answer(s, ShLine{L: "adduser " + c.Name, A: []string{"m", c.Pass, c.Pass}})
	s.Check(s.Cur.Main(), "adduser ended the session")
	d := s.Dump()
	created := len(d.Log) != len(before.Log)
	if c.First && created {
		answer(s, ShLine{L: "passwd", A: []string{"m", c.Pass, c.Pass}})
		d = s.Dump()
		if c.Pass == "" {
			c.Pass = "pw"
		}
	}
	s.MustExit()
	if !created {
		s.Check(strings.TrimSpace(out) != "", "refused silently")
		_, _, err := readFile(a.bytes(), me, mp)
		s.Check(err == nil, "file can not be opened: %v", err)
		x.Outcome("refused")
		return
	}
	s = a.Start().MustOpen(c.Name, c.Pass)
	d2 := s.Dump()
	s.Check(ref.EqualLogs(d.Log, d2.Log), "the new user sees another database")
	s.MustExit()
	for _, o := range []cred{{c.Name, c.Pass + " "}, {c.Name + " ", c.Pass}, {strings.ToUpper(c.Name) + "x", c.Pass}, {c.Name, strings.ToUpper(c.Pass) + "x"}, {"", c.Pass}, {c.Name, ""}} {
		_, _, err := readFile(a.bytes(), o.user, o.pass)
		s.Check(err != nil, "%q with %q opens the file", o.user, o.pass)
	}
	x.Outcome("added")
}

func init() {
	fam := core.NewFamily("C22", "user and password histories", runUsers)
	famN := core.NewFamily("C22", "names and passwords", runUserName)
	core.Register(&core.Check{
		ID: "C22", Level: "model_checking",
		Rule:        "one execution is a history of user, password, rename, removal and reopen steps with the real program (terminal and key derivation replaced); at every save every name ever used is tried with every password ever used by an independent codec, against a model of who may open the file; state = users with passwords",
		Assumptions: []string{"the key derivation is replaced by a cheap injective one", "an entry that lost its user name by mv and gets one again is not modelled"},
		Run: func(ctx *core.Ctx) {
			_ = txlogs.TxAdd
			seqs := func(starts, ops []string, n int) {
				for k := 1; k <= n; k++ {
					k := k
					fam.Explore(ctx, fmt.Sprintf("all sequences of %d of %d steps from %v", k, len(ops), starts), func(y func(UsCase) bool) {
						for _, st := range starts {
							for _, q := range intSeqs(len(ops), k) {
								c := UsCase{Start: st}
								for _, i := range q {
									c.Ops = append(c.Ops, ops[i])
								}
								if !y(c) {
									return
								}
							}
						}
					})
				}
			}
			all := []string{"new", "single", "multi", "multi3"}
			seqs(all, usOps, 2)
			seqs([]string{"single", "multi"}, usCore, ctx.Pick(3, 4))
			seqs([]string{"multi"}, usCase, 3)
			crowd := append([]string{"@v5", "passwd v5;m;n7;n7", "rekey v5;m;r7;r7", "rm user/v5;user/v5", "mv user/v5 user/w5"}, usCore[:11]...)
			seqs([]string{"crowd11"}, crowd, ctx.Pick(1, 2))
			seqs([]string{"crowd129"}, crowd, 1)
			if ctx.Thorough() {
				seqs([]string{"crowd65", "crowd257"}, crowd, 1)
			}
			exploreTwice(ctx)
			famN.Explore(ctx, "user names and passwords of odd shape", func(y func(UsNameCase) bool) {
				names := []string{"x", "X", "user/x", "/", "a/b", "é", "日本", "u", "u11", "x:y", "x,y", "x\"y", strings.Repeat("n", 300), "\x00", "a\x00b", "%s", "-", "a", "user", "..", "U1"}
				for _, f := range []bool{true, false} {
					for _, n := range names {
						for _, p := range []string{"p", "", " ", " p q ", "é\t", strings.Repeat("p", 200), "pw", "p1", "\\n", "%s"} {
							if !y(UsNameCase{f, n, p}) {
								return
							}
						}
					}
				}
			})
			if ctx.Thorough() {
				seqs([]string{"single", "multi3"}, usOps, 3)
			}
		},
	})
}

// FreshProg is a sequence of sessions that save; material must be fresh.
type FreshProg struct {
	Start string   `json:"start"`
	Ops   []string `json:"ops"`
}

// runFreshProg checks, with the real program, that what the file says it is encrypted with is new
// when the commands promise so, and that iv and salt of a single-user file are never used again with
// other contents.
func runFreshProg(x *core.X, c FreshProg) {
	a := newApp(x)
	log := mkTxs(1000, Ent{uid(1), []string{"name", "a", "k", "v"}})
	me, pw := "", "pw"
	var s *Sess
	switch c.Start {
	case "new":
		s = a.Start().Open("", "pw")
		s.Send("pw")
		s.Check(s.Cur.Main(), "new file can not be opened")
	case "single":
		a.put("pw", log)
		s = a.Start().MustOpen("", "pw")
	case "multi":
		a.putUsers(shUsers, shMaster, log)
		me, pw = "u1", "p1"
		s = a.Start().MustOpen(me, pw)
	}
	var seen []*ref.Decoded
	if b := a.bytes(); b != nil {
		h, _, err := ref.Header(b)
		s.Check(err == nil, "header: %v", err)
		seen = append(seen, h)
	}
	for _, op := range c.Ops {
		rekeyed := map[string]bool{}
		f := strings.Split(op, ";")
		answer(s, ShLine{L: f[0], A: f[1:]})
		s.Check(s.Cur.Main(), "%q ended the session", f[0])
		switch f[0] {
		case "passwd":
			pw, rekeyed[me] = f[2], true
		case "rekey":
			rekeyed[me] = true
		case "passwd u2", "rekey u2":
			rekeyed["u2"] = me != ""
		}
		s.MustExit()
		d, _, err := readFile(a.bytes(), me, pw)
		s.Check(err == nil, "after %q the file can not be opened: %v", op, err)
		h := d
		has := func(l [][]byte, b []byte) bool {
			for _, o := range l {
				if bytes.Equal(o, b) {
					return true
				}
			}
			return false
		}
		for _, o := range seen {
			if !h.Multi && !o.Multi {
				s.Check(!has(o.IVs, h.IVs[0]), "after %q the file is encrypted with an iv that was used before", op)
				if rekeyed[me] {
					s.Check(!has(o.Salts, h.Salts[0]), "%q uses a salt that was used before", op)
				}
			}
			if h.Multi && o.Multi {
				n := 0
				for _, sa := range h.Salts {
					if !has(o.Salts, sa) {
						n++
					}
				}
				s.Check(n >= len(rekeyed) || rekeyed["u2"] && len(h.Salts) < 2, "%q uses a salt that was used before", op)
				m := 0
				for _, sa := range h.IVs {
					if !has(o.IVs, sa) {
						m++
					}
				}
				s.Check(m >= len(rekeyed), "%q uses an iv that was used before", op)
			}
		}
		for i := range h.Salts {
			for j := range h.Salts[:i] {
				s.Check(!bytes.Equal(h.Salts[i], h.Salts[j]), "two users have the same salt")
			}
		}
		seen = append(seen, h)
		x.Step()
		s = a.Start().MustOpen(me, pw)
	}
	s.MustExit()
	x.Outcome("fresh")
	x.State(fmt.Sprint(c))
}

var famFreshProg = core.NewFamily("C10", "fresh-program", runFreshProg)

func exploreFreshProg(ctx *core.Ctx) {
	famFreshProg.Explore(ctx, "all sequences of up to 3 saving sessions with the real program", func(y func(FreshProg) bool) {
		ops := []string{"set a k x", "passwd;m;n1;n1", "passwd;m;pw;pw", "rekey", "passwd u2;m;n2;n2", "rekey u2;m;p2;p2"}
		for _, st := range []string{"new", "single", "multi"} {
			for n := 1; n <= 3; n++ {
				for _, q := range intSeqs(len(ops), n) {
					c := FreshProg{Start: st}
					for _, i := range q {
						c.Ops = append(c.Ops, ops[i])
					}
					if !y(c) {
						return
					}
				}
			}
		}
	})
}
