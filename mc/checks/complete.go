package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/readline"
)

// ---------------------------------------------------------------------------------------------
// C36: completion

var (
	cpPlain = strings.Fields("passwd help exit add ls labels addsync adduser rekey")
	cpEntry = strings.Fields("rm mv cd show open label rmlabel pass user email totp sync")
	cpKeyed = strings.Fields("set get cp edit rmk")
	cpKeys  = strings.Fields("email user pass totp notes")
)

// cpWant is what should be offered for a line: the original library's completion over the tree of
// commands, names and keys.
func cpWant(names []string, line string) []string {
	names = append([]string{}, names...)
	sort.Strings(names)
	dyn := func(string) []string { return names }
	var items []readline.PrefixCompleterInterface
	for _, c := range cpPlain {
		items = append(items, readline.PcItem(c))
	}
	for _, c := range cpEntry {
		items = append(items, readline.PcItem(c, readline.PcItemDynamic(dyn)))
	}
	for _, c := range cpKeyed {
		var ks []readline.PrefixCompleterInterface
		for _, k := range cpKeys {
			ks = append(ks, readline.PcItem(k))
		}
		items = append(items, readline.PcItem(c, readline.PcItemDynamic(dyn, ks...)))
	}
	l := []rune(line)
	out, _ := readline.NewPrefixCompleter(items...).Do(l, len(l))
	return cpSet(strList(out))
}

func strList(l [][]rune) (out []string) {
	for _, s := range l {
		out = append(out, string(s))
	}
	return out
}

func cpSet(l []string) []string {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return keysOf(m)
}

func keysOf[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

func namesOf(st ref.State) (out []string) {
	for _, e := range st {
		if n, ok := e["name"]; ok {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

// cpTab asks and compares.
func cpTab(s *Sess, names []string, line string) {
	got, want := cpSet(s.Tab(line)), cpWant(names, line)
	s.Check(strings.Join(got, "\x00") == strings.Join(want, "\x00"), "Tab after %q offers %q instead of %q; the entries are %q", line, got, want, names)
}

// CpLineCase is one command over one set of names; all continuations are tried in one session.
type CpLineCase struct {
	Names []string `json:"names"`
	Cmd   string   `json:"cmd"`
	Multi bool     `json:"multi,omitempty"`
}

func cpLines(names []string, cmd string) []string {
	args := map[string]bool{"": true, "zz": true, " ": true, "\t": true, "'": true, "\\": true, "é": true}
	for _, n := range names {
		r := []rune(n)
		for i := range r {
			args[string(r[:i+1])] = true
		}
		for _, k := range append([]string{"x"}, cpKeys...) {
			for i := 0; i <= len(k); i++ {
				args[n+" "+k[:i]] = true
			}
			args[n+"  "+k] = true
			args[n+" "+k+" "] = true
			args[n+" "+k+" v"] = true
		}
		args[strings.ToUpper(n)] = true
		args[strings.ToLower(n)] = true
	}
	out := []string{cmd}
	for _, a := range keysOf(args) {
		out = append(out, cmd+" "+a)
	}
	return append(out, " "+cmd, cmd+"  ", "x"+cmd, cmd+"x")
}

func runCpLines(x *core.X, c CpLineCase) {
	a := newApp(x)
	var es []Ent
	for i, n := range c.Names {
		es = append(es, Ent{uid(i + 1), []string{"name", n, "pass", "hidden-secret"}})
	}
	names, user, pass := append([]string{}, c.Names...), "", "pw"
	if c.Multi {
		a.putUsers(shUsers, shMaster, mkTxs(1000, es...))
		names, user, pass = append(names, "user/u1", "user/u2"), "u2", "p2"
	} else {
		a.put(pass, mkTxs(1000, es...))
	}
	before := a.bytes()
	s := a.Start().MustOpen(user, pass)
	for _, l := range cpLines(names, c.Cmd) {
		cpTab(s, names, l)
	}
	s.Check(s.Out() == "", "completion prints %q", tail(s.All(), 300))
	s.Send(ctrlC)
	s.Check(bytes.Equal(before, a.bytes()), "the file changed")
	s.NoCrash()
	x.State(fmt.Sprint(names))
	x.Outcome(c.Cmd)
}

// CpHistCase is a session with completion after every line.
type CpHistCase struct {
	DB   string   `json:"db"` // single, multi, empty, auto (a remote is merged at the start)
	Ops  []ShLine `json:"ops"`
	Skip int      `json:"skip,omitempty"` // completion only after this many lines
	Mid  int      `json:"mid,omitempty"`  // set of lines at whose questions it is pressed, too
}

func cpStart(x *core.X, db string) (*App, *Sess) {
	a := newApp(x).WithClip()
	a.Script("ed", "#!/bin/sh\nexit 0\n")
	a.Env = append(a.Env, "EDITOR="+filepath.Join(a.Dir, "bin", "ed"))
	remote := filepath.Join(a.Dir, "remote.bp")
	auto := "false"
	if db == "auto" {
		auto = "true"
	}
	log := append(shLog(), mkTxs(5000, Ent{uid(9), []string{"name", "r", "url", "file://" + remote, "sync", auto}})...)
	rlog := append(append([]txlogs.Tx{}, log...), mkTxs(7000, Ent{uid(8), []string{"name", "far", "k", "v"}})...)
	rlog = append(rlog, txlogs.Tx{Time: 7500, Kind: txlogs.TxSetKey, UUID: uid(2), Key: "name", Value: "away"}, txlogs.Tx{Time: 7600, Kind: txlogs.TxDelete, UUID: uid(3)})
	user, pass := "", "pw"
	switch db {
	case "multi":
		_, full := a.putUsers(shUsers, shMaster, log)
		rlog = append(append([]txlogs.Tx{}, full...), rlog[len(log):]...)
		user, pass = "u1", "p1"
		os.WriteFile(remote, ref.File{Users: shUsers, Master: shMaster, Payload: payloadOf(rlog, len(rlog))}.Encode(ref.StubKDF), 0o600)
	case "empty":
		a.put(pass, nil)
	case "new":
	default:
		a.put(pass, log)
		os.WriteFile(remote, ref.File{Pass: pass, Payload: payloadOf(rlog, len(rlog))}.Encode(ref.StubKDF), 0o600)
	}
	s := a.Start()
	s.Open(user, pass)
	if db == "new" {
		s.Send(pass)
	}
	for n := 0; !s.Cur.Main() && n < 5 && s.Cur.Kind != "exit"; n++ {
		s.Send("y")
	}
	s.Check(s.Cur.Main(), "not open: %v", s.Cur)
	return a, s
}

// cpAnswer is answer with Tab at every question.
func cpAnswer(s *Sess, l ShLine) {
	s.Send(l.L)
	for n := 0; !s.Cur.Main() && s.Cur.Kind != "exit"; n++ {
		s.Tab("show ")
		v := ctrlD
		if n < len(l.A) {
			v = l.A[n]
		}
		s.Check(n < 60, "%q never comes back", l.L)
		s.Send(v)
	}
}

func runCpHist(x *core.X, c CpHistCase) {
	_, s := cpStart(x, c.DB)
	for i := 0; i <= len(c.Ops); i++ {
		if i > 0 {
			if c.Mid>>(i-1)&1 == 1 {
				cpAnswer(s, c.Ops[i-1])
			} else {
				answer(s, c.Ops[i-1])
			}
			if s.Cur.Kind == "exit" {
				break
			}
		}
		if i < c.Skip {
			continue
		}
		s.Out()
		lines := []string{"show ", "cd a", "rm ", "set ab p", "u", "sync r", "mv d", "get user/"}
		var got [][]string
		for _, l := range lines {
			got = append(got, s.Tab(l))
		}
		s.Check(s.Out() == "", "completion prints %q", tail(s.All(), 300))
		d := s.Dump()
		names := namesOf(stateOf(x, d.Log))
		for j, l := range lines {
			w := cpWant(names, l)
			s.Check(fmt.Sprintf("%q", cpSet(got[j])) == fmt.Sprintf("%q", w), "Tab after %q offers %q instead of %q; the entries are %q", l, got[j], w, names)
		}
		x.State(fmt.Sprint(names))
	}
	s.NoCrash()
	x.Outcome(s.Cur.Kind)
}

// CpAnyCase is a session with Tab at every question, compared to the same without.
type CpAnyCase struct {
	DB   string   `json:"db"`
	Line string   `json:"line"`
	Ans  []string `json:"ans"`           // answers
	Cut  int      `json:"cut,omitempty"` // -1 or the question at which How happens instead
	How  string   `json:"how,omitempty"`
	Then []string `json:"then,omitempty"`
}

var cpTimes = regexp.MustCompile(`\d{9,}|\d{4}-\d\d-\d\d[ T]\d\d:\d\d:\d\d|\d\d:\d\d:\d\d`)

var cpPaths = regexp.MustCompile(`\([^ ()]*vault\.bp\)`)

// cpNew are the new passwords of users: who gets which is arbitrary
var cpNew = regexp.MustCompile(`(?m)^u\d: .{32}$`)

type cpRun struct {
	story []string
	end   string
	state string
	saved string
	files []string
	clips []string
	hist  []string
}

// cpGo is one of the two sessions.
func cpGo(x *core.X, c CpAnyCase, tab bool) (r cpRun, names []string) {
	a := newApp(x).WithClip()
	a.Script("ed", "#!/bin/sh\necho edited > \"$1\"\n")
	a.Script("xdg-open", "#!/bin/sh\nexit 0\n")
	rnd := filepath.Join(a.Dir, "rnd")
	os.WriteFile(rnd, ref.Fill("rnd", 1<<18), 0o644)
	a.Env = append(a.Env, "EDITOR="+filepath.Join(a.Dir, "bin", "ed"), "VERIF_RAND="+rnd)
	remote := filepath.Join(a.Dir, "remote.bp")
	clean := func(t string) string {
		return cpNew.ReplaceAllString(cpTimes.ReplaceAllString(cpPaths.ReplaceAllString(strings.ReplaceAll(t, a.Dir, "DIR"), "(FILE)"), "TIME"), "USER: PASS")
	}
	log := append(shLog(), mkTxs(5000, Ent{uid(9), []string{"name", "r", "url", "file://" + remote, "sync", "false"}})...)
	user, pass := "", "pw"
	users := []ref.FileUser(nil)
	if c.DB == "multi" {
		users = shUsers
		var ue []Ent
		for i, u := range users {
			ue = append(ue, userEntry(uid(100+i), u, shMaster))
		}
		log = append(mkTxs(100, ue...), log...)
		user, pass = "u1", "p1"
	}
	enc := func(l []txlogs.Tx) []byte {
		return ref.File{Users: users, Master: shMaster, Pass: pass, Payload: payloadOf(l, len(l))}.Encode(ref.StubKDF)
	}
	// both sides deleted what the other one changed: questions
	a.write(enc(append(append([]txlogs.Tx{}, log...), txlogs.Tx{Time: 6000, Kind: txlogs.TxDelete, UUID: uid(2)}, txlogs.Tx{Time: 6001, Kind: txlogs.TxSetKey, UUID: uid(3), Key: "k", Value: "here"})))
	os.WriteFile(remote, enc(append(append([]txlogs.Tx{}, log...), txlogs.Tx{Time: 7000, Kind: txlogs.TxSetKey, UUID: uid(2), Key: "k", Value: "there"}, txlogs.Tx{Time: 7600, Kind: txlogs.TxDelete, UUID: uid(3)})), 0o600)
	names = namesOf(stateOf(x, log))
	s := a.Start()
	tabs := func(open bool) {
		if !tab || s.Cur.Kind == "exit" {
			return
		}
		for _, l := range []string{"", "s", "show ", "show a", "set ab ", "cp a p", "rm ", "zz ", "user ", "\x00"} {
			got := s.Tab(l)
			if !open {
				for _, g := range got {
					for _, n := range names {
						s.Check(g != n+" ", "an entry's name is offered before the file is open: %q", got)
					}
				}
			}
		}
	}
	tabs(false)
	if user != "" {
		s.Send(user)
		tabs(false)
	}
	s.Send(pass)
	note := func() {
		r.story = append(r.story, clean(s.Out()), clean(s.Cur.Kind+" "+s.Cur.Text))
	}
	note()
	n := 0
	for _, l := range append([]string{c.Line}, c.Then...) {
		if s.Cur.Kind == "exit" {
			break
		}
		s.Check(s.Cur.Main(), "not at the prompt: %v", s.Cur)
		tabs(true)
		s.Send(l)
		note()
		for k := 0; !s.Cur.Main() && s.Cur.Kind != "exit" && k < 40; k++ {
			v := ctrlD
			if l == c.Line && n < len(c.Ans) {
				v = c.Ans[n]
				if n == c.Cut && c.How != "" {
					v = c.How
				}
			}
			n++
			tabs(true)
			s.Send(v)
			note()
		}
	}
	s.NoCrash()
	if s.Cur.Main() {
		r.state = clean(cpState(x, s.Dump().Log))
		r.hist = s.Hist()
		s.Send("exit")
		note()
	}
	r.end = fmt.Sprint(s.Cur.Kind, s.Code)
	if b := a.bytes(); b != nil {
		for _, p := range []string{pass, "np"} {
			if _, d, err := readFile(b, user, p); err == nil {
				r.saved = p + " " + clean(cpState(x, d.Log))
			}
		}
	}
	r.clips = a.Clips()
	for _, f := range keysOf(scFiles(a.Dir)) {
		r.files = append(r.files, clean(f))
	}
	return r, names
}

func cpState(x *core.X, l []txlogs.Tx) string {
	st := stateOf(x, l)
	for _, e := range st { // which user gets which random bytes is arbitrary
		for _, k := range []string{"salt", "iv", "mkey"} {
			if _, ok := e[k]; ok {
				e[k] = "RANDOM"
			}
		}
	}
	return fmt.Sprintf("%d changes: %s", len(l), byName(st).Show())
}

func runCpAny(x *core.X, c CpAnyCase) {
	p, _ := cpGo(x, c, false)
	q, _ := cpGo(x, c, true)
	same := func(what string, a, b any) {
		x.Check(fmt.Sprintf("%q", a) == fmt.Sprintf("%q", b), "%q answered %q (cut at %d by %q): with Tab pressed at every question %s\n%q\ninstead of\n%q", c.Line, c.Ans, c.Cut, c.How, what, b, a)
	}
	same("the session goes", p.story, q.story)
	same("it ends", p.end, q.end)
	same("the database is", p.state, q.state)
	same("the file has", p.saved, q.saved)
	same("there are the files", p.files, q.files)
	same("the clipboard gets", p.clips, q.clips)
	same("the line history is", p.hist, q.hist)
	x.State(q.state)
	x.Outcome(q.end)
}

// CpPastCase is a read-only session at a past time.
type CpPastCase struct {
	Sec  int64 `json:"sec"`
	Snap int   `json:"snap"` // of the stored snapshot
	Mult bool  `json:"multi,omitempty"`
}

func cpPastLog() []txlogs.Tx {
	T := func(sec int64, k txlogs.TxKind, u int, key, v string) txlogs.Tx {
		return txlogs.Tx{Time: sec * 1e9, Kind: k, UUID: uid(u), Key: key, Value: v}
	}
	return []txlogs.Tx{
		T(1, txlogs.TxAdd, 1, "", ""), T(1, txlogs.TxSetKey, 1, "name", "a"),
		T(2, txlogs.TxAdd, 2, "", ""), T(2, txlogs.TxSetKey, 2, "name", "ab"),
		T(3, txlogs.TxSetKey, 1, "name", "b"),
		T(4, txlogs.TxDelete, 2, "", ""),
		T(5, txlogs.TxAdd, 3, "", ""), T(5, txlogs.TxSetKey, 3, "name", "a"),
		T(6, txlogs.TxSetKey, 3, "pass", "secret"), T(6, txlogs.TxDelete, 1, "", ""),
		T(7, txlogs.TxSetKey, 3, "name", "c/a"),
	}
}

func runCpPast(x *core.X, c CpPastCase) {
	a := newApp(x)
	log := cpPastLog()
	user, pass := "", "pw"
	f := ref.File{Pass: pass, Payload: payloadOf(log, c.Snap)}
	if c.Mult {
		var ue []Ent
		for i, u := range shUsers {
			ue = append(ue, userEntry(uid(100+i), u, shMaster))
		}
		log = append(mkTxs(100, ue...), log...)
		f = ref.File{Users: shUsers, Master: shMaster, Payload: payloadOf(log, min(len(log), c.Snap*2))}
		user, pass = "u2", "p2"
	}
	a.write(f.Encode(ref.StubKDF))
	n := 0
	for n < len(log) && log[n].Time <= c.Sec*1e9 {
		n++
	}
	names := namesOf(stateOf(x, log[:n]))
	a.Args = append(a.Args, "-t", time.Unix(c.Sec, 0).UTC().Format("2006-01-02 15:04:05"))
	s := a.Start().MustOpen(user, pass)
	all := func() {
		for _, l := range []string{"show ", "show a", "cd ", "get b", "rm ", "sync c", "set a", "", "user user/u"} {
			cpTab(s, names, l)
		}
		s.Check(s.Out() == "", "completion prints %q", tail(s.All(), 300))
	}
	all()
	for _, l := range []string{"ls", "cd a", "show a", "rm a", "add n", "mv b c", "cd", "labels"} {
		answer(s, ShLine{L: l, A: []string{"y", "y"}})
		all()
	}
	s.MustExit()
	x.State(fmt.Sprint(names))
	x.Outcome(fmt.Sprint(len(names)))
}

func init() {
	lines := core.NewFamily("C36", "lines", runCpLines)
	hist := core.NewFamily("C36", "after changes", runCpHist)
	anyw := core.NewFamily("C36", "anywhere", runCpAny)
	past := core.NewFamily("C36", "past", runCpPast)
	core.Register(&core.Check{
		ID: "C36", Level: "model_checking",
		Rule:        "one execution is a session of the real program in which Tab is pressed; what is offered is compared with the original library's completion over the names in the replayed history, or the whole session is compared with the same one without Tab; state = database content",
		Assumptions: []string{"the completion code of the line editor library is the original's; its display of several candidates is not run"},
		Run: func(ctx *core.Ctx) {
			sets := [][]string{nil, {"a"}, {"a", "ab", "b/c", "Z\u00e9 x"}, {"git", "GIT", "git/x", "gi"}, {"a b", "a", "a  b"}, {"user", "pass", "show"}, {"\u00f6", "\u00f6\u00e4", "\u65e5\u672c"}}
			var many []string
			for i := 0; i < 120; i++ {
				many = append(many, fmt.Sprintf("n%d", i))
			}
			cmds := append(append(append([]string{}, cpPlain...), cpEntry...), cpKeyed...)
			cmds = append(cmds, "login", "dump", "dumpall", "rekeyall", "bogus", "RM", "s", "c", "")
			lines.Explore(ctx, fmt.Sprintf("%d commands over %d sets of names: every prefix of every name and key", len(cmds), 2*len(sets)+1), func(y func(CpLineCase) bool) {
				for _, c := range cmds {
					for _, n := range sets {
						for _, m := range []bool{false, true} {
							if !y(CpLineCase{n, c, m}) {
								return
							}
						}
					}
					if (c == "set" || c == "rm" || ctx.Thorough()) && !y(CpLineCase{many, c, false}) {
						return
					}
				}
			})
			ops := []ShLine{
				{L: "add c", A: []string{"", "", "y"}},
				{L: "add c", A: []string{"m@x"}}, // given up
				{L: "add e", A: []string{"m@x", ""}},
				{L: "add f", A: []string{"", "u", "y"}},
				{L: "add ab", A: []string{"", "", "y"}},
				{L: "rm a", A: []string{"a"}},
				{L: "rm b/c", A: []string{"no"}},
				{L: "mv a d"},
				{L: "mv ab a"},
				{L: "mv b/c user/x"},
				{L: "cd ab"},
				{L: "set a k v"},
				{L: "sync r", A: []string{"y", "y"}},
				{L: "adduser u1", A: []string{"np", "np"}},
				{L: "addsync file", A: []string{"/nowhere"}},
				{L: "rekey"},
			}
			for n := 0; n <= ctx.Pick(2, 3); n++ {
				hist.Explore(ctx, fmt.Sprintf("all sequences of %d out of %d lines on 5 start states (single, multi, empty, new, one merging a remote at the start), Tab after each or at the end, and at every question of every subset of the lines", n, len(ops)), func(y func(CpHistCase) bool) {
					for _, db := range []string{"single", "multi", "empty", "auto", "new"} {
						for _, q := range exactly(len(ops), n) {
							var o []ShLine
							for _, i := range q {
								o = append(o, ops[i])
							}
							if !y(CpHistCase{DB: db, Ops: o}) {
								return
							}
							if n > 0 && !y(CpHistCase{DB: db, Ops: o, Skip: n}) { // first Tab at the end
								return
							}
							for m := 1; m < 1<<n; m++ {
								if m == 1<<n-1 && !y(CpHistCase{DB: db, Ops: o, Mid: m}) {
									return
								}
								if (ctx.Thorough() || db == "single" || db == "multi") && !y(CpHistCase{DB: db, Ops: o, Skip: n, Mid: m}) {
									return
								}
							}
						}
					}
				})
			}
			type script struct {
				l string
				a []string
			}
			scripts := []script{
				{"add x", []string{"m@x", "us", "n", "m", "pp", "pp"}}, {"add x", []string{"", "us", "y"}}, {"add a", nil},
				{"addsync scp", []string{"us", "127.0.0.1", "1", "d", "1"}}, {"addsync scp", []string{"us", "127.0.0.1", "1", "d", "3", "pp", "pp"}}, {"addsync file", []string{"d"}},
				{"rm a", []string{"a"}}, {"rm a", []string{"no"}}, {"rm b/c", []string{"b/c"}},
				{"set a notes", []string{"l1", "", "l2", "."}}, {"set a pass", []string{"y"}}, {"set a k v", nil}, {"edit a notes", nil},
				{"label a", []string{"x", "y", ""}}, {"rmlabel a l1", nil}, {"rmk a user", nil}, {"mv a z", nil},
				{"passwd", []string{"np", "np"}}, {"rekey", nil}, {"rekeyall", []string{"y", "y"}}, {"adduser u1", []string{"np", "np"}}, {"adduser u3", []string{"np", "np"}},
				{"sync r", []string{"y", "n"}}, {"sync r", []string{"n", "y"}}, {"sync", []string{"y"}}, {"cp a pass", nil}, {"login a", []string{"", "", ""}}, {"show a", nil}, {"cd a", nil}, {"exit", nil}, {"bogus", nil}, {"", nil},
			}
			thens := [][]string{{"ls"}}
			if ctx.Thorough() {
				thens = append(thens, []string{"add x", "show a"}, []string{"mv a q", "rm ab"})
			}
			anyw.Explore(ctx, fmt.Sprintf("%d commands, given up at every question by the end of input or an interrupt, on a single- and a multi-user file", len(scripts)), func(y func(CpAnyCase) bool) {
				for _, sc := range scripts {
					for _, db := range []string{"single", "multi"} {
						for _, th := range thens {
							if !y(CpAnyCase{DB: db, Line: sc.l, Ans: sc.a, Cut: -1, Then: th}) {
								return
							}
							for k := range sc.a {
								for _, h := range []string{ctrlD, ctrlC, termErr} {
									if !y(CpAnyCase{db, sc.l, sc.a, k, h, th}) {
										return
									}
								}
							}
						}
					}
				}
			})
			past.Explore(ctx, "a read-only session at every second of a history, for every stored snapshot", func(y func(CpPastCase) bool) {
				for sec := int64(0); sec <= 8; sec++ {
					for v := -1; v <= len(cpPastLog()); v++ {
						for _, m := range []bool{false, true} {
							if !y(CpPastCase{sec, v, m}) {
								return
							}
						}
					}
				}
			})
		},
	})
}
