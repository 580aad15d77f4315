package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/txlogs"
)

// cred opens a file.
type cred struct{ user, pass string }

// answer types a line and answers its questions; when the answers run out it ends the question.
func answer(s *Sess, l ShLine) string {
	s.Check(s.Cur.Main(), "not at the prompt: %v", s.Cur)
	s.Out()
	s.Send(l.L)
	for n := 0; !s.Cur.Main() && s.Cur.Kind != "exit"; n++ {
		v := ctrlD
		if n < len(l.A) {
			v = l.A[n]
		}
		s.Check(n < 60, "%q never comes back", l.L)
		s.Send(v)
	}
	s.NoCrash()
	return s.Out()
}

// ---------------------------------------------------------------------------------------------
// C19

// seOps are commands of a session; the last two change the credentials.
func seOps() []ShLine {
	return []ShLine{
		{L: "add c", A: []string{"", "u", "m", "p", "p"}},
		{L: "mv a d"},
		{L: "rm a", A: []string{"a"}},
		{L: "set a user v \u00e9\t\"\\x"},
		{L: "set a notes", A: []string{"x", "", "y", "."}},
		{L: "set a totp JBSWY3DPEHPK3PXP"},
		{L: "rmk a user"},
		{L: "label a", A: []string{"x", ""}},
		{L: "rmlabel a l1"},
		{L: "edit a k"},
		{L: "show a"},
		{L: "rm ab", A: []string{ctrlD}},
		{L: "add q", A: []string{"e", ctrlD}},
		{L: "set a name x"},
		{L: "adduser me", A: []string{"m", "mp", "mp"}},
		{L: "passwd", A: []string{"m", "np", "np"}},
		{L: "rekey"},
	}
}

var seEnds = []string{"exit", ctrlD, ctrlC, termErr, "kill", "term", "add q" + ctrlC, "add q" + termErr, "passwd kill"}

// SeCase is a chain of sessions.
type SeCase struct {
	Start string   `json:"start"`
	Ops   [][]int  `json:"ops,omitempty"`
	Ends  []string `json:"ends,omitempty"`
	Read  string   `json:"read,omitempty"` // one session of a reading command instead
}

// seRead runs a reading command on every entry and ends the session.
func seRead(x *core.X, a *App, cr cred, log []txlogs.Tx, cmd string) {
	s := a.Start().MustOpen(cr.user, cr.pass)
	check := func(l string) {
		d := s.Dump()
		s.Check(ref.EqualLogs(d.Log, log), "%q changed the history", l)
		s.Check(int(d.Version) <= len(d.Log) && ref.Same(d.Snapshot, stateOf(x, d.Log[:d.Version])), "%q: what is shown is not the replayed log:\n%v", l, d.Snapshot)
	}
	check("opening")
	run := func(l string) {
		answer(s, ShLine{L: l, A: []string{"", "", ""}})
		if s.Cur.Kind == "exit" {
			s.Fail("%q ended the session", l)
		}
		check(l)
	}
	name, arg, _ := strings.Cut(cmd, " ")
	if name == "ls" || name == "labels" || name == "help" {
		run(cmd)
	} else {
		names := sorted(byNameKeys(log))
		for _, n := range names {
			run(strings.TrimSpace(name + " " + n + " " + arg))
		}
		for _, n := range names {
			run("cd " + n)
			if s.Cur.Where() != "" && name != "cd" {
				run(cmd)
			}
			run("cd")
		}
	}
	x.State(cmd)
	x.Outcome("read")
	s.MustExit()
	_, st, err := readFile(a.bytes(), cr.user, cr.pass)
	s.Check(err == nil && ref.EqualLogs(st.Log, log), "the file has another history")
	s.Check(int(st.Version) <= len(st.Log) && ref.Same(st.Snapshot, stateOf(x, st.Log[:st.Version])), "the saved snapshot is not the replayed log:\n%v", st.Snapshot)
}

func byNameKeys(log []txlogs.Tx) (l []string) {
	seen := map[string]bool{}
	for _, t := range log {
		if t.Key == "name" && !seen[t.Value] {
			seen[t.Value] = true
			l = append(l, t.Value)
		}
	}
	return l
}

func runSession(x *core.X, c SeCase) {
	a := newApp(x)
	a.Script("ed", "#!/bin/sh\nprintf 'edited\\n%%s' 'x' > \"$1\"\n")
	a.Env = append(a.Env, "EDITOR="+filepath.Join(a.Dir, "bin", "ed"))
	cr := cred{"", "pw"}
	var log []txlogs.Tx
	switch c.Start {
	case "single":
		log = shLog()
		a.put("pw", log)
	case "wide11", "wide129", "wide257", "wide1025", "wide4097":
		n, _ := strconv.Atoi(c.Start[4:])
		log = append(shLog(), shWide(n)...)
		a.put("pw", log)
	case "nosnap": // saved without a snapshot
		log = shLog()
		a.write(ref.File{Pass: "pw", Payload: payloadOf(log, -1)}.Encode(ref.StubKDF))
	case "rich", "odd":
		log = shRich()
		if c.Start == "odd" { // what no session of today writes
			log = append(log, mkTxs(3000, Ent{uid(6), []string{"name", "o", "totp", "nonsense", "labels", ",,", "updated", "soon"}}, Ent{uid(8), []string{"name", "o/p", "totp", "", "updated", "", "sync", "yes", "knownhosts", "\n"}})...)
		}
		a.put("pw", log)
	case "oldsnap": // saved with an older one
		log = shLog()
		a.write(ref.File{Pass: "pw", Payload: payloadOf(log, 5)}.Encode(ref.StubKDF))
	case "empty":
		a.write(ref.File{Pass: "pw", Payload: []byte("{}")}.Encode(ref.StubKDF))
	case "multi":
		_, log = a.putUsers(shUsers, shMaster, shLog())
		cr = cred{"u1", "p1"}
	}
	ops := seOps()
	if c.Read != "" {
		seRead(x, a, cr, log, c.Read)
		return
	}
	for i, list := range c.Ops {
		before := a.bytes()
		s := a.Start()
		if before == nil {
			s.Open("", cr.pass)
			s.Check(s.Cur.Kind == "hidden", "no verification of the new passphrase")
			s.Send(cr.pass)
			s.Check(s.Cur.Main(), "new file can not be opened: %v", s.Cur)
		} else {
			s.MustOpen(cr.user, cr.pass)
		}
		d := s.Dump()
		s.Check(ref.EqualLogs(d.Log, log), "opening shows\n%s\ninstead of\n%s", ref.ShowLog(d.Log), ref.ShowLog(log))
		s.Check(ref.Same(d.Snapshot, stateOf(x, d.Log[:min(int(d.Version), len(d.Log))])), "the snapshot is not the replayed log")
		ncr := cr
		for _, o := range list {
			out := answer(s, ops[o])
			s.Check(s.Cur.Main(), "%q ended the session", ops[o].L)
			switch ops[o].L {
			case "adduser me":
				if ncr.user == "" {
					ncr.user = "me"
				}
			case "passwd":
				ncr.pass = "np"
				_ = out
			}
		}
		d = s.Dump()
		s.Check(len(d.Log) >= len(log) && ref.EqualLogs(d.Log[:len(log)], log), "history was rewritten")
		want := stateOf(x, d.Log)
		end := c.Ends[i]
		save := false
		switch end {
		case "exit", ctrlD:
			save = true
			s.Send(end)
		case ctrlC, termErr:
			s.Send(end)
		case "kill":
			s.Kill()
		case "term":
			syscall.Kill(s.cmd.Process.Pid, syscall.SIGTERM)
			s.next()
		case "passwd kill":
			s.Send("passwd")
			s.Check(!s.Cur.Main(), "passwd asks nothing")
			s.Send("m")
			s.Send("zz")
			s.Kill()
		default:
			s.Send("add q")
			s.Check(!s.Cur.Main(), "add asks nothing")
			s.Send(strings.TrimPrefix(end, "add q"))
			if s.Cur.Main() { // the question ended, not the session
				s.Send(ctrlC)
			}
		}
		s.Check(s.Cur.Kind == "exit", "%q does not end the session but asks %v", end, s.Cur)
		now := a.bytes()
		if !save {
			s.Check(s.Code != 0, "session ended by %q reports success", end)
			s.Check(string(before) == string(now), "session ended by %q changed the file", end)
			x.Outcome("dropped")
			continue
		}
		s.Check(s.Code == 0, "session ended by %q has status %d", end, s.Code)
		_, st, err := readFile(now, ncr.user, ncr.pass)
		s.Check(err == nil, "the saved file can not be read as %q/%q: %v", ncr.user, ncr.pass, err)
		s.Check(ref.EqualLogs(st.Log, d.Log), "file has\n%s\ninstead of\n%s", ref.ShowLog(st.Log), ref.ShowLog(d.Log))
		s.Check(int(st.Version) <= len(st.Log) && ref.Same(st.Snapshot, stateOf(x, st.Log[:st.Version])), "the saved snapshot is not the replayed log")
		fi, err := os.Stat(a.File)
		s.Check(err == nil && fi.Mode() == 0o600, "mode of the saved file is %v", fi.Mode())
		cr, log = ncr, d.Log
		x.State(want.Show())
		x.Outcome("saved")
	}
	if a.bytes() == nil {
		return
	}
	s := a.Start().MustOpen(cr.user, cr.pass)
	d := s.Dump()
	s.Check(ref.EqualLogs(d.Log, log), "reopening shows\n%s\ninstead of\n%s", ref.ShowLog(d.Log), ref.ShowLog(log))
	s.Check(int(d.Version) <= len(d.Log) && ref.Same(d.Snapshot, stateOf(x, d.Log[:d.Version])), "reopening shows another state")
	s.Kill()
}

// OpCase is an attempt to open what can not be opened.
type OpCase struct {
	File string   `json:"file"`
	A    []string `json:"a"`
}

func runOpenFail(x *core.X, c OpCase) {
	a := newApp(x)
	multi := false
	switch k, arg, _ := strings.Cut(c.File, " "); k {
	case "single":
		a.put("pw", shLog())
	case "multi":
		a.putUsers(shUsers, shMaster, shLog())
		multi = true
	case "none":
	case "dir":
		os.Mkdir(a.File, 0o755)
	case "empty":
		a.write([]byte{})
	case "cut", "flip":
		b := a.put("pw", shLog()[:9])
		n := 0
		fmt.Sscan(arg, &n)
		if n < 0 {
			n += len(b)
		}
		if k == "cut" {
			b = b[:n]
		} else {
			b[n] ^= 4
		}
		a.write(b)
	case "payload":
		a.write(ref.File{Pass: "pw", Payload: []byte(arg)}.Encode(ref.StubKDF))
	}
	var before []byte
	if c.File != "dir" {
		before = a.bytes()
	}
	s := a.Start()
	for _, v := range c.A {
		if s.Cur.Kind == "exit" || s.Cur.Main() {
			break
		}
		s.Send(v)
	}
	_ = multi
	s.NoCrash()
	s.Check(!s.Cur.Main(), "the file was opened")
	if s.Cur.Kind != "exit" {
		s.Send(ctrlC)
	}
	s.Check(s.Cur.Kind == "exit" && s.Code != 0, "failed opening: %v, status %d", s.Cur, s.Code)
	s.Check(strings.TrimSpace(s.All()) != "", "nothing is reported")
	if c.File == "dir" {
		fi, err := os.Stat(a.File)
		s.Check(err == nil && fi.IsDir(), "the directory is gone")
	} else {
		s.Check(string(before) == string(a.bytes()), "failed opening changed the file")
		if before == nil {
			_, err := os.Stat(a.File)
			s.Check(os.IsNotExist(err), "a file was created")
		}
	}
	x.Outcome("refused")
}

func init() {
	fam := core.NewFamily("C19", "sessions", runSession)
	famO := core.NewFamily("C19", "refused openings", runOpenFail)
	core.Register(&core.Check{
		ID: "C19", Level: "model_checking",
		Rule:        "one execution is a chain of sessions of the real program (terminal and key derivation replaced), each opening the file, running commands and ending in one way; the file is read with an independent codec after every end and with the program at the end of the chain; state = database content at an end",
		Assumptions: []string{"what a command does to the running database is checked by C32"},
		Run: func(ctx *core.Ctx) {
			n := len(seOps())
			starts := []string{"single", "new", "multi", "nosnap", "oldsnap", "empty"}
			fam.Explore(ctx, fmt.Sprintf("single sessions: all sequences of up to %d of %d commands, %d ways to end, %d start files", 2, n, len(seEnds), len(starts)), func(y func(SeCase) bool) {
				for d := 0; d <= 2; d++ {
					for _, seq := range intSeqs(n, d) {
						for _, st := range starts {
							for _, e := range seEnds {
								if d == 2 && !ctx.Thorough() && (st != "single" && st != "multi" || e != "exit" && e != ctrlC) {
									continue
								}
								if !y(SeCase{Start: st, Ops: [][]int{seq}, Ends: []string{e}}) {
									return
								}
							}
						}
					}
				}
			})
			k := ctx.Pick(2, 3)
			fam.Explore(ctx, fmt.Sprintf("chains of %d sessions with up to one of %d commands, each saved or interrupted", k, n), func(y func(SeCase) bool) {
				var rec func(st string, ops [][]int, ends []string) bool
				rec = func(st string, ops [][]int, ends []string) bool {
					if len(ops) == k {
						return y(SeCase{Start: st, Ops: append([][]int{}, ops...), Ends: append([]string{}, ends...)})
					}
					for o := -1; o < n; o++ {
						l := []int{}
						if o >= 0 {
							l = append(l, o)
						}
						for _, e := range []string{"exit", ctrlC} {
							if e == ctrlC && len(ops) == k-1 {
								continue
							}
							if !rec(st, append(ops, l), append(ends, e)) {
								return false
							}
						}
					}
					return true
				}
				for _, st := range []string{"single", "new", "multi"} {
					if !rec(st, nil, nil) {
						return
					}
				}
			})
			fam.Explore(ctx, "sessions of one reading command on every entry, from the root and from within, ended and read back; databases with ordinary, unusual and malformed entries, with users, with an old snapshot and with none", func(y func(SeCase) bool) {
				cmds := []string{"show", "dump", "login", "open", "user", "email", "pass", "totp", "cd", "ls", "labels", "labels x", "labels l1", "ls a", "ls /", "help", "dumpall"}
				for i := -1; i <= 8; i++ {
					cmds = append(cmds, fmt.Sprintf("show %d", i))
				}
				for _, k := range []string{"user", "email", "pass", "totp", "labels", "notes", "name", "updated", "url", "sync", "mkey", "nothing"} {
					cmds = append(cmds, "get "+k, "cp "+k)
				}
				for i := -1; i <= 4; i++ {
					cmds = append(cmds, fmt.Sprintf("get user %d", i))
				}
				for _, st := range []string{"single", "rich", "odd", "multi", "nosnap", "oldsnap"} {
					for _, c := range cmds {
						if !y(SeCase{Start: st, Read: c}) {
							return
						}
					}
				}
			})
			fam.Explore(ctx, "large files (up to 1025, thorough 4097 entries, keys, labels, writes of one key): every command, every end, then a second session", func(y func(SeCase) bool) {
				for _, st := range []string{"wide11", "wide129", "wide257", "wide1025", "wide4097"} {
					if st == "wide4097" && !ctx.Thorough() {
						continue
					}
					for o := range seOps() {
						for i, e := range seEnds {
							if i > 0 && o%6 != i%6 && !ctx.Thorough() {
								continue
							}
							if !y(SeCase{Start: st, Ops: [][]int{{o}, {0}}, Ends: []string{e, "exit"}}) {
								return
							}
						}
					}
				}
			})
			famO.Explore(ctx, "openings that must fail: wrong, empty, aborted credentials, damaged and foreign files", func(y func(OpCase) bool) {
				special := []string{"", " ", "pw ", "PW", "pw2", ctrlD, ctrlC, termErr}
				for _, p := range special {
					if !y(OpCase{"single", []string{p}}) {
						return
					}
				}
				for _, u := range []string{"u1", "u2", "U1", "", "zz", ctrlD, ctrlC, termErr} {
					for _, p := range append(special, "p1", "p2") {
						if u+p == "u1p1" || u+p == "u2p2" {
							continue
						}
						if !y(OpCase{"multi", []string{u, p}}) {
							return
						}
					}
				}
				for _, p := range [][]string{{""}, {ctrlD}, {ctrlC}, {termErr}, {"a", "b"}, {"a", ""}, {"a", ctrlD}, {"a", ctrlC}, {"a", termErr}} {
					if !y(OpCase{"none", p}) {
						return
					}
				}
				for _, f := range []string{"dir", "empty", "cut 0", "cut 1", "cut 4", "cut 5", "cut 16", "cut 48", "cut 100", "cut -1", "cut -17", "flip 0", "flip 1", "flip 4", "flip 6", "flip 17", "flip 47", "flip 60", "flip -1", "flip -40",
					"payload {", "payload []", "payload x", `payload {"log":5}`} {
					if !y(OpCase{f, []string{"pw", "pw", "pw"}}) {
						return
					}
				}
			})
		},
	})
}

// intSeqs are all sequences of d numbers below n.
func intSeqs(n, d int) [][]int {
	if d == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, s := range intSeqs(n, d-1) {
		for i := 0; i < n; i++ {
			out = append(out, append(append([]int{}, s...), i))
		}
	}
	return out
}

// ---------------------------------------------------------------------------------------------
// C21

// HistCase opens a file at a past time.
type HistCase struct {
	Start string `json:"start"` // single, multi
	Snap  int    `json:"snap"`  // version of the snapshot in the file
	Log   int    `json:"log"`   // which history
	T     string `json:"t"`
	Type  bool   `json:"type"` // type every command
	End   string `json:"end"`
	Zone  string `json:"zone,omitempty"`
}

const histLayout = "2006-01-02 15:04:05"

func histBase() time.Time { return time.Date(2020, 2, 28, 23, 59, 58, 0, time.UTC) }

// histLog has changes on, just before and just after second boundaries.
func histLog(variant int, remote string) []txlogs.Tx {
	b := histBase().UnixNano()
	s := int64(time.Second)
	at := func(sec, ns int64) int64 { return b + sec*s + ns }
	a, c, sy := uid(1), uid(2), uid(3)
	set := func(t int64, id, k, v string) txlogs.Tx {
		return txlogs.Tx{Time: t, Kind: txlogs.TxSetKey, UUID: id, Key: k, Value: v}
	}
	l := []txlogs.Tx{
		{Time: at(0, 0), Kind: txlogs.TxAdd, UUID: a}, set(at(0, 0), a, "updated", "5"), set(at(0, 0), a, "name", "a"),
		set(at(0, 1), a, "k", "v1"),
		set(at(1, -1), a, "k", "v2"),
		set(at(1, 0), a, "k", "v3"), set(at(1, 0), a, "labels", "l"),
		set(at(1, 1), a, "k", "v4"),
		{Time: at(2, 0), Kind: txlogs.TxAdd, UUID: c}, set(at(2, 0), c, "updated", "6"), set(at(2, 0), c, "name", "c"),
		{Time: at(3, 0), Kind: txlogs.TxDeleteKey, UUID: a, Key: "k"},
		{Time: at(4, 999999999), Kind: txlogs.TxDelete, UUID: c},
		set(at(6, 0), a, "name", "a2"),
		{Time: at(8, 0), Kind: txlogs.TxDelete, UUID: a},
	}
	if variant == 1 { // everything at one time
		for i := range l {
			l[i].Time = at(1, 0)
		}
	}
	if variant == 3 { // an entry is being created when a second begins
		e := uid(4)
		l = append(append(append([]txlogs.Tx{}, l[:8]...), txlogs.Tx{Time: at(2, -2), Kind: txlogs.TxAdd, UUID: e}, set(at(2, -1), e, "updated", "7")), l[8:]...)
		l = append(append(append([]txlogs.Tx{}, l[:13]...), set(at(2, 1), e, "name", "e")), l[13:]...)
	}
	if variant == 2 { // with a remote that is synchronised automatically
		l = append([]txlogs.Tx{{Time: at(0, 0), Kind: txlogs.TxAdd, UUID: sy}, set(at(0, 0), sy, "updated", "5"), set(at(0, 0), sy, "name", "sync/r"), set(at(0, 0), sy, "sync", "true"), set(at(0, 0), sy, "url", "file://"+remote)}, l...)
	}
	return l
}

// watch reports whether a file has been touched.
func watch(x *core.X, path string) func() bool {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		core.Harness("inotify: %v", err)
	}
	x.Defer(func() { syscall.Close(fd) })
	if _, err := syscall.InotifyAddWatch(fd, path, syscall.IN_OPEN|syscall.IN_MODIFY|syscall.IN_ATTRIB|syscall.IN_MOVE_SELF|syscall.IN_DELETE_SELF); err != nil {
		core.Harness("inotify: %v", err)
	}
	return func() bool {
		b := make([]byte, 4096)
		n, _ := syscall.Read(fd, b)
		return n > 0
	}
}

var histWrites = []string{"add x", "mv a b", "rm a", "rm a2", "rmk a k", "set a k v", "set a pass", "edit a k", "label a", "rmlabel a l", "passwd", "adduser x", "rekey", "rekeyall", "sync", "sync sync/r", "addsync file", "passwd u1", "rekey u2", "set a totp JBSWY3DPEHPK3PXP"}

func runHistory(x *core.X, c HistCase) {
	a := newApp(x)
	a.Script("ed", "#!/bin/sh\necho edited > \"$1\"\n")
	a.Env = append(a.Env, "EDITOR="+filepath.Join(a.Dir, "bin", "ed"))
	remote := filepath.Join(a.Dir, "remote")
	if err := os.WriteFile(remote, ref.File{Pass: "pw", Payload: payloadOf(shLog(), 3)}.Encode(ref.StubKDF), 0o600); err != nil {
		core.Harness("%v", err)
	}
	if c.Zone != "" {
		a.Env = append(a.Env, "TZ="+c.Zone)
	}
	log := histLog(c.Log, remote)
	cr := cred{"", "pw"}
	if c.Start == "multi" {
		cr = cred{"u1", "p1"}
		_, log = a.putUsers(shUsers, shMaster, log)
	}
	snap := c.Snap
	if snap > len(log) {
		snap = len(log)
	}
	f := ref.File{Pass: "pw", Payload: payloadOf(log, snap)}
	if c.Start == "multi" {
		f.Users, f.Master = shUsers, shMaster
	}
	a.write(f.Encode(ref.StubKDF))
	before := a.bytes()
	st0, _ := os.Stat(a.File)
	touched := watch(x, remote)

	T, err := time.Parse(histLayout, c.T)
	if err != nil {
		core.Harness("%v", err)
	}
	n := 0
	for n < len(log) && !time.Unix(0, log[n].Time).After(T) {
		n++
	}
	want := log[:n]
	state := stateOf(x, want)
	a.Args = append(a.Args, "-t", c.T)
	s := a.Start().MustOpen(cr.user, cr.pass)
	same := func(what string) {
		d := s.Dump()
		s.Check(ref.EqualLogs(d.Log, want), "%s: at %s the history is\n%s\ninstead of\n%s", what, c.T, ref.ShowLog(d.Log), ref.ShowLog(want))
		st := stateOf(x, d.Log[:min(int(d.Version), len(d.Log))])
		for u, e := range st { // an entry without a name yet need not be shown
			if _, named := e["name"]; !named && d.Snapshot[u] == nil {
				delete(st, u)
			}
		}
		s.Check(int(d.Version) <= len(d.Log) && ref.Same(d.Snapshot, st), "%s: the snapshot is not the replayed log", what)
	}
	same("opening")
	// what commands show
	var names []string
	for _, e := range state {
		if _, named := e["name"]; !named {
			continue
		}
		names = append(names, e["name"])
		if strings.HasPrefix(e["name"], "a") {
			out := s.Do("show " + e["name"])
			for k, v := range e {
				if k != "updated" {
					s.Check(strings.Contains(out, k+":") && strings.Contains(out, v), "show: no %s %q: %q", k, v, out)
				}
			}
			out, _, _ = s.Cmd("get " + e["name"] + " k")
			if v, ok := e["k"]; ok {
				s.Check(out == v+"\n", "get prints %q instead of %q", out, v)
			} else {
				s.Check(strings.Contains(out, "not set"), "get prints %q", out)
			}
		}
	}
	var got []string
	for _, l := range strings.Split(s.Do("ls"), "\n") {
		if l != "" && !strings.Contains(l, "No entries") {
			got = append(got, l)
		}
	}
	sort.Strings(names)
	sort.Strings(got)
	s.Check(fmt.Sprint(got) == fmt.Sprint(names), "ls shows %q instead of %q", got, names)
	if c.Type {
		for _, l := range histWrites {
			f := strings.Fields(l)
			out := answer(s, ShLine{L: l, A: append(shAnswers(f[0], f[1:]), "y", "y", "/x")})
			s.Check(s.Cur.Main(), "%q ends the session", l)
			s.Check(strings.TrimSpace(out) != "", "%q is not refused", l)
			same(l)
		}
		for _, l := range []string{"cd a", "ls", "labels l", "help", "dump a", "get k", "show 1", "login", "cd", "x", ""} {
			answer(s, ShLine{L: l})
			s.Check(s.Cur.Main(), "%q ends the session", l)
		}
		same("reading")
	}
	s.Send(c.End)
	s.Check(s.Cur.Kind == "exit", "%q does not end the session", c.End)
	s.NoCrash()
	if c.End == "exit" || c.End == ctrlD {
		s.Check(s.Code == 0, "%q ends with status %d", c.End, s.Code)
	}
	s.Check(string(before) == string(a.bytes()), "the file changed")
	st1, err := os.Stat(a.File)
	s.Check(err == nil && os.SameFile(st0, st1) && st0.ModTime().Equal(st1.ModTime()) && st0.Mode() == st1.Mode(), "the file was rewritten")
	s.Check(!touched(), "the remote was contacted")
	x.State(state.Show())
	x.Outcome(fmt.Sprintf("%d of %d changes", n, len(log)))
}

// BadTimeCase is a malformed time.
type BadTimeCase struct {
	T string `json:"t"`
}

func runBadTime(x *core.X, c BadTimeCase) {
	a := newApp(x)
	before := a.put("pw", shLog())
	a.Args = append(a.Args, "-t", c.T)
	s := a.Start()
	s.NoCrash()
	s.Check(s.Cur.Kind == "exit" && s.Code != 0, "time %q is accepted: %v, status %d", c.T, s.Cur, s.Code)
	s.Check(strings.TrimSpace(s.All()) != "", "nothing is reported")
	s.Check(string(before) == string(a.bytes()), "the file changed")
	x.Outcome("refused")
}

func init() {
	fam := core.NewFamily("C21", "past times", runHistory)
	famB := core.NewFamily("C21", "malformed times", runBadTime)
	core.Register(&core.Check{
		ID: "C21", Level: "model_checking",
		Rule:        "one execution opens a file with the real program at one past time, compares everything shown with the replay of the changes up to that time, types modifying commands, ends, and checks the file and a watched remote were not touched; state = database content shown",
		Assumptions: []string{"times of the changes do not decrease along the history"},
		Run: func(ctx *core.Ctx) {
			var ts []string
			for i := -2; i <= 10; i++ {
				ts = append(ts, histBase().Add(time.Duration(i)*time.Second).Format(histLayout))
			}
			ts = append(ts, "0001-01-01 00:00:00", "0001-01-01 00:00:01", "1600-01-01 00:00:00", "1677-09-21 00:12:43", "1969-12-31 23:59:59", "1970-01-01 00:00:00", "2262-04-11 23:47:16", "2262-04-11 23:47:17", "2300-01-01 00:00:00", "2600-01-01 00:00:00", "9999-12-31 23:59:59")
			snaps := func(l int) []int {
				var v []int
				for i := -1; i <= l; i++ {
					v = append(v, i)
				}
				return v
			}
			fam.Explore(ctx, fmt.Sprintf("%d times x every version of the saved snapshot x 4 histories x single and multi user x 4 ends", len(ts)), func(y func(HistCase) bool) {
				for _, st := range []string{"single", "multi"} {
					for lg := 0; lg < 4; lg++ {
						for _, v := range snaps(len(histLog(lg, ""))) {
							if st == "multi" && !ctx.Thorough() && v > 0 && v < 15 {
								continue
							}
							for i, t := range ts {
								ends := []string{"exit", ctrlD, ctrlC, termErr}
								if !ctx.Thorough() {
									ends = ends[i%4 : i%4+1]
								}
								for _, e := range ends {
									if !y(HistCase{Start: st, Snap: v, Log: lg, T: t, End: e}) {
										return
									}
								}
							}
						}
					}
				}
			})
			fam.Explore(ctx, fmt.Sprintf("%d modifying commands typed at every time", len(histWrites)), func(y func(HistCase) bool) {
				for _, st := range []string{"single", "multi"} {
					for lg := 0; lg < 4; lg++ {
						for _, t := range ts {
							for _, e := range []string{"exit", ctrlD, ctrlC, termErr} {
								if !y(HistCase{Start: st, Snap: 99, Log: lg, T: t, Type: true, End: e}) {
									return
								}
							}
						}
					}
				}
			})
			fam.Explore(ctx, "every time in other time zones: times are in UTC everywhere", func(y func(HistCase) bool) {
				for _, z := range []string{"America/St_Johns", "Pacific/Kiritimati", "Etc/GMT+1"} {
					for _, t := range ts {
						if !y(HistCase{Start: "single", Snap: 99, Log: 3, T: t, End: "exit", Zone: z}) {
							return
						}
					}
				}
			})
			famB.Explore(ctx, "malformed times", func(y func(BadTimeCase) bool) {
				for _, t := range []string{"x", " ", "2020", "2020-01-01", "00:00:00", "2020-01-01T00:00:00", "2020-13-01 00:00:00", "2020-02-30 00:00:00", "2020-00-10 00:00:00", "2020-01-01 24:00:00", "2020-01-01 00:60:00", "2020-01-01 00:00:60", "2020-01-01 00:00:00 ", " 2020-01-01 00:00:00", "2020-01-01 00:00:00Z", "2020-01-01 00:00:00 +0100", "20-01-01 00:00:00", "2020/01/01 00:00:00", "2020-1-1 00:00:00", "1577836800", "now", "yesterday", "02020-01-01 00:00:00", "2020-01-01 00:00"} {
					if !y(BadTimeCase{t}) {
						return
					}
				}
			})
		},
	})
}
