package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"bpassmc/core"
	"bpassmc/ref"
)

// ---------------------------------------------------------------------------------------------
// C30: the clipboard

// ClCase is a session that copies.
type ClCase struct {
	Fields []string `json:"fields"`         // key, value, ... of the entry "a"
	Ops    []ShLine `json:"ops"`            // commands
	End    string   `json:"end"`            // how the session ends
	Fail   string   `json:"fail,omitempty"` // fail, dead, missing, or the number of the only copy that works or fails
	Keep   bool     `json:"keep,omitempty"` // --no-clear-clip
	RO     bool     `json:"ro,omitempty"`
	Multi  bool     `json:"multi,omitempty"`
	NoEd   bool     `json:"noed,omitempty"` // the editor fails
}

const clOther = "a value of another entry"

// clWant is what a command puts on the clipboard; "\x00totp" stands for a code.
func clWant(e map[string]string, l ShLine, in bool) (clips []string) {
	f := strings.Fields(l.L)
	arg := f[1:]
	if !in {
		if len(arg) == 0 || arg[0] != "a" {
			return nil
		}
		arg = arg[1:]
	}
	val := func(k string) (string, bool) {
		v, ok := e[k]
		if k == "totp" && ok {
			v = "\x00totp"
		}
		return v, ok
	}
	switch f[0] {
	case "cp":
		if len(arg) > 0 {
			if v, ok := val(arg[0]); ok {
				return []string{v}
			}
		}
	case "user", "email", "pass", "totp":
		if v, ok := val(f[0]); ok {
			return []string{v}
		}
	case "login":
		for _, k := range []string{"user", "email", "pass", "totp"} {
			if v, ok := val(k); ok {
				clips = append(clips, v)
			}
		}
		for i, a := range l.A {
			if (a == ctrlD || a == ctrlC || a == termErr || clSig[a] != 0) && i+1 < len(clips) {
				return clips[:i+1]
			}
		}
	}
	return clips
}

// clSig are signals that come instead of an answer
var clSig = map[string]syscall.Signal{"TERM": syscall.SIGTERM, "HUP": syscall.SIGHUP, "INT": syscall.SIGINT}

func clMatch(got, want string, from, to time.Time) bool {
	if want != "\x00totp" {
		return got == want
	}
	for t := from.Unix(); t <= to.Unix()+1; t++ {
		if got == refTOTP([]byte("Hello!\xde\xad\xbe\xef"), "", 6, 30, t) {
			return true
		}
	}
	return false
}

func runClip(x *core.X, c ClCase) {
	a := newApp(x).WithClip()
	if c.Keep {
		a.Args = append(a.Args, "--no-clear-clip")
	}
	log := mkTxs(1000, Ent{uid(1), append([]string{"name", "a"}, c.Fields...)}, Ent{uid(2), []string{"name", "b", "user", clOther, "pass", clOther, "k", clOther}})
	a.Script("ed", "#!/bin/sh\necho >> \"$1\"\n")
	a.Script("noed", "#!/bin/sh\nexit 1\n")
	a.Env = append(a.Env, "EDITOR="+filepath.Join(a.Dir, "bin", map[bool]string{true: "noed", false: "ed"}[c.NoEd]))
	user, pass := "", "pw"
	if c.Multi {
		_, log = a.putUsers(shUsers, shMaster, log)
		user, pass = "u1", "p1"
	} else {
		a.put("pw", log)
	}
	if c.RO {
		a.Args = append(a.Args, "-t", "2100-01-01 00:00:00")
	}
	works := func(n int) bool { return c.Fail == "" }
	switch c.Fail {
	case "":
	case "fail", "dead":
		a.Env = append(a.Env, "VERIF_CLIP_MODE="+c.Fail)
	case "missing":
		os.Remove(filepath.Join(a.Dir, "bin", "xclip"))
	default: // "-N": the N-th fails
		n := 0
		fmt.Sscan(c.Fail, &n)
		os.Rename(filepath.Join(a.Dir, "bin", "xclip"), filepath.Join(a.Dir, "bin", "xclip.real"))
		a.Script("xclip", fmt.Sprintf("#!/bin/sh\necho >> %[1]s/clip.n\nn=$(/usr/bin/wc -l < %[1]s/clip.n)\n[ $n = %[2]d ] && exit 1\nexec %[1]s/bin/xclip.real\n", a.Dir, -n))
		works = func(k int) bool { return k != -n }
	}
	s := a.Start()
	if c.End == "wrong" {
		s.Open(user, "not it")
		s.Check(s.Cur.Kind == "exit" && s.Code != 0, "opens with a wrong passphrase: %v", s.Cur)
		s.NoCrash()
		for _, g := range a.Clips() {
			s.Check(g == "", "the clipboard gets %q", g)
		}
		return
	}
	s.MustOpen(user, pass)
	if c.RO {
		s.Check(strings.Contains(s.All(), "read-only"), "not opened read-only")
	}
	e := map[string]string{"name": "a"}
	for i := 0; i < len(c.Fields); i += 2 {
		e[c.Fields[i]] = c.Fields[i+1]
	}
	in := false
	copies := 0
	// seen are the clips so far
	seen := a.Clips()
	s.Check(len(seen) == 0, "the clipboard gets %q when opening", seen)
	alive := true
	for _, l := range c.Ops {
		from := time.Now()
		s.Out()
		switch l.L {
		case "cd a", "cd":
			s.Do(l.L)
			in = l.L != "cd"
			continue
		}
		want := clWant(e, l, in)
		if f := strings.Fields(l.L); f[0] == "set" && !in && len(f) > 3 && f[1] == "a" && !c.RO {
			e[f[2]] = f[3]
		}
		s.Send(l.L)
		asked := 0
		for !s.Cur.Main() && s.Cur.Kind != "exit" {
			s.Check(asked < 20, "%q never comes back", l.L)
			// as many are there as were confirmed
			got := a.Clips()
			if c.Fail == "" {
				s.Check(strings.HasPrefix(l.L, "login") && len(got)-len(seen) == asked+1, "%q: %d values were copied after %d confirmations", l.L, len(got)-len(seen), asked)
			}
			v := ""
			if asked < len(l.A) {
				v = l.A[asked]
			}
			asked++
			if clSig[v] != 0 {
				syscall.Kill(s.cmd.Process.Pid, clSig[v])
				s.next()
				s.Check(s.Cur.Kind == "exit", "a signal does not end the session")
				continue
			}
			s.Send(v)
		}
		s.NoCrash()
		got := a.Clips()[len(seen):]
		if s.Cur.Kind == "exit" {
			s.Check(len(l.A) > 0, "%q ended the session", l.L)
			alive = false
			if n := len(got); n > 0 && got[n-1] == "" && !c.Keep {
				got = got[:n-1]
			}
		}
		var rec []string
		for i, w := range want {
			copies++
			if works(copies) && c.Fail != "missing" || c.Fail == "fail" {
				rec = append(rec, want[i])
			}
			_ = w
		}
		ok := len(rec) == len(got)
		for i := range rec {
			ok = ok && clMatch(got[i], rec[i], from, time.Now())
		}
		s.Check(ok, "%q puts %q on the clipboard, want %q", l.L, got, rec)
		if len(want) > 0 && c.Fail != "" {
			bad := false
			for i := range want {
				bad = bad || !works(copies-i)
			}
			if bad {
				s.Check(strings.Contains(strings.ToLower(s.Out()), "fail"), "the failing clipboard is not reported")
			}
		}
		if f := strings.Fields(l.L); len(want) == 0 && (f[0] == "cp" || f[0] == "user" || f[0] == "email" || f[0] == "pass" || f[0] == "totp") {
			s.Check(strings.TrimSpace(s.Out()) != "", "%q does nothing silently", l.L)
		}
		if !alive {
			break
		}
		seen = a.Clips()
		s.Check(s.Cur.Main(), "%q ended the session", l.L)
	}
	saved := false
	exp := log
	if alive {
		exp = s.Dump().Log
		s.Check(len(a.Clips()) == len(seen), "the clipboard was changed by something else")
		switch c.End {
		case "exit", ctrlD:
			saved = !c.RO
			s.Send(c.End)
		case ctrlC, termErr:
			s.Send(c.End)
		case "rm" + ctrlD, "rm" + ctrlC, "rm" + termErr:
			s.Send("rm b")
			s.Send(c.End[2:])
			if s.Cur.Main() {
				saved = !c.RO
				s.Send("exit")
			}
		case "wizard" + ctrlC, "wizard" + ctrlD, "wizard" + termErr:
			s.Send("add zz")
			if s.Cur.Main() { // read-only
				s.Send(ctrlC)
				break
			}
			s.Send("")
			s.Send(c.End[6:])
			if s.Cur.Main() {
				saved = !c.RO
				s.Send("exit")
			}
		case "savefail": // the file's place is taken
			os.Remove(a.File)
			os.Mkdir(a.File, 0o700)
			os.WriteFile(filepath.Join(a.File, "x"), nil, 0o600)
			s.Send("exit")
		case "TERM", "HUP", "INT":
			syscall.Kill(s.cmd.Process.Pid, clSig[c.End])
			s.next()
		}
	}
	s.Check(s.Cur.Kind == "exit", "does not end: %v", s.Cur)
	if !s.cmd.ProcessState.Success() && s.cmd.ProcessState.ExitCode() == 2 {
		s.NoCrash()
	}
	if c.End == "savefail" && alive && !c.RO {
		s.Check(s.Code != 0, "saving failed, but the status is 0")
	}
	if saved && c.Fail == "" {
		s.Check(s.Code == 0, "status %d", s.Code)
	}
	if saved {
		_, d, err := readFile(a.bytes(), user, pass)
		s.Check(err == nil && ref.EqualLogs(d.Log, exp), "the changes are not saved")
	} else if c.End != "savefail" {
		_, d, err := readFile(a.bytes(), user, pass)
		s.Check(err == nil && ref.EqualLogs(d.Log, log), "the file was changed")
	}
	clips := a.Clips()
	x.Outcome(fmt.Sprintf("%s alive=%v", c.End, alive))
	x.State(fmt.Sprint(c.End, c.Fail, len(clips), alive, s.Code))
	if c.Keep {
		if alive {
			s.Check(len(clips) == len(seen), "the clipboard was changed though it should be kept: %q", clips)
		} else if len(clips) > 0 {
			s.Check(clips[len(clips)-1] != "", "the clipboard was cleared though it should be kept")
		}
		return
	}
	if c.Fail == "" || strings.HasPrefix(c.Fail, "-") && works(copies+1) {
		n := len(clips)
		if copies > 0 {
			s.Check(n > 0 && clips[n-1] == "", "the clipboard is not cleared, it has %q", clips)
		} else if n > 0 {
			s.Check(clips[n-1] == "", "the clipboard has %q", clips)
		}
	} else if c.Fail != "" && c.End != "TERM" && c.End != "HUP" && c.End != "INT" && !works(copies+1) {
		s.Check(strings.Contains(s.All(), "lipboard"), "the clipboard could not be cleared silently")
	}
}

func init() {
	fam := core.NewFamily("C30", "copies", runClip)
	core.Register(&core.Check{
		ID: "C30", Level: "fault_enumeration",
		Rule:        "one execution is a session of the real program (terminal and key derivation replaced) with a clipboard stand-in that records all it gets; state = end of the session, failure of the clipboard and number of copies",
		Assumptions: []string{"the clipboard is that of xclip", "the gen subcommand is not a session"},
		Run: func(ctx *core.Ctx) {
			all := [][2]string{{"user", "the user"}, {"email", "m@x"}, {"pass", "p w"}, {"totp", shSecret}}
			ops := []ShLine{{L: "cp a user"}, {L: "cp a email"}, {L: "cp a pass"}, {L: "cp a totp"}, {L: "cp a k"}, {L: "cp a name"}, {L: "cp a nokey"}, {L: "user a"}, {L: "email a"}, {L: "pass a"}, {L: "totp a"},
				{L: "login a", A: []string{"", "", ""}}, {L: "login a", A: []string{"x", ctrlD}}, {L: "login a", A: []string{ctrlD}}, {L: "login a", A: []string{"", "", ctrlD}},
				{L: "login a", A: []string{ctrlC}}, {L: "login a", A: []string{"", ctrlC}}, {L: "login a", A: []string{"", "", ctrlC}}, {L: "login a", A: []string{termErr}}, {L: "get a pass"}, {L: "show a"}, {L: "cp q pass"}, {L: "login q"}, {L: "pass q"}, {L: "login b", A: []string{ctrlD}}}
			ops = ops[:len(ops)-1]
			subset := func(m int) (f []string) {
				for i, kv := range all {
					if m>>i&1 != 0 {
						f = append(f, kv[0], kv[1])
					}
				}
				return append(f, "k", "vk")
			}
			full := subset(15)
			inside := func(l ShLine) []ShLine {
				f := strings.Fields(l.L)
				return []ShLine{{L: "cd a"}, {L: strings.Join(append(f[:1], f[2:]...), " "), A: l.A}, {L: "cd"}}
			}
			fam.Explore(ctx, "every copy command on entries with every subset of fields, from the root and from inside", func(y func(ClCase) bool) {
				for m := 0; m < 16; m++ {
					for _, l := range ops {
						for _, keep := range []bool{false, true} {
							if !y(ClCase{Fields: subset(m), Ops: []ShLine{l}, End: "exit", Keep: keep}) {
								return
							}
						}
						if f := strings.Fields(l.L); f[1] == "a" {
							if !y(ClCase{Fields: subset(m), Ops: inside(l), End: "exit"}) {
								return
							}
						}
					}
				}
			})
			fam.Explore(ctx, "awkward values", func(y func(ClCase) bool) {
				for _, v := range []string{"", " ", "\n", "x\n", "é日本", "\x00", "a\r\nb", "%s", "-selection", strings.Repeat("long", 30000), "\x1b[0m", "\u2028"} {
					for _, k := range []string{"user", "email", "pass", "k", "notes"} {
						for _, l := range []ShLine{{L: "cp a " + k}, {L: "login a", A: []string{"", ""}}, {L: "user a"}, {L: "email a"}, {L: "pass a"}} {
							if !y(ClCase{Fields: []string{k, v, "zz", "z"}, Ops: []ShLine{l}, End: "exit"}) {
								return
							}
						}
					}
				}
			})
			ends := []string{"exit", ctrlD, ctrlC, termErr, "rm" + ctrlD, "rm" + ctrlC, "rm" + termErr, "wizard" + ctrlC, "wizard" + ctrlD, "wizard" + termErr, "savefail", "TERM", "HUP", "INT", "wrong"}
			fam.Explore(ctx, "every end, with working and failing clipboards, after no copy, one and several", func(y func(ClCase) bool) {
				for _, e := range ends {
					for _, o := range [][]ShLine{nil, {{L: "cp a pass"}}, {{L: "set a k new"}, {L: "login a", A: []string{"", "", ""}}}, {{L: "login a", A: []string{"", "", ctrlC}}}, {{L: "login a", A: []string{"", "TERM"}}}, {{L: "pass a"}, {L: "login a", A: []string{"HUP"}}}} {
						for _, fl := range []string{"", "fail", "dead", "missing", "-1", "-2", "-4", "-5"} {
							for _, k := range []bool{false, true} {
								for _, ro := range []bool{false, true} {
									for _, mu := range []bool{false, true} {
										if ro && (strings.HasPrefix(e, "rm") || e == "savefail") || mu && (fl != "" || k) {
											continue
										}
										if !y(ClCase{Fields: full, Ops: o, End: e, Fail: fl, Keep: k, RO: ro, Multi: mu}) {
											return
										}
									}
								}
							}
						}
					}
				}
			})
			exploreClipBad(ctx)
			fam.Explore(ctx, "every end after other programs were run", func(y func(ClCase) bool) {
				ed, cp := ShLine{L: "edit b k"}, ShLine{L: "cp a pass"}
				for _, e := range ends {
					for _, o := range [][]ShLine{{ed}, {ed, cp}, {cp, ed}, {cp, ed, ed}, {ed, cp, ed, cp}, {{L: "edit b nokey"}, cp}, {ed, {L: "login a", A: []string{"", "INT"}}}, {{L: "login a", A: []string{ctrlD}}, ed}} {
						for m := 0; m < 8; m++ {
							if e == "wrong" || m&2 != 0 && (strings.HasPrefix(e, "rm") || e == "savefail") {
								continue
							}
							if !y(ClCase{Fields: full, Ops: o, End: e, NoEd: m&1 != 0, RO: m&2 != 0, Keep: m&4 != 0}) {
								return
							}
						}
					}
				}
			})
			seq := append(append([]ShLine{}, ops[:12]...), ShLine{L: "set a user other"}, ShLine{L: "set a pass np"}, ShLine{L: "login a", A: []string{"", ctrlD}}, ShLine{L: "cp b k"}, ShLine{L: "get a pass"})
			seq = seq[:len(seq)-2]
			d := ctx.Pick(3, 4)
			for n := 2; n <= d; n++ {
				fam.Explore(ctx, fmt.Sprintf("all sequences of %d of %d commands", n, len(seq)), func(y func(ClCase) bool) {
					for _, q := range intSeqs(len(seq), n) {
						c := ClCase{Fields: full, End: []string{"exit", ctrlC, ctrlD}[(q[0]+q[1])%3]}
						for _, i := range q {
							c.Ops = append(c.Ops, seq[i])
						}
						if !y(c) {
							return
						}
					}
				})
			}
		},
	})
}

// ClBadCase is an entry whose secret can not produce codes.
type ClBadCase struct {
	Totp string `json:"totp"`
	Mask int    `json:"mask"` // which of user, email, pass it has
	Line ShLine `json:"line"`
}

func runClipBad(x *core.X, c ClBadCase) {
	a := newApp(x).WithClip()
	f := []string{"name", "a"}
	var want []string
	for i, k := range []string{"user", "email", "pass"} {
		if c.Mask>>i&1 != 0 {
			f = append(f, k, "the "+k)
			want = append(want, "the "+k)
		}
	}
	a.put("pw", mkTxs(1000, Ent{uid(1), append(f, "totp", c.Totp)}))
	s := a.Start().MustOpen("", "pw")
	out := answer(s, c.Line)
	s.Check(s.Cur.Main(), "%q ends the session", c.Line.L)
	got := a.Clips()
	if strings.HasPrefix(c.Line.L, "login") {
		s.Check(len(got) <= len(want), "%q copies %q", c.Line.L, got)
		for i, g := range got {
			s.Check(g == want[i], "%q copies %q", c.Line.L, got)
		}
	} else {
		s.Check(len(got) == 0, "%q copies %q", c.Line.L, got)
	}
	s.Check(strings.TrimSpace(out) != "", "%q says nothing", c.Line.L)
	s.MustExit()
	x.Outcome(fmt.Sprint(len(got)))
	x.State(fmt.Sprint(c))
}

var famClipBad = core.NewFamily("C30", "damaged secrets", runClipBad)

func exploreClipBad(ctx *core.Ctx) {
	famClipBad.Explore(ctx, "entries with a damaged secret and every other field or not", func(y func(ClBadCase) bool) {
		for _, t := range []string{"x", "otpauth://totp/x", "otpauth://totp/x?secret=", "otpauth://totp/x?secret=1!", "otpauth://hotp/x?secret=" + clB32, "otpauth://totp/x?secret=" + clB32 + "&period=0", "http://x/?secret=" + clB32, "otpauth://totp/%zz?secret=" + clB32} {
			for m := 0; m < 8; m++ {
				for _, l := range []ShLine{{L: "login a", A: []string{"", "", "", ""}}, {L: "totp a"}, {L: "cp a totp"}, {L: "login a", A: []string{ctrlD}}} {
					if !y(ClBadCase{t, m, l}) {
						return
					}
				}
			}
		}
	})
}

const clB32 = "JBSWY3DPEHPK3PXP"
