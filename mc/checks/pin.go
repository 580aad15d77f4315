package checks

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/pinentry"
)

// ---------------------------------------------------------------------------------------------
// C31: pinentry programs.  The checker's executable is also the program that asks (linked as
// "pinprobe") and the pinentry program (linked as "pinentry...").

// PinPlan is what the pinentry program does in one conversation.
type PinPlan struct {
	Pass  string `json:"pass"`            // what is typed
	Enc   string `json:"enc,omitempty"`   // how it is escaped: "" only what must be, all, lower, or raw
	Split int    `json:"split,omitempty"` // bytes of each D line
	At    string `json:"at,omitempty"`    // step of the deviation: hello, a command, data (after the D lines), bye
	Dev   string `json:"dev,omitempty"`
	Greet string `json:"greet,omitempty"`
	Latin bool   `json:"latin,omitempty"` // the characters of Pass are bytes
}

func (p PinPlan) typed() string {
	if !p.Latin {
		return p.Pass
	}
	var b []byte
	for _, r := range p.Pass {
		b = append(b, byte(r))
	}
	return string(b)
}

// PinCall asks for one passphrase.
type PinCall struct {
	Env    string  `json:"env"` // PINENTRY: "" (unset), none, a name, "/" for a program by its path
	Prompt string  `json:"prompt"`
	Plan   PinPlan `json:"plan"`
}

// PinCase is a sequence of calls in one process.
type PinCase struct {
	Progs []string  `json:"progs"` // installed programs
	Calls []PinCall `json:"calls"`
	Term  bool      `json:"term,omitempty"` // TERM and DISPLAY are set
}

func pinEnc(b []byte, enc string) (out []byte) {
	for _, c := range b {
		switch {
		case enc == "all":
			out = append(out, fmt.Sprintf("%%%02X", c)...)
		case enc == "lower":
			out = append(out, fmt.Sprintf("%%%02x", c)...)
		case enc != "raw" && (c == '%' || c == '\r' || c == '\n'):
			out = append(out, fmt.Sprintf("%%%02X", c)...)
		default:
			out = append(out, c)
		}
	}
	return out
}

type pinRec struct {
	Name  string   `json:"name"`
	Pid   int      `json:"pid"`
	Lines [][]byte `json:"lines"`
}

// PinMain runs the stand-ins.
func PinMain() bool {
	switch b := filepath.Base(os.Args[0]); {
	case b == "pinprobe":
		pinProbe()
	case strings.HasPrefix(b, "pinentry"):
		pinFake(b)
	default:
		return false
	}
	return true
}

type pinAnswer struct {
	Pass []byte `json:"pass"`
	Err  string `json:"err"`
	None bool   `json:"none"`
}

func pinProbe() {
	var calls []PinCall
	if err := json.Unmarshal([]byte(os.Getenv("PIN_CALLS")), &calls); err != nil {
		panic(err)
	}
	for i, c := range calls {
		os.Unsetenv("PINENTRY")
		if c.Env != "" {
			os.Setenv("PINENTRY", c.Env)
		}
		os.Setenv("PIN_N", strconv.Itoa(i))
		p, err := pinentry.Password(c.Prompt)
		a := pinAnswer{Pass: []byte(p), None: errors.Is(err, pinentry.ErrNotFound)}
		if err != nil {
			a.Err = "error: " + err.Error()
		}
		json.NewEncoder(os.Stdout).Encode(a)
	}
	// stay until told to end, so that what was left running is seen
	io.Copy(io.Discard, os.Stdin)
}

func pinFake(name string) {
	var plans []PinPlan
	dir := os.Getenv("PIN_DIR")
	if err := json.Unmarshal([]byte(os.Getenv("PIN_PLANS")), &plans); err != nil {
		panic(err)
	}
	n := 0
	if s := os.Getenv("PIN_N"); s != "" {
		n, _ = strconv.Atoi(s)
	} else {
		for ; ; n++ {
			if _, err := os.Stat(filepath.Join(dir, fmt.Sprintf("conv%d", n))); err != nil {
				break
			}
		}
	}
	var p PinPlan
	if n < len(plans) {
		p = plans[n]
	}
	rec := pinRec{Name: name, Pid: os.Getpid()}
	save := func() {
		b, _ := json.Marshal(rec)
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("conv%d.tmp", n)), b, 0o600)
		os.Rename(filepath.Join(dir, fmt.Sprintf("conv%d.tmp", n)), filepath.Join(dir, fmt.Sprintf("conv%d", n)))
	}
	save()
	say := func(s string) { os.Stdout.WriteString(s) }
	in := bufio.NewReader(os.Stdin)
	exit := func(code int) {
		save()
		os.Exit(code)
	}
	// reply says what belongs there, or deviates
	reply := func(step, right string) {
		if p.At != step {
			say(right)
			return
		}
		switch p.Dev {
		case "eof":
			exit(0)
		case "exit1":
			exit(1)
		case "thenexit1":
			say(right)
			exit(1)
		case "thenexit0":
			say(right)
			exit(0)
		case "kill":
			save()
			syscall.Kill(os.Getpid(), syscall.SIGKILL)
		case "thenkill":
			say(right)
			save()
			syscall.Kill(os.Getpid(), syscall.SIGKILL)
		case "partial":
			say(strings.TrimSuffix(right, "\n")[:1])
			exit(0)
		case "close":
			os.Stdout.Close()
			io.Copy(io.Discard, in)
			exit(0)
		case "closein": // nothing more is read
			say(right)
			os.Stdin.Close()
			time.Sleep(50 * time.Millisecond)
			exit(0)
		case "err":
			say("ERR 83886081 General error <Pinentry>\n")
		case "cancel":
			say("ERR 83886179 Operation cancelled <Pinentry>\n")
		case "timeout":
			say("ERR 83886142 Timeout <Pinentry>\n")
		case "long":
			say(strings.Repeat("x", 200000) + "\n")
		case "endless":
			for i := 0; i < 3000; i++ {
				if _, err := os.Stdout.WriteString(strings.Repeat("x", 10000)); err != nil {
					break
				}
			}
			exit(0)
		case "comment":
			say("# a comment\n" + right)
		case "status":
			say("S PASSWORD_FROM_CACHE\n" + right)
		case "text":
			say(strings.TrimSuffix(right, "\n") + " all is well\n")
		default:
			say(p.Dev + "\n")
			if strings.HasPrefix(p.Dev, "D") {
				exit(0) // or it would be waiting
			}
		}
	}
	greet := p.Greet
	if greet == "" {
		greet = "OK Pleased to meet you"
	}
	reply("hello", greet+"\n")
	for {
		l, err := in.ReadString('\n')
		if err != nil {
			exit(0)
		}
		l = strings.TrimSuffix(l, "\n")
		rec.Lines = append(rec.Lines, []byte(l))
		f := strings.Fields(l)
		if len(f) == 0 {
			f = []string{""}
		}
		switch f[0] {
		case "GETPIN":
			save()
			if p.At == "GETPIN" {
				reply("GETPIN", "OK\n")
				break
			}
			e := []byte(p.typed())
			for len(e) > 0 {
				k := len(e)
				if p.Split > 0 && p.Split < k {
					k = p.Split
				}
				say("D " + string(pinEnc(e[:k], p.Enc)) + "\n")
				e = e[k:]
			}
			reply("data", "OK\n")
		case "BYE":
			if p.At == "bye" && p.Dev == "stay" {
				say("OK closing connection\n")
				save()
				io.Copy(io.Discard, in)
				exit(0)
			}
			reply("bye", "OK closing connection\n")
			exit(0)
		case "OPTION":
			reply("OPTION "+strings.SplitN(f[1], "=", 2)[0], "OK\n")
		case "SETTITLE", "SETDESC", "SETPROMPT", "SETOK", "SETCANCEL", "SETERROR", "NOP":
			reply(f[0], "OK\n")
		default:
			say("ERR 83886355 Unknown IPC command <Pinentry>\n")
		}
	}
}

func pinUnesc(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) {
			if n, err := strconv.ParseUint(s[i+1:i+3], 16, 8); err == nil {
				out = append(out, byte(n))
				i += 2
				continue
			}
		}
		out = append(out, s[i])
	}
	return string(out)
}

var pinNames = []string{"pinentry", "pinentry-gnome3", "pinentry-kde", "pinentry-x11", "pinentry-curses", "pinentry-tty"}

func pinInstall(dir, name string) string {
	exe, err := os.Executable()
	if err != nil {
		core.Harness("%v", err)
	}
	p := filepath.Join(dir, name)
	if err := os.Symlink(exe, p); err != nil {
		core.Harness("%v", err)
	}
	return p
}

// pinWant is what a conversation yields: exact is false where an error is as good.
func pinWant(p PinPlan) (pass string, fails, exact bool) {
	switch {
	case p.At == "":
		return p.typed(), false, p.Greet == "" || p.Greet == "OK Pleased to meet you"
	case p.At == "GETPIN" && p.Dev == "cancel", p.At == "data" && p.Dev == "cancel" && p.Pass == "":
		return "", false, true
	case p.At == "GETPIN" && (p.Dev == "comment" || p.Dev == "status" || p.Dev == "text" || p.Dev == "OK"):
		return "", false, p.Dev == "OK"
	case p.Dev == "comment" || p.Dev == "status" || p.Dev == "text":
		return p.typed(), false, p.At == "bye"
	case p.At == "bye" && p.Dev == "stay":
		return p.typed(), false, true
	case p.At == "bye" && (p.Dev == "exit1" || p.Dev == "thenexit1" || p.Dev == "kill" || p.Dev == "thenkill"):
		return "", true, true
	case p.At == "bye": // it ends without a failure, what it says is of no use
		return p.typed(), false, false
	case p.At == "data" && (p.Dev == "thenexit0" || p.Dev == "closein"):
		return p.typed(), false, false
	case p.At == "GETPIN" && (p.Dev == "thenexit0" || p.Dev == "closein"):
		return "", false, false
	case p.At == "hello" && strings.HasPrefix(p.Dev, "OK Pleased to meet you"):
		return p.typed(), false, false
	}
	return "", true, true
}

func runPin(x *core.X, c PinCase) {
	d := x.Dir()
	bin := filepath.Join(d, "bin")
	os.Mkdir(bin, 0o755)
	for _, n := range c.Progs {
		pinInstall(bin, n)
	}
	other := pinInstall(d, "pinentry-other")
	probe := pinInstall(d, "pinprobe")
	calls := append([]PinCall{}, c.Calls...)
	var plans []PinPlan
	for i := range calls {
		if calls[i].Env == "/" {
			calls[i].Env = other
		}
		plans = append(plans, calls[i].Plan)
	}
	cb, _ := json.Marshal(calls)
	pb, _ := json.Marshal(plans)
	cmd := exec.Command(probe)
	cmd.Env = []string{"PATH=" + bin, "PIN_CALLS=" + string(cb), "PIN_PLANS=" + string(pb), "PIN_DIR=" + d, "GOMAXPROCS=2", "GOTRACEBACK=all"}
	if c.Term {
		cmd.Env = append(cmd.Env, "TERM=xterm", "DISPLAY=:0")
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	stdin, _ := cmd.StdinPipe()
	stdout, _ := cmd.StdoutPipe()
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	for i := 0; ; i++ {
		err := cmd.Start()
		if err == nil {
			break
		}
		if i == 20 {
			core.Harness("%v", err)
		}
		time.Sleep(50 * time.Millisecond)
	}
	x.Defer(func() {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		stdin.Close()
		cmd.Wait()
	})
	out := bufio.NewReader(stdout)
	cached := ""
	for i, call := range calls {
		x.Step()
		what := fmt.Sprintf("call %d (PINENTRY=%q, installed %v, %+v)", i+1, call.Env, c.Progs, call.Plan)
		type res struct {
			l   []byte
			err error
		}
		ch := make(chan res, 1)
		go func() {
			l, err := out.ReadBytes('\n')
			ch <- res{l, err}
		}()
		var r res
		select {
		case r = <-ch:
		case <-time.After(20 * time.Second):
			x.Failf("%s hangs", what)
		}
		x.Check(r.err == nil, "%s: the program crashes\n%s", what, tail(stderr.String(), 2000))
		var a pinAnswer
		if err := json.Unmarshal(r.l, &a); err != nil {
			core.Harness("%q: %v", r.l, err)
		}
		rb, err := os.ReadFile(filepath.Join(d, fmt.Sprintf("conv%d", i)))
		var rec pinRec
		ran := err == nil
		if ran {
			if err := json.Unmarshal(rb, &rec); err != nil {
				core.Harness("%q: %v", rb, err)
			}
		}
		// which program
		var want []string
		switch {
		case strings.EqualFold(call.Env, "none"):
		case call.Env == other:
			want = []string{"pinentry-other"}
		case call.Env != "":
			for _, n := range c.Progs {
				if n == call.Env {
					want = []string{n}
				}
			}
			if want == nil {
				x.Check(a.Err != "" && !ran, "%s: the program does not exist, but %q", what, a.Pass)
				continue
			}
		case cached != "":
			want = []string{cached}
		default:
			for _, n := range c.Progs {
				for _, k := range pinNames {
					if n == k {
						want = append(want, n)
					}
				}
			}
		}
		x.State(fmt.Sprint(call.Plan.At, call.Plan.Dev, want, a.Err == ""))
		if len(want) == 0 {
			x.Check(a.None && !ran, "%s: %q %s (a program ran: %v), but there is none to use", what, a.Pass, a.Err, ran)
			x.Outcome("none")
			continue
		}
		x.Check(!a.None, "%s: no program found", what)
		x.Check(ran, "%s: no program ran: %s", what, a.Err)
		ok := false
		for _, n := range want {
			ok = ok || rec.Name == n
		}
		x.Check(ok, "%s: %s ran, want %v", what, rec.Name, want)
		if call.Env == "" {
			cached = rec.Name
		}
		pass, fails, exact := pinWant(call.Plan)
		if call.Plan.At == "OPTION ttytype" && !c.Term || call.Plan.At == "OPTION display" && !c.Term {
			pass, fails, exact = call.Plan.typed(), false, true
		}
		switch {
		case fails:
			x.Check(a.Err != "", "%s: no error, but the passphrase %q", what, a.Pass)
			x.Outcome("error")
		case a.Err != "":
			x.Check(!exact, "%s: %s, want the passphrase %q", what, a.Err, pass)
			x.Outcome("refused")
		default:
			x.Check(string(a.Pass) == pass, "%s: the passphrase is %q, want %q", what, a.Pass, pass)
			x.Outcome("passphrase")
			// the prompt is shown
			desc := ""
			for _, l := range rec.Lines {
				if r, ok := strings.CutPrefix(string(l), "SETDESC "); ok {
					desc = pinUnesc(r)
				}
			}
			x.Check(strings.TrimSpace(desc) == strings.TrimSpace(call.Prompt) && len(desc) <= len(call.Prompt)+1, "%s: the program is told to show %q, want %q", what, desc, call.Prompt)
		}
		// nothing is left running
		for t := 0; ; t++ {
			st, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", rec.Pid))
			if err != nil || bytes.Contains(st, []byte(") Z ")) {
				break
			}
			x.Check(t < 400, "%s: the pinentry program is left running", what)
			time.Sleep(5 * time.Millisecond)
		}
	}
}

// PinUse is a session of the real program with a pinentry.
type PinUse struct {
	Create bool      `json:"create,omitempty"`
	File   string    `json:"file,omitempty"` // passphrase of the file
	Plans  []PinPlan `json:"plans"`
	None   string    `json:"none,omitempty"`
}

func runPinUse(x *core.X, c PinUse) {
	a := newApp(x)
	pb, _ := json.Marshal(c.Plans)
	a.Env = append(a.Env, "PIN_PLANS="+string(pb), "PIN_DIR="+a.Dir, "PINENTRY="+pinInstall(filepath.Join(a.Dir, "bin"), "pinentry"))
	if c.None != "" { // the second assignment wins
		a.Env = append(a.Env, "PINENTRY="+c.None)
	}
	log := mkTxs(1000, Ent{uid(1), []string{"name", "a", "k", "v"}})
	if !c.Create {
		a.put(c.File, log)
	}
	s := a.Start()
	res := func(i int) (string, bool) {
		if i >= len(c.Plans) {
			return "", false
		}
		p, fails, _ := pinWant(c.Plans[i])
		return p, !fails
	}
	defer func() {
		s.NoCrash()
	}()
	p1, ok1 := res(0)
	if c.Create {
		p2, ok2 := res(1)
		if !ok1 || p1 == "" || !ok2 || p1 != p2 {
			s.Check(s.Cur.Kind == "exit" && s.Code != 0, "goes on: %v", s.Cur)
			_, err := os.Stat(a.File)
			s.Check(err != nil, "a file was created")
			x.Outcome("not created")
			return
		}
		s.Check(s.Cur.Main(), "the file was not created: %v", s.Cur)
		s.MustExit()
		_, d, err := readFile(a.bytes(), "", p1)
		s.Check(err == nil && len(d.Log) == 0, "the new file does not open with the passphrase: %v", err)
		x.Outcome("created")
		return
	}
	if !ok1 || p1 != c.File {
		s.Check(s.Cur.Kind == "exit" && s.Code != 0, "goes on: %v", s.Cur)
		x.Outcome("not opened")
	} else {
		s.Check(s.Cur.Main(), "does not open: %v", s.Cur)
		s.Check(ref.EqualLogs(s.Dump().Log, log), "wrong content")
		s.MustExit()
		x.Outcome("opened")
	}
	_, d, err := readFile(a.bytes(), "", c.File)
	s.Check(err == nil && ref.EqualLogs(d.Log, log), "the file was changed")
}

func init() {
	fam := core.NewFamily("C31", "conversations", runPin)
	use := core.NewFamily("C31", "sessions", runPinUse)
	core.Register(&core.Check{
		ID: "C31", Level: "fault_enumeration",
		Rule:        "one execution is a process that asks a stand-in pinentry program for passphrases; state = step and kind of the deviation, programs to choose from and success",
		Assumptions: []string{"the stand-in speaks the assuan protocol as libassuan does (%, CR and LF escaped, long data in several lines)", "a program that stops answering but stays is left out"},
		Run: func(ctx *core.Ctx) {
			one := func(p PinPlan) PinCase {
				return PinCase{Progs: []string{"pinentry"}, Calls: []PinCall{{Prompt: "passphrase: ", Plan: p}}}
			}
			alpha := []string{"a", "%", "\n", "\r", "0", "A", " ", "é"}
			fam.Explore(ctx, "every passphrase up to a length, however it is escaped", func(y func(PinCase) bool) {
				for _, pw := range strs(alpha, ctx.Pick(3, 5)) {
					for _, e := range []string{"", "all", "lower"} {
						for _, sp := range []int{0, 1} {
							if sp == 1 && (len(pw) < 2 || len(pw) > 3) {
								continue
							}
							if !y(one(PinPlan{Pass: pw, Enc: e, Split: sp})) {
								return
							}
						}
					}
				}
			})
			fam.Explore(ctx, "every byte, and awkward passphrases", func(y func(PinCase) bool) {
				var pws []string
				for i := 0; i < 256; i++ {
					pws = append(pws, string(rune(i)), "x"+string(rune(i))+"y")
				}
				for _, p := range pws {
					for _, e := range []string{"", "all", "lower"} {
						if !y(one(PinPlan{Pass: p, Enc: e, Latin: true})) {
							return
						}
					}
				}
				pws = nil
				for _, s := range []string{"%25", "%0A", "%0D%0A", "%%", "%2", "%zz", "%C3%A9", "OK", "D x", "ERR", "ERR 1 Operation cancelled", "\nOK", "BYE", "# x", "  lead and trail  ", "\t", "\x00", "日本語", "a\\b", "+", "a+b", "%2525", "%250A"} {
					pws = append(pws, s)
				}
				for _, p := range pws {
					for _, e := range []string{"", "all", "lower"} {
						if !y(one(PinPlan{Pass: p, Enc: e})) {
							return
						}
					}
				}
				for _, n := range []int{100, 255, 500, 990, 1000, 2048, 5000, 60000} {
					for _, e := range []string{"", "all"} {
						for _, u := range []string{"x", "%", "\n", "é"} {
							sp := 900
							if e != "" || u != "x" {
								sp = 300
							}
							if !y(one(PinPlan{Pass: strings.Repeat(u, n), Enc: e, Split: sp})) {
								return
							}
						}
					}
				}
			})
			steps := []string{"hello", "SETTITLE", "SETDESC", "OPTION lc-ctype", "OPTION ttytype", "OPTION display", "GETPIN", "data", "bye"}
			devs := []string{"eof", "exit1", "thenexit0", "thenexit1", "kill", "thenkill", "partial", "close", "closein", "err", "cancel", "timeout", "long", "endless", "comment", "status", "text", "", "garbage", "ok", "OKAY", "D x", "D ", "OK Pleased to meet you, process 1", "BYE", "S", "#", "\x00", "ERR", "INQUIRE x", "END"}
			fam.Explore(ctx, "every deviation at every step", func(y func(PinCase) bool) {
				for _, st := range steps {
					for _, dv := range devs {
						if st == "data" && dv == "D x" {
							continue // more data
						}
						if dv == "thenexit0" && st != "data" && st != "bye" && st != "GETPIN" || dv == "" || st != "hello" && strings.HasPrefix(dv, "OK P") {
							if dv == "" {
								dv = " "
							}
						}
						for _, pw := range []string{"pw", ""} {
							for _, tm := range []bool{false, true} {
								c := one(PinPlan{Pass: pw, At: st, Dev: dv})
								c.Term = tm
								if !y(c) {
									return
								}
							}
						}
					}
				}
				for _, st := range []string{"bye"} {
					if !y(one(PinPlan{Pass: "pw", At: st, Dev: "stay"})) {
						return
					}
				}
				for _, g := range []string{"OK Pleased to meet you, process 12345", "OK", "OK hello", "ERR x", "hello", " OK Pleased to meet you", "OK Pleased to meet you "} {
					p := PinPlan{Pass: "pw", Greet: g}
					if !strings.HasPrefix(g, "OK") {
						p = PinPlan{Pass: "pw", At: "hello", Dev: g}
					}
					if !y(one(p)) {
						return
					}
				}
			})
			fam.Explore(ctx, "every set of installed programs, every choice", func(y func(PinCase) bool) {
				names := append(append([]string{}, pinNames...), "gpg-pin")
				for m := 0; m < 1<<len(names); m++ {
					var in []string
					for i, n := range names {
						if m>>i&1 != 0 && n != "gpg-pin" {
							in = append(in, n)
						}
					}
					if m>>6 != 0 {
						continue
					}
					for _, e := range []string{"", "none", "None", "NONE", "/", "pinentry-tty", "pinentry-nothing", "/nonexistent/pinentry"} {
						if !y(PinCase{Progs: in, Calls: []PinCall{{Env: e, Prompt: "p: ", Plan: PinPlan{Pass: "pw"}}}}) {
							return
						}
					}
				}
			})
			fam.Explore(ctx, "prompts", func(y func(PinCase) bool) {
				for _, p := range strs([]string{"a", "%", "\n", "2", "5", "é", " ", "\r"}, 3) {
					c := one(PinPlan{Pass: "pw"})
					c.Calls[0].Prompt = "x" + p + "x: "
					if !y(c) {
						return
					}
				}
			})
			fam.Explore(ctx, "sequences of calls in one process", func(y func(PinCase) bool) {
				cs := []PinCall{{Env: "", Plan: PinPlan{Pass: "one"}}, {Env: "none"}, {Env: "/", Plan: PinPlan{Pass: "two"}}, {Env: "", Plan: PinPlan{At: "GETPIN", Dev: "cancel"}}, {Env: "", Plan: PinPlan{At: "data", Dev: "exit1", Pass: "left"}}, {Env: "", Plan: PinPlan{Pass: ""}}, {Env: "pinentry-nothing"}, {Env: "", Plan: PinPlan{Pass: "x", At: "hello", Dev: "eof"}}}
				d := ctx.Pick(3, 4)
				for n := 2; n <= d; n++ {
					for _, q := range intSeqs(len(cs), n) {
						for _, in := range [][]string{{"pinentry"}, {"pinentry-tty"}, nil} {
							c := PinCase{Progs: in}
							for _, i := range q {
								k := cs[i]
								k.Prompt = "p: "
								c.Calls = append(c.Calls, k)
							}
							if !y(c) {
								return
							}
						}
					}
				}
			})
			use.Explore(ctx, "files created and opened through a pinentry", func(y func(PinUse) bool) {
				ps := []PinPlan{{Pass: "pw"}, {Pass: "p%w\nx"}, {Pass: "p%w\nx", Enc: "all"}, {Pass: ""}, {At: "GETPIN", Dev: "cancel"}, {Pass: "pw", At: "data", Dev: "exit1"}, {Pass: "pw", At: "hello", Dev: "eof"}, {Pass: "pw", At: "bye", Dev: "exit1"}, {Pass: "pw", At: "SETDESC", Dev: "err"}, {Pass: "%70w"}, {Pass: "pw "}}
				for _, p := range ps {
					for _, q := range ps {
						if !y(PinUse{Create: true, Plans: []PinPlan{p, q}}) {
							return
						}
					}
					for _, f := range []string{"pw", "p%w\nx", "p%25w%0Ax", "pw "} {
						if !y(PinUse{File: f, Plans: []PinPlan{p}}) {
							return
						}
					}
				}
			})
		},
	})
}
