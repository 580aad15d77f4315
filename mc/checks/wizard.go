package checks

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/txlogs"
	"golang.org/x/crypto/ssh"
)

// ---------------------------------------------------------------------------------------------
// C33: the wizards that add entries and sync accounts

// WizOp is one wizard with the answers; when they run out every question gets a plain one.
type WizOp struct {
	Cmd string   `json:"cmd"`
	Ans []string `json:"ans,omitempty"`
}

// WizCase is a session that adds.
type WizCase struct {
	Ops   []WizOp `json:"ops"`
	End   string  `json:"end,omitempty"`
	Multi bool    `json:"multi,omitempty"`
	Clip  string  `json:"clip,omitempty"`
}

// wzPass models the part that makes passwords.
type wzPass struct {
	length int
	least  map[string]int
	shown  string
	ok     bool
}

var wzClasses = map[string]string{"u": "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "l": "abcdefghijklmnopqrstuvwxyz", "n": "0123456789", "b": "!@#$%^&*", "e": "()_+-=<>,.{}[]\\|?/~\"'`"}

func wzClass(r byte) string {
	for k, s := range wzClasses {
		if strings.IndexByte(s, r) >= 0 {
			return k
		}
	}
	return ""
}

func (p *wzPass) possible() bool {
	need, kinds := 0, 0
	for _, n := range p.least {
		if n >= 0 {
			kinds++
		}
		if n > 0 {
			need += n
		}
	}
	return p.length >= 0 && p.length <= 65536 && need <= p.length && (kinds > 0 || p.length == 0)
}

// fits says whether a password is one that was asked for.
func (p *wzPass) fits(s string) bool {
	if len(s) != p.length {
		return false
	}
	have := map[string]int{}
	for i := 0; i < len(s); i++ {
		k := wzClass(s[i])
		if k == "" || p.least[k] < 0 {
			return false
		}
		have[k]++
	}
	for k, n := range p.least {
		if have[k] < n {
			return false
		}
	}
	return true
}

func newWzPass() *wzPass {
	return &wzPass{length: 32, least: map[string]int{"u": 0, "l": 0, "n": 0, "b": 0, "e": 0}}
}

// answer changes the settings.
func (p *wzPass) answer(v string) {
	f := strings.Fields(v)
	if len(f) == 0 {
		return
	}
	if n, ok := p.least[f[0]]; ok {
		if len(f) == 1 {
			if n >= 0 {
				p.least[f[0]] = -1
			} else {
				p.least[f[0]] = 0
			}
		} else if i, err := strconv.Atoi(f[1]); err == nil {
			p.least[f[0]] = i
		}
		return
	}
	if i, err := strconv.Atoi(v); err == nil {
		p.length = i
	}
}

// wzDone is what came of a wizard.
type wzDone struct {
	how    string // done, aborted, died, failed (without a terminal)
	fields map[string]string
	odd    bool   // an answer that may well be refused
	out    string // what it printed
	clips  []string
}

func wzKind(p Prompt) string {
	t := strings.ToLower(strings.TrimSpace(p.Text))
	switch {
	case p.Main():
		return "main"
	case p.Kind == "exit":
		return "exit"
	case p.Kind != "line" && strings.Contains(t, "verify"):
		return "verify"
	case p.Kind != "line":
		return "hidden"
	case strings.HasPrefix(t, "u/l/n"):
		return "pw"
	case t == ">":
		return "menu"
	}
	for _, k := range []string{"email", "user", "host", "port", "path"} {
		if strings.HasPrefix(t, k) {
			return k
		}
	}
	return "?" + t
}

// wizard answers all questions.
func wizard(s *Sess, op WizOp) (r wzDone) {
	f := strings.Fields(op.Cmd)
	r.fields = map[string]string{}
	s.Out()
	s.Send(op.Cmd)
	var pw *wzPass
	hidden := ""
	adds := f[0] == "add"
	last := ""
	for i := 0; ; i++ {
		s.Check(i < 200, "%q never comes back", op.Cmd)
		o := s.Out()
		r.out += o
		k := wzKind(s.Cur)
		if last != "" { // the answer before was of no use
			s.Check(k == last, "after %q the wizard goes on with %q", op.Ans, s.Cur.Text)
		}
		last = ""
		switch k {
		case "main":
			r.how = "done"
			return r
		case "exit":
			s.NoCrash()
			s.Fail("%q %q ended the session", op.Cmd, op.Ans)
		}
		s.Check(k[0] != '?', "unknown question %q", s.Cur.Text)
		if k == "pw" {
			if pw == nil {
				pw = newWzPass()
			}
			pw.ok = false
			for _, l := range strings.Split(o, "\n") {
				if v, ok := strings.CutPrefix(l, "password: "); ok {
					pw.shown, pw.ok = v, true
				}
			}
			if pw.possible() {
				s.Check(pw.ok && pw.fits(pw.shown), "with the settings %+v the password is %q (shown: %v)", *pw, pw.shown, pw.ok)
			} else {
				s.Check(!pw.ok, "with the settings %+v the password is %q", *pw, pw.shown)
			}
		}
		v := map[string]string{"email": "m@x", "user": "us", "host": "h.example", "port": "", "path": "d", "menu": "1", "pw": "y", "hidden": "pp", "verify": hidden}[k]
		if k == "pw" && !pw.possible() {
			v = "16"
			for c := range wzClasses {
				if pw.least[c] > 0 {
					v = c + " 0"
				}
			}
			on := false
			for c := range wzClasses {
				on = on || pw.least[c] >= 0
			}
			if !on {
				v = "u 0"
			}
		}
		if i < len(op.Ans) {
			v = op.Ans[i]
		}
		was := k
		s.Send(v)
		switch v {
		case ctrlD, ctrlC, termErr:
			r.out += s.Out()
			s.NoCrash()
			switch {
			case v == ctrlC:
				r.how = "died"
				s.Check(s.Cur.Kind == "exit", "^C does not end the session: %v", s.Cur)
			case v == ctrlD:
				r.how = "aborted"
				s.Check(s.Cur.Main(), "^D does not abort %q: %v", op.Cmd, s.Cur)
			default:
				r.how = "failed"
				if s.Cur.Kind == "exit" {
					r.how = "died"
				} else {
					s.Check(s.Cur.Main(), "goes on without a terminal: %v", s.Cur)
				}
			}
			return r
		}
		switch was {
		case "email", "user", "host", "path":
			if adds {
				if v != "" {
					r.fields[map[string]string{"email": "email", "user": "user"}[was]] = v
				}
				break
			}
			if v == "" {
				last = was
			}
			r.fields[was] = v
			if was == "host" {
				for _, c := range v {
					if c != '.' && c != '-' && !unicode.IsLetter(c) && !unicode.IsDigit(c) || c > 127 {
						r.odd = true
					}
				}
			}
		case "port":
			n, err := strconv.Atoi(v)
			switch {
			case v == "":
				r.fields["port"] = "22"
			case err != nil || n < 1 || n > 65535:
				last = was
			default:
				r.fields["port"] = strconv.Itoa(n)
				if strconv.Itoa(n) != v || n == 65535 { // may be refused
					r.odd = true
					if wzKind(s.Cur) == "port" {
						last = was
					}
				}
			}
		case "menu":
			n, err := strconv.Atoi(v)
			if err != nil || n < 1 || n > 3 {
				last = was
				break
			}
			r.fields["menu"] = strconv.Itoa(n)
		case "pw":
			switch {
			case v == "y" && pw.ok:
				r.fields["pass"] = pw.shown
			case v == "m":
			case strings.HasPrefix(v, "c") && pw.ok && strings.Fields(v)[0] == "c":
				r.clips = append(r.clips, pw.shown)
				last = was
			default:
				keep := *pw
				pw.answer(v)
				_ = keep
				last = was
			}
		case "hidden":
			hidden = v
		case "verify":
			if v != hidden {
				last = "pw"
				break
			}
			r.fields["pass"] = v
		}
	}
}

// wzCheck compares what there is after a wizard with what should be.
func wzCheck(x *core.X, s *Sess, op WizOp, r wzDone, before, after []txlogs.Tx) {
	f := strings.Fields(op.Cmd)
	what := fmt.Sprintf("%q answered %q", op.Cmd, op.Ans)
	none := ref.EqualLogs(before, after)
	if r.how != "done" {
		s.Check(none, "%s was given up, but the history is\n%s\nand was\n%s", what, ref.ShowLog(after), ref.ShowLog(before))
		return
	}
	old, now := stateOf(x, before), stateOf(x, after)
	switch {
	case len(f) < 2, f[0] == "addsync" && f[1] != "scp" && f[1] != "file":
		s.Check(none, "%s changed the database", what)
		s.Check(strings.TrimSpace(r.out) != "", "%s says nothing", what)
		return
	case f[0] == "add":
		for _, e := range old {
			if e["name"] == f[1] {
				s.Check(none, "%s changed the database", what)
				s.Check(strings.TrimSpace(r.out) != "", "%s says nothing", what)
				return
			}
		}
	}
	if none && r.odd && strings.TrimSpace(r.out) != "" {
		x.Outcome("refused")
		return
	}
	s.Check(len(after) > len(before) && ref.EqualLogs(after[:len(before)], before), "%s rewrote the history", what)
	s.Check(len(now) == len(old)+1, "%s: %d entries became %d", what, len(old), len(now))
	id := ""
	for u := range now {
		if _, ok := old[u]; !ok {
			id = u
		}
	}
	for u, e := range old {
		s.Check(fmt.Sprint(e) == fmt.Sprint(now[u]), "%s changed the entry %q", what, e["name"])
	}
	e := noTimes(now)[id]
	_, err := strconv.ParseInt(now[id]["updated"], 10, 64)
	s.Check(err == nil, "%s: the entry has no time of its update: %q", what, now[id]["updated"])
	name := e["name"]
	want := map[string]string{"name": name}
	if f[0] == "add" {
		want["name"] = f[1]
		for _, k := range []string{"user", "email", "pass"} {
			if v := r.fields[k]; v != "" {
				want[k] = v
			}
		}
		s.Check(fmt.Sprint(e) == fmt.Sprint(want), "%s: the entry is %q, want %q", what, e, want)
		return
	}
	s.Check(strings.HasPrefix(name, "sync/"+f[1]), "%s: the account is called %q", what, name)
	for _, o := range old {
		s.Check(o["name"] != name, "%s: the name %q is taken", what, name)
	}
	s.Check(e["sync"] == "true", "%s: it is not synchronised automatically: %q", what, e)
	s.Check(strings.Contains(r.out, name), "%s: the name of the account is not told", what)
	u, err := url.Parse(e["url"])
	s.Check(err == nil && u.Scheme == f[1], "%s: the url is %q (%v)", what, e["url"], err)
	want["sync"], want["url"] = "true", e["url"]
	if f[1] == "file" {
		p := r.fields["path"]
		if !filepath.IsAbs(p) {
			p = filepath.Join(s.a.Dir, p)
		}
		s.Check(filepath.Clean(u.Path) == filepath.Clean(p) && u.Host == "" && u.User == nil && u.RawQuery == "" && u.Fragment == "", "%s: the url is %q, want the path %q", what, e["url"], p)
		s.Check(fmt.Sprint(e) == fmt.Sprint(want), "%s: the account is %q, want %q", what, e, want)
		return
	}
	pass, has := u.User.Password()
	s.Check(u.User.Username() == r.fields["user"] && u.Hostname() == strings.Trim(r.fields["host"], "[]") && u.Port() == r.fields["port"] && strings.TrimPrefix(u.Path, "/") == r.fields["path"] && u.RawQuery == "" && u.Fragment == "",
		"%s: the url is %q, want %q", what, e["url"], r.fields)
	if r.fields["menu"] == "3" {
		s.Check(pass == r.fields["pass"], "%s: the password of the account is %q, want %q", what, pass, r.fields["pass"])
	} else {
		s.Check(!has, "%s: the account has a password", what)
		want["privkey"], want["pubkey"] = e["privkey"], e["pubkey"]
		signer, err := ssh.ParsePrivateKey([]byte(e["privkey"]))
		s.Check(err == nil, "%s: the key %q can not be used: %v", what, e["privkey"], err)
		pub, _, _, _, err := ssh.ParseAuthorizedKey([]byte(e["pubkey"]))
		s.Check(err == nil, "%s: the public key is %q", what, e["pubkey"])
		s.Check(bytes.Equal(pub.Marshal(), signer.PublicKey().Marshal()), "%s: the public key is of another key", what)
		kt := map[string]string{"1": "ssh-ed25519", "2": "ssh-rsa"}[r.fields["menu"]]
		s.Check(pub.Type() == kt, "%s: the key is %q", what, pub.Type())
		if kt == "ssh-rsa" {
			s.Check(len(pub.Marshal()) > 512, "%s: the key is short", what)
		}
		s.Check(strings.Contains(r.out, strings.TrimSpace(string(ssh.MarshalAuthorizedKey(pub)))), "%s: the public key is not shown", what)
		s.Check(!strings.Contains(r.out, "PRIVATE"), "%s: the private key is shown", what)
	}
	s.Check(fmt.Sprint(e) == fmt.Sprint(want), "%s: the account is %q, want %q", what, e, want)
}

func runWizard(x *core.X, c WizCase) {
	a := newApp(x)
	if c.Clip != "" {
		a.WithClip()
		a.Args = append(a.Args, "--no-clear-clip")
		if c.Clip != "ok" {
			a.Env = append(a.Env, "VERIF_CLIP_MODE="+c.Clip)
		}
	}
	a.Args = append(a.Args, "--no-sync")
	log := mkTxs(1000, Ent{uid(1), []string{"name", "a", "k", "v"}}, Ent{uid(2), []string{"name", "sync/file", "url", "file:///nonexistent/x", "sync", "false"}})
	user, pass := "", "pw"
	if c.Multi {
		_, log = a.putUsers(shUsers, shMaster, log)
		user, pass = "u1", "p1"
	} else {
		a.put("pw", log)
	}
	orig := a.bytes()
	s := a.Start().MustOpen(user, pass)
	cur := s.Dump().Log
	alive := true
	var clips []string
	for _, op := range c.Ops {
		r := wizard(s, op)
		x.Outcome(strings.Fields(op.Cmd)[0] + " " + r.how)
		clips = append(clips, r.clips...)
		x.State(fmt.Sprint(op.Cmd, len(op.Ans), r.how, len(r.fields)))
		if r.how == "died" {
			alive = false
			break
		}
		now := s.Dump().Log
		wzCheck(x, s, op, r, cur, now)
		cur = now
	}
	if alive {
		switch c.End {
		case "":
			s.MustExit()
		default:
			s.Send(c.End)
			s.Check(s.Cur.Kind == "exit", "does not end")
			alive = false
		}
	}
	if alive {
		_, d, err := readFile(a.bytes(), user, pass)
		s.Check(err == nil && ref.EqualLogs(d.Log, cur), "the file is not what was shown: %v\n%s\nwant\n%s", err, ref.ShowLog(d.Log), ref.ShowLog(cur))
	} else {
		s.Check(bytes.Equal(a.bytes(), orig), "the session was given up, but the file was written")
	}
	if c.Clip == "ok" {
		s.Check(fmt.Sprintf("%q", a.Clips()) == fmt.Sprintf("%q", clips), "the clipboard got %q, want %q", a.Clips(), clips)
	}
}

// WizUse adds an account and synchronises with it.
type WizUse struct {
	Kind  string   `json:"kind"`
	User  string   `json:"user,omitempty"`
	Host  string   `json:"host,omitempty"`
	Path  string   `json:"path"`
	Menu  string   `json:"menu,omitempty"`
	Pass  []string `json:"pass,omitempty"` // answers of the password wizard
	Multi bool     `json:"multi,omitempty"`
	Twice bool     `json:"twice,omitempty"`
}

func runWizUse(x *core.X, c WizUse) {
	a := newApp(x)
	plain := a.Args
	a.Args = append(append([]string{}, plain...), "--no-sync")
	log := mkTxs(syBase, Ent{uid(1), []string{"name", "a", "k", "v"}})
	user, pass := "", "pw"
	if c.Multi {
		_, log = a.putUsers(shUsers, shMaster, log)
		user, pass = "u1", "p1"
	} else {
		a.put("pw", log)
	}
	os.Mkdir(filepath.Join(a.Dir, "d"), 0o777)
	os.Mkdir(filepath.Join(a.Dir, "~"), 0o777)
	s := a.Start().MustOpen(user, pass)
	mem := &memScp{files: map[string][]byte{}, x: x}
	var srv *sshSrv
	op := WizOp{Cmd: "addsync " + c.Kind, Ans: []string{c.Path}}
	if c.Kind == "scp" {
		srv = startSSH(x, []string{"ed1"}, "", nil, mem.serve)
		_, port, _ := strings.Cut(srv.Addr(), ":")
		op.Ans = append([]string{c.User, c.Host, port, c.Path, c.Menu}, c.Pass...)
	}
	if c.Twice {
		before := s.Dump().Log
		wzCheck(x, s, op, wizard(s, op), before, s.Dump().Log)
	}
	before := s.Dump().Log
	r := wizard(s, op)
	d := s.Dump()
	if ref.EqualLogs(before, d.Log) && (r.odd || c.Kind == "scp" && c.Host != "127.0.0.1" && c.Host != "localhost") {
		x.Outcome("refused")
		return
	}
	wzCheck(x, s, op, r, before, d.Log)
	var e map[string]string
	old := stateOf(x, before)
	for u, n := range stateOf(x, d.Log) {
		if _, ok := old[u]; !ok {
			e = n
		}
	}
	var pub ssh.PublicKey
	if c.Kind == "scp" {
		if e["pubkey"] != "" {
			pub, _, _, _, _ = ssh.ParseAuthorizedKey([]byte(e["pubkey"]))
		}
		conf := srv.conf
		srv.mu.Lock()
		srv.conf = func() *ssh.ServerConfig {
			n := conf()
			n.PasswordCallback = func(m ssh.ConnMetadata, p []byte) (*ssh.Permissions, error) {
				srv.saw("password", m.User(), string(p))
				if r.fields["menu"] == "3" && m.User() == c.User && string(p) == r.fields["pass"] {
					return nil, nil
				}
				return nil, fmt.Errorf("no")
			}
			n.PublicKeyCallback = func(m ssh.ConnMetadata, k ssh.PublicKey) (*ssh.Permissions, error) {
				srv.saw("publickey", m.User(), fmt.Sprintf("%x", sha256.Sum256(k.Marshal())))
				if pub != nil && m.User() == c.User && bytes.Equal(k.Marshal(), pub.Marshal()) {
					return nil, nil
				}
				return nil, fmt.Errorf("no")
			}
			return n
		}
		srv.mu.Unlock()
	}
	sync := func(cmd string) {
		s.Out()
		s.Send(cmd)
		for i := 0; !s.Cur.Main() && s.Cur.Kind != "exit"; i++ {
			s.Check(i < 5, "never stops asking")
			s.Check(strings.Contains(s.Cur.Text, "ave this host"), "asks %q", s.Cur.Text)
			s.Send("y")
		}
		s.NoCrash()
	}
	remote := func(want []txlogs.Tx) {
		var b []byte
		if c.Kind == "file" {
			p := c.Path
			if !filepath.IsAbs(p) {
				p = filepath.Join(a.Dir, p)
			}
			var err error
			b, err = os.ReadFile(p)
			s.Check(err == nil, "the remote file was not written: %v", err)
		} else {
			var ok bool
			b, ok = mem.get(c.Path)
			_, auth, cmds, _ := srv.Seen()
			s.Check(ok, "the remote file %q was not written: the server saw %q %q", c.Path, auth, cmds)
		}
		_, st, err := readFile(b, user, pass)
		s.Check(err == nil && ref.EqualLogs(st.Log, want), "the remote file has not what is local: %v", err)
	}
	sync("sync " + e["name"])
	s.Check(s.Cur.Main(), "synchronising ended the session")
	d = s.Dump()
	remote(d.Log)
	s.Do("set a k2 v2")
	d = s.Dump()
	s.MustExit()
	// from now on by itself
	a.Args = plain
	s = a.Start().MustOpen(user, pass)
	remote(d.Log)
	s.Do("set a k3 v3")
	d = s.Dump()
	s.MustExit()
	remote(d.Log)
	x.Outcome("used " + c.Kind)
	x.State(fmt.Sprint(c))
}

func init() {
	fam := core.NewFamily("C33", "wizards", runWizard)
	use := core.NewFamily("C33", "accounts", runWizUse)
	core.Register(&core.Check{
		ID: "C33", Level: "fault_enumeration",
		Rule:        "one execution is a session of the real program that goes through wizards; state = command, number of answers, way it ended",
		Assumptions: []string{"RSA keys are made in a few executions only (they take long)"},
		Run: func(ctx *core.Ctx) {
			ends := []string{ctrlD, ctrlC, termErr}
			fam.Explore(ctx, "adding entries: every answer from a set, given up at every question", func(y func(WizCase) bool) {
				qs := [][]string{{"", "m@x", " e ", "é\u2028"}, {"", "me", "y", "-"}, {"y", "", "?", "16", "m", "c", "u", "e 3", "0", "zz"}, {"", "secret"}, {"", "secret", "other"}}
				var rec func(cmd string, pre []string, d int) bool
				rec = func(cmd string, pre []string, d int) bool {
					if !y(WizCase{Ops: []WizOp{{cmd, pre}}}) {
						return false
					}
					for _, e := range ends {
						if !y(WizCase{Ops: []WizOp{{cmd, append(append([]string{}, pre...), e)}}}) {
							return false
						}
					}
					if d < len(qs) && (d < 3 || pre[2] == "m") {
						for _, v := range qs[d] {
							if !rec(cmd, append(append([]string{}, pre...), v), d+1) {
								return false
							}
						}
					}
					return true
				}
				for _, n := range []string{"b", "a", "A", "sync/x", "user/x", "sync/file", "aa", "é", "a/b"} {
					if n == "b" {
						if !rec("add "+n, nil, 0) {
							return
						}
						continue
					}
					for _, mu := range []bool{false, true} {
						for _, an := range [][]string{nil, {"", "", "y"}, {ctrlD}, {"", ctrlC}, {"", "", "m", "x", "x"}} {
							if !y(WizCase{Ops: []WizOp{{"add " + n, an}}, Multi: mu}) {
								return
							}
						}
					}
				}
			})
			fam.Explore(ctx, "making passwords: all sequences of answers", func(y func(WizCase) bool) {
				ans := []string{"", "?", "c", "m", "u", "l", "n", "b", "e", "u 3", "l 0", "n 2", "b 5", "e -1", "8", "0", "-1", "4", "x", "u x", "c 2", "y 1", "65537", "40", " y", "y"}
				d := ctx.Pick(2, 3)
				for n := 1; n <= d; n++ {
					for _, q := range intSeqs(len(ans), n) {
						an := []string{"", ""}
						for _, i := range q {
							an = append(an, ans[i])
							if ans[i] == "m" {
								an = append(an, "p1", "p2") // not the same
							}
						}
						if !y(WizCase{Ops: []WizOp{{"add b", an}}, Clip: "ok"}) {
							return
						}
						if n == 1 && !(y(WizCase{Ops: []WizOp{{"add b", an}}, Clip: "fail"}) && y(WizCase{Ops: []WizOp{{"add b", an}}, Clip: "dead"})) {
							return
						}
					}
				}
			})
			fam.Explore(ctx, "adding accounts: every answer from a set, given up at every question", func(y func(WizCase) bool) {
				type tree struct{ qs [][]string }
				scp := [][]string{{"", "us", "a@b:c", "ü"}, {"", "h.example", "10.0.0.1"}, {"", "2222", "0", "65536", "x"}, {"", "d/v.bp", "/abs/v.bp"}, {"1", "3", "0", "x"}}
				deep := ctx.Thorough()
				var rec func(cmd string, qs [][]string, pre []string, d, odd int) bool
				rec = func(cmd string, qs [][]string, pre []string, d, odd int) bool {
					if !y(WizCase{Ops: []WizOp{{cmd, pre}}}) {
						return false
					}
					for _, e := range ends {
						if !y(WizCase{Ops: []WizOp{{cmd, append(append([]string{}, pre...), e)}}}) {
							return false
						}
					}
					if d == len(qs) {
						return true
					}
					for i, v := range qs[d] {
						n := append(append([]string{}, pre...), v)
						nd, no := d+1, odd
						if v == "" && qs[d][0] == "" && len(qs[d]) != 5 || v == "0" || v == "65536" || v == "x" {
							nd = d // asked again
						}
						if i > 1 || nd == d {
							no++
						}
						if no > 1 && !deep || no > 2 {
							continue
						}
						if !rec(cmd, qs, n, nd, no) {
							return false
						}
					}
					return true
				}
				if !rec("addsync file", [][]string{{"", "r.bp", "/x/r.bp", "a b%20?#é"}}, nil, 0, 0) {
					return
				}
				if !rec("addsync scp", scp, nil, 0, 0) {
					return
				}
			})
			fam.Explore(ctx, "ports, hosts, users, paths and kinds", func(y func(WizCase) bool) {
				one := func(cmd string, an ...string) bool { return y(WizCase{Ops: []WizOp{{cmd, an}}}) }
				for _, p := range []string{"1", "22", "80", "65534", "65535", "65536", "70000", "0", "-1", "+22", "022", "1.5", " 22", "22 ", "x", "1e3", "0x16", "99999999999999999999", "２２", "", "22/x", "2 2"} {
					if !one("addsync scp", "us", "h", p) {
						return
					}
				}
				for _, h := range []string{"h", "h.example", "127.0.0.1", "::1", "[::1]", "a b", "a/b", "a@b", "h:22", "é.example", "%41", "h?x", "h#x", " h", "h\\x", "<h>", "fe80::1%eth0"} {
					if !one("addsync scp", "us", h) {
						return
					}
				}
				for _, u := range []string{"u", "a@b", "a:b", "a/b", "a b", "é", "%41", "a?b", "a#b", "@", ":", "DOM\\u", "\"", "<", "+"} {
					for _, mn := range []string{"1", "3"} {
						if !one("addsync scp", u, "h", "", "v", mn) {
							return
						}
					}
				}
				for _, p := range []string{"v", "d/v.bp", "/abs", "//x", "~/v", "~u/v", "a b", "a%20b", "a?b", "a#b", "é", ":", "a:b", "./v", "../v", "\\", "'", " ", "/", "d/", "*", "-x", "a;b", "[x]"} {
					for _, k := range []string{"scp", "file"} {
						an := []string{p}
						if k == "scp" {
							an = []string{"u", "h", "", p}
						}
						if !one("addsync "+k, an...) {
							return
						}
					}
				}
				for _, pw := range []string{"pp", "p w", "p@w:/x", "%41", "é", "?#[]", "\"'`\\", " "} {
					if !one("addsync scp", "u", "h", "", "v", "3", "m", pw, pw) {
						return
					}
				}
				for _, k := range []string{"", "SCP", "http", "sync", "file:", "scp2", "sftp", "ssh", "/", "File"} {
					for _, mu := range []bool{false, true} {
						if !y(WizCase{Ops: []WizOp{{Cmd: strings.TrimSpace("addsync " + k)}}, Multi: mu}) {
							return
						}
					}
				}
				if !y(WizCase{Ops: []WizOp{{Cmd: "add"}}}) {
					return
				}
				for _, m := range []string{"4", "5", "-1", "00", "1 ", " 3", "01", "+3", "1.0", "3x", "\uff11", "99999999999999999999", "", "y", "password"} {
					if !one("addsync scp", "us", "h", "", "v", m) || !one("addsync scp", "us", "h", "", "v", m, "3") || !one("addsync scp", "us", "h", "", "v", m, ctrlD) {
						return
					}
				}
				one("addsync scp", "us", "h", "", "v", "2")
			})
			fam.Explore(ctx, "sequences of wizards", func(y func(WizCase) bool) {
				ops := []WizOp{{"add b", nil}, {"add b", []string{"", "", ctrlD}}, {"add a", nil}, {"add c", []string{"x", termErr}}, {"add c", []string{"", "", "m", "p", "q", "m", "p", "p"}}, {"addsync file", nil}, {"addsync file", []string{ctrlD}}, {"addsync scp", nil}, {"addsync scp", []string{"u", "h", "", "p", "1", "x"}},
					{"addsync scp", []string{"u", "h", "", "p", "3", ctrlD}}, {"addsync scp", []string{"u", "h", "", "p", ctrlC}}, {"addsync nope", nil}, {"add sync/scp", nil}, {"add sync/file1", nil}}
				d := ctx.Pick(3, 4)
				for n := 2; n <= d; n++ {
					for _, q := range intSeqs(len(ops), n) {
						c := WizCase{}
						for _, i := range q {
							c.Ops = append(c.Ops, ops[i])
						}
						if n == 2 {
							c.Multi = q[0] > q[1]
						}
						if (q[0]+q[1])%5 == 4 {
							c.End = ctrlC
						}
						if !y(c) {
							return
						}
					}
				}
			})
			use.Explore(ctx, "accounts are used with a real remote", func(y func(WizUse) bool) {
				paths := []string{"v.bp", "d/v.bp", "/abs/v.bp", "~/v.bp", "a b.bp", "x%20y", "a?b#c", "é.bp", "a:b", "./v", "'q'", "a\\b", "$HOME", "a;b", "*"}
				for _, p := range paths {
					if !strings.HasPrefix(p, "/") {
						for _, mu := range []bool{false, true} {
							if !y(WizUse{Kind: "file", Path: p, Multi: mu, Twice: p == "v.bp"}) && !mu {
								return
							}
						}
					}
					for _, m := range []string{"1", "3"} {
						if p[0] == '~' { // means something to the remote shell
							continue
						}
						if !y(WizUse{Kind: "scp", User: "us", Host: "127.0.0.1", Path: p, Menu: m, Multi: m == "1"}) {
							return
						}
					}
				}
				for _, u := range []string{"a@b", "a:b", "a b", "é", "a/b", "%41", "a?b#c"} {
					for _, h := range []string{"127.0.0.1", "localhost"} {
						for _, m := range []string{"1", "3"} {
							if !y(WizUse{Kind: "scp", User: u, Host: h, Path: "d/v.bp", Menu: m}) {
								return
							}
						}
					}
				}
				for _, p := range []string{"pp", "p w", "p@w:/x", "%41", "é", "?#[]", "\"'`\\"} {
					if !y(WizUse{Kind: "scp", User: "us", Host: "127.0.0.1", Path: "v", Menu: "3", Pass: []string{"m", p, p}}) {
						return
					}
				}
				y(WizUse{Kind: "scp", User: "us", Host: "127.0.0.1", Path: "v", Menu: "2"})
			})
		},
	})
}
