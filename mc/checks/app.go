package checks

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/txlogs"
)

// ---------------------------------------------------------------------------------------------
// Running the real program.  Only two dependencies are stand-ins: the key derivation (cheap) and the
// terminal (JSON over pipes).

const (
	ctrlD = "^D"
	ctrlC = "^C"
	// termErr makes the terminal fail.
	termErr = "^E"
)

// App is a scratch place with a database file in which the program can be run.
type App struct {
	x    *core.X
	Dir  string
	File string
	Args []string // before the subcommand
	Pre  []string // program that runs the program
	Sub  []string // subcommand and its arguments
	Env  []string
	Clip string // if set the clipboard stand-in is installed and records here
	Uid  int    // run as this user
	TTY  bool   // give it a controlling terminal as standard input
	// Bin overrides the program
	Bin    string
	// NoFile leaves the file to be opened to Args and Env
	NoFile bool
}

// Prompt is a question of the program.
type Prompt struct {
	Kind string // line, hidden, exit, completions
	Text string
	List []string
}

// Main says whether this is the prompt of the shell.
func (p Prompt) Main() bool {
	return p.Kind == "line" && strings.HasPrefix(p.Text, "(") && (strings.Contains(p.Text, "vault.bp)") || strings.Contains(p.Text, ".bpass)")) && strings.HasSuffix(p.Text, "> ")
}

// Where is the entry the shell has been cd'ed into.
func (p Prompt) Where() string {
	_, r, ok := strings.Cut(p.Text, "vault.bp):")
	if !ok {
		return ""
	}
	return strings.TrimSuffix(r, "> ")
}

// newApp makes the scratch place.
func newApp(x *core.X) *App {
	d := x.Dir()
	a := &App{x: x, Dir: d, File: filepath.Join(d, "vault.bp"), Args: []string{"--no-color", "--no-clear-clip"}}
	for _, s := range []string{"bin", "tmp", "home"} {
		if err := os.Mkdir(filepath.Join(d, s), 0o777); err != nil {
			core.Harness("%v", err)
		}
		os.Chmod(filepath.Join(d, s), 0o777)
	}
	return a
}

// WithClip installs the clipboard stand-in and makes the program clear it.
func (a *App) WithClip() *App {
	a.Clip = filepath.Join(a.Dir, "clip.log")
	if err := os.Link(filepath.Join(os.Getenv("MC_TOOLS"), "xclip"), filepath.Join(a.Dir, "bin", "xclip")); err != nil {
		core.Harness("%v", err)
	}
	a.Args = []string{"--no-color"}
	return a
}

// Clips lists what was put on the clipboard.
func (a *App) Clips() (out []string) {
	b, _ := os.ReadFile(a.Clip)
	for len(b) >= 16 {
		n := 0
		fmt.Sscanf(string(b[:15]), "%d", &n)
		out = append(out, string(b[16:16+n]))
		b = b[16+n:]
	}
	return out
}

// Script installs an executable in the program's PATH.
func (a *App) Script(name, body string) string {
	p := filepath.Join(a.Dir, "bin", name)
	// no other execution may fork with the file open for writing: running it would fail
	syscall.ForkLock.RLock()
	defer syscall.ForkLock.RUnlock()
	if err := os.WriteFile(p, []byte(body), 0o755); err != nil {
		core.Harness("%v", err)
	}
	return p
}

// Sess is a running program.
type Sess struct {
	a    *App
	x    *core.X
	cmd  *exec.Cmd
	ans  *os.File
	ev   *os.File
	br   *bufio.Reader
	outf *os.File
	off  int64
	Cur  Prompt
	Code int
	log  []string
	skip [][2]int64 // parts of the output not worth reporting
	dead bool
}

// Start runs the program up to its first prompt.
func (a *App) Start() *Sess {
	x := a.x
	ar, aw, err := os.Pipe()
	if err != nil {
		core.Harness("%v", err)
	}
	er, ew, err := os.Pipe()
	if err != nil {
		core.Harness("%v", err)
	}
	of, err := os.CreateTemp(a.Dir, "out")
	if err != nil {
		core.Harness("%v", err)
	}
	os.Remove(of.Name())
	bin := a.Bin
	if bin == "" {
		bin = os.Getenv("MC_BPASS")
	}
	args := append([]string{}, a.Args...)
	if !a.NoFile {
		args = append(args, "-f", a.File)
	}
	args = append(args, a.Sub...)
	full := append(append(append([]string{}, a.Pre...), bin), args...)
	cmd := exec.Command(full[0], full[1:]...)
	cmd.Dir = a.Dir
	cmd.Env = append([]string{"VERIF_RL=1", "HOME=" + filepath.Join(a.Dir, "home"), "TMPDIR=" + filepath.Join(a.Dir, "tmp"), "PATH=" + filepath.Join(a.Dir, "bin"),
		"PINENTRY=none", "TZ=UTC", "GOMAXPROCS=2", "GOTRACEBACK=all", "VERIF_CLIP=" + a.Clip}, a.Env...)
	cmd.Stdout, cmd.Stderr = of, of
	cmd.ExtraFiles = []*os.File{ar, ew}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if a.TTY {
		pm, ps := openPty()
		defer ps.Close()
		x.Defer(func() { pm.Close() })
		cmd.Stdin = ps
		cmd.SysProcAttr.Setpgid, cmd.SysProcAttr.Setsid, cmd.SysProcAttr.Setctty = false, true, true
	}
	if a.Uid != 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(a.Uid), Gid: uint32(a.Uid)}
	}
	for i := 0; ; i++ {
		if err = cmd.Start(); err == nil {
			break
		}
		if i == 20 || !(errors.Is(err, syscall.EAGAIN) || errors.Is(err, syscall.ETXTBSY) || errors.Is(err, syscall.ENOMEM)) {
			core.Harness("can not run the program: %v", err)
		}
		time.Sleep(50 * time.Millisecond)
	}
	ar.Close()
	ew.Close()
	s := &Sess{a: a, x: x, cmd: cmd, ans: aw, ev: er, br: bufio.NewReaderSize(er, 1<<16), outf: of}
	x.Defer(func() { s.Kill(); of.Close() })
	s.next()
	return s
}

// Kill ends the program hard.
func (s *Sess) Kill() {
	if !s.dead {
		s.dead = true
		syscall.Kill(-s.cmd.Process.Pid, syscall.SIGKILL)
		s.cmd.Wait()
		s.ans.Close()
		s.ev.Close()
		s.Cur = Prompt{Kind: "exit"}
		s.Code = -9
	}
}

const appTimeout = 40 * time.Second

func (s *Sess) next() {
	s.x.Step()
	s.ev.SetReadDeadline(time.Now().Add(appTimeout))
	l, err := s.br.ReadBytes('\n')
	if err != nil {
		if errors.Is(err, os.ErrDeadlineExceeded) {
			// a stack dump for the report
			syscall.Kill(s.cmd.Process.Pid, syscall.SIGQUIT)
			time.Sleep(300 * time.Millisecond)
			out := s.All()
			s.Kill()
			s.x.Failf("the program hangs\n%s", tail(s.story()+out, 6000))
		}
		if err != io.EOF {
			core.Harness("%v", err)
		}
		done := make(chan struct{})
		go func() {
			select {
			case <-done:
			case <-time.After(appTimeout):
				syscall.Kill(-s.cmd.Process.Pid, syscall.SIGKILL)
			}
		}()
		s.cmd.Wait()
		close(done)
		s.dead = true
		s.ans.Close()
		s.ev.Close()
		s.Code = s.cmd.ProcessState.ExitCode()
		s.Cur = Prompt{Kind: "exit"}
		return
	}
	var q struct {
		T string
		P []byte
		A []string
	}
	if err := json.Unmarshal(l, &q); err != nil {
		core.Harness("bad prompt %q: %v", l, err)
	}
	s.Cur = Prompt{Kind: q.T, Text: string(q.P), List: q.A}
}

// Send answers the current prompt and runs to the next.
func (s *Sess) Send(v string) *Sess {
	if s.Cur.Kind == "exit" {
		s.x.Failf("the program ended (status %d) before %q could be entered\n%s", s.Code, v, tail(s.story(), 3000))
	}
	k := "line"
	switch v {
	case ctrlD:
		k = "eof"
	case ctrlC:
		k = "int"
	case termErr:
		k = "err"
	}
	s.log = append(s.log, fmt.Sprintf("%s<- %q", s.Cur.Text, v))
	b, _ := json.Marshal(struct {
		K string `json:"k"`
		V []byte `json:"v"`
	}{k, []byte(v)})
	if _, err := s.ans.Write(append(b, '\n')); err != nil && !errors.Is(err, syscall.EPIPE) {
		core.Harness("%v", err)
	}
	s.next()
	return s
}

// Tab asks for completions of a text.
func (s *Sess) Tab(v string) []string {
	b, _ := json.Marshal(struct {
		K string `json:"k"`
		V []byte `json:"v"`
	}{"tab", []byte(v)})
	s.ans.Write(append(b, '\n'))
	old := s.Cur
	s.next()
	if s.Cur.Kind != "completions" {
		s.x.Failf("completion of %q ended the prompt: %v", v, s.Cur)
	}
	l := s.Cur.List
	s.Cur = old
	return l
}

// Hist is what the line editor remembers.
func (s *Sess) Hist() []string {
	b, _ := json.Marshal(struct {
		K string `json:"k"`
	}{"hist"})
	s.ans.Write(append(b, '\n'))
	old := s.Cur
	s.next()
	if s.Cur.Kind != "completions" {
		core.Harness("no history but %v", s.Cur)
	}
	l := s.Cur.List
	s.Cur = old
	return l
}

// Out returns what was printed since the last call.
func (s *Sess) Out() string {
	b := make([]byte, 0, 4096)
	buf := make([]byte, 1<<16)
	for {
		n, err := s.outf.ReadAt(buf, s.off)
		b = append(b, buf[:n]...)
		s.off += int64(n)
		if err != nil || n == 0 {
			break
		}
	}
	return string(b)
}

// All returns everything printed.
func (s *Sess) All() string {
	b, _ := io.ReadAll(io.NewSectionReader(s.outf, 0, 1<<26))
	return string(b)
}

func (s *Sess) story() string {
	out, o := s.All(), ""
	p := int64(0)
	for _, k := range s.skip {
		if k[0] >= p && k[1] <= int64(len(out)) {
			o += out[p:k[0]] + "(database)\n"
			p = k[1]
		}
	}
	o += out[p:]
	return "session:\n  " + strings.Join(s.log, "\n  ") + "\noutput:\n" + o
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// Fail reports a violation with the session's story.
func (s *Sess) Fail(format string, args ...any) {
	s.x.Failf("%s\n%s", fmt.Sprintf(format, args...), tail(s.story(), 5000))
}

// Check reports a violation unless ok.
func (s *Sess) Check(ok bool, format string, args ...any) {
	if !ok {
		s.Fail(format, args...)
	}
}

// NoCrash fails if the program crashed.
func (s *Sess) NoCrash() {
	if s.Cur.Kind == "exit" {
		o := s.All()
		if s.Code == 2 && (strings.Contains(o, "goroutine ") || strings.Contains(o, "panic:")) || s.Code < 0 {
			s.Fail("the program crashed")
		}
	}
}

// Open answers the credential questions; the session is then at the main prompt (or ended).
func (s *Sess) Open(user, pass string) *Sess {
	if user != "" {
		s.Check(s.Cur.Kind == "line" && strings.Contains(s.Cur.Text, "user"), "no question for the user but %v", s.Cur)
		s.Send(user)
	}
	s.Check(s.Cur.Kind == "hidden", "no question for the passphrase but %v", s.Cur)
	s.Send(pass)
	return s
}

// MustOpen is Open that must succeed.
func (s *Sess) MustOpen(user, pass string) *Sess {
	s.Open(user, pass)
	s.Check(s.Cur.Main(), "can not open the file as %q with %q: %v", user, pass, s.Cur)
	s.Out()
	return s
}

// Cmd runs a shell command whose further questions are answered by subs; it returns the output and
// how many answers were used.  The session ends up at the main prompt, at an unanswered question
// (more=true) or at the end.
func (s *Sess) Cmd(line string, subs ...string) (out string, used int, more bool) {
	s.Check(s.Cur.Main(), "not at the shell's prompt: %v", s.Cur)
	s.Out()
	s.Send(line)
	for !s.Cur.Main() && s.Cur.Kind != "exit" {
		if used == len(subs) {
			return s.Out(), used, true
		}
		s.Send(subs[used])
		used++
	}
	s.NoCrash()
	return s.Out(), used, false
}

// Do runs a command which must use exactly the given answers and come back to the prompt.
func (s *Sess) Do(line string, subs ...string) string {
	out, used, more := s.Cmd(line, subs...)
	s.Check(!more, "%q asks %q, which is not expected", line, s.Cur.Text)
	s.Check(s.Cur.Main(), "%q ended the session", line)
	s.Check(used == len(subs), "%q asked only %d of %d questions", line, used, len(subs))
	return out
}

// DBState is what dumpall shows.
type DBState struct {
	Version  uint                    `json:"version"`
	Snapshot map[string]txlogs.Entry `json:"snapshot"`
	Log      []txlogs.Tx             `json:"log"`
}

// Dump shows the database of the running session.
func (s *Sess) Dump() DBState {
	s.Out()
	from := s.off
	out, _, more := s.Cmd("dumpall")
	s.skip = append(s.skip, [2]int64{from, s.off})
	s.log = s.log[:len(s.log)-1]
	s.Check(!more && s.Cur.Main(), "dumpall does not come back: %v", s.Cur)
	i := strings.IndexByte(out, '{')
	var d DBState
	if i < 0 || json.Unmarshal([]byte(out[i:]), &d) != nil {
		s.Fail("dumpall shows no database: %q", tail(out, 500))
	}
	return d
}

// Exit leaves the shell normally.
func (s *Sess) Exit() *Sess {
	s.Check(s.Cur.Main(), "not at the shell's prompt: %v", s.Cur)
	s.Send("exit")
	return s
}

// MustExit leaves the shell; the program must end with success.
func (s *Sess) MustExit() {
	s.Exit()
	s.Check(s.Cur.Kind == "exit" && s.Code == 0, "exit: %v, status %d", s.Cur, s.Code)
}

// ---------------------------------------------------------------------------------------------
// building and reading files

// Ent is an entry of a start state.
type Ent struct {
	ID     string
	Fields []string // key, value, ...
}

// mkTxs builds a log creating entries, one change per field; times count up from t.
func mkTxs(t int64, ents ...Ent) (log []txlogs.Tx) {
	for _, e := range ents {
		log = append(log, txlogs.Tx{Time: t, Kind: txlogs.TxAdd, UUID: e.ID})
		t++
		log = append(log, txlogs.Tx{Time: t, Kind: txlogs.TxSetKey, UUID: e.ID, Key: "updated", Value: fmt.Sprint(t)})
		t++
		for i := 0; i+1 < len(e.Fields); i += 2 {
			log = append(log, txlogs.Tx{Time: t, Kind: txlogs.TxSetKey, UUID: e.ID, Key: e.Fields[i], Value: e.Fields[i+1]})
			t++
		}
	}
	return log
}

func uid(n int) string { return fmt.Sprintf("%08x-0000-4000-8000-00000000000%x", 0x1000+n, n%16) }

// payloadOf serialises a log, with the snapshot at version v (-1 none).
func payloadOf(log []txlogs.Tx, v int) []byte {
	m := map[string]any{}
	if len(log) > 0 {
		m["log"] = log
	}
	if v > 0 {
		st, _, _ := ref.Replay(log[:v])
		m["version"] = v
		m["snapshot"] = st
	}
	b, _ := json.Marshal(m)
	return b
}

// userEntry is the entry of a file user, consistent with ref.File.
func userEntry(id string, u ref.FileUser, master []byte) Ent {
	salt, iv := u.Salt, u.IV
	if salt == nil {
		salt = ref.Fill("salt"+u.Name+"/"+u.Pass, ref.SaltSize)
	}
	if iv == nil {
		iv = ref.Fill("iv"+u.Name, ref.IVSize)
	}
	return Ent{id, []string{"name", "user/" + u.Name, "salt", hex.EncodeToString(salt), "iv", hex.EncodeToString(iv),
		"mkey", hex.EncodeToString(ref.WrapMaster(ref.StubKDF([]byte(u.Pass), salt), iv, master))}}
}

// put writes a single-user database file.
func (a *App) put(pass string, log []txlogs.Tx) []byte {
	b := ref.File{Pass: pass, Payload: payloadOf(log, len(log))}.Encode(ref.StubKDF)
	a.write(b)
	return b
}

// putUsers writes a multi-user database file; the users' entries are prepended.
func (a *App) putUsers(users []ref.FileUser, master []byte, log []txlogs.Tx) ([]byte, []txlogs.Tx) {
	var ue []Ent
	for i, u := range users {
		ue = append(ue, userEntry(uid(100+i), u, master))
	}
	full := append(mkTxs(100, ue...), log...)
	b := ref.File{Users: users, Master: master, Payload: payloadOf(full, len(full))}.Encode(ref.StubKDF)
	a.write(b)
	return b, full
}

func (a *App) write(b []byte) {
	if err := os.WriteFile(a.File, b, 0o600); err != nil {
		core.Harness("%v", err)
	}
}

// bytes of the file, nil if there is none.
func (a *App) bytes() []byte {
	b, err := os.ReadFile(a.File)
	if err != nil && !os.IsNotExist(err) {
		core.Harness("%v", err)
	}
	return b
}

// read decodes the database file with the reference codec.
func readFile(b []byte, user, pass string) (*ref.Decoded, DBState, error) {
	d, err := ref.Decode(b, user, pass, ref.StubKDF)
	if err != nil {
		return nil, DBState{}, err
	}
	var st DBState
	dec := json.NewDecoder(bytes.NewReader(d.Payload))
	if err := dec.Decode(&st); err != nil && len(bytes.TrimSpace(d.Payload)) > 0 {
		return nil, st, err
	}
	return d, st, nil
}

// stateOf replays a log that must be sane.
func stateOf(x *core.X, log []txlogs.Tx) ref.State {
	st, n, ok := ref.Replay(log)
	if !ok {
		x.Failf("log can not be replayed at %d: %s", n, ref.ShowLog(log))
	}
	return st
}

// noTimes drops the update times.
func noTimes(s ref.State) ref.State {
	o := ref.State{}
	for u, e := range s {
		o[u] = map[string]string{}
		for k, v := range e {
			if k != "updated" {
				o[u][k] = v
			}
		}
	}
	return o
}

// byName re-keys a state by entry name, dropping update times.
func byName(s ref.State) ref.State {
	o := ref.State{}
	for u, e := range noTimes(s) {
		n := e["name"]
		if _, dup := o[n]; dup || n == "" {
			n += "#" + u
		}
		o[n] = e
	}
	return o
}

func sameState(a, b ref.State) bool { return a.Show() == b.Show() }

// openPty makes a terminal.
func openPty() (master, slave *os.File) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		core.Harness("%v", err)
	}
	var n, zero uint32
	syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&zero)))
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		core.Harness("pty: %v", e)
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		core.Harness("%v", err)
	}
	return m, s
}
