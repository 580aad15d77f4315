package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/scpsync"
	"golang.org/x/crypto/ssh"
)

// ---------------------------------------------------------------------------------------------
// C26: copying a file over ssh

// scpContent makes a file's contents.
func scpContent(kind string, n int) []byte {
	switch kind {
	case "zero":
		return make([]byte, n)
	case "one":
		return bytes.Repeat([]byte{1}, n)
	case "nl":
		return bytes.Repeat([]byte{'\n'}, n)
	case "head":
		return bytes.Repeat([]byte("C0644 1 f\n"), n/10+1)[:n]
	}
	return ref.Fill(kind, n)
}

func scpConfig() *ssh.ClientConfig {
	return &ssh.ClientConfig{User: "u", Auth: []ssh.AuthMethod{ssh.Password("p")}, HostKeyCallback: ssh.InsecureIgnoreHostKey(),
		HostKeyAlgorithms: []string{ssh.KeyAlgoED25519}, Timeout: 30 * time.Second}
}

// scpNote collects what the server side objects to.
type scpNote struct {
	mu   sync.Mutex
	l    []string
	seen []string
}

func (n *scpNote) add(f string, a ...any) {
	n.mu.Lock()
	n.l = append(n.l, fmt.Sprintf(f, a...))
	n.mu.Unlock()
}

// check is called when the server has ended.
func (n *scpNote) check(x *core.X) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if len(n.l) > 0 {
		x.Failf("the server got something else than expected: %s", strings.Join(n.l, "; "))
	}
}

// ends of a session
func scpEnd(ch *sshChan, end string) int {
	switch end {
	case "0":
		return 0
	case "1":
		return 1
	case "tcp":
		ch.Cut()
	}
	return -1
}

// ack reads the client's ok.
func (n *scpNote) ack(ch *sshChan, what string) bool {
	b, err := ch.Byte()
	if err != nil || b != 0 {
		n.add("no ok for %s but %q, %v", what, b, err)
		return false
	}
	return true
}

// ScpGet is a plain download.
type ScpGet struct {
	Len  int    `json:"len"`
	Fill string `json:"fill"`
	Name string `json:"name"`
	Mode string `json:"mode"`
	Cuts []int  `json:"cuts,omitempty"` // where the server's bytes are cut into pieces
}

func runScpGet(x *core.X, c ScpGet) {
	data := scpContent(c.Fill, c.Len)
	var note scpNote
	var cut atomic.Bool
	s := startSSH(x, []string{"ed1"}, "p", nil, func(s *sshSrv, cmd string, ch *sshChan) int {
		if !note.ack(ch, "the start") {
			return 1
		}
		head := fmt.Sprintf("C%s %d %s\n", c.Mode, len(data), c.Name)
		// the pieces
		all := append([]byte(head), data...)
		all = append(all, 0)
		at := 0
		acked := false
		for _, k := range append(append([]int{}, c.Cuts...), len(all)) {
			if k <= at || k > len(all) {
				continue
			}
			if at < len(head) && k >= len(head) {
				if ch.Part(all[at:len(head)]) != nil || !note.ack(ch, "the header") {
					return 1
				}
				acked = true
				at = len(head)
			}
			if k > at {
				if ch.Part(all[at:k]) != nil {
					note.add("the client went away")
					return 1
				}
			}
			at = k
		}
		if !acked || !note.ack(ch, "the file") {
			return 1
		}
		if rest, _ := io.ReadAll(ch); len(rest) > 0 {
			note.add("more bytes %.40q", rest)
		}
		cut.Store(true)
		return 0
	})
	got, err := scpsync.Recv(s.Addr(), scpConfig(), "f")
	x.Check(err == nil, "download of %d bytes: %v", len(data), err)
	x.Check(bytes.Equal(got, data), "downloaded %d bytes %.60q instead of %d bytes %.60q", len(got), got, len(data), data)
	s.Quiet()
	note.check(x)
	_, _, cmds, _ := s.Seen()
	x.Check(len(cmds) == 1, "the server was asked to run %q", cmds)
	x.Step()
	x.Outcome("downloaded")
	x.State(fmt.Sprint(c.Len, c.Fill, c.Cuts))
}

// ScpBad is a download that goes wrong: the server sends the parts of a script and ends.
type ScpBad struct {
	Script []string `json:"script"` // "<" wait for an ok, else bytes
	End    string   `json:"end"`
	Want   string   `json:"want"` // error, notfound, or empty: an error or the contents
	Data   string   `json:"data"`
}

func runScpBad(x *core.X, c ScpBad) {
	s := startSSH(x, []string{"ed1"}, "p", nil, func(s *sshSrv, cmd string, ch *sshChan) int {
		for _, p := range c.Script {
			if p == "<" {
				if _, err := ch.Byte(); err != nil {
					break
				}
				continue
			}
			if ch.Part([]byte(p)) != nil {
				break
			}
		}
		return scpEnd(ch, c.End)
	})
	got, err := scpsync.Recv(s.Addr(), scpConfig(), "f")
	nf := err != nil && scpsync.IsNotFoundErr(err)
	switch c.Want {
	case "error", "notfound":
		x.Check(err != nil, "no error, returned %q", got)
		x.Check(nf == (c.Want == "notfound"), "not found is %v for error %v", nf, err)
	case "any":
		x.Check(err == nil, "error %v", err)
		x.Check(string(got) == c.Data, "got %q", got)
	default:
		if err == nil {
			x.Check(string(got) == c.Data, "no error, but the contents are %q instead of %q", got, c.Data)
		}
		x.Check(!nf, "not found for %v", err)
	}
	x.Step()
	x.Outcome(fmt.Sprint(err != nil, nf))
	x.State(strings.Join(c.Script, "|") + c.End)
}

// ScpPut is an upload: at one step the server answers something else.
type ScpPut struct {
	Len   int      `json:"len"`
	Fill  string   `json:"fill"`
	Name  string   `json:"name"`
	Mode  int      `json:"mode"`
	Slow  int      `json:"slow,omitempty"`  // the server dawdles at this step (0: never)
	Step  int      `json:"step"`            // 0 none, 1 before the header, 2 after it, 3 after the data
	Reply []string `json:"reply,omitempty"` // instead of the ok, in pieces
	Then  string   `json:"then,omitempty"`  // end, drain
	End   string   `json:"end"`
}

var reScpHead = regexp.MustCompile(`^C([0-7]{4,5}) ([0-9]+) ([^\n/]+)\n$`)

func runScpPut(x *core.X, c ScpPut) {
	data := scpContent(c.Fill, c.Len)
	var note scpNote
	var stored []byte
	var done atomic.Bool
	s := startSSH(x, []string{"ed1"}, "p", nil, func(s *sshSrv, cmd string, ch *sshChan) int {
		// answer or deviate
		answer := func(step int) (bool, int) {
			if c.Slow == step {
				time.Sleep(3 * time.Millisecond)
			}
			if c.Step != step {
				ch.Write([]byte{0})
				return true, 0
			}
			for _, r := range c.Reply {
				ch.Part([]byte(r))
			}
			if c.Then == "drain" {
				io.Copy(io.Discard, ch)
			}
			return false, scpEnd(ch, c.End)
		}
		if ok, code := answer(1); !ok {
			return code
		}
		l, err := ch.Line()
		if err != nil {
			return 1
		}
		m := reScpHead.FindStringSubmatch(l)
		if m == nil {
			note.add("header %q", l)
			return 1
		}
		if m[1] != fmt.Sprintf("%04o", c.Mode) || m[2] != fmt.Sprint(len(data)) || m[3] != path.Base(c.Name) {
			note.add("header %q", l)
			return 1
		}
		if ok, code := answer(2); !ok {
			return code
		}
		got := make([]byte, len(data))
		if n, err := io.ReadFull(ch, got); err != nil {
			note.add("%d bytes instead of %d", n, len(got))
			return 1
		}
		if b, err := ch.Byte(); err != nil || b != 0 {
			note.add("%q, %v instead of the ok after the data", b, err)
			return 1
		}
		stored = got
		if ok, code := answer(3); !ok {
			return code
		}
		if rest, _ := io.ReadAll(ch); len(rest) > 0 {
			note.add("more bytes %.40q", rest)
		}
		done.Store(true)
		return scpEnd(ch, c.End)
	})
	err := scpsync.Send(s.Addr(), scpConfig(), c.Name, c.Mode, data)
	s.Quiet()
	note.check(x)
	if c.Step == 0 && c.End == "0" {
		x.Check(err == nil, "upload of %d bytes: %v", len(data), err)
		x.Check(done.Load() && bytes.Equal(stored, data), "uploaded %d bytes %.60q instead of %d bytes %.60q", len(stored), stored, len(data), data)
	} else {
		x.Check(err != nil, "the upload went wrong without an error")
	}
	x.Step()
	x.Outcome(fmt.Sprint(err != nil))
	x.State(fmt.Sprint(c))
}

// ScpCut loses the connection after some bytes.
type ScpCut struct {
	Dir  string `json:"dir"`  // get, put
	Side string `json:"side"` // out: from the server, in: to the server
	At   int64  `json:"at"`
	Len  int    `json:"len"`
}

func scpPlain(x *core.X, data []byte, stored *atomic.Bool) *sshSrv {
	return startSSH(x, []string{"ed1"}, "p", nil, func(s *sshSrv, cmd string, ch *sshChan) int {
		if strings.Contains(cmd, "t ") {
			ch.Write([]byte{0})
			ch.Line()
			ch.Write([]byte{0})
			got := make([]byte, len(data)+1)
			if _, err := io.ReadFull(ch, got); err != nil || !bytes.Equal(got[:len(data)], data) || got[len(data)] != 0 {
				return 1
			}
			stored.Store(true)
			ch.Write([]byte{0})
			io.Copy(io.Discard, ch)
			return 0
		}
		ch.Byte()
		fmt.Fprintf(ch, "C0644 %d f\n", len(data))
		ch.Byte()
		ch.Write(data)
		ch.Write([]byte{0})
		ch.Byte()
		io.Copy(io.Discard, ch)
		return 0
	})
}

func runScpCut(x *core.X, c ScpCut) {
	data := ref.Fill("cut", c.Len)
	var stored atomic.Bool
	s := scpPlain(x, data, &stored)
	if c.Side == "out" {
		s.CutOut = c.At
	} else {
		s.CutIn = c.At
	}
	var got []byte
	var err error
	if c.Dir == "get" {
		got, err = scpsync.Recv(s.Addr(), scpConfig(), "f")
	} else {
		err = scpsync.Send(s.Addr(), scpConfig(), "f", 0o600, data)
	}
	s.Quiet()
	if c.At == 0 {
		x.Check(err == nil, "undisturbed: %v", err)
	}
	if err == nil && c.Dir == "get" {
		x.Check(bytes.Equal(got, data), "no error, but %d bytes instead of %d", len(got), len(data))
	}
	if err == nil && c.Dir == "put" {
		x.Check(stored.Load(), "no error, but the server has not got the file")
	}
	if err != nil {
		x.Check(!scpsync.IsNotFoundErr(err), "a lost connection counts as file not found: %v", err)
	}
	x.Step()
	x.Outcome(fmt.Sprint(c.Dir, err != nil))
	x.State(fmt.Sprint(c))
}

// ScpReal copies with the real scp on the other side.
type ScpReal struct {
	Name string `json:"name"`
	Len  int    `json:"len"`
	Kind string `json:"kind"` // "", missing, dir, unreadable, nodir, readonly, over
}

func runScpReal(x *core.X, c ScpReal) {
	base := x.Dir()
	os.Chmod(base, 0o755)
	home := filepath.Join(base, "home")
	if err := os.Mkdir(home, 0o755); err != nil {
		core.Harness("%v", err)
	}
	os.Chown(home, 65534, 65534)
	data := scpContent("real", c.Len)
	file := filepath.Join(home, c.Name)
	os.MkdirAll(filepath.Dir(file), 0o755)
	if strings.HasPrefix(c.Name, "~/") {
		os.MkdirAll(filepath.Dir(filepath.Join(home, c.Name[2:])), 0o755)
	}
	filepath.Walk(home, func(p string, _ os.FileInfo, _ error) error { os.Chown(p, 65534, 65534); return nil })
	s := startSSH(x, []string{"ed1"}, "p", nil, func(s *sshSrv, cmd string, ch *sshChan) int { return realScp(home, cmd, ch) })
	list := func() (l []string) {
		filepath.Walk(home, func(p string, fi os.FileInfo, _ error) error {
			if fi != nil && !fi.IsDir() {
				r, _ := filepath.Rel(home, p)
				l = append(l, r)
			}
			return nil
		})
		return l
	}
	odd := strings.ContainsAny(c.Name, "\n\x00") || strings.HasPrefix(c.Name, "~")
	put := func(b []byte) error { return scpsync.Send(s.Addr(), scpConfig(), c.Name, 0o600, b) }
	get := func() ([]byte, error) { return scpsync.Recv(s.Addr(), scpConfig(), c.Name) }
	switch c.Kind {
	case "":
		err := put(data)
		if odd && err != nil {
			x.Outcome("refused")
			x.Check(len(list()) == 0, "a refused upload leaves %q", list())
			return
		}
		x.Check(err == nil, "upload: %v", err)
		if !odd {
			x.Check(fmt.Sprint(list()) == fmt.Sprint([]string{filepath.Clean(c.Name)}), "the upload of %q made %q", c.Name, list())
			got, _ := os.ReadFile(file)
			x.Check(bytes.Equal(got, data), "the upload stored %d bytes instead of %d", len(got), len(data))
			fi, _ := os.Stat(file)
			x.Check(fi.Mode().Perm() == 0o600, "the upload's mode is %v", fi.Mode())
		}
		if strings.HasPrefix(c.Name, "~") { // in the home directory, or a name like others
			l := list()
			x.Check(len(l) == 1 && (l[0] == filepath.Clean(c.Name) || l[0] == filepath.Clean(strings.TrimPrefix(c.Name, "~/"))), "the upload of %q made %q", c.Name, l)
			got, _ := os.ReadFile(filepath.Join(home, l[0]))
			x.Check(bytes.Equal(got, data), "the upload stored %d bytes instead of %d", len(got), len(data))
		}
		got, err := get()
		x.Check(err == nil, "download: %v", err)
		x.Check(bytes.Equal(got, data), "downloaded %d bytes instead of %d", len(got), len(data))
		// again, over it
		b2 := scpContent("again", c.Len/2)
		x.Check(put(b2) == nil, "second upload: %v", err)
		got, err = get()
		x.Check(err == nil && bytes.Equal(got, b2), "downloaded %d bytes instead of %d: %v", len(got), len(b2), err)
	case "missing":
		_, err := get()
		x.Check(err != nil && scpsync.IsNotFoundErr(err), "a missing file gives %v", err)
	case "unreadable":
		os.WriteFile(file, data, 0o600) // belongs to root
		_, err := get()
		x.Check(err != nil && !scpsync.IsNotFoundErr(err), "an unreadable file gives %v", err)
		err = put(data)
		x.Check(err != nil && !scpsync.IsNotFoundErr(err), "upload over an unwritable file gives %v", err)
	case "dir":
		os.Mkdir(file, 0o755)
		_, err := get()
		x.Check(err != nil && !scpsync.IsNotFoundErr(err), "a directory gives %v", err)
		err = put(data)
		x.Check(err != nil, "upload over a directory nobody may write to gives %v", err)
	case "nodir":
		os.Remove(filepath.Dir(file))
		err := put(data)
		x.Check(err != nil, "an upload to a missing directory gives no error")
		_, err = get()
		x.Check(err != nil, "a download from a missing directory gives no error")
	}
	x.Step()
	x.Outcome(c.Kind)
	x.State(fmt.Sprint(c))
}

// ScpHog sends or promises endless data.
type ScpHog struct {
	Kind string `json:"kind"`
}

func runScpHog(x *core.X, c ScpHog) {
	const most = 24 << 20
	flood := func(ch *sshChan) {
		b := bytes.Repeat([]byte("x"), 32<<10)
		for i := 0; i < 96<<20/len(b); i++ {
			if _, err := ch.Write(b); err != nil {
				return
			}
		}
	}
	s := startSSH(x, []string{"ed1"}, "p", nil, func(s *sshSrv, cmd string, ch *sshChan) int {
		switch c.Kind {
		case "header":
			ch.Byte()
			ch.Write([]byte("C0644 5 "))
			flood(ch)
		case "message":
			ch.Byte()
			ch.Write([]byte("\x01"))
			flood(ch)
		case "promise":
			ch.Byte()
			ch.Write([]byte("C0644 2147483646 f\n"))
			ch.Byte()
			ch.Write([]byte("some bytes"))
		case "more":
			ch.Byte()
			ch.Write([]byte("C0644 5 f\n"))
			ch.Byte()
			ch.Write([]byte("hello\x00"))
			flood(ch)
		case "reply":
			ch.Write([]byte("\x01"))
			flood(ch)
		}
		return 0
	})
	var m0, m1 runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&m0)
	var err error
	if c.Kind == "reply" {
		err = scpsync.Send(s.Addr(), scpConfig(), "f", 0o600, []byte("hello"))
	} else {
		_, err = scpsync.Recv(s.Addr(), scpConfig(), "f")
	}
	runtime.ReadMemStats(&m1)
	x.Check(err != nil, "no error")
	s.Quiet()
	x.Check(s.Out < most, "took %d MB of nonsense", s.Out>>20)
	x.Check(m1.TotalAlloc-m0.TotalAlloc < 512<<20, "used %d MB of memory", (m1.TotalAlloc-m0.TotalAlloc)>>20)
	x.Step()
	x.State(c.Kind)
}

// ScpDial is a server that can not be talked to.
type ScpDial struct {
	Kind string `json:"kind"`
	Dir  string `json:"dir"`
}

func runScpDial(x *core.X, c ScpDial) {
	var stored atomic.Bool
	s := scpPlain(x, []byte("hello"), &stored)
	conf := scpConfig()
	addr := s.Addr()
	switch c.Kind {
	case "password":
		conf.Auth = []ssh.AuthMethod{ssh.Password("q")}
	case "noauth":
		conf.Auth = nil
	case "hostkey":
		conf.HostKeyCallback = ssh.FixedHostKey(sshKey("ed2").PublicKey())
	case "refusedkey":
		conf.HostKeyCallback = func(string, net.Addr, ssh.PublicKey) error { return errors.New("no") }
	case "algo":
		conf.HostKeyAlgorithms = []string{ssh.KeyAlgoECDSA521}
	case "nobody":
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			core.Harness("%v", err)
		}
		addr = l.Addr().String()
		l.Close()
	case "addr":
		addr = "127.0.0.1"
	case "port":
		addr = "127.0.0.1:notaport"
	case "nochan", "noexec":
	}
	var err error
	if c.Dir == "get" {
		_, err = scpsync.Recv(addr, conf, "f")
	} else {
		err = scpsync.Send(addr, conf, "f", 0o600, []byte("hello"))
	}
	x.Check(err != nil && !stored.Load(), "no error")
	x.Check(!scpsync.IsNotFoundErr(err), "counts as file not found: %v", err)
	_, _, cmds, _ := s.Seen()
	x.Check(len(cmds) == 0, "ran %q", cmds)
	x.Step()
	x.State(fmt.Sprint(c))
}

func init() {
	famG := core.NewFamily("C26", "downloads", runScpGet)
	famB := core.NewFamily("C26", "bad downloads", runScpBad)
	famP := core.NewFamily("C26", "uploads", runScpPut)
	famC := core.NewFamily("C26", "lost connections", runScpCut)
	famR := core.NewFamily("C26", "real scp", runScpReal)
	famH := core.NewFamily("C26", "endless answers", runScpHog)
	famH.Serial = true
	famD := core.NewFamily("C26", "no session", runScpDial)
	for _, h := range []*time.Duration{&famG.Hang, &famB.Hang, &famP.Hang, &famC.Hang, &famR.Hang, &famD.Hang} {
		*h = 40 * time.Second
	}
	core.Register(&core.Check{
		ID: "C26", Level: "fault_enumeration",
		Rule:        "one execution is one real upload or download over the loopback network against a server in the harness that follows a script (pieces, answers, deviations, lost connections) or runs the real scp; the result is compared with what the server sent or stored; state = script",
		Assumptions: []string{"pieces are sent when the client has taken the one before, as seen from its window updates", "the server answers eventually (there are no time limits in the protocol)"},
		Run: func(ctx *core.Ctx) {
			famG.Explore(ctx, "sizes around all buffer sizes and awkward contents, names and modes; every way to cut a small transfer in pieces", func(y func(ScpGet) bool) {
				sizes := []int{0, 1, 2, 3, 10, 255, 256, 257, 511, 512, 513, 4095, 4096, 4097, 8191, 8192, 32767, 32768, 32769, 65536, 1 << 20, 4<<20 + 1, 9 << 20}
				if ctx.Thorough() {
					sizes = append(sizes, 2<<20-1, 2<<20, 2<<20+1, 5<<20, 20<<20)
				}
				for _, n := range sizes {
					for _, f := range []string{"zero", "one", "nl", "head", "rand"} {
						if n > 70000 && f != "rand" {
							continue
						}
						if !y(ScpGet{n, f, "f", "0644", nil}) {
							return
						}
					}
				}
				for _, nm := range []string{"vault.bp", "a b", "C0644", "ü", "'", "a  b", "-", "x.\x01"} {
					for _, m := range []string{"0644", "0600", "0000", "0777", "0755", "4755", "02755", "10644"} {
						if !y(ScpGet{7, "rand", nm, m, nil}) {
							return
						}
					}
				}
				for _, f := range []string{"zero", "one", "nl", "head"} {
					for _, n := range []int{0, 1, 2, 6} {
						total := 10 + n + 1
						for i := 1; i < total; i++ {
							for j := i; j < total; j++ {
								cuts := []int{i, j}
								if i == j {
									cuts = cuts[:1]
								}
								if !y(ScpGet{n, f, "f", "0644", cuts}) {
									return
								}
							}
						}
					}
				}
				w := ctx.Pick(13, 17)
				for _, f := range []string{"head", "one"} {
					for m := 0; m < 1<<w; m++ {
						var cuts []int
						for i := 0; i < w; i++ {
							if m>>i&1 == 1 {
								cuts = append(cuts, i+1)
							}
						}
						if !y(ScpGet{w - 10, f, "f", "0644", cuts}) {
							return
						}
					}
				}
			})
			famB.Explore(ctx, "every prefix of a download ended in every way, malformed headers, error answers at every step, short, long and unterminated data", func(y func(ScpBad) bool) {
				ends := []string{"0", "1", "none", "tcp"}
				const data = "some\x00data\x01\n"
				head := fmt.Sprintf("C0644 %d f\n", len(data))
				for _, e := range ends {
					// the whole stream, ended in another way
					w := ""
					if e == "0" {
						w = "any"
					} else if e == "1" {
						w = "error"
					}
					if !y(ScpBad{[]string{"<", head, "<", data + "\x00", "<"}, e, w, data}) {
						return
					}
					for k := 0; k < len(head)+len(data)+1; k++ {
						sc := []string{"<", head[:min(k, len(head))]}
						if k > len(head) {
							sc = append(sc, "<", data[:k-len(head)])
						} else if k == len(head) {
							sc = append(sc, "<")
						}
						if !y(ScpBad{sc, e, "error", ""}) {
							return
						}
					}
				}
				bad := []string{"\n", "C\n", "C0644\n", "C0644 5\n", "C0644 x f\n", "C0644 5x f\n", "Cabcd 5 f\n", "C0648 5 f\n", "C 5 f\n", "C0644  f\n", "C0644 -1 f\n", "C0644 -5 f\n", "C0644 -2147483648 f\n", "C0644 99999999999999999999 f\n", "C0644 0x5 f\n",
					"D0755 0 d\n", "E\n", "X0644 5 f\n", "c0644 5 f\n", "0644 5 f\n", " C0644 5 f\n", "\x00", "\x00\n", "\x00C0644 5 f\n", "\x03no\n", "hello\n", "\xff\xff\n",
					"\x01\n", "\x02\n", "\x01scp: f: Permission denied\n", "\x02scp: protocol error\n", "\x01", "\x02"}
				for _, b := range bad {
					for _, e := range ends {
						for _, sc := range [][]string{{"<", b}, {"<", b, "hello\x00"}, {b}, {"<", b, "<", "hello\x00", "<"}} {
							if strings.HasSuffix(sc[len(sc)-1], "<") && e != "0" {
								continue // the client ends first
							}
							if sc[0] != "<" || len(sc) < 4 {
								if !y(ScpBad{sc, e, "error", ""}) {
									return
								}
							}
						}
					}
				}
				for _, m := range []string{"scp: f: No such file or directory", "f: no such file or directory", "scp: a b: No such file or directory", "No such file or directory"} {
					for _, e := range []string{"1", "0"} {
						if !y(ScpBad{[]string{"<", "\x01" + m + "\n"}, e, "notfound", ""}) {
							return
						}
						// in pieces
						for k := 1; k < len(m)+2; k++ {
							t := "\x01" + m + "\n"
							if !y(ScpBad{[]string{"<", t[:k], t[k:]}, e, "notfound", ""}) {
								return
							}
						}
					}
				}
				// unusual, but one could make sense of them
				for _, h := range []string{"C644 5 f\n", "C00644 5 f\n", "C0644 05 f\n", "C0644 +5 f\n", "C0644\t5\tf\n", "C0644 5 f g\n", "C0644  5 f\n", "C0644 5 f\r\n", "C0644 5 \n", "C0644 5  \n"} {
					for _, e := range ends {
						if !y(ScpBad{[]string{"<", h, "hello\x00"}, e, "", "hello"}) {
							return
						}
					}
				}
				head = "C0644 5 f\n"
				for _, e := range ends {
					if !y(ScpBad{[]string{"<", head, "<", "hello\x00\x00"}, e, "", "hello"}) {
						return
					}
				}
				for _, d := range []string{"", "h", "hell", "hello", "hell\x00", "hello!", "hello\x01", "hello\x02", "hello\x01scp: read error\n", "hello\x02lost\n", "hellox\x00", "hello\n", "hello\n\x00", "hello\x00x", "hello\x00C0644 5 g\nworld\x00", "hello\x00\x01scp: late\n", "hello\x00\x02scp: late\n"} {
					for _, e := range ends {
						const w = "error"
						for _, sc := range [][]string{{"<", head, "<", d}, {"<", head, d}, {head, d}} {
							if !y(ScpBad{sc, e, w, ""}) {
								return
							}
						}
						// byte by byte
						sc := []string{"<", head, "<"}
						for i := range d {
							sc = append(sc, d[i:i+1])
						}
						if !strings.HasPrefix(d, "hello\x00") && !y(ScpBad{sc, e, w, ""}) {
							return
						}
					}
				}
			})
			famP.Explore(ctx, "sizes around all buffer sizes and awkward contents, names and modes; every other answer in pieces at every step, ended in every way", func(y func(ScpPut) bool) {
				sizes := []int{0, 1, 2, 255, 256, 257, 4095, 4096, 4097, 32767, 32768, 32769, 65536, 1 << 20, 3 << 20, 9 << 20}
				if ctx.Thorough() {
					sizes = append(sizes, 2<<20-1, 2<<20, 2<<20+1, 20<<20)
				}
				for _, n := range sizes {
					for _, f := range []string{"zero", "one", "nl", "head", "rand"} {
						if n > 70000 && f != "rand" {
							continue
						}
						for slow := 0; slow <= 3; slow++ {
							if !y(ScpPut{Len: n, Fill: f, Name: "f", Mode: 0o600, Slow: slow, End: "0"}) {
								return
							}
						}
					}
				}
				for _, nm := range []string{"vault.bp", "a b", "d/f", "/d/f", "../f", "ü", "'", "d d/e e", "-"} {
					for _, m := range []int{0o644, 0o600, 0, 0o777, 0o755, 0o4755} {
						if !y(ScpPut{Len: 5, Fill: "rand", Name: nm, Mode: m, End: "0"}) {
							return
						}
					}
				}
				msg := "scp: f: Permission denied\n"
				replies := [][]string{nil, {"\x01"}, {"\x02"}, {"\x01\n"}, {"\x02\n"}, {"\x01" + msg}, {"\x02" + msg}, {"\x01", msg}, {"\x02", msg[:9], msg[9:]}, {"x"}, {"\x03\n"}, {"\xff"}, {"\x01" + strings.Repeat("m", 300) + "\n"}, {"\x01" + strings.Repeat("m", 5000) + "\n"}, {"\x00\x01" + msg}, {"\x01" + msg, "\x00"}}
				for _, n := range []int{0, 5, 300, 40000} {
					for st := 1; st <= 3; st++ {
						for _, r := range replies {
							for _, th := range []string{"end", "drain"} {
								for _, e := range []string{"0", "1", "none", "tcp"} {
									if th == "drain" && (len(r) == 0 || r[0][0] == 0 || r[0][0] < 3 && !strings.HasSuffix(r[len(r)-1], "\n")) {
										continue // both would wait
									}
									if th == "end" && (n == 300 || n == 40000) && !ctx.Thorough() {
										continue
									}
									if !y(ScpPut{Len: n, Fill: "rand", Name: "f", Mode: 0o600, Step: st, Reply: r, Then: th, End: e}) {
										return
									}
								}
							}
						}
					}
				}
				for _, e := range []string{"1", "none", "tcp"} {
					if !y(ScpPut{Len: 5, Fill: "rand", Name: "f", Mode: 0o600, End: e}) {
						return
					}
				}
			})
			famC.Explore(ctx, "the connection is lost after every number of bytes in either direction", func(y func(ScpCut) bool) {
				for _, d := range []string{"get", "put"} {
					for _, l := range []int{0, 100, ctx.Pick(300, 70000)} {
						if !y(ScpCut{d, "out", 0, l}) {
							return
						}
						for _, side := range []string{"out", "in"} {
							n := int64(2600)
							if side == "in" {
								n = 2300
							}
							if (side == "out") == (d == "get") {
								n += int64(l)
							}
							for k := int64(1); k <= n; k++ {
								if !y(ScpCut{d, side, k, l}) {
									return
								}
							}
						}
					}
				}
			})
			famR.Explore(ctx, "awkward names, sizes and states of the remote file with the real scp", func(y func(ScpReal) bool) {
				for _, n := range []string{"f", "a b", "a  b", "a'b", `a"b`, "a$HOME", "$(id)", "`id`", "a;b", "a&b", "a|b", "a>b", "a<b", "*", "a?", "[a]", "{a,b}", "(a)", "#a", "a#b", "!", "-r", "-", "--", "a\\b", "\\", "ü", "日本", "d/f", "d d/f f", "d/-r", "./f", "~f", "~", "~/f", "d/~", " a", "a ", "a\tb", "a\nb", "a=b", "A=b c", "%s", "a%", "f.bp", "a'b'c", "''", "'\"'\"", "~/a b", "~/a;b c", "~/a'b", "~/$HOME", "~/*", "~/-r", "~/d e/f", "~root/f"} {
					for _, l := range []int{0, 5, 70000} {
						if !y(ScpReal{n, l, ""}) {
							return
						}
					}
				}
				for _, k := range []string{"missing", "unreadable", "dir", "nodir"} {
					for _, n := range []string{"f", "a b", "d/f", "No such"} {
						if k == "nodir" && n != "d/f" {
							continue
						}
						if !y(ScpReal{n, 5, k}) {
							return
						}
					}
				}
			})
			famH.Explore(ctx, "endless headers, messages and data, and a promise of two gigabytes", func(y func(ScpHog) bool) {
				for _, k := range []string{"header", "message", "promise", "more", "reply"} {
					if !y(ScpHog{k}) {
						return
					}
				}
			})
			famD.Explore(ctx, "wrong password, refused or unknown host key, nobody there", func(y func(ScpDial) bool) {
				for _, k := range []string{"password", "noauth", "hostkey", "refusedkey", "algo", "nobody", "addr", "port"} {
					for _, d := range []string{"get", "put"} {
						if !y(ScpDial{k, d}) {
							return
						}
					}
				}
			})
		},
	})
}
