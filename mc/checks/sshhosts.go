package checks

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/txlogs"
	"golang.org/x/crypto/ssh"
)

// ---------------------------------------------------------------------------------------------
// C25: host keys

// memScp is a remote file system that speaks scp.
type memScp struct {
	mu    sync.Mutex
	files map[string][]byte
	bad   []string
	x     *core.X
	fail  string // how sending a file fails
}

func (m *memScp) get(p string) ([]byte, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	b, ok := m.files[p]
	return b, ok
}

func (m *memScp) serve(s *sshSrv, cmd string, ch *sshChan) int {
	w := shWords(m.x, cmd)
	if len(w) < 2 {
		m.mu.Lock()
		m.bad = append(m.bad, cmd)
		m.mu.Unlock()
		return 127
	}
	p := w[len(w)-1]
	to := false
	for _, o := range w[:len(w)-1] {
		if strings.HasPrefix(o, "-") && strings.Contains(o, "t") {
			to = true
		}
	}
	if !to {
		b, ok := m.get(p)
		if _, err := ch.Byte(); err != nil {
			return 1
		}
		if !ok {
			fmt.Fprintf(ch, "\x01scp: %s: No such file or directory\n", p)
			return 1
		}
		switch m.fail {
		case "denied":
			fmt.Fprintf(ch, "\x01scp: %s: Permission denied\n", p)
			return 1
		case "fatal":
			fmt.Fprintf(ch, "\x02scp: protocol error\n")
			return 1
		case "noscp":
			return 127
		case "end":
			return 0
		case "head":
			fmt.Fprintf(ch, "hello\n")
			return 1
		}
		fmt.Fprintf(ch, "C0600 %d %s\n", len(b), filepath.Base(p))
		if _, err := ch.Byte(); err != nil {
			return 1
		}
		switch m.fail {
		case "cut":
			ch.Write(b[:len(b)/2])
			return 1
		case "late":
			ch.Write(b)
			fmt.Fprintf(ch, "\x01scp: %s: Input/output error\n", p)
			return 1
		}
		ch.Write(b)
		ch.Write([]byte{0})
		if _, err := ch.Byte(); err != nil {
			return 1
		}
		return 0
	}
	ch.Write([]byte{0})
	l, err := ch.Line()
	f := reScpHead.FindStringSubmatch(l)
	if err != nil || f == nil {
		return 1
	}
	var n int
	fmt.Sscan(f[2], &n)
	ch.Write([]byte{0})
	b := make([]byte, n+1)
	if _, err := io.ReadFull(ch, b); err != nil || b[n] != 0 {
		return 1
	}
	m.mu.Lock()
	m.files[p] = b[:n]
	m.mu.Unlock()
	ch.Write([]byte{0})
	return 0
}

// HostSess is one session with a server.
type HostSess struct {
	Keys []string `json:"keys"` // the server's host keys
	Ans  string   `json:"answer"`
	Mode string   `json:"mode"` // auto, cmd, named, none
}

// HostCase is a history of sessions with an ssh remote.
type HostCase struct {
	Host   string     `json:"host"`  // the name used for the server
	Known  []string   `json:"known"` // lines recorded at the beginning
	Auth   string     `json:"auth"`  // pass, key, wrong
	Remote string     `json:"remote"`
	Other  string     `json:"other,omitempty"` // another remote: ok, bad
	Sess   []HostSess `json:"sessions"`
}

func keyLine(host, addr, key string) string {
	k := sshKey(key).PublicKey()
	return fmt.Sprintf("%s %s %s %x", host, addr, k.Type(), sha256.Sum256(k.Marshal()))
}

// knownLine makes a recorded line.
func knownLine(kind, host, addr string) string {
	op, key, _ := strings.Cut(kind, ":")
	if n, ok := strings.CutPrefix(op, "crowd"); ok { // one of many other hosts
		return keyLine(fmt.Sprintf("h%s.example:22", n), "10.0.0."+n+":22", key)
	}
	full := ""
	if key != "" {
		full = keyLine(host, addr, key)
	}
	switch op {
	case "rec":
		return full
	case "oldaddr":
		return keyLine(host, "10.0.0.9:22", key)
	case "other":
		return keyLine("other.example:22", addr, key)
	case "longer":
		return keyLine(host+"0", addr, key)
	case "shorter":
		return keyLine(host[:len(host)-1], addr, key)
	case "upcase":
		f := strings.Fields(full)
		return strings.Join(append(f[:3], strings.ToUpper(f[3])), " ")
	case "cut":
		return full[:len(full)-1]
	case "type":
		f := strings.Fields(full)
		f[2] = "ssh-rsa"
		if sshKey(key).PublicKey().Type() == "ssh-rsa" {
			f[2] = "ssh-ed25519"
		}
		return strings.Join(f, " ")
	case "empty":
		return ""
	case "space":
		return " "
	case "host":
		return host
	case "host2":
		return host + " " + addr
	case "host3":
		return host + " " + addr + " ssh-ed25519"
	case "hostsp":
		return host + " "
	case "extra":
		return full + " junk"
	case "spaces":
		return strings.ReplaceAll(full, " ", "  ")
	case "lead":
		return " " + full
	case "tail":
		return full + " "
	case "tabs":
		return strings.ReplaceAll(full, " ", "\t")
	case "cr":
		return full + "\r"
	case "noise":
		return "what is this"
	}
	core.Harness("known line %q", kind)
	return ""
}

// what the recorded lines say about a server's key: ask, silent, refuse (several letters if it
// is open: a s r)
func knownVerdict(lines []string, host string, keys []string) string {
	mine, exact, loose, broken := 0, 0, 0, 0
	for _, l := range lines {
		f := strings.Fields(l)
		if len(f) == 0 || f[0] != host {
			continue
		}
		mine++
		isExact, isLoose := false, false
		for _, k := range keys {
			w := strings.Fields(keyLine(host, "x", k))
			if len(f) >= 4 && f[2] == w[2] && strings.EqualFold(f[3], w[3]) {
				isLoose = true
				if len(f) == 4 && strings.Join(f, " ") == l && f[3] == w[3] {
					isExact = true
				}
			}
		}
		wellFormed := len(f) == 4 && strings.Join(f, " ") == l && len(f[3]) == 64
		switch {
		case isExact:
			exact++
		case isLoose:
			loose++
		case !wellFormed:
			broken++
		}
	}
	switch {
	case mine == 0:
		return "a"
	case exact == mine && len(keys) == 1:
		return "s"
	case exact+loose > 0:
		// also if there are several keys: the server may prove the other one
		return "asr"
	case broken > 0:
		return "ar"
	}
	return "r"
}

func runHosts(x *core.X, c HostCase) {
	a := newApp(x)
	client := sshKey("ed3")
	mem := &memScp{files: map[string][]byte{}, x: x}
	secret := "s3cr3tpw"
	pass := secret
	var pub ssh.PublicKey
	switch c.Auth {
	case "wrong":
		pass = "another"
	case "key":
		pass, pub = "", client.PublicKey()
	case "key,wrong": // it has a password too, but the server takes only the key
		pass, pub = "another", client.PublicKey()
	case "key,nopub": // it has a key too, but the server takes only the password
	}
	// the listener stays, its keys change
	srv := startSSH(x, nil, pass, pub, mem.serve)
	_, port, _ := strings.Cut(srv.Addr(), ":")
	host := c.Host + ":" + port
	setKeys := func(s *sshSrv, keys []string) {
		old := s.conf
		s.mu.Lock()
		defer s.mu.Unlock()
		s.conf = func() *ssh.ServerConfig {
			n := old()
			for _, k := range keys {
				n.AddHostKey(sshKey(k))
			}
			return n
		}
	}
	plainConf := srv.conf
	var srv2 *sshSrv
	mem2 := &memScp{files: map[string][]byte{}, x: x}
	var lines []string
	for _, k := range c.Known {
		lines = append(lines, knownLine(k, host, srv.Addr()))
	}
	be := Ent{uid(10), []string{"name", "sync/r", "sync", "true"}}
	u := "scp://u:" + secret + "@" + host + "/d/vault.bp"
	if strings.HasPrefix(c.Auth, "key") {
		if c.Auth == "key" {
			u = "scp://u@" + host + "/d/vault.bp"
		}
		k, _ := client.(ssh.Signer)
		_ = k
		seed := sha256.Sum256([]byte("ed3"))
		der, err := x509.MarshalPKCS8PrivateKey(ed25519.NewKeyFromSeed(seed[:]))
		if err != nil {
			core.Harness("%v", err)
		}
		be.Fields = append(be.Fields, "privkey", strings.TrimSpace(string(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: der}))))
	}
	be.Fields = append(be.Fields, "url", u)
	if c.Known != nil {
		be.Fields = append(be.Fields, "knownhosts", strings.Join(lines, "\n"))
	}
	ents := []Ent{{syA, []string{"name", "a", "k", "v0"}}, be}
	if c.Other != "" {
		srv2 = startSSH(x, []string{"ed2"}, secret, nil, mem2.serve)
		key := "ed2"
		if c.Other == "bad" {
			key = "ed1"
		}
		ents = append(ents, Ent{uid(11), []string{"name", "sync/s", "sync", "true", "url", "scp://u:" + secret + "@" + srv2.Addr() + "/v.bp", "knownhosts", keyLine(srv2.Addr(), srv2.Addr(), key)}})
	}
	base := mkTxs(syBase, ents...)
	local := append(append([]txlogs.Tx{}, base...), txlogs.Tx{Time: syBase + 1001, Kind: txlogs.TxSetKey, UUID: syA, Key: "k", Value: "mine"})
	a.put("pw", local)
	exp := local
	enc := func(l []txlogs.Tx) []byte {
		return ref.File{Pass: "pw", Payload: payloadOf(l, len(l))}.Encode(ref.StubKDF)
	}
	var remote []txlogs.Tx
	switch c.Remote {
	case "missing":
	case "same", "same!denied", "same!fatal", "same!noscp", "same!end", "same!head", "same!cut", "same!late":
		_, mem.fail, _ = strings.Cut(c.Remote, "!")
		remote = base
	default:
		// sending it fails
		_, mem.fail, _ = strings.Cut(c.Remote, "!")
		remote = append(append([]txlogs.Tx{}, base...), txlogs.Tx{Time: syBase + 1002, Kind: txlogs.TxSetKey, UUID: syA, Key: "k2", Value: "theirs"})
	}
	if remote != nil {
		mem.files["d/vault.bp"] = enc(remote)
	}
	plainArgs := a.Args
	verdicts := ""
	for i, se := range c.Sess {
		srv.mu.Lock()
		srv.conf = plainConf
		srv.mu.Unlock()
		setKeys(srv, se.Keys)
		srv.Reset()
		before, had := mem.get("d/vault.bp")
		a.Args = plainArgs
		if se.Mode != "auto" {
			a.Args = append(append([]string{}, plainArgs...), "--no-sync")
		}
		s := a.Start().Open("", "pw")
		asked := 0
		var shown string
		drive := func() {
			for n := 0; !s.Cur.Main() && s.Cur.Kind != "exit"; n++ {
				s.Check(n < 10, "never stops asking")
				if strings.Contains(s.Cur.Text, "ave this host") {
					if conns, auth, cmds, _ := srv.Seen(); asked == 0 {
						s.Check(len(auth) == 0 && len(cmds) == 0, "before the user confirmed the server saw %d connections, %q %q", conns, auth, cmds)
					}
					asked++
					shown += s.All()
					s.Send(se.Ans)
					continue
				}
				s.Fail("unexpected question %v", s.Cur)
			}
			s.NoCrash()
		}
		switch se.Mode {
		case "cmd":
			s.Check(s.Cur.Main(), "asks %v", s.Cur)
			s.Send("sync")
		case "named":
			s.Check(s.Cur.Main(), "asks %v", s.Cur)
			s.Send("sync sync/r")
		}
		drive()
		s.Check(s.Cur.Main(), "synchronising ended the session")
		d := s.Dump()
		conns, auth, cmds, _ := srv.Seen()
		if se.Mode == "none" {
			s.Check(conns == 0, "connects without being asked to")
			s.Send("exit")
			s.Check(s.Cur.Kind == "exit" && s.Code == 0, "exit: %v %d", s.Cur, s.Code)
			conns, _, _, _ := srv.Seen()
			s.Check(conns == 0, "connects without being asked to")
			continue
		}
		v := knownVerdict(lines, host, se.Keys)
		if len(se.Keys) == 1 && se.Keys[0] == "ec1" {
			// this kind of key may not be supported
			if v == "r" || conns > 0 && asked == 0 && len(auth) == 0 {
				v = "r"
			}
		}
		proceeded := len(auth) > 0
		what := "r"
		if asked > 0 {
			what = "a"
		} else if proceeded {
			what = "s"
		}
		verdicts += what
		s.Check(strings.Contains(v, what), "known hosts\n  %s\nserver's keys %v: should be %q (ask, silent, refuse), but is %q", strings.Join(lines, "\n  "), se.Keys, v, what)
		yes := se.Ans == "y" || se.Ans == "Y"
		accepted := what == "s" || what == "a" && yes
		if what == "a" {
			s.Check(asked == 1, "asked %d times", asked)
			plain := strings.NewReplacer(":", "", "\n", "").Replace(strings.ToLower(shown))
			found := ""
			for _, k := range se.Keys {
				w := strings.Fields(keyLine(host, srv.Addr(), k))
				if strings.Contains(plain, w[3]) && strings.Contains(shown, w[2]) {
					found = k
				}
			}
			s.Check(found != "", "the question does not show the key")
			if se.Ans == "yes" && proceeded {
				accepted = true
			}
			s.Check(proceeded == accepted, "answer %q, proceeded %v", se.Ans, proceeded)
			if accepted {
				lines = appendLine(lines, c.Known != nil || i > 0, keyLine(host, srv.Addr(), found))
			}
		}
		if !accepted {
			s.Check(len(cmds) == 0 && len(auth) == 0, "the server saw %q %q", auth, cmds)
			s.Check(strings.Contains(s.All(), "error"), "the refused connection is not reported")
		}
		// what is recorded
		got := byName(stateOf(x, d.Log))["sync/r"]["knownhosts"]
		s.Check(got == strings.Join(lines, "\n"), "recorded known hosts are\n%q\nwant\n%q", got, strings.Join(lines, "\n"))
		synced := accepted && c.Auth != "wrong" && mem.fail == ""
		now, has := mem.get("d/vault.bp")
		if !synced {
			s.Check(has == had && bytes.Equal(now, before), "the remote was written")
			s.Check(subsequence(exp, d.Log), "local history is\n%s\nwant\n%s", ref.ShowLog(d.Log), ref.ShowLog(exp))
			if what != "a" || !accepted {
				s.Check(len(d.Log) == len(exp), "local history grew: \n%s\nwant\n%s", ref.ShowLog(d.Log), ref.ShowLog(exp))
			}
		} else {
			s.Check(subsequence(exp, d.Log) && (remote == nil || subsequence(remote, d.Log)), "local history is\n%s", ref.ShowLog(d.Log))
			_, st, err := readFile(now, "", "pw")
			s.Check(err == nil && ref.EqualLogs(st.Log, d.Log), "the remote has not what is local")
		}
		exp = d.Log
		if c.Other != "" && se.Mode != "named" {
			b, ok := mem2.get("v.bp")
			_, a2, _, _ := srv2.Seen()
			if c.Other == "bad" {
				s.Check(!ok && len(a2) == 0, "the other remote's key is wrong, but it saw %q", a2)
			} else {
				_, st, err := readFile(b, "", "pw")
				s.Check(err == nil && ref.EqualLogs(st.Log, d.Log), "the other remote was not synchronised")
			}
		}
		// a change, to be synchronised at the exit
		s.Do(fmt.Sprintf("set a z%d 1", i))
		exp = s.Dump().Log
		n := asked
		s.Send("exit")
		drive()
		s.Check(s.Cur.Kind == "exit" && s.Code == 0, "exit: %v %d", s.Cur, s.Code)
		if accepted {
			s.Check(asked == n, "the confirmed host is asked about again")
		} else if what == "r" {
			_, auth, cmds, _ := srv.Seen()
			s.Check(len(auth) == 0 && len(cmds) == 0, "at exit the server saw %q %q", auth, cmds)
		}
		if mem.fail != "" {
			now, has := mem.get("d/vault.bp")
			s.Check(has == had && bytes.Equal(now, before), "the remote was written, although what it has could not be read")
		}
		_, st, err := readFile(a.bytes(), "", "pw")
		s.Check(err == nil && subsequence(exp, st.Log), "the file is not as it was in the session")
		got = byName(stateOf(x, st.Log))["sync/r"]["knownhosts"]
		s.Check(got == strings.Join(lines, "\n"), "the saved known hosts are\n%q\nwant\n%q", got, strings.Join(lines, "\n"))
		exp = st.Log
		if synced && se.Mode == "auto" {
			now, _ := mem.get("d/vault.bp")
			_, rst, err := readFile(now, "", "pw")
			s.Check(err == nil && ref.EqualLogs(rst.Log, st.Log), "the remote has not what was saved")
		}
		if synced {
			remote = exp
		}
		x.State(fmt.Sprint(c.Known, se.Keys, what, accepted, i))
	}
	x.Check(len(mem.bad) == 0, "the server was asked to run %q", mem.bad)
	x.Outcome(verdicts)
}

// appendLine adds a line to the recorded ones.
func appendLine(lines []string, any bool, l string) []string {
	if strings.Join(lines, "\n") == "" {
		return []string{l}
	}
	return append(append([]string{}, lines...), l)
}

func init() {
	fam := core.NewFamily("C25", "host keys", runHosts)
	core.Register(&core.Check{
		ID: "C25", Level: "model_checking",
		Rule:        "one execution is a history of sessions of the real program with an ssh server in the harness that has certain host keys; what the server sees before and after the decision, the questions, the recorded lines, local and remote data are compared with a reference decision; state = recorded lines, keys and decision",
		Assumptions: []string{"a recorded line that is not of the program's own form may be refused or asked about"},
		Run: func(ctx *core.Ctx) {
			one := []string{"rec:ed1", "rec:ed2", "rec:rsa1", "rec:rsa2", "oldaddr:ed1", "oldaddr:ed2", "other:ed1", "other:ed2", "longer:ed1", "shorter:ed1", "upcase:ed1", "cut:ed1", "type:ed1", "type:rsa1",
				"empty", "space", "host", "host2", "host3", "hostsp", "extra:ed1", "extra:ed2", "spaces:ed1", "lead:ed1", "tail:ed1", "tabs:ed1", "cr:ed1", "cr:ed2", "noise"}
			keys := [][]string{{"ed1"}, {"rsa1"}, {"ed1", "rsa1"}, {"ec1"}}
			ans := []string{"y", "Y", "n", "N", "", "yes", "x", ctrlD, ctrlC}
			fam.Explore(ctx, fmt.Sprintf("%d kinds of recorded lines alone and in pairs, %d sets of server keys, %d answers, several kinds of remotes, logins and ways to synchronise, then further sessions with the same or other keys", len(one), len(keys), len(ans)), func(y func(HostCase) bool) {
				// all kinds of lines, keys and answers
				known := [][]string{nil, {}}
				for _, o := range one {
					known = append(known, []string{o})
				}
				np := len(one)
				for i := 0; i < np; i++ {
					for j := 0; j < np; j++ {
						core := i < 4 || j < 4 || i == 14 || i == 16
						if ctx.Thorough() || core && (i+j)%2 == 0 || i < 2 || j < 2 {
							known = append(known, []string{one[i], one[j]})
						}
					}
				}
				for ki, k := range known {
					for _, ks := range keys {
						v := knownVerdict(knownLines(k), "h:1", ks)
						for ai, an := range ans {
							if !strings.Contains(v, "a") && ai > 0 || ki > 40 && ai > 0 && an != "n" && !ctx.Thorough() {
								continue
							}
							for _, m := range []string{"auto", "cmd", "named"} {
								if m != "auto" && (ki > 31 || ai > 2) && !ctx.Thorough() {
									continue
								}
								if !y(HostCase{"127.0.0.1", k, "pass", "new", "", []HostSess{{ks, an, m}}}) {
									return
								}
							}
						}
					}
				}
				// several recorded lines, others between them
				for _, k := range [][]string{{"other:ed1", "other:ed2", "longer:ed1"}, {"other:ed1", "longer:ed2", "shorter:ed1", "other:rsa1"}, {"other:ed1", "rec:ed1", "other:ed2", "longer:ed2"},
					{"noise", "empty", "other:ed1", "empty"}, {"other:ed1", "other:ed2", "rec:ed2", "other:rsa1"}, {"rec:ed1", "rec:ed1", "rec:ed1"}, {"rec:ed1", "rec:ed2", "rec:rsa1"}, {"rec:rsa2", "rec:ed2", "rec:rsa1"}} {
					for _, ks := range keys[:3] {
						for _, an := range []string{"y", "n"} {
							for _, m := range []string{"auto", "cmd"} {
								if !y(HostCase{"127.0.0.1", k, "pass", "new", "", []HostSess{{ks, an, m}, {ks, "y", "auto"}, {[]string{"ed2"}, "y", "auto"}}}) {
									return
								}
							}
						}
					}
				}
				// many recorded lines
				for _, n := range []int{7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 100, 130, 260} {
					for _, own := range []string{"", "rec:ed1", "rec:ed2"} {
						for _, at := range []int{0, n / 2, n} {
							var k []string
							for i := 0; i < n; i++ {
								if i == at && own != "" {
									k = append(k, own)
								}
								k = append(k, fmt.Sprint("crowd", i, ":ed3"))
							}
							if at == n && own != "" {
								k = append(k, own)
							}
							if own == "" && at > 0 {
								continue
							}
							if !y(HostCase{"127.0.0.1", k, "pass", "new", "", []HostSess{{keys[0], "y", "auto"}, {keys[0], "n", "cmd"}, {[]string{"ed2"}, "y", "auto"}}}) {
								return
							}
						}
					}
				}
				// a server whose key is accepted but which does not send the file
				for _, k := range [][]string{nil, {"rec:ed1"}, {"other:ed2"}} {
					for _, f := range []string{"denied", "fatal", "noscp", "end", "head", "cut", "late"} {
						for _, r := range []string{"same", "new"} {
							for _, o := range []string{"", "ok"} {
								for _, m := range []string{"auto", "cmd", "named"} {
									if !y(HostCase{"127.0.0.1", k, "pass", r + "!" + f, o, []HostSess{{[]string{"ed1"}, "y", m}, {[]string{"ed1"}, "y", "auto"}}}) {
										return
									}
								}
							}
						}
					}
				}
				// logins, remotes
				for _, k := range [][]string{nil, {"rec:ed1"}, {"rec:ed2"}, {"other:ed2"}, {"rec:rsa1"}, {"host"}} {
					for _, h := range []string{"127.0.0.1", "localhost"} {
						for _, au := range []string{"pass", "key", "wrong", "key,wrong", "key,nopub"} {
							for _, r := range []string{"missing", "same", "new"} {
								for _, o := range []string{"", "ok", "bad"} {
									for _, an := range []string{"y", "n", ctrlC} {
										for _, m := range []string{"auto", "cmd", "named", "none"} {
											if !ctx.Thorough() && strings.Contains(au, ",") && (r == "same" || o != "" || h != "127.0.0.1") {
												continue
											}
											if !ctx.Thorough() && (h == "localhost" && r != "new" || o != "" && m == "named" || m == "none" && an != "y") {
												continue
											}
											if k != nil && k[0][:3] == "rec" && an != "y" {
												continue
											}
											if !y(HostCase{h, k, au, r, o, []HostSess{{[]string{"ed1"}, an, m}}}) {
												return
											}
										}
									}
								}
							}
						}
					}
				}
				// histories
				var ss []HostSess
				for _, k := range []string{"ed1", "ed2", "rsa1"} {
					for _, an := range []string{"y", "n", ctrlC} {
						if an == ctrlC && !ctx.Thorough() {
							continue
						}
						for _, m := range []string{"auto", "cmd"} {
							ss = append(ss, HostSess{[]string{k}, an, m})
						}
					}
				}
				depth := ctx.Pick(2, 3)
				for n := 2; n <= depth; n++ {
					for _, seq := range intSeqs(len(ss), n) {
						l := []HostSess{}
						for _, i := range seq {
							l = append(l, ss[i])
						}
						for _, k := range [][]string{nil, {"rec:ed1"}, {"other:ed1"}} {
							for _, au := range []string{"pass", "wrong"} {
								if au == "wrong" && n == 3 {
									continue
								}
								if !y(HostCase{"127.0.0.1", k, au, "missing", "", l}) {
									return
								}
							}
						}
					}
				}
			})
			exploreHostMerge(ctx)
		},
	})
}

func knownLines(kinds []string) (l []string) {
	for _, k := range kinds {
		l = append(l, knownLine(k, "h:1", "h:1"))
	}
	return l
}

var _ = os.Stat
