package checks

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"bpassmc/core"

	"golang.org/x/crypto/ssh"
)

// An ssh server inside the harness.  It listens on the loopback network only, runs nothing but what
// the check gives it and writes down everything it is told.

// sshSrv is one server.
type sshSrv struct {
	p    *sshPort
	conf func() *ssh.ServerConfig
	// Exec serves a command on a channel; it returns the exit status, negative for none.
	Exec func(s *sshSrv, cmd string, ch *sshChan) int
	// CutOut closes a connection after so many bytes sent by the server, CutIn after so many received
	// (0: never).
	CutOut, CutIn int64

	mu    sync.Mutex
	conns []net.Conn
	// what was seen
	Conns int
	Auth  []string // method user secret
	Cmds  []string
	In    []byte // bytes received on the channels
	Out   int64
	Kex   int // finished key exchanges
	wg    sync.WaitGroup
}

var sshKeys keyring

type keyring struct {
	sync.Once
	m map[string]ssh.Signer
}

func (k *keyring) add(name string, priv any) {
	s, err := ssh.NewSignerFromKey(priv)
	if err != nil {
		core.Harness("%v", err)
	}
	k.m[name] = s
}

// sshKey gives a host or client key: ed1, ed2, rsa1, rsa2, ec1.
func sshKey(name string) ssh.Signer {
	sshKeys.Do(func() {
		sshKeys.m = map[string]ssh.Signer{}
		for _, n := range []string{"ed1", "ed2", "ed3"} {
			seed := sha256.Sum256([]byte(n))
			sshKeys.add(n, ed25519.NewKeyFromSeed(seed[:]))
		}
		for _, n := range []string{"rsa1", "rsa2"} {
			k, err := rsa.GenerateKey(rand.Reader, 2048)
			if err != nil {
				core.Harness("%v", err)
			}
			sshKeys.add(n, k)
		}
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			core.Harness("%v", err)
		}
		sshKeys.add("ec1", k)
	})
	k := sshKeys.m[name]
	if k == nil {
		core.Harness("no key %q", name)
	}
	return k
}

// countConn counts and cuts a connection.
type countConn struct {
	net.Conn
	s       *sshSrv
	in, out atomic.Int64
}

func (c *countConn) Read(b []byte) (int, error) {
	if n := c.s.CutIn; n > 0 {
		if c.in.Load() >= n {
			c.Conn.Close()
			return 0, io.EOF
		}
		if int64(len(b)) > n-c.in.Load() {
			b = b[:n-c.in.Load()]
		}
	}
	n, err := c.Conn.Read(b)
	c.in.Add(int64(n))
	return n, err
}

func (c *countConn) Write(b []byte) (int, error) {
	if n := c.s.CutOut; n > 0 {
		left := n - c.out.Load()
		if left <= 0 {
			c.Conn.Close()
			return 0, io.ErrClosedPipe
		}
		if int64(len(b)) > left {
			k, _ := c.Conn.Write(b[:left])
			c.out.Add(int64(k))
			c.Conn.Close()
			return k, io.ErrClosedPipe
		}
	}
	n, err := c.Conn.Write(b)
	c.out.Add(int64(n))
	return n, err
}

// sshChan is a session's channel.
type sshChan struct {
	ssh.Channel
	s    *sshSrv
	conn *countConn
}

// Read writes down what comes in.
func (c *sshChan) Read(b []byte) (int, error) {
	n, err := c.Channel.Read(b)
	c.s.mu.Lock()
	c.s.In = append(c.s.In, b[:n]...)
	c.s.mu.Unlock()
	return n, err
}

// Byte reads one byte.
func (c *sshChan) Byte() (byte, error) {
	var b [1]byte
	_, err := io.ReadFull(c, b[:])
	return b[0], err
}

// Line reads up to a newline.
func (c *sshChan) Line() (string, error) {
	var l []byte
	for {
		b, err := c.Byte()
		if err != nil {
			return string(l), err
		}
		l = append(l, b)
		if b == '\n' || len(l) > 10000 {
			return string(l), nil
		}
	}
}

// Part sends bytes as one piece: it waits until the client has taken them (it then grants more
// window), or a moment.
func (c *sshChan) Part(b []byte) error {
	n := c.conn.in.Load()
	if _, err := c.Write(b); err != nil {
		return err
	}
	for i := 0; i < 40 && c.conn.in.Load() == n; i++ {
		time.Sleep(100 * time.Microsecond)
	}
	return nil
}

// Cut ends the connection.
func (c *sshChan) Cut() { c.conn.Close() }

// startSSH starts a server with some host keys; users log in with the given password or key.
func startSSH(x *core.X, hostKeys []string, pass string, client ssh.PublicKey, run func(*sshSrv, string, *sshChan) int) *sshSrv {
	s := &sshSrv{Exec: run}
	x.Defer(s.Stop)
	s.conf = func() *ssh.ServerConfig {
		c := &ssh.ServerConfig{
			PasswordCallback: func(m ssh.ConnMetadata, p []byte) (*ssh.Permissions, error) {
				s.saw("password", m.User(), string(p))
				if pass != "" && string(p) == pass {
					return nil, nil
				}
				return nil, errors.New("no")
			},
			PublicKeyCallback: func(m ssh.ConnMetadata, k ssh.PublicKey) (*ssh.Permissions, error) {
				s.saw("publickey", m.User(), fmt.Sprintf("%x", sha256.Sum256(k.Marshal())))
				if client != nil && bytes.Equal(k.Marshal(), client.Marshal()) {
					return nil, nil
				}
				return nil, errors.New("no")
			},
			AuthLogCallback: func(m ssh.ConnMetadata, method string, err error) {
				if method == "none" {
					s.saw("none", m.User(), "")
				}
			},
		}
		for _, k := range hostKeys {
			c.AddHostKey(sshKey(k))
		}
		return c
	}
	s.p = takePort(s)
	return s
}

// sshPort is a listening port, they are used again and again.
type sshPort struct {
	l     net.Listener
	mu    sync.Mutex
	owner *sshSrv
}

var sshPorts struct {
	mu   sync.Mutex
	free []*sshPort
}

func takePort(s *sshSrv) *sshPort {
	sshPorts.mu.Lock()
	defer sshPorts.mu.Unlock()
	if n := len(sshPorts.free); n > 0 {
		p := sshPorts.free[n-1]
		sshPorts.free = sshPorts.free[:n-1]
		p.mu.Lock()
		p.owner = s
		p.mu.Unlock()
		return p
	}
	var l net.Listener
	var err error
	for i := 0; i < 100; i++ {
		if l, err = net.Listen("tcp", "127.0.0.1:0"); err == nil {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	if err != nil {
		core.Harness("%v", err)
	}
	p := &sshPort{l: l, owner: s}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				time.Sleep(time.Millisecond)
				continue
			}
			p.mu.Lock()
			s := p.owner
			if s != nil {
				s.wg.Add(1)
				s.mu.Lock()
				s.Conns++
				s.conns = append(s.conns, c)
				s.mu.Unlock()
			}
			p.mu.Unlock()
			if s == nil {
				c.Close()
				continue
			}
			go func() {
				defer s.wg.Done()
				defer c.Close()
				s.serve(&countConn{Conn: c, s: s})
			}()
		}
	}()
	return p
}

func (s *sshSrv) saw(method, user, secret string) {
	s.mu.Lock()
	s.Auth = append(s.Auth, strings.TrimSpace(method+" "+user+" "+secret))
	s.mu.Unlock()
}

// Addr is where it listens.
func (s *sshSrv) Addr() string { return s.p.l.Addr().String() }

// Stop ends everything.
func (s *sshSrv) Stop() {
	if s.p == nil {
		return
	}
	s.p.mu.Lock()
	s.p.owner = nil
	s.p.mu.Unlock()
	s.mu.Lock()
	for _, c := range s.conns {
		c.Close()
	}
	s.mu.Unlock()
	s.wg.Wait()
	sshPorts.mu.Lock()
	sshPorts.free = append(sshPorts.free, s.p)
	sshPorts.mu.Unlock()
	s.p = nil
}

// Quiet waits until all connections are served.
func (s *sshSrv) Quiet() { s.wg.Wait() }

// Reset forgets what was seen.
func (s *sshSrv) Reset() {
	s.mu.Lock()
	s.Conns, s.Auth, s.Cmds, s.In = 0, nil, nil, nil
	s.mu.Unlock()
}

// Seen gives what was seen.
func (s *sshSrv) Seen() (conns int, auth, cmds []string, in []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.Conns, append([]string{}, s.Auth...), append([]string{}, s.Cmds...), append([]byte{}, s.In...)
}

func (s *sshSrv) serve(c *countConn) {
	defer func() {
		s.mu.Lock()
		s.Out += c.out.Load()
		s.mu.Unlock()
	}()
	sc, chans, reqs, err := ssh.NewServerConn(c, s.conf())
	if err != nil {
		return
	}
	defer sc.Close()
	go ssh.DiscardRequests(reqs)
	var cw sync.WaitGroup
	defer cw.Wait()
	for nc := range chans {
		if nc.ChannelType() != "session" {
			nc.Reject(ssh.UnknownChannelType, "no")
			continue
		}
		ch, reqs, err := nc.Accept()
		if err != nil {
			return
		}
		cw.Add(1)
		go func() {
			defer cw.Done()
			defer ch.Close()
			for r := range reqs {
				if r.Type != "exec" {
					r.Reply(false, nil)
					continue
				}
				var m struct{ Cmd string }
				if ssh.Unmarshal(r.Payload, &m) != nil {
					r.Reply(false, nil)
					return
				}
				s.mu.Lock()
				s.Cmds = append(s.Cmds, m.Cmd)
				s.mu.Unlock()
				r.Reply(true, nil)
				code := s.Exec(s, m.Cmd, &sshChan{ch, s, c})
				if code >= 0 {
					ch.SendRequest("exit-status", false, ssh.Marshal(struct{ C uint32 }{uint32(code)}))
				}
				ch.CloseWrite()
				ch.Close()
				return
			}
		}()
	}
}

// shWords splits a command the way a remote shell does.
func shWords(x *core.X, cmd string) []string {
	c := exec.Command("/bin/sh", "-c", `scp() { for a; do printf '%s\0' "$a"; done; }; `+cmd)
	c.Dir = "/"
	c.Env = []string{"PATH=/nonexistent", "HOME=/home/remote"}
	c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	out, err := c.Output()
	if err != nil {
		return nil
	}
	l := strings.Split(string(out), "\x00")
	return l[:len(l)-1]
}

// realScp runs the command with the real scp in a directory, as an unprivileged user.
func realScp(dir, cmd string, ch *sshChan) int {
	scp, err := exec.LookPath("scp")
	if err != nil {
		core.Harness("%v", err)
	}
	bin := filepath.Join(filepath.Dir(dir), "bin")
	os.MkdirAll(bin, 0o755)
	os.Symlink(scp, filepath.Join(bin, "scp"))
	c := exec.Command("/bin/sh", "-c", cmd)
	c.Dir = dir
	c.Env = []string{"PATH=" + bin, "HOME=" + dir}
	c.Stdout = ch
	c.Stderr = io.Discard
	c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	in, err := c.StdinPipe()
	if err != nil {
		return 255
	}
	if err := c.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS ERROR: scp:", err)
		os.Exit(2)
	}
	go func() {
		io.Copy(in, ch)
		in.Close()
	}()
	err = c.Wait()
	if err != nil {
		if c.ProcessState != nil && c.ProcessState.ExitCode() >= 0 {
			return c.ProcessState.ExitCode()
		}
		return 255
	}
	return 0
}
