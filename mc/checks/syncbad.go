package checks

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/txlogs"
)

// ---------------------------------------------------------------------------------------------
// C24: bad remotes

// BadCase is a synchronisation with a remote that is no good.
type BadCase struct {
	Kind  string   `json:"kind"`
	Ans   []string `json:"answers,omitempty"`
	Local string   `json:"local"`          // single, multi
	Good  string   `json:"good,omitempty"` // "", same, new, last: another remote
	Mode  string   `json:"mode"`           // auto, cmd, named
}

// damaged file contents: "" stands for the undamaged one
func badBytes(kind string, good []byte, base []txlogs.Tx) ([]byte, bool) {
	op, arg, _ := strings.Cut(kind, " ")
	var n int
	fmt.Sscan(arg, &n)
	if n < 0 {
		n += len(good)
	}
	switch op {
	case "zero":
		return []byte{}, true
	case "garbage":
		return ref.Fill("garbage", 300), true
	case "text":
		return []byte("not a password file\n"), true
	case "cut":
		return append([]byte{}, good[:n]...), true
	case "flip":
		b := append([]byte{}, good...)
		b[n] ^= 1
		return b, true
	case "longer":
		return append(append([]byte{}, good...), ref.Fill("x", 16)...), true
	case "version":
		b := append([]byte{}, good...)
		copy(b[8:12], arg)
		return b, true
	case "v0":
		return append([]byte("kniopass00000001"), good[16:]...), true
	case "payload":
		return ref.File{Pass: "pw", Payload: []byte(arg)}.Encode(ref.StubKDF), true
	case "broken":
		l := append([]txlogs.Tx{}, base...)
		t := txlogs.Tx{Time: syBase + 2000, Kind: txlogs.TxSetKey, UUID: uid(77), Key: "k", Value: "v"}
		switch arg {
		case "set":
		case "deleted":
			t.Kind, t.UUID, t.Key, t.Value = txlogs.TxDelete, uid(77), "", ""
		case "readd":
			t.Kind, t.UUID, t.Key, t.Value = txlogs.TxAdd, syA, "", ""
		case "kind":
			t.Kind, t.UUID = "what", syA
		}
		return ref.File{Pass: "pw", Payload: payloadOf(append(l, t), -1)}.Encode(ref.StubKDF), true
	case "otherpw":
		return ref.File{Pass: "other", Payload: payloadOf(base, len(base))}.Encode(ref.StubKDF), true
	case "foreign":
		l := mkTxs(syBase+5, Ent{uid(30), []string{"name", "foreign"}})
		return ref.File{Pass: "pw", Payload: payloadOf(l, len(l))}.Encode(ref.StubKDF), true
	case "foreignmulti":
		us := []ref.FileUser{{Name: "z1", Pass: "zp1"}, {Name: "z2", Pass: "zp2"}}
		m := ref.Fill("zmaster", 80)
		l := mkTxs(syBase+5, userEntry(uid(140), us[0], m), userEntry(uid(141), us[1], m), Ent{uid(30), []string{"name", "foreign"}})
		return ref.File{Users: us, Master: m, Payload: payloadOf(l, len(l))}.Encode(ref.StubKDF), true
	}
	return nil, false
}

// badCreds are the users and passphrases that can be tried on anything in these cases.
var badCreds = []cred{{"", "pw"}, {"", "other"}, {"u1", "p1"}, {"u2", "p2"}, {"z1", "zp1"}, {"z2", "zp2"}}

var reBadUser = regexp.MustCompile(`^z[0-9]$`)

func readAny(b []byte) (st DBState, cr cred, ok bool) {
	for _, c := range badCreds {
		if _, st, err := readFile(b, c.user, c.pass); err == nil {
			return st, c, true
		}
	}
	return st, cr, false
}

func runBad(x *core.X, c BadCase) {
	a := newApp(x)
	remDir := filepath.Join(a.Dir, "remote")
	os.Mkdir(remDir, 0o700)
	bad := filepath.Join(remDir, "bad.bp")
	good := filepath.Join(remDir, "good.bp")
	auto := "true"
	if c.Mode != "auto" {
		auto = "true"
	}
	badURL := syURL(bad)
	switch op, arg, _ := strings.Cut(c.Kind, " "); op {
	case "url":
		badURL = arg
	case "missingdir":
		badURL = syURL(filepath.Join(remDir, "no", "bad.bp"))
	case "underfile":
		os.WriteFile(filepath.Join(remDir, "file"), []byte("x"), 0o600)
		badURL = syURL(filepath.Join(remDir, "file", "bad.bp"))
	}
	ents := []Ent{{syA, []string{"name", "a", "k", "v0"}}, {syB, []string{"name", "b", "k", "w0"}}}
	be := Ent{uid(11), []string{"name", "sync/bad", "sync", auto}}
	if c.Kind != "nourl" {
		be.Fields = append(be.Fields, "url", badURL)
	}
	if strings.HasPrefix(c.Kind, "url scp") {
		be.Fields = append(be.Fields, "privkey", "nonsense")
	}
	ents = append(ents, be)
	if c.Good != "" {
		// which remote comes first depends on the entries' ids
		n := 10
		if c.Good == "last" {
			n = 12
		}
		ents = append(ents, Ent{uid(n), []string{"name", "sync/good", "sync", auto, "url", syURL(good)}})
	}
	base := mkTxs(syBase, ents...)
	cr := cred{"", "pw"}
	mine := txlogs.Tx{Time: syBase + 1001, Kind: txlogs.TxSetKey, UUID: syA, Key: "k", Value: "mine"}
	theirs := txlogs.Tx{Time: syBase + 1002, Kind: txlogs.TxSetKey, UUID: syB, Key: "k", Value: "theirs"}
	write := func(p string, log []txlogs.Tx) []txlogs.Tx {
		f := a.File
		defer func() { a.File = f }()
		a.File = p
		if c.Local == "multi" {
			_, l := a.putUsers(shUsers, shMaster, log)
			return l
		}
		a.put("pw", log)
		return log
	}
	if c.Local == "multi" {
		cr = cred{"u1", "p1"}
	}
	local := write(a.File, append(append([]txlogs.Tx{}, base...), mine))
	want := local
	switch c.Good {
	case "same":
		write(good, base)
	case "new", "last":
		write(good, append(append([]txlogs.Tx{}, base...), theirs))
		want = append(append([]txlogs.Tx{}, local...), theirs)
	}
	goodBytes := ref.File{Pass: "pw", Payload: payloadOf(base, len(base))}.Encode(ref.StubKDF)
	badb, isFile := badBytes(c.Kind, goodBytes, base)
	if isFile {
		if err := os.WriteFile(bad, badb, 0o600); err != nil {
			core.Harness("%v", err)
		}
	}
	switch c.Kind {
	case "dir":
		os.Mkdir(bad, 0o700)
	case "loop":
		os.Symlink("bad.bp", bad)
	}
	if c.Mode != "auto" {
		a.Args = append(a.Args, "--no-sync")
	}
	s := a.Start().Open(cr.user, cr.pass)
	asked := 0
	drive := func() {
		n := 0
		for i := 0; !s.Cur.Main() && s.Cur.Kind != "exit"; i++ {
			s.Check(i < 40, "never stops asking")
			v := ctrlD
			if strings.Contains(s.Cur.Text, "use remote credentials") {
				v = "n"
			} else {
				// the next answer that suits the question
				for n < len(c.Ans) {
					a := c.Ans[n]
					n++
					kind := "pass"
					if reBadUser.MatchString(a) {
						kind = "user"
					} else if a == "y" || a == "n" || a == "maybe" || a == "what" {
						kind = "yn"
					}
					q := "yn"
					if s.Cur.Kind == "hidden" {
						q = "pass"
					} else if strings.Contains(s.Cur.Text, " user") {
						q = "user"
					}
					if kind == q || a == ctrlD || a == ctrlC || a == "" {
						v = a
						break
					}
				}
			}
			asked++
			s.Send(v)
		}
		s.NoCrash()
	}
	switch c.Mode {
	case "auto":
		drive()
	default:
		s.Check(s.Cur.Main(), "--no-sync does not open: %v", s.Cur)
		if c.Mode == "cmd" {
			s.Send("sync")
		} else {
			s.Send("sync sync/bad")
		}
		drive()
	}
	s.Check(s.Cur.Main(), "synchronising ended the session")
	out := ""
	for _, l := range strings.Split(s.All(), "\n") {
		if !strings.HasPrefix(l, "pull: ") && !strings.HasPrefix(l, "push: ") {
			out += l + "\n"
		}
	}
	d := s.Dump()
	// what became of the bad one
	now, err := os.ReadFile(bad)
	_, missing := map[string]bool{"missing": true}[c.Kind]
	merged := false
	switch {
	case missing:
		s.Check(err == nil, "the missing remote was not made: %v", err)
		st, _, ok := readAny(now)
		s.Check(ok && ref.EqualLogs(st.Log, d.Log), "the new remote has not what is local")
	case isFile && !bytes.Equal(now, badb):
		// only if it could be read and merged
		before, _, ok := readAny(badb)
		_, n, sane := ref.Replay(before.Log)
		s.Check(ok && sane, "the remote was overwritten though it could not be read or understood (%d)", n)
		if len(before.Log) > 0 {
			s.Check(subsequence(before.Log, d.Log), "the remote was overwritten without taking its history over:\n%s\nlocal\n%s", ref.ShowLog(before.Log), ref.ShowLog(d.Log))
		}
		st, _, ok := readAny(now)
		s.Check(ok && ref.EqualLogs(st.Log, d.Log), "the remote has not what is local")
		merged = true
	case isFile:
	case c.Kind == "dir" || c.Kind == "loop":
		fi, err := os.Lstat(bad)
		s.Check(err == nil && !fi.Mode().IsRegular(), "the remote was replaced")
	}
	declined := len(c.Ans) > 0 && strings.ContainsAny(c.Ans[len(c.Ans)-1], "n^")
	if !missing && !merged {
		s.Check(strings.Contains(out, "sync/bad") || asked > 0, "nothing was reported about the bad remote")
	}
	if declined {
		s.Check(!merged, "declined, but the remote was overwritten")
	}
	exp := want
	if c.Mode == "named" {
		exp = local
	}
	if merged {
		s.Check(subsequence(exp, d.Log), "local history was changed:\n%s\nwant\n%s", ref.ShowLog(d.Log), ref.ShowLog(exp))
		exp = d.Log
	} else {
		s.Check(ref.EqualLogs(d.Log, exp), "local history is\n%s\nwant\n%s", ref.ShowLog(d.Log), ref.ShowLog(exp))
	}
	if accept := c.Kind == "otherpw" && len(c.Ans) > 0 && (c.Ans[len(c.Ans)-1] == "other" && c.Local == "single" || c.Ans[len(c.Ans)-1] == "y") || strings.HasPrefix(c.Kind, "foreign") && len(c.Ans) > 0 && c.Ans[len(c.Ans)-1] == "y"; accept {
		s.Check(merged, "accepted, but the remote was not synchronised")
	}
	checkGood := func(when string) {
		if c.Good == "" || c.Mode == "named" {
			return
		}
		b, _ := os.ReadFile(good)
		st, _, ok := readAny(b)
		s.Check(ok && ref.EqualLogs(st.Log, exp), "%s: the other remote was not synchronised: it has\n%s\nwant\n%s", when, ref.ShowLog(st.Log), ref.ShowLog(exp))
	}
	checkGood("after synchronising")
	// work goes on and is saved
	s.Do("set b z after")
	exp = s.Dump().Log
	s.Send("exit")
	if c.Mode == "auto" {
		drive()
	}
	s.Check(s.Cur.Kind == "exit" && s.Code == 0, "exit: %v, status %d", s.Cur, s.Code)
	st, cr2, ok := readAny(a.bytes())
	s.Check(ok, "the file can not be opened any more")
	if !merged {
		s.Check(cr2 == cr, "the file opens with %v instead of %v", cr2, cr)
		s.Check(ref.EqualLogs(st.Log, exp), "the file has\n%s\nwant\n%s", ref.ShowLog(st.Log), ref.ShowLog(exp))
		if isFile {
			now, _ := os.ReadFile(bad)
			s.Check(bytes.Equal(now, badb), "the second synchronisation overwrote the remote")
		}
	} else {
		s.Check(subsequence(exp, st.Log), "the file has\n%s\nwant\n%s", ref.ShowLog(st.Log), ref.ShowLog(exp))
		exp = st.Log
	}
	if c.Mode == "auto" {
		checkGood("at the end")
	}
	x.Outcome(fmt.Sprintf("merged=%v asked=%d", merged, min(asked, 5)))
	x.State(c.Kind + fmt.Sprint(merged, asked))
}

// ---------------------------------------------------------------------------------------------
// C24: faults while synchronising

// SyFault disturbs one operation on the remote's directory.
type SyFault struct {
	Setup string `json:"setup"` // old, new (remote has something), none
	Plan  string `json:"plan"`
}

type syFaultWorld struct {
	a                  *App
	rem, trace         string
	local, remote, all []txlogs.Tx
	rb, lb             []byte
}

func newSyFault(x *core.X, c SyFault) *syFaultWorld {
	w := &syFaultWorld{a: newApp(x)}
	dir := filepath.Join(w.a.Dir, "remote")
	os.Mkdir(dir, 0o700)
	w.rem, w.trace = filepath.Join(dir, "r.bp"), filepath.Join(w.a.Dir, "trace")
	base := mkTxs(syBase, Ent{syA, []string{"name", "a", "k", "v0"}}, Ent{uid(10), []string{"name", "sync/r", "sync", "true", "url", syURL(w.rem)}})
	w.local = append(append([]txlogs.Tx{}, base...), txlogs.Tx{Time: syBase + 1001, Kind: txlogs.TxSetKey, UUID: syA, Key: "k", Value: "mine"})
	w.lb = w.a.put("pw", w.local)
	w.all = w.local
	if c.Setup != "none" {
		w.remote = append([]txlogs.Tx{}, base...)
		if c.Setup == "new" {
			w.remote = append(w.remote, txlogs.Tx{Time: syBase + 1002, Kind: txlogs.TxSetKey, UUID: syA, Key: "k", Value: "theirs" + strings.Repeat("x", 20000)})
			w.all = append(append([]txlogs.Tx{}, w.local...), w.remote[len(w.remote)-1])
		}
		f := w.a.File
		w.a.File = w.rem
		w.rb = w.a.put("pw", w.remote)
		w.a.File = f
	}
	w.a.Pre = []string{filepath.Join(os.Getenv("MC_TOOLS"), "ftrace"), w.trace, dir, c.Plan}
	return w
}

func (w *syFaultWorld) remoteState() (string, []txlogs.Tx) {
	b, err := os.ReadFile(w.rem)
	if err != nil {
		if w.rb == nil {
			return "old", nil
		}
		return "missing", nil
	}
	_, st, err := readFile(b, "", "pw")
	if err != nil {
		return fmt.Sprintf("broken (%d bytes: %v)", len(b), err), nil
	}
	if w.rb != nil && bytes.Equal(b, w.rb) {
		return "old", st.Log
	}
	return "new", st.Log
}

func runSyFault(x *core.X, c SyFault) {
	w := newSyFault(x, c)
	s := w.a.Start()
	killed := strings.Contains(c.Plan, ":k")
	if s.Cur.Kind != "exit" {
		s.Send("pw")
	}
	var exp []txlogs.Tx
	if s.Cur.Kind != "exit" {
		s.Check(s.Cur.Main(), "unexpected question %v", s.Cur)
		d := s.Dump()
		s.Check(ref.EqualLogs(d.Log, w.local) || ref.EqualLogs(d.Log, w.all), "local history is\n%s", ref.ShowLog(d.Log))
		rs, rl := w.remoteState()
		s.Check(rs == "old" || rs == "new" && ref.EqualLogs(rl, d.Log), "after synchronising the remote is %s", rs)
		exp = d.Log
		if rs == "old" && !(c.Setup == "none" && rl != nil) {
			out := s.All()
			s.Check(strings.Contains(out, "error") || strings.Contains(out, "fail"), "the failure is not reported")
		}
		s.Send("set a z 1")
		if s.Cur.Kind != "exit" {
			exp = s.Dump().Log
		}
		s.Send("exit")
	}
	s.Check(s.Cur.Kind == "exit", "exit asks %v", s.Cur)
	rs, _ := w.remoteState()
	s.Check(rs == "old" || rs == "new", "the remote is %s; operations\n  %s", rs, showOps(readOps(w.trace)))
	now := w.a.bytes()
	if killed {
		s.Check(bytes.Equal(now, w.lb) || s.Code == 0, "the local file was touched by a killed synchronisation")
	} else {
		s.NoCrash()
		s.Check(s.Code == 0, "a failing remote ends the session with status %d", s.Code)
		_, st, err := readFile(now, "", "pw")
		s.Check(err == nil && subsequence(exp, st.Log) && len(exp) > len(w.local), "the session was not saved: %v", err)
	}
	x.Outcome(fmt.Sprintf("%s %v", rs, s.Code == 0))
	// afterwards everything works and comes together
	w.a.Pre = nil
	n := w.a.Start().Open("", "pw")
	n.Check(n.Cur.Main(), "the next session asks %v", n.Cur)
	d := n.Dump()
	n.Check(subsequence(w.all, d.Log), "the next session has\n%s\nwant at least\n%s", ref.ShowLog(d.Log), ref.ShowLog(w.all))
	rs, rl := w.remoteState()
	n.Check(ref.EqualLogs(rl, d.Log), "the next session does not synchronise the remote (%s)", rs)
	n.MustExit()
}

// ---------------------------------------------------------------------------------------------
// C24: differing credentials

// CrSync is a file changed in two places and synchronised.
type CrSync struct {
	Start  string   `json:"start"`
	Local  []string `json:"local"`
	Remote []string `json:"remote"`
	First  string   `json:"first"` // whose changes are made first
	Policy string   `json:"policy"`
	As     string   `json:"as,omitempty"`    // who changes the remote
	Other  string   `json:"other,omitempty"` // another remote, an older copy with a change: before, after
}

var crOps = []string{
	"set a k x", "passwd;m;n1;n1", "rekey", "adduser u1;m;pq;pq", "adduser A;m;pa;pa", "passwd u2;m;n2;n2", "rekey u2;m;r2;r2", "rekeyall;y",
	"rm user/u1;user/u1", "rm user/u2;user/u2", "mv user/u1 user/C", "mv user/u2 user/D",
}

type crSide struct {
	file   string
	me     cred
	names  map[string]bool
	passes map[string]bool
}

var crNames = []string{"", "u1", "u2", "A", "C", "D", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10", "v11"}

// openers lists who can open a file.
func (sd *crSide) openers(b []byte) (out []cred, log []txlogs.Tx, master []byte) {
	var ps []string
	for p := range sd.passes {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	h, _, err := ref.Header(b)
	if err != nil {
		return nil, nil, nil
	}
	for _, n := range crNames {
		if h.Multi == (n == "") {
			continue
		}
		for _, p := range ps {
			if dec, st, err := readFile(b, n, p); err == nil {
				out = append(out, cred{n, p})
				log, master = st.Log, dec.Master
			}
		}
	}
	return out, log, master
}

func hasCred(l []cred, c cred) bool {
	for _, o := range l {
		if o == c {
			return true
		}
	}
	return false
}

var reGenPass = regexp.MustCompile(`(?m)^password: (.*)$`)

func runCrSync(x *core.X, c CrSync) {
	a := newApp(x)
	rem := filepath.Join(a.Dir, "remote.bp")
	ents := []Ent{{syA, []string{"name", "a", "k", "v0"}}, {uid(10), []string{"name", "sync/r", "sync", "true", "url", syURL(rem)}}}
	rem3 := filepath.Join(a.Dir, "remote3.bp")
	// remotes are taken in an order that depends on the entries' ids
	if c.Other != "" {
		n := map[string]int{"before": 9, "after": 11}[c.Other]
		ents = append(ents, Ent{uid(n), []string{"name", "sync/o", "sync", "true", "url", syURL(rem3)}})
	}
	base := mkTxs(syBase, ents...)
	us := shUsers
	if c.Start == "crowd" {
		us = append([]ref.FileUser{}, us...)
		for len(us) < 12 {
			us = append(us, ref.FileUser{Name: fmt.Sprint("v", len(us)), Pass: "pv"})
		}
	}
	sides := []*crSide{{}, {}}
	all := map[string]bool{"zz": true}
	for i, sd := range sides {
		d := filepath.Join(a.Dir, fmt.Sprint("side", i))
		os.Mkdir(d, 0o700)
		sd.file, sd.passes = filepath.Join(d, "vault.bp"), all
		a.File = sd.file
		if c.Start != "single" {
			a.putUsers(us, shMaster, base)
			sd.me = cred{"u1", "p1"}
			if c.As != "" && i == 1 {
				sd.me = cred{c.As, "p" + c.As[1:]}
			}
			for _, u := range us {
				all[u.Pass] = true
			}
		} else {
			a.put("pw", base)
			sd.me = cred{"", "pw"}
			all["pw"] = true
		}
	}
	var olog []txlogs.Tx
	if c.Other != "" {
		a.File = rem3
		l := append(append([]txlogs.Tx{}, base...), txlogs.Tx{Time: syBase + 500, Kind: txlogs.TxSetKey, UUID: syA, Key: "o", Value: "other"})
		if c.Start != "single" {
			// the users come first
			_, olog = a.putUsers(us, shMaster, l)
		} else {
			a.put("pw", l)
			olog = l
		}
	}
	plain := a.Args
	work := func(i int, ops []string) bool {
		if len(ops) == 0 {
			return true
		}
		sd := sides[i]
		a.File = sd.file
		a.Args = append(append([]string{}, plain...), "--no-sync")
		defer func() { a.Args = plain }()
		s := a.Start().MustOpen(sd.me.user, sd.me.pass)
		for _, op := range ops {
			f := strings.Split(op, ";")
			before := len(s.Dump().Log)
			out := answer(s, ShLine{L: f[0], A: f[1:]})
			if len(s.Dump().Log) == before && !strings.Contains(out, "pdated") && c.Start != "single" {
				s.Kill()
				return false // does nothing here
			}
			if len(f) > 2 && f[1] == "m" {
				all[f[2]] = true
			}
			for _, l := range reRekeyed.FindAllStringSubmatch(out, -1) {
				all[l[2]] = true
			}
		}
		s.MustExit()
		op, _, _ := sd.openers(a.bytes())
		if len(op) == 0 {
			x.Failf("nobody can open the file after %q", ops)
		}
		me := op[0]
		for _, o := range op {
			if o.user == sd.me.user {
				me = o
			}
		}
		for _, o := range op {
			if o == sd.me {
				me = o
			}
		}
		sd.me = me
		return true
	}
	order := []int{0, 1}
	if c.First == "remote" {
		order = []int{1, 0}
	}
	for _, i := range order {
		if !work(i, [][]string{c.Local, c.Remote}[i]) {
			x.Outcome("nothing to do")
			return
		}
	}
	lb, _ := os.ReadFile(sides[0].file)
	rb, _ := os.ReadFile(sides[1].file)
	if err := os.WriteFile(rem, rb, 0o600); err != nil {
		core.Harness("%v", err)
	}
	lo, llog, lmaster := sides[0].openers(lb)
	ro, rlog, rmaster := sides[1].openers(rb)
	if c.Other != "" && rlog[len(rlog)-1].Time <= olog[len(olog)-1].Time {
		x.Outcome("nothing to do") // which credentials win would depend on the order
		return
	}
	// synchronise
	a.File = sides[0].file
	me := sides[0].me
	s := a.Start().Open(me.user, me.pass)
	askUser, askPass, askWhich := 0, 0, 0
	nq := 0
	decline := c.Policy == "decline"
	gave := cred{me.user, ""}
	which := "n"
	if c.Policy[0] == 'y' {
		which = "y"
	}
	ans := cred{}
	drive := func() {
		for i := 0; !s.Cur.Main() && s.Cur.Kind != "exit"; i++ {
			s.Check(i < 60, "never stops asking")
			t := s.Cur.Text
			switch {
			case strings.Contains(t, "use remote credentials"):
				askWhich++
				s.Send(which)
			case strings.Contains(t, "estore"):
				nq++
				s.Send(map[bool]string{true: "R", false: "D"}[strings.HasSuffix(c.Policy, "R")])
			case s.Cur.Kind == "hidden":
				askPass++
				if decline {
					s.Send([]string{"", ctrlD}[askPass%2])
					continue
				}
				if askPass == 1 {
					s.Send("zz")
					continue
				}
				ans = cred{}
				for _, o := range ro {
					if o.user == gave.user || o.user == "" {
						ans = o
					}
				}
				s.Check(ans != cred{}, "asked for the passphrase of %q, who is no user of the remote", gave.user)
				s.Send(ans.pass)
			case strings.Contains(t, "user"):
				askUser++
				if decline {
					s.Send(ctrlD)
					continue
				}
				gave.user = ro[0].user
				for _, o := range ro {
					if o.user == me.user {
						gave.user = o.user
					}
				}
				s.Send(gave.user)
			default:
				s.Fail("unexpected question %v", s.Cur)
			}
		}
		s.NoCrash()
	}
	drive()
	s.Check(s.Cur.Main(), "synchronising ended the session")
	d := s.Dump()
	opens := hasCred(ro, me)
	s.Check(!opens || askPass+askUser == 0, "asks for credentials though the remote opens with the local ones")
	now, _ := os.ReadFile(rem)
	if decline && askPass+askUser > 0 {
		s.Check(ref.EqualLogs(d.Log, llog), "declined, but the local history changed")
		s.Check(bytes.Equal(now, rb), "declined, but the remote was overwritten")
		answer(s, ShLine{L: "set a z 1"})
		exp := s.Dump().Log
		s.Send("exit")
		drive()
		s.Check(s.Cur.Kind == "exit" && s.Code == 0, "exit: %v %d", s.Cur, s.Code)
		o, l, _ := sides[0].openers(a.bytes())
		s.Check(len(o) == len(lo) && hasCred(o, me) && ref.EqualLogs(l, exp), "the session was not saved under the old credentials: %v %v", o, lo)
		now, _ := os.ReadFile(rem)
		s.Check(bytes.Equal(now, rb), "declined, but the remote was overwritten")
		x.Outcome("declined")
		return
	}
	// the merged history
	policy := func(q refQ) byte {
		if q.root {
			return 'y'
		}
		if strings.HasSuffix(c.Policy, "R") {
			return 'R'
		}
		return 'D'
	}
	merged, ok := refMergeLogs(llog, rlog, policy)
	alone := llog
	if c.Other != "" {
		var ok2, ok3 bool
		merged, ok2 = refMergeLogs(merged, olog, policy)
		alone, ok3 = refMergeLogs(llog, olog, policy)
		ok = ok && ok2 && ok3
	}
	if !ok {
		core.Harness("merge")
	}
	st := stateOf(x, merged)
	users := 0
	for _, e := range st {
		if strings.HasPrefix(e["name"], "user/") && e["salt"] != "" && e["iv"] != "" && e["mkey"] != "" {
			users++
		}
	}
	skipped := bytes.Equal(now, rb) && ref.EqualLogs(d.Log, alone)
	if skipped && !(ref.EqualLogs(merged, alone) && ref.EqualLogs(merged, rlog)) {
		// only allowed when no sensible credentials remain
		// (or if who is logged in was removed, and what opened the remote does not open the result)
		gone := lmaster != nil && rmaster != nil && byName(st)["user/"+me.user] == nil && (!bytes.Equal(lmaster, rmaster) || stale(rlog, merged, gave.user))
		s.Check(users == 0 || dupUsers(st) || gone, "the remote was not synchronised")
		x.Outcome("refused")
		s.Do("set a z 1")
		s.Send("exit")
		drive()
		s.Check(s.Cur.Kind == "exit" && s.Code == 0, "exit: %v %d", s.Cur, s.Code)
		o, _, _ := sides[0].openers(a.bytes())
		s.Check(hasCred(o, me), "after a refused synchronisation the file can not be opened with %v but %v", me, o)
		return
	}
	s.Check(!dupUsers(st), "merged two users of the same name:\n%s", st.Show())
	s.Check(ref.EqualLogs(d.Log, merged), "merged history is\n%s\nwant\n%s", ref.ShowLog(d.Log), ref.ShowLog(merged))
	if ans == (cred{}) {
		ans = me
		if gave.user != me.user {
			ans = cred{gave.user, me.pass}
		}
	}
	verify := func(what string, b []byte, log []txlogs.Tx) ([]cred, []byte) {
		h, _, err := ref.Header(b)
		s.Check(err == nil, "%s: %v", what, err)
		o, l, master := sides[0].openers(b)
		s.Check(len(o) > 0, "%s can not be opened by anybody (local %v, remote %v, given %v)", what, lo, ro, ans)
		s.Check(ref.EqualLogs(l, log), "%s has\n%s\nwant\n%s", what, ref.ShowLog(l), ref.ShowLog(log))
		fst := stateOf(x, log)
		nu := 0
		for _, e := range fst {
			n, is := strings.CutPrefix(e["name"], "user/")
			if !is || e["salt"] == "" || e["iv"] == "" || e["mkey"] == "" {
				continue
			}
			nu++
			salt, _ := hex.DecodeString(e["salt"])
			iv, _ := hex.DecodeString(e["iv"])
			mkey, _ := hex.DecodeString(e["mkey"])
			for p := range all {
				fits := bytes.Equal(ref.UnwrapMaster(ref.StubKDF([]byte(p), salt), iv, mkey), master)
				s.Check(!h.Multi || dupName(fst, n) || fits == hasCred(o, cred{n, p}), "%s: user %q with %q: opens %v, but their entry says %v", what, n, p, !fits, fits)
			}
		}
		s.Check(h.Multi == (nu > 0), "%s: multi-user is %v with %d users", what, h.Multi, nu)
		if h.Multi {
			s.Check(h.NUsers == nu, "%s has %d users instead of %d", what, h.NUsers, nu)
		}
		return o, master
	}
	o, master := verify("the remote", now, merged)
	if c.Other != "" {
		b3, _ := os.ReadFile(rem3)
		o3, _ := verify("the other remote", b3, merged)
		s.Check(sameCred(o3, o), "the other remote opens with %v, the remote with %v", o3, o)
	}
	mine := func(o []cred) (cred, bool) {
		for _, q := range []cred{me, ans} {
			if hasCred(o, q) {
				return q, true
			}
			// renamed
			for _, r := range o {
				if r.pass == q.pass && r.user != "" && q.user != "" && renamed(llog, rlog, merged, q.user) == r.user {
					return r, true
				}
			}
		}
		return cred{}, false
	}
	_, can := mine(o)
	s.Check(can, "the file opens with %v, neither with %v nor %v", o, me, ans)
	if lmaster == nil && rmaster == nil && master == nil {
		// single user on both sides: the later history's credentials
		lt, rt := llog[len(llog)-1].Time, rlog[len(rlog)-1].Time
		if !sameCred(lo, ro) {
			win := lo
			if lt < rt || lt == rt && which == "y" {
				win = ro
			}
			s.Check(sameCred(o, win), "the file opens with %v, the winner is %v (local %v, remote %v)", o, win, lo, ro)
			s.Check(lt != rt || askWhich == 1, "it is not asked which credentials to keep")
		}
	}
	if bytes.Equal(lmaster, rmaster) && lmaster != nil {
		s.Check(bytes.Equal(master, lmaster), "the master key changed")
	}
	// the session goes on with the right credentials
	nask := askPass + askUser + askWhich + nq
	s.Do("set a z 1")
	if c.Policy == "rekeyD" {
		// with the passphrase that is valid now
		answer(s, ShLine{L: "rekey"})
	}
	exp := s.Dump().Log
	s.Send("exit")
	drive()
	s.Check(s.Cur.Kind == "exit" && s.Code == 0, "exit: %v %d", s.Cur, s.Code)
	s.Check(askPass+askUser+askWhich+nq == nask, "synchronising again asks again")
	lo2, _ := verify("the file", a.bytes(), exp)
	s.Check(sameCred(lo2, o), "the file opens with %v, the remote with %v", lo2, o)
	now, _ = os.ReadFile(rem)
	ro2, _ := verify("the remote at the end", now, exp)
	s.Check(sameCred(ro2, o), "the remote opens with %v instead of %v", ro2, o)
	// rekeying keeps the passphrase
	as, _ := mine(lo2)
	a.Args = append(append([]string{}, plain...), "--no-sync")
	n := a.Start().MustOpen(as.user, as.pass)
	n.Check(ref.EqualLogs(n.Dump().Log, exp), "reopening shows something else")
	n.MustExit()
	x.Outcome(fmt.Sprintf("multi=%v asked=%d,%d,%d", users > 0, min(askPass, 3), min(askUser, 2), askWhich))
	x.State(st.Show())
}

func sameCred(a, b []cred) bool {
	if len(a) != len(b) {
		return false
	}
	for _, c := range a {
		if !hasCred(b, c) {
			return false
		}
	}
	return true
}

func dupUsers(st ref.State) bool {
	for _, e := range st {
		if n, is := strings.CutPrefix(e["name"], "user/"); is && dupName(st, n) {
			return true
		}
	}
	return false
}

func dupName(st ref.State, name string) bool {
	n := 0
	for _, e := range st {
		if e["name"] == "user/"+name {
			n++
		}
	}
	return n > 1
}

// stale tells that a user's passphrase is not what it is on one side.
func stale(side, merged []txlogs.Tx, name string) bool {
	st, _, _ := ref.Replay(side)
	m, _, _ := ref.Replay(merged)
	for u, e := range st {
		if e["name"] == "user/"+name {
			return m[u]["mkey"] != e["mkey"]
		}
	}
	return true
}

// renamed is the name a user has after merging.
func renamed(l, r, merged []txlogs.Tx, name string) string {
	for _, log := range [][]txlogs.Tx{l, r} {
		st, _, _ := ref.Replay(log)
		for u, e := range st {
			if e["name"] == "user/"+name {
				m, _, _ := ref.Replay(merged)
				if n := strings.TrimPrefix(m[u]["name"], "user/"); n != "" {
					return n
				}
			}
		}
	}
	return name
}

func init() {
	famB := core.NewFamily("C24", "bad remotes", runBad)
	famF := core.NewFamily("C24", "faults", runSyFault)
	famC := core.NewFamily("C24", "credentials", runCrSync)
	core.Register(&core.Check{
		ID: "C24", Level: "fault_enumeration",
		Rule:        "one execution is a session of the real program synchronising with (a) a remote that is bad in one way next to none or a good one, (b) a remote whose files fail, or where the program is killed, at one file operation, (c) a copy whose users and passphrases changed on both sides, (d) a copy in which the remote's own entry changed; local file, remotes, who can open them, questions and further work are compared with a reference; state = kind and result, or merged users",
		Assumptions: []string{"synchronisations do not overlap in time", "two users added under the same name on both sides are not distinguished"},
		Run: func(ctx *core.Ctx) {
			type ka struct {
				kind string
				ans  [][]string
			}
			kinds := []ka{{"missing", nil}, {"missingdir", nil}, {"underfile", nil}, {"dir", nil}, {"loop", nil}, {"nourl", nil}}
			for _, k := range []string{"zero", "garbage", "text", "cut 1", "cut 8", "cut 16", "cut 47", "cut 48", "cut 88", "cut 104", "cut -1", "cut -16", "cut -8", "longer", "flip 0", "flip 9", "flip 13", "flip -1", "flip -20", "flip 200",
				"version 0000", "version 0002", "version 9999", "version -001", "version abcd", "v0",
				"payload ", "payload {", "payload []", "payload null", "payload {}", "payload 5", `payload "x"`, `payload {"log":5}`, `payload {"log":[{"time":"x"}]}`, `payload {"log":[]}`, `payload {"log":null,"version":7}`, `payload {"log":[null]}`,
				"broken set", "broken deleted", "broken readd", "broken kind",
				"url ftp://h/p", "url bad", "url file:", "url file://", "url file:///", "url ://%zz", "url file:%zz", "url scp:", "url scp://", "url scp://h/p", "url scp://u@/p", "url scp://u@127.0.0.1:1/p", "url scp://u@127.0.0.1:1", "url scp://u@127.0.0.1:1/", "url scp://u:p@127.0.0.1:1/p", "url scp://u@127.0.0.1:99999/p", "url scp:u@h"} {
				kinds = append(kinds, ka{k, nil})
			}
			// the salt and iv of the header: the passphrase no longer fits
			for _, k := range []string{"flip 20", "flip 60"} {
				kinds = append(kinds, ka{k, [][]string{{""}, {ctrlD}, {ctrlC}, {"pw", ""}, {"x", "w", ctrlD}}})
			}
			kinds = append(kinds, ka{"otherpw", [][]string{{""}, {ctrlD}, {ctrlC}, {"x", ""}, {"x", ctrlD}, {"other"}, {"x", "w", "other"}}},
				ka{"foreign", [][]string{{"", "n"}, {"n"}, {ctrlD}, {ctrlC}, {"maybe", "n"}, {"y"}, {"what", "y"}}},
				ka{"foreignmulti", [][]string{{ctrlD}, {ctrlC}, {"z1", ""}, {"z1", ctrlD}, {"z9", ctrlD}, {"z9", "x", "z1", "zp2", ctrlD}, {"z1", "zp1", "n"}, {"z1", "zp1", ctrlC}, {"z1", "zp1", "y"}, {"z9", "x", "z2", "zp2", "y"}}})
			famB.Explore(ctx, fmt.Sprintf("%d kinds of bad remotes and all ways to answer, next to no, an old or a newer good remote, single- and multi-user files, synchronised automatically, by command or by name", len(kinds)), func(y func(BadCase) bool) {
				for _, k := range kinds {
					as := k.ans
					if as == nil {
						as = [][]string{nil}
					}
					if k.kind == "otherpw" {
						as = append(as[:len(as):len(as)], []string{"other", "y"}, []string{"other", "n"})
					}
					for _, an := range as {
						single := k.kind == "otherpw" && len(an) == 2 && an[0] == "other"
						for _, l := range []string{"single", "multi"} {
							if l == "single" && single {
								continue // nothing to decline
							}
							for _, g := range []string{"", "same", "new", "last"} {
								for _, m := range []string{"auto", "cmd", "named"} {
									if g == "last" && m != "auto" && !ctx.Thorough() {
										continue
									}
									an := an
									if l == "multi" && !strings.HasPrefix(k.kind, "foreignm") && len(an) > 0 && k.kind != "foreign" && k.kind != "otherpw" {
										continue
									}
									if l == "multi" && k.kind != "foreignmulti" && (k.kind == "foreign" || strings.HasPrefix(k.kind, "payload") || strings.HasPrefix(k.kind, "broken")) {
										// the single-user remote needs its passphrase first
										an = append([]string{"pw"}, an...)
									}
									if l == "single" && k.kind == "foreignmulti" && g == "same" && !ctx.Thorough() {
										continue
									}
									if !y(BadCase{k.kind, an, l, g, m}) {
										return
									}
								}
							}
						}
					}
				}
			})
			famF.Explore(ctx, "a kill before and after, every error and short transfer at every file operation on the remote", func(y func(SyFault) bool) {
				for _, st := range []string{"old", "new", "none"} {
					var ops []fsOp
					ctx.Probe(func(x *core.X) {
						w := newSyFault(x, SyFault{st, "-"})
						s := w.a.Start().Open("", "pw")
						s.Do("set a z 1")
						s.MustExit()
						ops = readOps(w.trace)
					})
					for _, o := range ops {
						l := []string{"kill", "killed"}
						for _, e := range saveErrnos[o.Name] {
							l = append(l, fmt.Sprintf("e%d", e))
						}
						if (o.Name == "write" || o.Name == "read") && o.Len > 1 {
							l = append(l, "s1", fmt.Sprintf("s%d", o.Len/2))
						}
						for _, p := range l {
							if !y(SyFault{st, fmt.Sprintf("%d:%s", o.N, p)}) {
								return
							}
						}
					}
				}
			})
			exploreMoves(ctx)
			k := ctx.Pick(1, 2)
			famC.Explore(ctx, fmt.Sprintf("up to %d of %d commands on the local and up to 2 on the remote side, either first, every kind of answer", k, len(crOps)), func(y func(CrSync) bool) {
				var ls, rs [][]string
				for n := 0; n <= 2; n++ {
					for _, seq := range intSeqs(len(crOps), n) {
						l := []string{}
						for _, o := range seq {
							l = append(l, crOps[o])
						}
						if n <= k {
							ls = append(ls, l)
						}
						if n < 2 || ctx.Thorough() || seq[0] == 0 || seq[1] == 0 {
							rs = append(rs, l)
						}
					}
				}
				for _, l := range append([]string{""}, crOps...) {
					for _, r := range append([]string{""}, crOps...) {
						if l != "" && r != "" && l != r && !strings.HasPrefix(r, "adduser") && !strings.HasPrefix(r, "rekeyall") && !ctx.Thorough() {
							continue
						}
						var ll, rl []string
						if l != "" {
							ll = []string{l}
						}
						if r != "" {
							rl = []string{r}
						}
						for _, p := range []string{"nD", "yR"} {
							if strings.Contains(p, "R") && !strings.Contains(l+r, "rm ") {
								continue
							}
							if !y(CrSync{"crowd", ll, rl, "local", p, "", ""}) {
								return
							}
						}
					}
				}
				for _, st := range []string{"single", "multi"} {
					for _, l := range ls {
						for _, r := range rs {
							for _, f := range []string{"local", "remote"} {
								if f == "remote" && (len(l) == 0 || len(r) == 0) {
									continue
								}
								rm := strings.Contains(strings.Join(append(append([]string{}, l...), r...), " "), "rm ")
								for _, p := range []string{"nD", "yD", "yR", "decline", "rekeyD"} {
									if p == "yR" && !rm || p == "yD" && (st == "multi" || len(l)+len(r) > 2) || (p == "decline" || p == "rekeyD") && len(l)+len(r) > 2 {
										continue
									}
									if !y(CrSync{st, l, r, f, p, "", ""}) {
										return
									}
									if st == "multi" && len(l)+len(r) > 1 && len(r) > 0 && (ctx.Thorough() || len(r) == 1 && (p == "nD" || p == "yR" || p == "rekeyD")) && !y(CrSync{st, l, r, f, p, "u2", ""}) {
										return
									}
									if p == "decline" || len(r) == 0 || len(r) > 1 && !ctx.Thorough() || len(l) > 1 || len(l) == 1 && l[0] != crOps[0] {
										continue
									}
									if !y(CrSync{st, l, r, f, p, "", "before"}) || !y(CrSync{st, l, r, f, p, "", "after"}) {
										return
									}
								}
							}
						}
					}
				}
			})
		},
	})
}

var _ = json.Marshal
