package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/txlogs"
)

// ---------------------------------------------------------------------------------------------
// C24: the synchronisation changes what there is to synchronise with

// MoveCase is a copy in which the entry of the remote is changed, on one side or both.  There
// are two places, the entry names the first.
type MoveCase struct {
	Remote string `json:"remote"` // the change in the remote copy
	Local  string `json:"local"`  // the change here
	First  string `json:"first"`  // which is made first: local, remote
	Second string `json:"second"` // what is at the second place
	Mode   string `json:"mode"`   // auto, cmd, named
	Ans    string `json:"answer"`
}

var syMoves = []string{"", "url2", "same", "name", "off", "del", "new2", "nourl", "ftp", "keys"}

func moveTxs(op, side string, at int64, u1, u2 string) (l []txlogs.Tx) {
	set := func(u, k, v string) {
		l = append(l, txlogs.Tx{Time: at + int64(len(l)), Kind: txlogs.TxSetKey, UUID: u, Key: k, Value: v})
	}
	r := uid(10)
	switch op {
	case "url2":
		set(r, "url", u2)
	case "same":
		set(r, "url", u1)
	case "name":
		set(r, "name", "sync/"+side)
	case "off":
		set(r, "sync", "false")
	case "del":
		l = append(l, txlogs.Tx{Time: at, Kind: txlogs.TxDelete, UUID: r})
	case "new2":
		n := uid(20 + len(side))
		l = append(l, txlogs.Tx{Time: at, Kind: txlogs.TxAdd, UUID: n})
		set(n, "name", "sync/n"+side)
		set(n, "url", u2)
		set(n, "sync", "true")
	case "nourl":
		l = append(l, txlogs.Tx{Time: at, Kind: txlogs.TxDeleteKey, UUID: r, Key: "url"})
	case "ftp":
		set(r, "url", "ftp://h/p")
	case "keys":
		set(r, "knownhosts", side)
	}
	return l
}

func runMove(x *core.X, c MoveCase) {
	a := newApp(x)
	dir := filepath.Join(a.Dir, "remote")
	os.Mkdir(dir, 0o700)
	places := []string{filepath.Join(dir, "one.bp"), filepath.Join(dir, "two.bp")}
	u1, u2 := syURL(places[0]), syURL(places[1])
	base := mkTxs(syBase, Ent{syA, []string{"name", "a", "k", "v0"}}, Ent{syB, []string{"name", "b", "k", "w0"}}, Ent{uid(10), []string{"name", "sync/r", "url", u1, "sync", "true"}})
	lt, rt := int64(syBase+1000), int64(syBase+2000)
	if c.First == "remote" {
		lt, rt = rt, lt
	}
	side := func(op, name string, at int64, u, k, v string) []txlogs.Tx {
		l := append([]txlogs.Tx{}, base...)
		l = append(l, moveTxs(op, name, at, u1, u2)...)
		return append(l, txlogs.Tx{Time: at + 100, Kind: txlogs.TxSetKey, UUID: u, Key: k, Value: v})
	}
	local := side(c.Local, "here", lt, syA, "k", "mine")
	remote := side(c.Remote, "th", rt, syB, "k", "theirs")
	a.put("pw", local)
	enc := func(l []txlogs.Tx) []byte {
		return ref.File{Pass: "pw", Payload: payloadOf(l, len(l))}.Encode(ref.StubKDF)
	}
	os.WriteFile(places[0], enc(remote), 0o600)
	other := append(append([]txlogs.Tx{}, base...), txlogs.Tx{Time: syBase + 1500, Kind: txlogs.TxSetKey, UUID: syB, Key: "z", Value: "elsewhere"})
	foreign := mkTxs(syBase+7, Ent{uid(30), []string{"name", "f", "k", "f0"}})
	switch c.Second {
	case "missing":
	case "old":
		os.WriteFile(places[1], enc(base), 0o600)
	case "other":
		os.WriteFile(places[1], enc(other), 0o600)
	case "foreign":
		os.WriteFile(places[1], enc(foreign), 0o600)
	case "garbage":
		os.WriteFile(places[1], ref.Fill("garbage", 300), 0o600)
	case "dir":
		os.Mkdir(places[1], 0o700)
	default:
		core.Harness("second %q", c.Second)
	}
	decided := c.Ans == "R" || c.Ans == "D"
	// the history that may not be lost, without what a decision is about
	hist := func(l []txlogs.Tx) []txlogs.Tx {
		if !decided {
			return l
		}
		var o []txlogs.Tx
		for _, t := range l {
			if t.UUID != uid(10) {
				o = append(o, t)
			}
		}
		return o
	}
	before := make([][]byte, 2)
	look := func() {
		for i, p := range places {
			b, err := os.ReadFile(p)
			if err != nil {
				b = nil
			}
			before[i] = b
		}
	}
	listed := func(l []txlogs.Tx) map[string]bool {
		m := map[string]bool{}
		for _, e := range stateOf(x, l) {
			if e["sync"] == "true" {
				m[e["url"]] = true
			}
		}
		return m
	}
	// what a synchronisation may have done to the places
	verify := func(s *Sess, what string, was, now []txlogs.Tx) {
		s.Check(subsequence(hist(was), now), "%s: local history was\n%s\nand is\n%s", what, ref.ShowLog(was), ref.ShowLog(now))
		l0, l1 := listed(was), listed(now)
		for i, p := range places {
			u := syURL(p)
			b, err := os.ReadFile(p)
			if err == nil && before[i] != nil && bytes.Equal(b, before[i]) || err != nil && before[i] == nil {
				continue
			}
			s.Check(err == nil, "%s: place %d is gone", what, i+1)
			named := false
			for _, e := range stateOf(x, was) {
				named = named || c.Mode == "named" && e["url"] == u
			}
			s.Check(l0[u] || l1[u] || named, "%s: place %d was written, but nothing says to synchronise with it", what, i+1)
			_, st, err := readFile(b, "", "pw")
			s.Check(err == nil && ref.EqualLogs(st.Log, now), "%s: place %d has not what is local", what, i+1)
			if before[i] != nil {
				_, old, err := readFile(before[i], "", "pw")
				s.Check(err == nil, "%s: place %d was overwritten though it could not be read", what, i+1)
				s.Check(subsequence(hist(old.Log), now), "%s: place %d was overwritten without taking its history over:\n%s\nnow\n%s", what, i+1, ref.ShowLog(old.Log), ref.ShowLog(now))
				s.Check(len(old.Log) == 0 || old.Log[0] != foreign[0], "%s: declined, but place %d was overwritten", what, i+1)
			}
		}
	}
	drive := func(s *Sess) {
		for i := 0; !s.Cur.Main() && s.Cur.Kind != "exit"; i++ {
			s.Check(i < 20, "never stops asking")
			v := ctrlD
			if strings.Contains(s.Cur.Text, "estore") {
				v = c.Ans
			} else if strings.Contains(s.Cur.Text, "merge these anyway") {
				v = "n"
			}
			s.Send(v)
		}
		s.NoCrash()
	}
	plain := a.Args
	if c.Mode != "auto" {
		a.Args = append(append([]string{}, plain...), "--no-sync")
	}
	look()
	s := a.Start().Open("", "pw")
	switch c.Mode {
	case "cmd":
		s.Send("sync")
	case "named":
		name := byNameKeys(local)[0]
		for _, n := range byNameKeys(local) {
			if strings.HasPrefix(n, "sync/") && n != "sync/nhere" {
				name = n
			}
		}
		s.Send("sync " + name)
	}
	drive(s)
	s.Check(s.Cur.Main(), "synchronising ended the session")
	d := s.Dump()
	verify(s, "synchronising", local, d.Log)
	l0 := listed(local)
	if l0[u1] && c.Ans != ctrlD {
		s.Check(subsequence(hist(remote), d.Log), "the remote's history is not here:\n%s", ref.ShowLog(d.Log))
	}
	look()
	s.Do("set a z 1")
	was := s.Dump().Log
	s.Send("exit")
	if c.Mode == "auto" {
		drive(s)
	}
	s.Check(s.Cur.Kind == "exit" && s.Code == 0, "exit: %v, status %d", s.Cur, s.Code)
	_, st, err := readFile(a.bytes(), "", "pw")
	s.Check(err == nil, "the file can not be opened any more")
	verify(s, "at exit", was, st.Log)
	// later sessions bring everything together that can be
	a.Args = append(append([]string{}, plain...), "--no-sync")
	s = a.Start().MustOpen("", "pw")
	log := s.Dump().Log
	for i := 0; i < 3; i++ {
		look()
		s.Send("sync")
		drive(s)
		n := s.Dump().Log
		verify(s, "later", log, n)
		log = n
	}
	l1 := listed(log)
	for i, p := range places {
		if !l1[syURL(p)] || i == 1 && (c.Second == "foreign" || c.Second == "garbage" || c.Second == "dir") || c.Ans == ctrlD {
			continue
		}
		b, _ := os.ReadFile(p)
		_, st, err := readFile(b, "", "pw")
		s.Check(err == nil && ref.EqualLogs(st.Log, log), "place %d is synchronised with, but has\n%s\nlocal\n%s", i+1, ref.ShowLog(st.Log), ref.ShowLog(log))
	}
	s.MustExit()
	x.Outcome(fmt.Sprintf("listed=%v,%v", l1[u1], l1[u2]))
	x.State(stateOf(x, log).Show())
}

var famMove = core.NewFamily("C24", "moved remotes", runMove)

func exploreMoves(ctx *core.Ctx) {
	seconds := []string{"missing", "old", "other", "foreign", "garbage", "dir"}
	famMove.Explore(ctx, fmt.Sprintf("%d changes of the remote's entry (another place, none, renamed, switched off, deleted, a further remote) on either side or both, either first, %d contents of the second place, all ways to synchronise and to decide, then further synchronisations", len(syMoves), len(seconds)), func(y func(MoveCase) bool) {
		for _, r := range syMoves {
			for _, l := range syMoves {
				for _, f := range []string{"local", "remote"} {
					for _, se := range seconds {
						if !strings.HasSuffix(r+l, "2") && !strings.HasPrefix(r, "url2") && !strings.HasPrefix(r, "new2") && se != "other" {
							continue // nothing leads there
						}
						for _, m := range []string{"auto", "cmd", "named"} {
							if !ctx.Thorough() && (l != "" && r != "" && m != "auto" || l != "" && r != "" && (se == "dir" || se == "old" || se == "garbage")) {
								continue
							}
							ans := []string{ctrlD}
							if r == "del" && l != "" || l == "del" && r != "" {
								ans = []string{"R", "D", ctrlD}
							}
							for _, an := range ans {
								if !y(MoveCase{r, l, f, se, m, an}) {
									return
								}
							}
						}
					}
				}
			}
		}
	})
}
