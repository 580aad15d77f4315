package checks

import (
	"fmt"
	"strings"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/txlogs"
)

// ---------------------------------------------------------------------------------------------
// C25: a host is confirmed while the merge changes the entry it is confirmed for

// HostMergeCase is a synchronisation with a server whose copy changes the entry of the server.
type HostMergeCase struct {
	Op    string `json:"op"`    // what the copy on the server changed
	Local string `json:"local"` // what was changed here: "", edit, name, url2, keys
	First string `json:"first"` // which change is older
	Known string `json:"known"` // what was recorded: "", rec, other
	Host  string `json:"host"`  // answer about the host
	Ans   string `json:"answer"`
	Mode  string `json:"mode"`
}

func runHostMerge(x *core.X, c HostMergeCase) {
	a := newApp(x)
	mem, mem2 := &memScp{files: map[string][]byte{}, x: x}, &memScp{files: map[string][]byte{}, x: x}
	srv, srv2 := startSSH(x, []string{"ed1"}, "s3cr3tpw", nil, mem.serve), startSSH(x, []string{"ed2"}, "s3cr3tpw", nil, mem2.serve)
	u1, u2 := "scp://u:s3cr3tpw@"+srv.Addr()+"/d/one.bp", "scp://u:s3cr3tpw@"+srv2.Addr()+"/d/two.bp"
	line := map[string]string{srv.Addr(): keyLine(srv.Addr(), srv.Addr(), "ed1"), srv2.Addr(): keyLine(srv2.Addr(), srv2.Addr(), "ed2")}
	e := Ent{uid(10), []string{"name", "sync/r", "url", u1, "sync", "true"}}
	switch c.Known {
	case "rec":
		e.Fields = append(e.Fields, "knownhosts", line[srv.Addr()])
	case "other":
		e.Fields = append(e.Fields, "knownhosts", keyLine("other.example:22", "1.2.3.4:22", "rsa1"))
	}
	base := mkTxs(syBase, Ent{syA, []string{"name", "a", "k", "v0"}}, e)
	lt, rt := int64(syBase+1000), int64(syBase+2000)
	if c.First == "remote" {
		lt, rt = rt, lt
	}
	side := func(op, name string, at int64, k, v string) []txlogs.Tx {
		l := append([]txlogs.Tx{}, base...)
		switch op {
		case "edit":
			l = append(l, txlogs.Tx{Time: at, Kind: txlogs.TxSetKey, UUID: uid(10), Key: "k", Value: name})
		case "keys":
			l = append(l, txlogs.Tx{Time: at, Kind: txlogs.TxSetKey, UUID: uid(10), Key: "knownhosts", Value: keyLine(name+".example:22", "1.2.3.4:22", "rsa2")})
		case "nokeys":
			l = append(l, txlogs.Tx{Time: at, Kind: txlogs.TxDeleteKey, UUID: uid(10), Key: "knownhosts"})
		default:
			l = append(l, moveTxs(op, name, at, u1, u2)...)
		}
		return append(l, txlogs.Tx{Time: at + 100, Kind: txlogs.TxSetKey, UUID: syA, Key: k, Value: v})
	}
	local := side(c.Local, "here", lt, "l", "mine")
	remote := side(c.Op, "th", rt, "r", "theirs")
	a.put("pw", local)
	mem.files["d/one.bp"] = ref.File{Pass: "pw", Payload: payloadOf(remote, len(remote))}.Encode(ref.StubKDF)
	auto := a.Args
	if c.Mode != "auto" {
		a.Args = append(append([]string{}, auto...), "--no-sync")
	}
	hosts := map[string]int{}
	drive := func(s *Sess) {
		for n := 0; !s.Cur.Main() && s.Cur.Kind != "exit"; n++ {
			s.Check(n < 20, "never stops asking")
			switch {
			case strings.Contains(s.Cur.Text, "ave this host"):
				out := s.All()
				i := strings.LastIndex(out, "connected to")
				s.Check(i >= 0, "the question does not show the host")
				at := ""
				for h := range line {
					if strings.Contains(out[i:], h) {
						at = h
					}
				}
				s.Check(at != "", "the question does not show the host")
				hosts[at]++
				s.Send(c.Host)
			case strings.Contains(s.Cur.Text, "estore"):
				s.Send(c.Ans)
			default:
				s.Fail("unexpected question %v", s.Cur)
			}
		}
		s.NoCrash()
	}
	s := a.Start().Open("", "pw")
	switch c.Mode {
	case "cmd":
		s.Send("sync")
	case "named":
		s.Send("sync " + stateOf(x, local)[uid(10)]["name"])
	}
	drive(s)
	s.Check(s.Cur.Main(), "synchronising ended the session")
	gaveUp := c.Ans == ctrlD
	keep := func(l []txlogs.Tx) (o []txlogs.Tx) { // without what a decision is about
		for _, t := range l {
			if t.UUID != uid(10) {
				o = append(o, t)
			}
		}
		return
	}
	verify := func(what string, d DBState) {
		st := stateOf(x, d.Log)
		s.Check(subsequence(keep(local), d.Log), "%s: local changes are lost:\n%s", what, ref.ShowLog(d.Log))
		en, alive := st[uid(10)]
		if !alive {
			return
		}
		recorded := map[string]int{}
		for _, o := range st {
			for _, l := range strings.Split(o["knownhosts"], "\n") {
				recorded[l]++
			}
		}
		for h, n := range hosts {
			if n > 0 && c.Host == "y" {
				s.Check(recorded[line[h]] == 1, "%s: the confirmed host %s is recorded %d times in %q", what, h, recorded[line[h]], en["knownhosts"])
			} else {
				s.Check(recorded[line[h]] == 0, "%s: the rejected host %s is recorded", what, h)
			}
		}
	}
	d := s.Dump()
	verify("synchronising", d)
	talked := func() bool { _, auth, _, _ := srv.Seen(); return len(auth) > 0 }()
	lu := stateOf(x, local)[uid(10)]["url"]
	if c.Known != "rec" && lu == u1 {
		s.Check(talked == (c.Host == "y"), "answer %q, but logged in: %v", c.Host, talked)
	}
	if talked && !gaveUp {
		s.Check(subsequence(keep(remote), d.Log), "the remote's changes are not here:\n%s", ref.ShowLog(d.Log))
	}
	s.Do("set a z 1")
	s.Send("exit")
	drive(s)
	s.Check(s.Cur.Kind == "exit" && s.Code == 0, "exit: %v, status %d", s.Cur, s.Code)
	_, st, err := readFile(a.bytes(), "", "pw")
	s.Check(err == nil, "the file can not be opened any more")
	got := stateOf(x, st.Log)
	s.Check(got[syA]["z"] == "1" && got[syA]["l"] == "mine", "the session's change is lost: %v", got[syA])
	// again: confirmed hosts are not asked about, unless what was recorded has been replaced
	for i := 0; i < 2; i++ {
		s = a.Start().Open("", "pw")
		if c.Mode != "auto" {
			s.Send("sync")
		}
		was := fmt.Sprint(hosts)
		drive(s)
		s.Check(s.Cur.Main(), "synchronising ended the session")
		d = s.Dump()
		verify("later", d)
		s.Check(i == 0 || c.Host != "y" || fmt.Sprint(hosts) == was, "confirmed hosts are asked about again: %s then %v", was, hosts)
		s.MustExit()
	}
	for m, p := range map[*memScp]string{mem: "d/one.bp", mem2: "d/two.bp"} {
		b, ok := m.get(p)
		if !ok {
			continue
		}
		_, rs, err := readFile(b, "", "pw")
		s.Check(err == nil, "%s on the server can not be opened any more", p)
		s.Check(p != "d/one.bp" || subsequence(keep(remote), rs.Log), "the remote's changes are lost:\n%s", ref.ShowLog(rs.Log))
	}
	x.Outcome(fmt.Sprint(len(hosts), talked, got[uid(10)] != nil))
	x.State(got.Show())
}

var famHostMerge = core.NewFamily("C25", "confirmed while merging", runHostMerge)

func exploreHostMerge(ctx *core.Ctx) {
	ops := []string{"", "del", "name", "url2", "off", "keys", "nokeys", "new2", "nourl", "same"}
	locs := []string{"", "edit", "name", "url2", "keys"}
	famHostMerge.Explore(ctx, fmt.Sprintf("%d changes that the server's copy makes to the entry of the server x %d changes made here, either first, unknown and known hosts, both answers, then further synchronisations", len(ops), len(locs)), func(y func(HostMergeCase) bool) {
		for _, o := range ops {
			for _, l := range locs {
				for _, f := range []string{"local", "remote"} {
					if !ctx.Thorough() && f == "remote" && (l == "" || o == "") {
						continue // nothing to order
					}
					for _, k := range []string{"", "rec", "other"} {
						for _, h := range []string{"y", "n"} {
							if h == "n" && k == "rec" && o != "url2" && o != "new2" && l != "url2" {
								continue
							}
							for _, m := range []string{"auto", "cmd", "named"} {
								if !ctx.Thorough() && m != "auto" && l != "edit" {
									continue
								}
								ans := []string{ctrlD}
								if o == "del" && l != "" {
									ans = []string{"R", "D", ctrlD}
								}
								for _, an := range ans {
									if !y(HostMergeCase{o, l, f, k, h, an, m}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}
	})
}
