package checks

import (
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/txlogs"
)

// ---------------------------------------------------------------------------------------------
// Reference merge

func refLess(a, b txlogs.Tx) bool {
	switch {
	case a.Time != b.Time:
		return a.Time < b.Time
	case a.UUID != b.UUID:
		return a.UUID < b.UUID
	case a.Kind != b.Kind:
		return a.Kind < b.Kind
	case a.Key != b.Key:
		return a.Key < b.Key
	}
	return a.Value < b.Value
}

// refZip puts two logs together, in time order where they differ.
func refZip(a, b []txlogs.Tx) (out []txlogs.Tx) {
	for len(a) > 0 && len(b) > 0 {
		switch {
		case a[0] == b[0]:
			out = append(out, a[0])
			a, b = a[1:], b[1:]
		case refLess(a[0], b[0]):
			out = append(out, a[0])
			a = a[1:]
		default:
			out = append(out, b[0])
			b = b[1:]
		}
	}
	return append(append(out, a...), b...)
}

// refQ is a question a merge asks.
type refQ struct {
	root bool
	del  txlogs.Tx
	at   txlogs.Tx
}

func (q refQ) String() string {
	if q.root {
		return "no common history"
	}
	return fmt.Sprintf("%s deleted at %d changed at %d", q.del.UUID, q.del.Time, q.at.Time)
}

// refMergeLogs merges, deciding conflicts with ask ('R', 'D', 'y'; anything else declines: ok=false).
func refMergeLogs(a, b []txlogs.Tx, ask func(refQ) byte) (out []txlogs.Tx, ok bool) {
	if len(b) == 0 || ref.EqualLogs(a, b) {
		return a, true
	}
	if len(a) > 0 && a[0] != b[0] {
		if ask(refQ{root: true}) != 'y' {
			return nil, false
		}
	}
	all := refZip(a, b)
	res := map[txlogs.Tx]byte{}
	for {
		out = nil
		dead := map[string]txlogs.Tx{}
		var qs []refQ
		asked := map[txlogs.Tx]bool{}
		for _, t := range all {
			if d, is := dead[t.UUID]; is {
				if res[d] == 'D' {
					continue
				}
				if !asked[d] {
					asked[d] = true
					qs = append(qs, refQ{del: d, at: t})
				}
				continue
			}
			if t.Kind == txlogs.TxDelete {
				if res[t] == 'R' {
					continue
				}
				dead[t.UUID] = t
			}
			out = append(out, t)
		}
		if len(qs) == 0 {
			return out, true
		}
		for _, q := range qs {
			v := ask(q)
			if v != 'R' && v != 'D' {
				return nil, false
			}
			res[q.del] = v
		}
	}
}

// ---------------------------------------------------------------------------------------------
// C23: replicas and remotes

// SyCase is a history of replicas of a file.  Operations are a letter and a replica, optionally
// @time (default: 10 per step and the replica's skew): a add an entry, s set A.k, u remove A.k,
// d delete A, t set B.k, b delete B; y synchronise; 1, 2 synchronise with that remote only; l a session
// that sets A.v and synchronises at its begin and end; p put the log on the remotes.
type SyCase struct {
	Replicas int      `json:"replicas"`
	Remotes  int      `json:"remotes"`
	Ops      []string `json:"ops"`
	Skew     []int64  `json:"skew,omitempty"`
	Policy   string   `json:"policy"`
	Mode     string   `json:"mode"`
	Foreign  bool     `json:"foreign,omitempty"` // replica 1 is another file
	Settle   bool     `json:"settle,omitempty"`  // finally synchronise everything
}

type syRep struct {
	file string
	log  []txlogs.Tx
}

type syWorld struct {
	x    *core.X
	c    SyCase
	a    *App
	reps []*syRep
	rem  []string // paths
	rlog [][]txlogs.Tx
	own  []string
	made []txlogs.Tx
	by   [][]txlogs.Tx // changes in the order each replica made them
	drop map[txlogs.Tx]bool
	nq   int
}

const syBase = int64(1_600_000_000_000_000_000)

var syA, syB = uid(1), uid(2)

func syURL(p string) string { return (&url.URL{Scheme: "file", Path: p}).String() }

func newSyWorld(x *core.X, c SyCase) *syWorld {
	w := &syWorld{x: x, c: c, a: newApp(x), drop: map[txlogs.Tx]bool{}, by: make([][]txlogs.Tx, c.Replicas)}
	w.a.Args = []string{"--no-color", "--no-clear-clip"}
	auto := "true"
	if c.Mode == "named" {
		auto = "false"
	}
	var base []Ent
	for i := 0; i < c.Remotes; i++ {
		p := filepath.Join(w.a.Dir, fmt.Sprintf("remote%d.bp", i+1))
		w.rem = append(w.rem, p)
		w.rlog = append(w.rlog, nil)
		base = append(base, Ent{uid(10 + i), []string{"name", fmt.Sprintf("sync/r%d", i+1), "url", syURL(p), "sync", auto}})
	}
	base = append(base, Ent{syA, []string{"name", "a", "k", "v0", "k", "v1"}}, Ent{syB, []string{"name", "b", "k", "w0"}})
	for i := 0; i < c.Replicas; i++ {
		d := filepath.Join(w.a.Dir, fmt.Sprintf("replica%d", i))
		if err := os.Mkdir(d, 0o777); err != nil {
			core.Harness("%v", err)
		}
		log := mkTxs(syBase, base...)
		if c.Foreign && i == 1 {
			log = mkTxs(syBase+5, Ent{uid(30), []string{"name", "foreign"}}, Ent{uid(31), []string{"name", "foreign2", "k", "f"}})
		}
		r := &syRep{filepath.Join(d, "vault.bp"), log}
		w.reps = append(w.reps, r)
		w.put(r)
	}
	return w
}

func (w *syWorld) put(r *syRep) {
	w.a.File = r.file
	w.a.put("pw", r.log)
}

// answers to a merge's questions
func (w *syWorld) ask(n *int) func(refQ) byte {
	return func(q refQ) byte {
		p := w.c.Policy
		if q.root {
			if strings.HasPrefix(p, "n") {
				return 'n'
			}
			return 'y'
		}
		p = strings.TrimLeft(p, "ny")
		v := p[*n%len(p)]
		*n++
		return v
	}
}

// modelSync is what synchronising replica i with the remotes does; the remotes are merged in the given
// order.  It returns the questions.
func (w *syWorld) modelSync(i int, order []int) (local []txlogs.Tx, remotes map[int][]txlogs.Tx, qs []string, drop map[txlogs.Tx]bool) {
	local = w.reps[i].log
	remotes = map[int][]txlogs.Tx{}
	drop = map[txlogs.Tx]bool{}
	bad := map[int]bool{}
	n := 0
	f := w.ask(&n)
	pulled := local
	var seen [][]txlogs.Tx
Remotes:
	for _, k := range order {
		r := w.rlog[k]
		if r == nil || ref.EqualLogs(r, pulled) {
			continue
		}
		for _, s := range seen {
			if ref.EqualLogs(s, r) {
				// the same file again
				continue Remotes
			}
		}
		seen = append(seen, r)
		m, ok := refMergeLogs(local, r, func(q refQ) byte {
			qs = append(qs, q.String())
			return f(q)
		})
		if !ok {
			bad[k] = true
			continue
		}
		have := count(m)
		for _, t := range cat(local, r) {
			if have[t] == 0 {
				drop[t] = true
			}
		}
		local = m
	}
	for _, k := range order {
		dead := bad[k]
		for b := range bad {
			dead = dead || ref.EqualLogs(w.rlog[b], w.rlog[k])
		}
		if !dead {
			remotes[k] = local
		}
	}
	return local, remotes, qs, drop
}

// perms of the remotes
func perms(l []int) [][]int {
	if len(l) < 2 {
		return [][]int{append([]int{}, l...)}
	}
	var out [][]int
	for i := range l {
		rest := append(append([]int{}, l[:i]...), l[i+1:]...)
		for _, p := range perms(rest) {
			out = append(out, append([]int{l[i]}, p...))
		}
	}
	return out
}

// drive answers questions until the shell's prompt or the end, noting them.
func (w *syWorld) drive(s *Sess) (qs []string) {
	n := 0
	f := w.ask(&n)
	for i := 0; !s.Cur.Main() && s.Cur.Kind != "exit"; i++ {
		s.Check(i < 200, "synchronising never stops asking")
		out := s.Out()
		t := s.Cur.Text
		switch {
		case strings.Contains(t, "merge these anyway"):
			qs = append(qs, refQ{root: true}.String())
			v := f(refQ{root: true})
			s.Send(string(v))
		case strings.Contains(t, "estore"):
			id := ""
			for u := range w.entries() {
				if strings.Contains(out, u) {
					id += u
				}
			}
			v := f(refQ{})
			qs = append(qs, id)
			if v == 'X' {
				s.Send(ctrlD)
			} else if i%2 == 1 {
				s.Send("x") // not an answer
				s.Check(s.Cur.Text == t, "a wrong answer is taken: %v", s.Cur)
				s.Send(strings.ToLower(string(v)))
			} else {
				s.Send(string(v))
			}
		default:
			s.Fail("unexpected question %v", s.Cur)
		}
	}
	s.NoCrash()
	return qs
}

func (w *syWorld) entries() map[string]bool {
	m := map[string]bool{}
	for _, r := range w.reps {
		for _, t := range r.log {
			m[t.UUID] = true
		}
	}
	return m
}

func (w *syWorld) remote(k int) []txlogs.Tx {
	b, err := os.ReadFile(w.rem[k])
	if err != nil {
		return nil
	}
	_, st, err := readFile(b, "", "pw")
	if err != nil {
		w.x.Failf("remote %d can not be read: %v", k+1, err)
	}
	if len(st.Log) == 0 {
		return []txlogs.Tx{}
	}
	return st.Log
}

func (w *syWorld) sync(i int, only int, live bool) {
	r := w.reps[i]
	if w.c.Mode == "named" && only < 0 {
		for k := range w.rem {
			w.sync(i, k, live)
		}
		return
	}
	var which []int
	for k := range w.rem {
		if only < 0 || only == k {
			which = append(which, k)
		}
	}
	w.a.File = r.file
	args := w.a.Args
	mode := w.c.Mode
	if mode != "auto" || only >= 0 {
		w.a.Args = append(append([]string{}, args...), "--no-sync")
	}
	s := w.a.Start()
	w.a.Args = args
	var qs []string
	s.Open("", "pw")
	if mode == "auto" && only < 0 {
		qs = w.drive(s)
	} else {
		s.Check(s.Cur.Main(), "--no-sync does not open: %v", s.Cur)
		line := "sync"
		if only >= 0 {
			line = fmt.Sprintf("sync sync/r%d", only+1)
		}
		s.Send(line)
		qs = w.drive(s)
	}
	s.Check(s.Cur.Main(), "synchronising ended the session")
	d := s.Dump()
	// some order of the remotes must explain it
	why := ""
	ok := false
	var exp []txlogs.Tx
	var rems map[int][]txlogs.Tx
	for _, o := range perms(which) {
		l, rm, eq, drop := w.modelSync(i, o)
		for n := range eq {
			if u, _, isDel := strings.Cut(eq[n], " deleted"); isDel {
				eq[n] = u
			}
		}
		switch {
		case strings.Join(eq, ";") != strings.Join(qs, ";"):
			why = fmt.Sprintf("questions %q, want %q", qs, eq)
		case !ref.EqualLogs(l, d.Log):
			why = fmt.Sprintf("replica %d has\n%s\nwant\n%s", i, ref.ShowLog(d.Log), ref.ShowLog(l))
		default:
			ok = true
		}
		if ok {
			for k := range rm {
				if got := w.remote(k); !ref.EqualLogs(got, l) {
					why = fmt.Sprintf("remote %d has\n%s\nwant\n%s", k+1, ref.ShowLog(got), ref.ShowLog(l))
					ok = false
				}
			}
		}
		if ok {
			exp, rems = l, rm
			for t := range drop {
				w.drop[t] = true
			}
			break
		}
	}
	s.Check(ok, "%s", why)
	for k := range w.rem {
		if _, pushed := rems[k]; !pushed {
			s.Check(ref.EqualLogs(w.remote(k), w.rlog[k]), "remote %d was changed:\n%s\nbefore\n%s", k+1, ref.ShowLog(w.remote(k)), ref.ShowLog(w.rlog[k]))
		}
	}
	s.Check(ref.Same(d.Snapshot, stateOf(w.x, d.Log)), "the database does not show its history")
	w.nq += len(qs)
	if live {
		v := fmt.Sprintf("live%d", len(d.Log))
		name := "b"
		if _, has := d.Snapshot[syB]; !has {
			name = "sync/r1"
		}
		s.Do("set " + name + " v " + v)
		nd := s.Dump()
		s.Check(len(nd.Log) > len(exp) && ref.EqualLogs(nd.Log[:len(exp)], exp), "a command rewrote the history")
		w.by[i] = append(w.by[i], nd.Log[len(exp):]...)
		w.made = append(w.made, nd.Log[len(exp):]...)
		exp = nd.Log
		for k := range rems {
			rems[k] = exp
		}
	}
	r.log = exp
	for k, l := range rems {
		w.rlog[k] = l
	}
	s.Send("exit")
	if mode == "auto" && only < 0 {
		again := w.drive(s)
		w.settled(s, rems, again, len(which))
	}
	s.Check(s.Cur.Kind == "exit" && s.Code == 0, "exit: %v, status %d", s.Cur, s.Code)
	_, st, err := readFile(w.a.bytes(), "", "pw")
	s.Check(err == nil, "the file can not be read after synchronising: %v", err)
	s.Check(ref.EqualLogs(st.Log, exp), "the file has\n%s\nwant\n%s", ref.ShowLog(st.Log), ref.ShowLog(exp))
	for k := range w.rem {
		s.Check(ref.EqualLogs(w.remote(k), w.rlog[k]), "remote %d has at the end\n%s\nwant\n%s", k+1, ref.ShowLog(w.remote(k)), ref.ShowLog(w.rlog[k]))
	}
	w.x.State(ref.ShowLog(exp))
}

// settled: the second synchronisation has no questions, unless some were declined.
func (w *syWorld) settled(s *Sess, rems map[int][]txlogs.Tx, again []string, n int) {
	if len(rems) == n {
		s.Check(len(again) == 0, "synchronising again asks %q", again)
	}
}

func runSync(x *core.X, c SyCase) {
	w := newSyWorld(x, c)
	for n, o := range c.Ops {
		i := int(o[1] - '0')
		r := w.reps[i]
		tm := syBase + 1000 + int64(n)*10
		if i < len(c.Skew) {
			tm += c.Skew[i]
		}
		if _, at, ok := strings.Cut(o, "@"); ok {
			var v int64
			fmt.Sscan(at, &v)
			tm = syBase + 1000 + v*10
		}
		t := txlogs.Tx{Time: tm, UUID: syA, Key: "k"}
		v := fmt.Sprintf("%d.%d", i, n)
		var txs []txlogs.Tx
		switch o[0] {
		case 's':
			t.Kind, t.Value = txlogs.TxSetKey, v
		case 'u':
			t.Kind = txlogs.TxDeleteKey
		case 'd':
			t.Kind, t.Key = txlogs.TxDelete, ""
		case 't':
			t.Kind, t.UUID, t.Value = txlogs.TxSetKey, syB, v
		case 'b':
			t.Kind, t.UUID, t.Key = txlogs.TxDelete, syB, ""
		case 'a':
			id := uid(0x200 + n)
			t.Kind, t.UUID, t.Key = txlogs.TxAdd, id, ""
			txs = append(txs, t)
			t = txlogs.Tx{Time: tm + 1, UUID: id, Kind: txlogs.TxSetKey, Key: "name", Value: "new" + v}
		case 'y':
			w.sync(i, -1, false)
			continue
		case 'l':
			w.sync(i, -1, true)
			continue
		case '1', '2':
			w.sync(i, int(o[0]-'1'), false)
			continue
		case 'p':
			for k := range w.rem {
				b, err := os.ReadFile(r.file)
				if err != nil || os.WriteFile(w.rem[k], b, 0o600) != nil {
					core.Harness("can not put: %v", err)
				}
				w.rlog[k] = r.log
			}
			continue
		}
		txs = append(txs, t)
		log := cat(r.log, txs)
		if _, _, ok := ref.Replay(log); !ok {
			x.Outcome("impossible")
			return
		}
		r.log = log
		w.put(r)
		w.by[i] = append(w.by[i], txs...)
		w.made = append(w.made, txs...)
	}
	if c.Settle {
		for round := 0; round < 2; round++ {
			for i := range w.reps {
				w.sync(i, -1, false)
			}
		}
		final := w.reps[0].log
		for i, r := range w.reps {
			x.Check(ref.EqualLogs(r.log, final), "replicas 0 and %d differ in the end:\n%s\n%s", i, ref.ShowLog(final), ref.ShowLog(r.log))
		}
		for k := range w.rem {
			x.Check(ref.EqualLogs(w.rlog[k], final), "remote %d differs in the end:\n%s\n%s", k+1, ref.ShowLog(w.rlog[k]), ref.ShowLog(final))
		}
		have := count(final)
		for _, t := range w.made {
			x.Check(have[t] == 1 || have[t] == 0 && w.drop[t], "%+v is %d times in the final history %s", t, have[t], ref.ShowLog(final))
		}
		for i, l := range w.by {
			var kept []txlogs.Tx
			for _, t := range l {
				if have[t] > 0 {
					kept = append(kept, t)
				}
			}
			x.Check(subsequence(kept, final), "the changes of replica %d were reordered: %s", i, ref.ShowLog(final))
		}
		for t := range w.drop {
			if w.c.Policy == "R" {
				x.Check(t.Kind == txlogs.TxDelete, "%+v was lost by restoring", t)
			}
			if w.c.Policy == "D" {
				dels := 0
				for _, m := range w.made {
					if m.Kind == txlogs.TxDelete && m.UUID == t.UUID {
						dels++
					}
				}
				x.Check(dels > 0, "%+v was lost though its entry was not deleted", t)
			}
		}
		x.State("final " + ref.ShowLog(final))
	}
	x.Outcome(fmt.Sprintf("%d questions, %d dropped", min(w.nq, 9), min(len(w.drop), 9)))
}

// sideOps: operation sequences of a replica with ascending times out of n slots, offset picks the slots.
func sideTimes(n, slots int) (out [][]int) {
	var rec func(from int, l []int)
	rec = func(from int, l []int) {
		if len(l) == n {
			out = append(out, append([]int{}, l...))
			return
		}
		for t := from; t < slots; t++ {
			rec(t+1, append(l, t))
		}
	}
	rec(0, nil)
	return out
}

func init() {
	famM := core.NewFamily("C23", "forks", runSync)
	famH := core.NewFamily("C23", "histories", runSync)
	core.Register(&core.Check{
		ID: "C23", Level: "model_checking",
		Rule:        "one execution is a history of changes at replicas (with chosen clocks) and synchronisations of the real program with file remotes; after every synchronisation the replica, all remotes and the questions asked are compared with a reference model of merging, and histories end with everybody synchronising, after which all copies must be the same and hold every change not given up by an answer; state = history of a replica",
		Assumptions: []string{"synchronisations do not overlap in time", "changes made at the very same nanosecond on two replicas are ordered by entry"},
		Run: func(ctx *core.Ctx) {
			exploreMany(ctx)
			letters := "sudtba"
			k := ctx.Pick(2, 3)
			famM.Explore(ctx, fmt.Sprintf("all forks with up to %d changes per side out of %q in all time orders (no ties on one entry), each conflict restored, deleted or declined", k, letters), func(y func(SyCase) bool) {
				var words []string
				for n := 0; n <= k; n++ {
					for _, l := range strsOf(letters, n) {
						words = append(words, l)
					}
				}
				for _, l := range words {
					for _, r := range words {
						slots := len(l) + len(r)
						if k == 3 && slots > 5 || k == 2 && slots > 3 {
							if !strings.ContainsAny(l+r, "db") {
								continue
							}
						}
						for _, lt := range sideTimes(len(l), slots) {
							used := map[int]bool{}
							var ops []string
							for n, t := range lt {
								used[t] = true
								ops = append(ops, fmt.Sprintf("%c0@%d", l[n], t))
							}
							n := 0
							for t := 0; t < slots && n < len(r); t++ {
								if !used[t] {
									ops = append(ops, fmt.Sprintf("%c1@%d", r[n], t))
									n++
								}
							}
							ops = append(ops, "p1", "y0")
							pol := []string{"R"}
							if strings.ContainsAny(l+r, "db") {
								pol = []string{"R", "D", "X"}
								if slots > 3 {
									pol = append(pol, "RD", "DR")
									if !ctx.Thorough() {
										pol = []string{"R", "D"}
									}
								}
							}
							for _, p := range pol {
								m := []string{"auto", "cmd"}[(len(ops)+len(p)+int(r2(r)))%2]
								if !y(SyCase{Replicas: 2, Remotes: 1, Ops: ops, Policy: p, Mode: m}) {
									return
								}
							}
						}
					}
				}
			})
			famM.Explore(ctx, "changes at the same time on different entries, files without common history, all ways to synchronise", func(y func(SyCase) bool) {
				for _, l := range strsUpTo("sdta", 2) {
					for _, r := range strsUpTo("tbua", 2) {
						var ops []string
						clash := false
						for n, o := range l {
							ops = append(ops, fmt.Sprintf("%c0@%d", o, n))
							for m, p := range r {
								clash = clash || n == m && (o == p && o != 'a' || o != 'a' && p == 'u' && o != 't')
							}
						}
						for n, o := range r {
							ops = append(ops, fmt.Sprintf("%c1@%d", o, n))
						}
						if clash {
							continue
						}
						for _, m := range []string{"auto", "cmd"} {
							if !y(SyCase{Replicas: 2, Remotes: 1, Ops: append(ops, "p1", "y0"), Policy: "R", Mode: m}) {
								return
							}
						}
					}
				}
				for _, ops := range [][]string{{"p1", "y0"}, {"p0", "y1"}, {"s0", "p1", "y0", "s0", "y0"}, {"d0@-200", "s0@2", "p1", "y0"}, {"p1", "10", "s0", "10"}} {
					for _, p := range []string{"nR", "yR", "yD"} {
						for _, m := range []string{"auto", "cmd", "named"} {
							for rem := 1; rem <= 2; rem++ {
								if strings.HasPrefix(ops[len(ops)-1], "y1") { // replica 1 has no sync entry
									continue
								}
								if _, _, ok := ref.Replay(nil); ok && ops[0] == "d0@-200" {
									continue
								}
								if !y(SyCase{Replicas: 2, Remotes: rem, Ops: ops, Policy: p, Mode: m, Foreign: true}) {
									return
								}
							}
						}
					}
				}
			})
			d := ctx.Pick(4, 5)
			hist := func(what string, reps, rems int, alpha []string, d int, skews [][]int64, pols, modes []string) {
				famH.Explore(ctx, fmt.Sprintf("%s: all histories of up to %d of %d operations, %d clock skews, answers %v, modes %v, then everybody synchronises twice", what, d, len(alpha), len(skews), pols, modes), func(y func(SyCase) bool) {
					for n := 1; n <= d; n++ {
						for _, seq := range intSeqs(len(alpha), n) {
							ops := make([]string, n)
							del, sy := false, false
							for i, o := range seq {
								ops[i] = alpha[o]
								del = del || strings.ContainsAny(ops[i][:1], "db")
								sy = sy || strings.ContainsAny(ops[i][:1], "yl12")
							}
							if last := ops[n-1][0]; n > 2 && (last == 'y' || last == 'l') && !ctx.Thorough() {
								continue // the final synchronisations come anyway
							}
							for si, sk := range skews {
								for pi, p := range pols {
									if pi > 0 && !del {
										continue
									}
									m := modes[(si+n+pi)%len(modes)]
									if !y(SyCase{Replicas: reps, Remotes: rems, Ops: ops, Skew: sk, Policy: p, Mode: m, Settle: true}) {
										return
									}
								}
							}
						}
					}
				})
			}
			hist("two replicas", 2, 1, []string{"s0", "s1", "d0", "a1", "y0", "y1"}, d, [][]int64{{0, 0}, {0, -25}}, []string{"R", "D"}, []string{"auto", "cmd"})
			hist("three replicas", 3, 1, []string{"s0", "a1", "d2", "y0", "y1", "y2"}, d-1, [][]int64{{0, 0, 0}, {0, -25, 15}}, []string{"R", "D"}, []string{"auto"})
			hist("two replicas with sessions", 2, 1, []string{"s0", "d1", "l0", "l1"}, d-1, [][]int64{{0, 0}}, []string{"R", "D"}, []string{"auto"})
			hist("two replicas, two remotes", 2, 2, []string{"s0", "d1", "10", "20", "y1", "11"}, d-1, [][]int64{{0, 0}}, []string{"R"}, []string{"auto", "cmd"})
		},
	})
}

func strsOf(letters string, n int) []string {
	if n == 0 {
		return []string{""}
	}
	var out []string
	for _, s := range strsOf(letters, n-1) {
		for _, c := range letters {
			out = append(out, s+string(c))
		}
	}
	sort.Strings(out)
	return out
}

func strsUpTo(letters string, n int) (out []string) {
	for i := 0; i <= n; i++ {
		out = append(out, strsOf(letters, i)...)
	}
	return out
}

func r2(s string) (n int) {
	for _, c := range s {
		n += int(c)
	}
	return n
}
