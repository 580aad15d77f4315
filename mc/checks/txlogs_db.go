package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"time"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/txlogs"
)

// ---------------------------------------------------------------------------------------------
// C01 / C02: operation sequences on one database

// OpsCase is a sequence of operations, one letter each (see dbRun.apply).
type OpsCase struct {
	Ops string `json:"ops"`
}

type dbRun struct {
	x     *core.X
	db    *txlogs.DB
	log   []txlogs.Tx // model
	ids   []string    // entries in order of creation
	tx    int         // model: -1 none, else log length at begin
	ghost string
	n     int
	seen  []string
}

func newDBRun(x *core.X) *dbRun {
	return &dbRun{x: x, db: new(txlogs.DB), tx: -1, ghost: "00000000-0000-4000-8000-000000000000"}
}

func (r *dbRun) id(i int) string {
	if i < len(r.ids) {
		return r.ids[i]
	}
	return r.ghost
}

func (r *dbRun) expectAppend(op string, want txlogs.Tx, before int64) {
	x := r.x
	x.Check(len(r.db.Log) == len(r.log)+1, "%s: log grew from %d to %d", op, len(r.log), len(r.db.Log))
	got := r.db.Log[len(r.db.Log)-1]
	x.Check(got.Time >= before && got.Time <= time.Now().UnixNano(), "%s: transaction time %d not the time of the operation", op, got.Time)
	want.Time = got.Time
	x.Check(got == want, "%s: appended %+v, want %+v", op, got, want)
	r.log = append(r.log, got)
}

func panics(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

func (r *dbRun) apply(op byte) {
	x := r.x
	now := time.Now().UnixNano()
	r.n++
	val := fmt.Sprintf("v%d", r.n)
	switch op {
	case 'a':
		id, err := r.db.Add()
		x.Check(err == nil, "add failed: %v", err)
		for _, o := range r.ids {
			x.Check(o != id, "add reused id %s", id)
		}
		x.Check(id != "", "add returned an empty id")
		r.ids = append(r.ids, id)
		r.expectAppend("add", txlogs.Tx{Kind: txlogs.TxAdd, UUID: id}, now)
	case '1', '2', '3', '4': // set: entry x key
		i, k := int(op-'1')/2, []string{"pass", "name"}[int(op-'1')%2]
		r.db.Set(r.id(i), k, val)
		r.expectAppend("set", txlogs.Tx{Kind: txlogs.TxSetKey, UUID: r.id(i), Key: k, Value: val}, now)
	case 'e': // set to the empty value
		r.db.Set(r.id(0), "pass", "")
		r.expectAppend("set empty", txlogs.Tx{Kind: txlogs.TxSetKey, UUID: r.id(0), Key: "pass"}, now)
	case '5', '6':
		i := int(op - '5')
		r.db.DeleteKey(r.id(i), "pass")
		r.expectAppend("delkey", txlogs.Tx{Kind: txlogs.TxDeleteKey, UUID: r.id(i), Key: "pass"}, now)
	case 'x', 'y':
		i := int(op - 'x')
		r.db.Delete(r.id(i))
		r.expectAppend("delete", txlogs.Tx{Kind: txlogs.TxDelete, UUID: r.id(i)}, now)
	case 's':
		r.update()
	case 'z':
		r.db.ResetSnapshot()
		x.Check(len(r.db.Snapshot) == 0 && r.db.Version == 0, "reset left a snapshot")
	case 'U', 'V', 'W': // undo the last n
		n := uint(op-'U') + 1
		if op == 'W' {
			n = uint(len(r.log))
		}
		err := r.db.RollbackN(n)
		if int(n) > len(r.log) {
			x.Check(err != nil, "undo %d of %d succeeded", n, len(r.log))
		} else {
			x.Check(err == nil, "undo %d of %d failed: %v", n, len(r.log), err)
			r.log = r.log[:len(r.log)-int(n)]
		}
	case '0':
		x.Check(r.db.RollbackN(0) == nil, "undo 0 failed")
	case 'r': // save & reload
		b, err := r.db.Save()
		if r.tx >= 0 {
			x.Check(err != nil, "saved while a transaction is open")
			break
		}
		x.Check(err == nil, "save failed: %v", err)
		nd, err := txlogs.New(b)
		x.Check(err == nil && nd != nil, "reload failed: %v", err)
		r.db = nd
	case 'h': // history queries must not disturb anything
		for n := 0; n <= len(r.log); n++ {
			r.db.SnapshotAt(n)
		}
		r.db.EntrySnapshotAt(r.id(0), 1)
		r.db.NVersions(r.id(0))
		r.db.LastUpdated(r.id(0))
	case 'B':
		p := panics(r.db.Begin)
		if r.tx >= 0 {
			x.Check(p != nil, "a second begin inside an open transaction was accepted")
		} else {
			x.Check(p == nil, "begin panicked: %v", p)
			r.tx = len(r.log)
		}
	case 'C':
		p := panics(r.db.Commit)
		if r.tx < 0 {
			x.Check(p != nil, "commit without begin was accepted")
		} else {
			x.Check(p == nil, "commit panicked: %v", p)
			r.tx = -1
		}
	case 'R':
		p := panics(r.db.Rollback)
		if r.tx < 0 {
			x.Check(p != nil, "rollback without begin was accepted")
		} else {
			x.Check(p == nil, "rollback panicked: %v", p)
			r.log = r.log[:r.tx]
			r.tx = -1
		}
	case 'D', 'E', 'F', 'G': // Do: D,F ok  E,G error; F,G snapshot inside
		if r.tx >= 0 {
			break
		}
		fail := op == 'E' || op == 'G'
		boom := errors.New("boom")
		start := len(r.log)
		err := r.db.Do(func() error {
			r.db.Set(r.id(0), "pass", val)
			r.expectAppend("set in do", txlogs.Tx{Kind: txlogs.TxSetKey, UUID: r.id(0), Key: "pass", Value: val}, now)
			if op == 'F' || op == 'G' {
				r.update()
				id, err := r.db.Add()
				x.Check(err == nil, "add failed: %v", err)
				r.expectAppend("add in do", txlogs.Tx{Kind: txlogs.TxAdd, UUID: id}, now)
			}
			_, serr := r.db.Save()
			x.Check(serr != nil, "saved inside a transaction function")
			if fail {
				return boom
			}
			return nil
		})
		if fail {
			x.Check(err == boom, "Do returned %v, want the function's error", err)
			r.log = r.log[:start]
		} else {
			x.Check(err == nil, "Do returned %v", err)
		}
	default:
		core.Harness("unknown op %q", op)
	}
	r.invariant(op)
	x.Step()
}

func (r *dbRun) update() {
	x := r.x
	want, n, ok := ref.Replay(r.log)
	err := r.db.UpdateSnapshot()
	if !ok {
		x.Check(err != nil, "unreplayable log accepted: %s", ref.ShowLog(r.log))
		x.Check(int(r.db.Version) <= n, "version %d past the unreplayable transaction %d", r.db.Version, n)
		return
	}
	x.Check(err == nil, "update failed on a replayable log: %v", err)
	x.Check(r.db.Version == uint(len(r.log)), "version %d after update of %d transactions", r.db.Version, len(r.log))
	x.Check(ref.Same(r.db.Snapshot, want), "snapshot %s, replay gives %s", ref.Of(r.db.Snapshot).Show(), want.Show())
}

// invariant: the log is what the operations made it, and the snapshot is the replay of the log up
// to its version.
func (r *dbRun) invariant(op byte) {
	x := r.x
	x.Check(ref.EqualLogs(r.db.Log, r.log), "after %c: log is %s, want %s", op, ref.ShowLog(r.db.Log), ref.ShowLog(r.log))
	x.Check(int(r.db.Version) <= len(r.log), "after %c: snapshot version %d beyond log length %d", op, r.db.Version, len(r.log))
	want, _, ok := ref.Replay(r.log[:r.db.Version])
	x.Check(ok && ref.Same(r.db.Snapshot, want), "after %c: snapshot at version %d is %s, replay gives %s", op, r.db.Version, ref.Of(r.db.Snapshot).Show(), want.Show())
}

func (r *dbRun) canon() string {
	var b strings.Builder
	name := func(u string) string {
		for i, id := range r.ids {
			if id == u {
				return string(rune('A' + i))
			}
		}
		return "?"
	}
	for _, t := range r.log {
		b.WriteString(string(t.Kind) + name(t.UUID) + t.Key + ",")
	}
	fmt.Fprintf(&b, "|%d|%d|%v", r.db.Version, r.tx, r.db.Snapshot == nil)
	return b.String()
}

func runOps(x *core.X, c OpsCase) {
	r := newDBRun(x)
	for i := 0; i < len(c.Ops); i++ {
		r.apply(c.Ops[i])
		x.State(r.canon())
	}
	// the end of every sequence: what a reader sees
	r.update()
	if r.tx < 0 {
		r.apply('r')
		r.update()
	}
	x.Outcome(ref.Of(r.db.Snapshot).Show())
}

// sequences enumerates all words of exactly length n over the alphabet, optionally filtered.
func words(alpha string, n int, ok func(w []byte) bool, yield func(OpsCase) bool) bool {
	w := make([]byte, n)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			return yield(OpsCase{string(w)})
		}
		for j := 0; j < len(alpha); j++ {
			w[i] = alpha[j]
			if ok != nil && !ok(w[:i+1]) {
				continue
			}
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	return rec(0)
}

// sane prunes words that only repeat what shorter words show: no-op letters twice in a row.
func sane(w []byte) bool {
	n := len(w)
	if n >= 2 && w[n-1] == w[n-2] && strings.IndexByte("szhr0", w[n-1]) >= 0 {
		return false
	}
	adds := 0
	for _, c := range w[:n-1] {
		if c == 'a' {
			adds++
		}
	}
	switch w[n-1] {
	case 'y', '3', '4', '6':
		return adds >= 2 // with fewer entries these equal the A/unknown variants
	}
	return true
}

// ---------------------------------------------------------------------------------------------
// logs given directly

// TxSpec is a compact transaction.
type LogCase struct {
	Log string `json:"log"` // letters, see mkLog
	N   int    `json:"n"`
	U   string `json:"u,omitempty"`
}

// mkLog: aA/aB add; xA delete; 1A,2A set k, set l; 5A delkey k. Pairs of letters.
func mkLog(s string) []txlogs.Tx {
	var l []txlogs.Tx
	for i := 0; i+1 < len(s); i += 2 {
		t := txlogs.Tx{Time: int64(1000 + i), UUID: string(s[i+1])}
		switch s[i] {
		case 'a':
			t.Kind = txlogs.TxAdd
		case 'x':
			t.Kind = txlogs.TxDelete
		case '1':
			t.Kind, t.Key, t.Value = txlogs.TxSetKey, "k", fmt.Sprint(i)
		case '2':
			t.Kind, t.Key, t.Value = txlogs.TxSetKey, "l", fmt.Sprint(i)
		case '5':
			t.Kind, t.Key = txlogs.TxDeleteKey, "k"
		default:
			core.Harness("bad log letter %q", s[i])
		}
		l = append(l, t)
	}
	return l
}

func logWords(n int, letters, ents string, onlyValid bool, yield func(string) bool) bool {
	w := make([]byte, 0, 2*n)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			return yield(string(w))
		}
		for _, e := range []byte(ents) {
			for _, c := range []byte(letters) {
				w = append(w, c, e)
				ok := true
				if onlyValid {
					_, _, ok = ref.Replay(mkLog(string(w)))
				}
				if ok && !rec(i+1) {
					return false
				}
				w = w[:len(w)-2]
			}
		}
		return true
	}
	return rec(0)
}

func init() {
	ops := core.NewFamily("C01", "operation-sequences", runOps)
	raw := core.NewFamily("C01", "raw-logs", func(x *core.X, c LogCase) {
		log := mkLog(c.Log)
		want, n, ok := ref.Replay(log)
		b, err := json.Marshal(map[string]any{"log": log})
		x.Check(err == nil, "marshal")
		db, err := txlogs.New(b)
		x.Check(err == nil && db != nil, "load: %v", err)
		// snapshot at c.N first, then the rest arrives
		full := db.Log
		k := c.N
		db.Log = full[:k:k]
		w1, n1, ok1 := ref.Replay(log[:k])
		err = db.UpdateSnapshot()
		x.Check((err == nil) == ok1, "update of %s: err=%v, replayable=%v", ref.ShowLog(log[:k]), err, ok1)
		if ok1 {
			x.Check(ref.Same(db.Snapshot, w1) && db.Version == uint(k), "snapshot %s version %d, want %s", ref.Of(db.Snapshot).Show(), db.Version, w1.Show())
		} else {
			x.Check(int(db.Version) <= n1, "version passed the bad transaction")
		}
		db.Log = full
		err = db.UpdateSnapshot()
		x.Check((err == nil) == ok, "update of %s: err=%v, replayable=%v", ref.ShowLog(log), err, ok)
		if ok {
			x.Check(ref.Same(db.Snapshot, want) && db.Version == uint(len(log)), "snapshot %s version %d, want %s", ref.Of(db.Snapshot).Show(), db.Version, want.Show())
			x.Outcome(want.Show())
		} else {
			x.Check(int(db.Version) <= n, "version passed the bad transaction")
			pre, _, _ := ref.Replay(log[:db.Version])
			x.Check(ref.Same(db.Snapshot, pre), "partial snapshot is not a replayed prefix")
			err2 := db.UpdateSnapshot()
			x.Check(err2 != nil, "second update of an unreplayable log succeeded")
			x.Outcome("error")
		}
		x.State(c.Log)
		x.Steps(2)
	})
	long := core.NewFamily("C01", "long-logs", func(x *core.X, c LogCase) {
		db := new(txlogs.DB)
		var ids []string
		for i := 0; i < c.N; i++ {
			switch {
			case i%7 == 0:
				id, err := db.Add()
				x.Check(err == nil, "add: %v", err)
				ids = append(ids, id)
			case i%7 == 6 && len(ids) > 2:
				db.Delete(ids[0])
				ids = ids[1:]
			case i%7 == 5:
				db.DeleteKey(ids[i%len(ids)], fmt.Sprint("k", i%3))
			default:
				db.Set(ids[i%len(ids)], fmt.Sprint("k", i%3), fmt.Sprint(i))
			}
			if len(c.U) > 0 && i%len(c.U) == 0 {
				x.Check(db.UpdateSnapshot() == nil, "update failed")
			}
			x.Step()
		}
		x.Check(len(db.Log) == c.N, "log length %d after %d operations", len(db.Log), c.N)
		x.Check(db.UpdateSnapshot() == nil, "update failed")
		want, _, ok := ref.Replay(db.Log)
		x.Check(ok && ref.Same(db.Snapshot, want) && db.Version == uint(c.N), "snapshot differs from replay after %d operations", c.N)
	})
	core.Register(&core.Check{
		ID: "C01", Level: "model_checking",
		Rule:        "every operation sequence (letters: a add, 1-4 set, e set empty, 5/6 delkey, x/y delete, s snapshot, z reset, U/V undo, r save+reload, h history queries) executed on the real database and compared after every step with an independent replay; outcome = final visible state",
		Assumptions: []string{"alphabet of two entries and two keys; unknown entries represented by one unknown id", "times are the operating system's"},
		Run: func(ctx *core.Ctx) {
			alpha := "a135xysUVrzeh2"
			for n := 0; n <= ctx.Pick(5, 6); n++ {
				n := n
				ops.Explore(ctx, fmt.Sprintf("all sequences of length %d over %q", n, alpha), func(y func(OpsCase) bool) { words(alpha, n, sane, y) })
			}
			deep := "a1xsUr"
			ops.Explore(ctx, fmt.Sprintf("all sequences of length %d over %q", ctx.Pick(7, 9), deep), func(y func(OpsCase) bool) { words(deep, ctx.Pick(7, 9), sane, y) })
			for n := 0; n <= ctx.Pick(4, 5); n++ {
				n := n
				raw.Explore(ctx, fmt.Sprintf("all logs of length %d over 5 kinds x 2 entries, each snapshotted at every prefix", n), func(y func(LogCase) bool) {
					logWords(n, "a125x", "AB", false, func(s string) bool {
						for k := 0; k <= n; k++ {
							if !y(LogCase{Log: s, N: k}) {
								return false
							}
						}
						return true
					})
				})
			}
			exploreLarge(ctx, largeReplay, 1000, 1024, 1025, 4097, 10001, 65535, 65536, 65537, 70000)
			long.Explore(ctx, "logs of every length up to the bound, snapshotted every m operations", func(y func(LogCase) bool) {
				for n := 0; n <= ctx.Pick(300, 1200); n++ {
					for _, m := range []int{0, 1, 3, 64} {
						if !y(LogCase{N: n, U: strings.Repeat("m", m)}) {
							return
						}
					}
				}
			})
		},
	})

	ops2 := core.NewFamily("C02", "transaction-sequences", runOps)
	core.Register(&core.Check{
		ID: "C02", Level: "model_checking",
		Rule:        "every sequence over begin/commit/rollback/do (ok, failing, snapshotting inside)/undo/mutate/snapshot/save letters on the real database against a model log with one transaction marker; outcome = final visible state",
		Assumptions: []string{"undoing the last N is not combined with an open transaction (the API gives that no meaning)"},
		Run: func(ctx *core.Ctx) {
			alpha := "BCRa1xsrDEFGUVz"
			filt := func(w []byte) bool {
				if !sane(w) {
					return false
				}
				// no undo/reload while a transaction is open
				open := false
				for i, c := range w {
					switch c {
					case 'B':
						open = true
					case 'C', 'R':
						open = false
					case 'U', 'V', 'W':
						if open {
							return false
						}
					case 'D', 'E', 'F', 'G':
						if open && i == len(w)-1 {
							return false
						}
					}
				}
				return true
			}
			for n := 0; n <= ctx.Pick(5, 6); n++ {
				n := n
				ops2.Explore(ctx, fmt.Sprintf("all sequences of length %d over %q", n, alpha), func(y func(OpsCase) bool) { words(alpha, n, filt, y) })
			}
			deep := "BRCa1sr"
			ops2.Explore(ctx, fmt.Sprintf("all sequences of length %d over %q", ctx.Pick(7, 8), deep), func(y func(OpsCase) bool) { words(deep, ctx.Pick(7, 8), filt, y) })
			exploreLarge(ctx, largeUndo, 257, 1025, 4097, 65537)
			undo := "a1sUVWD0"
			ops2.Explore(ctx, fmt.Sprintf("all sequences of length %d over %q", ctx.Pick(6, 7), undo), func(y func(OpsCase) bool) { words(undo, ctx.Pick(6, 7), filt, y) })
		},
	})

	hist := core.NewFamily("C03", "history-queries", historyCase)
	core.Register(&core.Check{
		ID: "C03", Level: "model_checking",
		Rule: "every log over 5 transaction kinds x 2 entries, every N from -2 to beyond the length, every entry incl. an unknown one, against replay of the truncated log; results must not alias the database; outcome = answer",
		Run: func(ctx *core.Ctx) {
			for n := 0; n <= ctx.Pick(6, 8); n++ {
				n := n
				hist.Explore(ctx, fmt.Sprintf("all replayable logs of length %d", n), func(y func(LogCase) bool) {
					logWords(n, "a125x", "AB", true, func(s string) bool {
						return y(LogCase{Log: s})
					})
				})
			}
			for n := 1; n <= ctx.Pick(4, 5); n++ {
				n := n
				hist.Explore(ctx, fmt.Sprintf("all logs of length %d incl. unreplayable ones", n), func(y func(LogCase) bool) {
					logWords(n, "a15x", "AB", false, func(s string) bool { return y(LogCase{Log: s}) })
				})
			}
			hist.Explore(ctx, "entries with many versions: every number of changes from 100 to the bound in steps, all moments", func(y func(LogCase) bool) {
				for _, n := range []int{60, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 600, 1030, 4100} {
					for i, w := range []string{"1A", "1A1B", "1A5A", "1A2A1B"} {
						if n > 300 && i != 0 && !ctx.Thorough() || n > 1030 && i > 0 {
							continue
						}
						if !y(LogCase{Log: "aAaB" + strings.Repeat(w, n)}) {
							return
						}
					}
				}
			})
			exploreLarge(ctx, largeHistory, 257, 1025, 4097, 65537)
			shellHistory(ctx)
		},
	})
}

func historyCase(x *core.X, c LogCase) {
	log := mkLog(c.Log)
	for snap := 0; snap < 2; snap++ {
		db := &txlogs.DB{Log: append([]txlogs.Tx(nil), log...)}
		_, _, replayable := ref.Replay(log)
		if snap == 1 {
			if !replayable {
				continue
			}
			x.Check(db.UpdateSnapshot() == nil, "update failed")
		}
		before, _ := json.Marshal(db)
		ns := []int{-1 << 62, -3, -2, -1, 1 << 62}
		for n := 0; n <= len(log)+2; n++ {
			if len(log) < 20 || n < 5 || n%16 < 2 || n > len(log)-5 || n&(n-1) == 0 || n > 120 && n < 135 {
				ns = append(ns, n)
			}
		}
		for _, n := range ns {
			got, err := db.SnapshotAt(n)
			if n < 0 || n > len(log) {
				x.Check(err != nil, "SnapshotAt(%d) of %d transactions returned no error", n, len(log))
			} else {
				want, _, ok := ref.Replay(log[:len(log)-n])
				if !ok {
					x.Check(err != nil, "SnapshotAt(%d) of an unreplayable log returned no error", n)
				} else {
					x.Check(err == nil, "SnapshotAt(%d): %v", n, err)
					x.Check(ref.Same(got, want), "SnapshotAt(%d) = %s, want %s", n, ref.Of(got).Show(), want.Show())
					x.Outcome(want.Show())
				}
			}
			x.Step()
			for _, e := range got { // must not alias the database
				e["alias"] = "x"
			}
			for _, u := range []string{"A", "B", "ghost"} {
				var own []txlogs.Tx
				for _, t := range log {
					if t.UUID == u {
						own = append(own, t)
					}
				}
				e, err := db.EntrySnapshotAt(u, n)
				var want map[string]string
				if n >= 0 && n <= len(own) {
					if s, _, ok := ref.Replay(own[:len(own)-n]); ok {
						want = s[u]
					}
				}
				if want == nil {
					x.Check(err != nil, "EntrySnapshotAt(%s,%d) returned %v without error", u, n, e)
				} else {
					x.Check(err == nil, "EntrySnapshotAt(%s,%d): %v", u, n, err)
					x.Check(ref.Same(map[string]txlogs.Entry{u: e}, ref.State{u: want}), "EntrySnapshotAt(%s,%d) = %v, want %v", u, n, e, want)
					e["alias"] = "x"
				}
				x.Step()
			}
		}
		for _, u := range []string{"A", "B", "ghost"} {
			n, last := 0, int64(-1)
			for _, t := range log {
				if t.UUID == u {
					n++
					last = t.Time
				}
			}
			x.Check(db.NVersions(u) == n, "NVersions(%s)=%d want %d", u, db.NVersions(u), n)
			x.Check(db.LastUpdated(u) == last, "LastUpdated(%s)=%d want %d", u, db.LastUpdated(u), last)
		}
		after, _ := json.Marshal(db)
		x.Check(string(before) == string(after), "a history query changed the database:\n%s\n%s", before, after)
	}
	x.State(c.Log)
}
