package checks

import (
	"fmt"
	"sort"
	"strings"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/txlogs"
)

// Large histories: the properties of C01-C07 do not stop at any size, the sizes are around those where
// counters and buffers of implementations end.

// LargeCase is a history of N transactions.
type LargeCase struct {
	N    int `json:"n"`
	Wide int `json:"wide"` // an entry is added every so many transactions
}

// mkLarge is a replayable history with all kinds of transactions at times t, t+d, ...; who tells the
// entries of different replicas apart, live are the entries it may change.
func mkLarge(n, wide int, t, d int64, who string, live []string) (log []txlogs.Tx) {
	live = append([]string{}, live...)
	for i := 0; i < n; i++ {
		tx := txlogs.Tx{Time: t + d*int64(i)}
		switch k := i * 31 % max(len(live), 1); {
		case i%wide == 0 || len(live) == 0:
			tx.Kind, tx.UUID = txlogs.TxAdd, fmt.Sprint(who, i)
			live = append(live, tx.UUID)
		case i%97 == 50 && len(live) > 3 && strings.HasPrefix(live[k], who):
			tx.Kind, tx.UUID = txlogs.TxDelete, live[k]
			live = append(live[:k:k], live[k+1:]...)
		case i%13 == 5:
			tx.Kind, tx.UUID, tx.Key = txlogs.TxDeleteKey, live[k], fmt.Sprint("k", i%5)
		default:
			tx.Kind, tx.UUID, tx.Key, tx.Value = txlogs.TxSetKey, live[k], fmt.Sprint("k", i%5), fmt.Sprint(who, i)
		}
		log = append(log, tx)
	}
	return log
}

// around are the numbers near powers of two and ten up to n, and near n.
func around(n int) (ns []int) {
	seen := map[int]bool{}
	add := func(k int) {
		for _, v := range []int{k - 1, k, k + 1, n - k - 1, n - k, n - k + 1} {
			if v >= 0 && v <= n && !seen[v] {
				seen[v] = true
				ns = append(ns, v)
			}
		}
	}
	for p := 1; p <= n; p *= 2 {
		add(p)
	}
	for p := 10; p <= n; p *= 10 {
		add(p)
		add(5 * p)
	}
	add(n)
	sort.Ints(ns)
	return ns
}

func cp(l []txlogs.Tx) []txlogs.Tx { return append([]txlogs.Tx(nil), l...) }

func runLargeReplay(x *core.X, c LargeCase) {
	log := mkLarge(c.N, c.Wide, 1000, 1, "e", nil)
	want, _, ok := ref.Replay(log)
	if !ok {
		core.Harness("large log can not be replayed")
	}
	db := &txlogs.DB{Log: cp(log)}
	x.Check(db.UpdateSnapshot() == nil && db.Version == uint(len(log)) && ref.Same(db.Snapshot, want), "the snapshot of %d transactions is not the replayed log", c.N)
	// in steps: the snapshot follows a log that grows
	db = new(txlogs.DB)
	for _, n := range around(c.N) {
		db.Log = cp(log[:n])
		x.Check(db.UpdateSnapshot() == nil && db.Version == uint(n), "update at %d: version %d", n, db.Version)
		x.Step()
	}
	x.Check(ref.Same(db.Snapshot, want), "the snapshot brought up to date in steps is not the replayed log")
	db.Set("ghost", "k", "v")
	x.Check(db.UpdateSnapshot() != nil, "a change of an unknown entry is accepted after %d transactions", c.N)
	x.Check(len(db.Log) == c.N+1 && ref.EqualLogs(db.Log[:c.N], log), "history changed")
	x.State(fmt.Sprint(c))
	x.Outcome(fmt.Sprint(len(want)))
}

func runLargeUndo(x *core.X, c LargeCase) {
	log := mkLarge(c.N, c.Wide, 1000, 1, "e", nil)
	for _, n := range around(c.N) {
		db := &txlogs.DB{Log: cp(log)}
		if n%2 == 0 {
			x.Check(db.UpdateSnapshot() == nil, "update")
		}
		x.Check(db.RollbackN(uint(n)) == nil, "undoing the last %d of %d fails", n, c.N)
		x.Check(ref.EqualLogs(db.Log, log[:c.N-n]), "undoing the last %d of %d leaves %d", n, c.N, len(db.Log))
		want, _, _ := ref.Replay(log[:c.N-n])
		x.Check(db.UpdateSnapshot() == nil && ref.Same(db.Snapshot, want), "the snapshot after undoing %d of %d is not the replayed log", n, c.N)
		// the rest as one transaction
		err := db.Do(func() error {
			db.Log = append(db.Log, log[c.N-n:]...)
			if n%3 == 0 {
				x.Check(db.UpdateSnapshot() == nil, "update inside")
			}
			return fmt.Errorf("no")
		})
		x.Check(err != nil && ref.EqualLogs(db.Log, log[:c.N-n]), "a failed transaction of %d changes after %d left something", n, c.N-n)
		x.Check(db.UpdateSnapshot() == nil && ref.Same(db.Snapshot, want), "the snapshot after a failed transaction of %d changes is not the replayed log", n)
		x.Steps(2)
	}
	for _, n := range []int{c.N + 1, c.N + 2, c.N + 256, c.N + 65536, 1 << 32, 1<<62 + 1} {
		db := &txlogs.DB{Log: cp(log)}
		x.Check(db.RollbackN(uint(n)) != nil && ref.EqualLogs(db.Log, log), "undoing %d of %d is accepted", n, c.N)
	}
	x.State(fmt.Sprint(c))
	x.Outcome("undone")
}

func runLargeHistory(x *core.X, c LargeCase) {
	log := append([]txlogs.Tx{{Time: 7, Kind: txlogs.TxAdd, UUID: "old"}, {Time: 8, Kind: txlogs.TxSetKey, UUID: "old", Key: "k", Value: "v"}}, mkLarge(c.N-2, c.Wide, 1000, 1, "e", nil)...)
	db := &txlogs.DB{Log: cp(log)}
	own := map[string][]txlogs.Tx{}
	for _, t := range log {
		own[t.UUID] = append(own[t.UUID], t)
	}
	for i, n := range around(c.N) {
		if c.N > 10000 && i%3 != 0 {
			continue
		}
		got, err := db.SnapshotAt(n)
		want, _, _ := ref.Replay(log[:c.N-n])
		x.Check(err == nil && ref.Same(got, want), "SnapshotAt(%d) of %d is not the replayed log: %v", n, c.N, err)
		x.Step()
	}
	for _, u := range []string{"old", "e0", fmt.Sprint("e", c.Wide), fmt.Sprint("e", c.N/2/c.Wide*c.Wide), fmt.Sprint("e", (c.N-1)/c.Wide*c.Wide)} {
		o := own[u]
		if len(o) == 0 {
			continue
		}
		x.Check(db.NVersions(u) == len(o), "NVersions = %d, want %d", db.NVersions(u), len(o))
		x.Check(db.LastUpdated(u) == o[len(o)-1].Time, "LastUpdated = %d, want %d", db.LastUpdated(u), o[len(o)-1].Time)
		for _, n := range around(len(o)) {
			e, err := db.EntrySnapshotAt(u, n)
			st, _, _ := ref.Replay(o[:len(o)-n])
			want, is := st[u]
			x.Check(is == (err == nil), "EntrySnapshotAt(%d) of %d: %v", n, len(o), err)
			if is {
				x.Check(ref.Same(map[string]txlogs.Entry{u: e}, ref.State{u: want}), "EntrySnapshotAt(%d) of %d = %v, want %v", n, len(o), e, want)
			}
			x.Step()
		}
	}
	x.State(fmt.Sprint(c))
	x.Outcome("history")
}

func runLargeSave(x *core.X, c LargeCase) {
	log := mkLarge(c.N, c.Wide, 1000, 1, "e", nil)
	for _, snap := range []bool{false, true} {
		db := &txlogs.DB{Log: cp(log)}
		if snap {
			x.Check(db.UpdateSnapshot() == nil, "update")
		}
		got := roundTrip(x, db)
		want, _, _ := ref.Replay(log)
		x.Check(got.UpdateSnapshot() == nil && ref.Same(got.Snapshot, want) && got.Version == uint(c.N), "the snapshot of a reloaded database with %d transactions is not the replayed log", c.N)
		x.Step()
	}
	x.State(fmt.Sprint(c))
	x.Outcome("saved")
}

// LargeMerge are two replicas with a long common history, A and B own changes (at times that
// interleave) and Conf entries that one deletes and the other changes afterwards.
type LargeMerge struct {
	Base int `json:"base"`
	A    int `json:"a"`
	B    int `json:"b"`
	Conf int `json:"conf"`
}

func (c LargeMerge) logs() (base, a, b []txlogs.Tx) {
	base = mkLarge(c.Base, 7, 1000, 1, "e", nil)
	t := int64(1000 + c.Base)
	var shared, doomed []string
	for i := 0; i < c.Conf+3; i++ { // entries nobody deletes, and such that get deleted on one side
		u := fmt.Sprint("s", i)
		base = append(base, txlogs.Tx{Time: t, Kind: txlogs.TxAdd, UUID: u})
		t++
		if i < 3 {
			shared = append(shared, u)
		} else {
			doomed = append(doomed, u)
		}
	}
	t += 10
	a, b = mkLarge(c.A, 11, t, 2, "a", shared), mkLarge(c.B, 11, t+1, 2, "b", shared)
	t += int64(2*max(c.A, c.B)) + 10
	for i, u := range doomed {
		x, y := &a, &b
		if i%2 == 1 {
			x, y = y, x
		}
		*x = append(*x, txlogs.Tx{Time: t, Kind: txlogs.TxDelete, UUID: u})
		*y = append(*y, txlogs.Tx{Time: t + 1, Kind: txlogs.TxSetKey, UUID: u, Key: "k", Value: "v"})
		t += 2
	}
	return base, a, b
}

func runLargeMerge(x *core.X, c LargeMerge) {
	base, as, bs := c.logs()
	a, b := cat(base, as), cat(base, bs)
	rest := cat(as, bs)
	sort.SliceStable(rest, func(i, j int) bool { return rest[i].Time < rest[j].Time })
	all := cat(base, rest)
	want := refConflicts(all)
	if len(want) != c.Conf {
		core.Harness("%d conflicts instead of %d", len(want), c.Conf)
	}
	for turn := 0; turn < 2; turn++ {
		got, conf := doMerge(x, a, b, nil)
		x.Check(len(conf) == len(want), "%d conflicts instead of %d", len(conf), len(want))
		for i, w := range want {
			x.Check(conf[i].Kind == txlogs.ConflictKindDeleteSet && conf[i].Initial == w.initial && conf[i].Conflict == w.conflict, "conflict %d is %+v instead of %+v", i, conf[i], w)
		}
		if len(want) == 0 {
			x.Check(ref.EqualLogs(got, all), "the merge of %d+%d changes after %d is not both in time order", c.A, c.B, c.Base)
		}
		for pol := 0; pol < 4 && len(want) > 0; pol++ { // all deletions stay, all go, one and the other in turns
			restored := map[txlogs.Tx]bool{}
			_, conf := doMerge(x, a, b, nil)
			for i := range conf {
				if pol == 1 || pol > 1 && (i+pol)%2 == 0 {
					conf[i].DiscardInitial()
					restored[want[i].initial] = true
				} else {
					conf[i].DiscardConflict()
				}
			}
			got, left := doMerge(x, a, b, conf)
			x.Check(len(left) == 0, "%d of %d conflicts remain after all were resolved", len(left), len(want))
			var exp []txlogs.Tx
			dead := map[string]bool{}
			for _, t := range all {
				if t.Kind == txlogs.TxDelete && restored[t] || dead[t.UUID] {
					continue
				}
				dead[t.UUID] = t.Kind == txlogs.TxDelete
				exp = append(exp, t)
			}
			x.Check(ref.EqualLogs(got, exp), "%d conflicts resolved (way %d): log of %d transactions instead of %d", len(want), pol, len(got), len(exp))
		}
		a, b = b, a
	}
	x.Check(txlogs.SameLog(a, cp(a)), "a log is not the same as itself")
	d := cp(a)
	for _, i := range around(len(a) - 1) { // one difference, anywhere
		d[i].Value += "x"
		x.Check(!txlogs.SameLog(a, d) && !txlogs.SameLog(d, a), "logs of %d transactions are the same in spite of a difference at %d", len(a), i)
		d[i] = a[i]
		x.Check(!txlogs.SameLog(a, a[:i]) && !txlogs.SameLog(a[:i], a), "a log of %d transactions is the same as its first %d", len(a), i)
		x.Step()
	}
	x.State(fmt.Sprint(c))
	x.Outcome(fmt.Sprint(len(want) > 0))
}

var (
	largeReplay  = core.NewFamily("C01", "large", runLargeReplay)
	largeUndo    = core.NewFamily("C02", "large", runLargeUndo)
	largeHistory = core.NewFamily("C03", "large", runLargeHistory)
	largeSave    = core.NewFamily("C04", "large", runLargeSave)
	largeMerges  = map[string]*core.Family[LargeMerge]{"C05": core.NewFamily("C05", "large", runLargeMerge), "C06": core.NewFamily("C06", "large", runLargeMerge), "C07": core.NewFamily("C07", "large", runLargeMerge)}
)

func exploreLarge(ctx *core.Ctx, fam *core.Family[LargeCase], sizes ...int) {
	fam.Explore(ctx, fmt.Sprintf("histories of %v transactions, an entry added every 7, 50, 1000", sizes), func(y func(LargeCase) bool) {
		for _, n := range sizes {
			for _, w := range []int{7, 50, 1000} {
				if !y(LargeCase{n, w}) {
					return
				}
			}
		}
	})
}

func exploreLargeMerge(ctx *core.Ctx, id string) {
	largeMerges[id].Explore(ctx, "large replicas: up to 70000 common, 5000 own changes each, 300 conflicts (thorough: 1000)", func(y func(LargeMerge) bool) {
		for _, base := range []int{1, 300, 1100, 5000, 70000} {
			for _, n := range [][2]int{{1, 0}, {1, 1}, {70, 3}, {300, 1}, {1100, 300}, {5000, 5000}} {
				for _, c := range []int{0, 5, 70, 300, 1000} {
					if !ctx.Thorough() && (base > 5000 && (c > 0 || n[0] != 70) || c == 1000 || c > 5 && n[0] > 300 || base == 300 || c == 300 && n[0] != 1) || c > 300 && n[0] > 70 {
						continue
					}
					if !y(LargeMerge{base, n[0], n[1], c}) {
						return
					}
				}
			}
		}
	})
}
