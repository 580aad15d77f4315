package checks

import (
	"fmt"
	"sort"
	"strings"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/txlogs"
)

// MergeCase: a common prefix (mkLog letters) and the operations of each replica after the fork,
// with their time digits ('0' lies before the whole prefix).
type MergeCase struct {
	Prefix string   `json:"prefix"`
	Ops    []string `json:"ops"`
	Times  []string `json:"times"`
	Policy int      `json:"policy,omitempty"`
}

// side letters: s set A.k, u delkey A.k, d delete A, t set B.k, b delete B, n add own entry, m set own
func mkSide(side int, ops, times string) []txlogs.Tx {
	var l []txlogs.Tx
	own := ""
	for i := 0; i < len(ops); i++ {
		t := txlogs.Tx{Time: 2000 + int64(times[i]-'0'), UUID: "A", Key: "k"}
		if times[i] == '0' {
			t.Time = 500
		}
		v := fmt.Sprintf("%c%d", 'p'+side, i)
		switch ops[i] {
		case 's':
			t.Kind, t.Value = txlogs.TxSetKey, v
		case 'u':
			t.Kind = txlogs.TxDeleteKey
		case 'd':
			t.Kind, t.Key = txlogs.TxDelete, ""
		case 't':
			t.Kind, t.UUID, t.Value = txlogs.TxSetKey, "B", v
		case 'b':
			t.Kind, t.UUID, t.Key = txlogs.TxDelete, "B", ""
		case 'n':
			own = fmt.Sprintf("N%c%d", 'p'+side, i)
			t.Kind, t.UUID, t.Key = txlogs.TxAdd, own, ""
		case 'm':
			if own == "" {
				own = "none"
			}
			t.Kind, t.UUID, t.Value = txlogs.TxSetKey, own, v
		}
		l = append(l, t)
	}
	return l
}

func (c MergeCase) logs() (prefix []txlogs.Tx, sides [][]txlogs.Tx, ok bool) {
	prefix = mkLog(c.Prefix)
	seen := map[txlogs.Tx]bool{}
	for i := range c.Ops {
		s := mkSide(i, c.Ops[i], c.Times[i])
		full := append(append([]txlogs.Tx{}, prefix...), s...)
		if _, _, ok := ref.Replay(full); !ok {
			return nil, nil, false
		}
		for _, t := range s {
			if seen[t] {
				return nil, nil, false // the very same change made independently: not distinguishable
			}
		}
		for _, t := range s {
			seen[t] = true
		}
		sides = append(sides, s)
	}
	return prefix, sides, true
}

func cat(a, b []txlogs.Tx) []txlogs.Tx { return append(append([]txlogs.Tx{}, a...), b...) }

// doMerge calls the real Merge, checking that the inputs stay untouched.
func doMerge(x *core.X, a, b []txlogs.Tx, res []txlogs.Conflict) ([]txlogs.Tx, []txlogs.Conflict) {
	// give the inputs spare capacity filled with a canary, so that appends into them show
	wrap := func(l []txlogs.Tx) []txlogs.Tx {
		buf := make([]txlogs.Tx, len(l)+4)
		copy(buf, l)
		for i := len(l); i < len(buf); i++ {
			buf[i].Key = "canary"
		}
		return buf[:len(l)]
	}
	wa, wb := wrap(a), wrap(b)
	c, conf := txlogs.Merge(wa, wb, res)
	x.Step()
	for i, w := range [][]txlogs.Tx{wa, wb} {
		l := [][]txlogs.Tx{a, b}[i]
		x.Check(ref.EqualLogs(w, l), "merge modified its input %d", i)
		full := w[:cap(w)]
		for j := len(l); j < len(full); j++ {
			x.Check(full[j].Key == "canary", "merge wrote behind its input %d", i)
		}
	}
	return append([]txlogs.Tx(nil), c...), conf
}

// settle merges, answering conflicts by policy: 0 keep deletions, 1 restore.
func settle(x *core.X, a, b []txlogs.Tx, policy int) []txlogs.Tx {
	var res []txlogs.Conflict
	for round := 0; ; round++ {
		x.Check(round < 6, "merge still reports conflicts after every one was resolved, round %d:\na=%s\nb=%s", round, ref.ShowLog(a), ref.ShowLog(b))
		c, conf := doMerge(x, a, b, res)
		if len(conf) == 0 {
			_, n, ok := ref.Replay(c)
			x.Check(ok, "merged log can not be replayed at %d: %s\na=%s\nb=%s", n, ref.ShowLog(c), ref.ShowLog(a), ref.ShowLog(b))
			return c
		}
		x.Check(len(c) == 0, "merge returned a log although conflicts are unresolved")
		for i := range conf {
			switch {
			case conf[i].Kind == txlogs.ConflictKindRoot:
				conf[i].Force()
			case policy == 0:
				conf[i].DiscardConflict()
			default:
				conf[i].DiscardInitial()
			}
		}
		res = append(res, conf...)
	}
}

func monotone(l []txlogs.Tx) bool {
	return sort.SliceIsSorted(l, func(i, j int) bool { return l[i].Time < l[j].Time })
}

func subsequence(sub, l []txlogs.Tx) bool {
	i := 0
	for _, t := range l {
		if i < len(sub) && sub[i] == t {
			i++
		}
	}
	return i == len(sub)
}

func count(l []txlogs.Tx) map[txlogs.Tx]int {
	m := map[txlogs.Tx]int{}
	for _, t := range l {
		m[t]++
	}
	return m
}

// refConflicts: expected conflicts of a time-ordered merge (one per deletion).
type refConflict struct{ initial, conflict txlogs.Tx }

func refConflicts(m []txlogs.Tx) []refConflict {
	del := map[string]txlogs.Tx{}
	done := map[string]bool{}
	var out []refConflict
	for _, t := range m {
		if d, ok := del[t.UUID]; ok {
			if !done[t.UUID] {
				done[t.UUID] = true
				out = append(out, refConflict{d, t})
			}
			continue
		}
		if t.Kind == txlogs.TxDelete {
			del[t.UUID] = t
		}
	}
	return out
}

func mergeLossless(x *core.X, c MergeCase) {
	prefix, s, ok := c.logs()
	if !ok {
		return
	}
	a, b := cat(prefix, s[0]), cat(prefix, s[1])
	got, conf := doMerge(x, a, b, nil)
	if len(conf) == 1 && conf[0].Kind == txlogs.ConflictKindRoot {
		x.Check(len(prefix) == 0, "merge claims no common history")
		conf[0].Force()
		got, conf = doMerge(x, a, b, conf)
	}
	if len(conf) != 0 {
		x.Outcome("conflict")
		return // C07 decides these
	}
	all := cat(cat(prefix, s[0]), s[1])
	ca, cc := count(all), count(got)
	for t, n := range ca {
		x.Check(cc[t] == n, "merge has %d times %+v, want %d\na=%s\nb=%s\nc=%s", cc[t], t, n, ref.ShowLog(a), ref.ShowLog(b), ref.ShowLog(got))
	}
	x.Check(len(got) == len(all), "merge invented transactions: %s", ref.ShowLog(got))
	x.Check(ref.EqualLogs(got[:len(prefix)], prefix), "the common history does not come first: %s", ref.ShowLog(got))
	x.Check(subsequence(a, got) && subsequence(b, got), "merge reordered a replica's own changes:\na=%s\nb=%s\nc=%s", ref.ShowLog(a), ref.ShowLog(b), ref.ShowLog(got))
	if monotone(s[0]) && monotone(s[1]) {
		x.Check(monotone(got[len(prefix):]), "merged changes are not in time order: %s", ref.ShowLog(got))
	}
	st, n, ok := ref.Replay(got)
	x.Check(ok, "merged log can not be replayed at %d: %s", n, ref.ShowLog(got))
	db := &txlogs.DB{Log: got}
	x.Check(db.UpdateSnapshot() == nil && ref.Same(db.Snapshot, st), "merged log does not load")
	again, _ := doMerge(x, a, b, conf)
	if len(prefix) > 0 || len(s[0]) == 0 || len(s[1]) == 0 {
		x.Check(ref.EqualLogs(again, got), "merge is not deterministic")
	}
	x.Outcome(st.Show())
	x.State(ref.ShowLog(got))
}

func mergeConflicts(x *core.X, c MergeCase) {
	prefix, s, ok := c.logs()
	if !ok {
		return
	}
	if !monotone(s[0]) || !monotone(s[1]) {
		return
	}
	for _, t := range s[0] {
		for _, u := range s[1] {
			if t.Time == u.Time {
				return // order between the sides is then only required to be deterministic (C06)
			}
		}
	}
	a, b := cat(prefix, s[0]), cat(prefix, s[1])
	rest := cat(s[0], s[1])
	sort.SliceStable(rest, func(i, j int) bool { return rest[i].Time < rest[j].Time })
	merged := cat(prefix, rest)
	want := refConflicts(merged)
	root := len(prefix) == 0 && len(s[0]) > 0 && len(s[1]) > 0
	got, conf := doMerge(x, a, b, nil)
	total := len(want)
	if root {
		total++
	}
	desc := func() string {
		return fmt.Sprintf("a=%s\nb=%s\nconflicts=%+v\nwant root=%v %+v", ref.ShowLog(a), ref.ShowLog(b), conf, root, want)
	}
	x.Check(len(conf) == total, "%d conflicts reported, want %d\n%s", len(conf), total, desc())
	off := 0
	if root {
		x.Check(conf[0].Kind == txlogs.ConflictKindRoot, "missing history conflict is not first\n%s", desc())
		off = 1
	}
	for i, w := range want {
		g := conf[off+i]
		x.Check(g.Kind == txlogs.ConflictKindDeleteSet && g.Initial == w.initial && g.Conflict == w.conflict, "conflict %d wrong\n%s", i, desc())
	}
	x.Outcome(fmt.Sprint(root, len(want)))
	x.State(ref.ShowLog(a) + "|" + ref.ShowLog(b))
	if total == 0 {
		x.Check(ref.EqualLogs(got, merged), "merged log %s, want %s", ref.ShowLog(got), ref.ShowLog(merged))
		return
	}
	x.Check(len(got) == 0, "a merged log was returned with unresolved conflicts")
	// every assignment of resolutions; also partially resolved ones must not go through
	for mask := 0; mask < 1<<len(want); mask++ {
		for unresolved := -1; unresolved < total; unresolved++ {
			_, cs := doMerge(x, a, b, nil)
			x.Check(len(cs) == total, "conflicts are not reported deterministically")
			for i := range cs {
				if i == unresolved {
					continue
				}
				switch {
				case root && i == 0:
					cs[i].Force()
				case mask>>(i-off)&1 == 0:
					cs[i].DiscardConflict()
				default:
					cs[i].DiscardInitial()
				}
			}
			got, conf := doMerge(x, a, b, cs)
			if unresolved >= 0 {
				x.Check(len(conf) == total && len(got) == 0, "merge went through with conflict %d unresolved: %d conflicts, log %s\n%s", unresolved, len(conf), ref.ShowLog(got), desc())
				continue
			}
			x.Check(len(conf) == 0, "conflicts remain after resolution: %+v\n%s", conf, desc())
			var exp []txlogs.Tx
			dead := map[string]txlogs.Tx{}
			for _, t := range merged {
				d, isDead := dead[t.UUID]
				if isDead {
					for i, w := range want {
						if w.initial == d && mask>>i&1 == 0 {
							goto drop // deletion kept: later change dropped
						}
					}
				}
				if t.Kind == txlogs.TxDelete {
					for i, w := range want {
						if w.initial == t && mask>>i&1 == 1 {
							goto drop // restored: deletion dropped
						}
					}
					dead[t.UUID] = t
				}
				exp = append(exp, t)
			drop:
			}
			x.Check(ref.EqualLogs(got, exp), "resolution %b gives %s\nwant %s\n%s", mask, ref.ShowLog(got), ref.ShowLog(exp), desc())
			_, n, ok := ref.Replay(got)
			x.Check(ok, "resolved log can not be replayed at %d: %s", n, ref.ShowLog(got))
			x.State(ref.ShowLog(got))
		}
	}
}

func confSet(cs []txlogs.Conflict) string {
	var out []string
	for _, c := range cs {
		if c.Kind == txlogs.ConflictKindRoot {
			out = append(out, "root")
			continue
		}
		out = append(out, fmt.Sprintf("%v|%v", c.Initial, c.Conflict))
	}
	sort.Strings(out)
	return strings.Join(out, ";")
}

func mergeConverge2(x *core.X, c MergeCase) {
	prefix, s, ok := c.logs()
	if !ok {
		return
	}
	a, b := cat(prefix, s[0]), cat(prefix, s[1])
	ab, cab := doMerge(x, a, b, nil)
	ba, cba := doMerge(x, b, a, nil)
	x.Check(confSet(cab) == confSet(cba), "merge(a,b) and merge(b,a) report different conflicts:\n%s\n%s", confSet(cab), confSet(cba))
	x.Check(ref.EqualLogs(ab, ba), "merge is not commutative:\na=%s\nb=%s\nab=%s\nba=%s", ref.ShowLog(a), ref.ShowLog(b), ref.ShowLog(ab), ref.ShowLog(ba))
	for p := 0; p < 2; p++ {
		m, m2 := settle(x, a, b, p), settle(x, b, a, p)
		x.Check(ref.EqualLogs(m, m2), "settled merge is not commutative (policy %d):\na=%s\nb=%s\nab=%s\nba=%s", p, ref.ShowLog(a), ref.ShowLog(b), ref.ShowLog(m), ref.ShowLog(m2))
		for i, o := range [][]txlogs.Tx{a, b, m} {
			for j := 0; j < 2; j++ {
				l, r := m, o
				if j == 1 {
					l, r = o, m
				}
				again := settle(x, l, r, p)
				x.Check(ref.EqualLogs(again, m), "merging again (policy %d, with %d) changes the result:\na=%s\nb=%s\nm=%s\nagain=%s", p, i, ref.ShowLog(a), ref.ShowLog(b), ref.ShowLog(m), ref.ShowLog(again))
			}
		}
		x.State(ref.ShowLog(m))
		st, _, _ := ref.Replay(m)
		x.Outcome(st.Show())
	}
	if ref.EqualLogs(a, b) != ref.EqualLogs(ab, a) && len(cab) == 0 && len(s[1]) > 0 && !subsequence(b, a) {
		x.Failf("different logs treated as equal: a=%s b=%s", ref.ShowLog(a), ref.ShowLog(b))
	}
}

func mergeConverge3(x *core.X, c MergeCase) {
	prefix, s, ok := c.logs()
	if !ok {
		return
	}
	r := [3][]txlogs.Tx{cat(prefix, s[0]), cat(prefix, s[1]), cat(prefix, s[2])}
	for p := 0; p < 2; p++ {
		var first []txlogs.Tx
		for k, o := range [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 2, 0}} {
			pair := settle(x, r[o[0]], r[o[1]], p)
			m := settle(x, pair, r[o[2]], p)
			if k == 0 {
				first = m
				x.State(ref.ShowLog(m))
				st, _, _ := ref.Replay(m)
				x.Outcome(st.Show())
			} else {
				x.Check(ref.EqualLogs(first, m), "merge order matters (policy %d, order %v):\nr0=%s\nr1=%s\nr2=%s\n%s\n%s", p, o, ref.ShowLog(r[0]), ref.ShowLog(r[1]), ref.ShowLog(r[2]), ref.ShowLog(first), ref.ShowLog(m))
			}
			// a replica that already merged with one of the others meets the third's merge
			pair2 := settle(x, r[o[1]], r[o[2]], p)
			mm := settle(x, pair, pair2, p)
			x.Check(ref.EqualLogs(first, mm), "overlapping merges differ (policy %d, order %v):\nr0=%s\nr1=%s\nr2=%s\n%s\n%s", p, o, ref.ShowLog(r[0]), ref.ShowLog(r[1]), ref.ShowLog(r[2]), ref.ShowLog(first), ref.ShowLog(mm))
		}
	}
}

// HubCase: replicas work and synchronise with a hub; letters: for replica i (digit) an op letter or
// 'y' to synchronise.
type HubCase struct {
	N      int    `json:"n"`
	Ops    string `json:"ops"`
	Policy int    `json:"policy"`
	Clock  int    `json:"clock"` // 0 increasing, 1 replica 1 lags, 2 coarse (pairs of equal times)
}

func hubRun(x *core.X, c HubCase) {
	base := mkLog("aA1AaB")
	rep := make([][]txlogs.Tx, c.N)
	for i := range rep {
		rep[i] = append([]txlogs.Tx{}, base...)
	}
	hub := append([]txlogs.Tx{}, base...)
	nTx := make([]int, c.N)
	all := map[txlogs.Tx]bool{}
	ops, tms := make([]string, c.N), make([]string, c.N)
	_ = ops
	_ = tms
	sync := func(i int) {
		m := settle(x, rep[i], hub, c.Policy)
		rep[i] = m
		hub = append([]txlogs.Tx{}, m...)
	}
	for p := 0; p+1 < len(c.Ops); p += 2 {
		i := int(c.Ops[p] - '0')
		op := c.Ops[p+1]
		if op == 'y' {
			sync(i)
			x.State(fmt.Sprint(ref.ShowLog(hub), i))
			continue
		}
		t := txlogs.Tx{Time: 2000 + int64(p)*10, UUID: "A", Key: "k", Value: fmt.Sprint(i, p)}
		switch c.Clock {
		case 1:
			if i == 1 {
				t.Time -= 55
			}
		case 2:
			t.Time = 2000 + int64(p/4)*10
		}
		switch op {
		case 's':
			t.Kind = txlogs.TxSetKey
		case 't':
			t.Kind, t.UUID = txlogs.TxSetKey, "B"
		case 'd':
			t.Kind, t.Key, t.Value = txlogs.TxDelete, "", ""
		case 'n':
			t.Kind, t.UUID, t.Key, t.Value = txlogs.TxAdd, fmt.Sprint("N", i, p), "", ""
		}
		if all[t] {
			return
		}
		if _, _, ok := ref.Replay(cat(rep[i], []txlogs.Tx{t})); !ok {
			return // operation not possible in this replica's state
		}
		all[t] = true
		nTx[i]++
		rep[i] = append(rep[i], t)
		x.Step()
	}
	for round := 0; round < 2; round++ {
		for i := range rep {
			sync(i)
		}
	}
	for i := range rep {
		x.Check(ref.EqualLogs(rep[i], hub), "replica %d differs from the hub after everybody synchronised twice:\n%s\n%s", i, ref.ShowLog(rep[i]), ref.ShowLog(hub))
	}
	// nothing lost except what a conflict answer dropped
	have := count(hub)
	for t := range all {
		if have[t] == 0 {
			droppable := t.UUID == "A" && (c.Policy == 0 || t.Kind == txlogs.TxDelete)
			x.Check(droppable, "change %+v is lost: %s", t, ref.ShowLog(hub))
		}
		x.Check(have[t] <= 1, "change %+v is duplicated: %s", t, ref.ShowLog(hub))
	}
	x.State(ref.ShowLog(hub))
	st, _, _ := ref.Replay(hub)
	x.Outcome(st.Show())
}

// time strings: all non-decreasing words over digits lo..hi of length n (or all words if any).
func timeWords(n int, digits string, any bool) []string {
	var out []string
	var rec func(p string, from int)
	rec = func(p string, from int) {
		if len(p) == n {
			out = append(out, p)
			return
		}
		for i := from; i < len(digits); i++ {
			nx := i
			if any {
				nx = 0
			}
			rec(p+string(digits[i]), nx)
		}
	}
	rec("", 0)
	return out
}

func opWords(max int, alpha string) []string {
	out := []string{""}
	last := []string{""}
	for i := 0; i < max; i++ {
		var next []string
		for _, w := range last {
			for _, c := range alpha {
				next = append(next, w+string(c))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func usable(prefix, ops string, side int) bool {
	_, _, ok := ref.Replay(cat(mkLog(prefix), mkSide(side, ops, strings.Repeat("1", len(ops)))))
	return ok
}

type sideSpec struct{ ops, times string }

func sideSpecs(prefix string, side, max int, alpha, digits string, any bool) []sideSpec {
	var out []sideSpec
	for _, w := range opWords(max, alpha) {
		if !usable(prefix, w, side) {
			continue
		}
		for _, t := range timeWords(len(w), digits, any) {
			out = append(out, sideSpec{w, t})
		}
	}
	return out
}

func twoSides(prefix string, na, nb int, alpha, digits string, any bool, y func(MergeCase) bool) bool {
	as, bs := sideSpecs(prefix, 0, na, alpha, digits, any), sideSpecs(prefix, 1, nb, alpha, digits, any)
	for _, a := range as {
		for _, b := range bs {
			if !y(MergeCase{Prefix: prefix, Ops: []string{a.ops, b.ops}, Times: []string{a.times, b.times}}) {
				return false
			}
		}
	}
	return true
}

func init() {
	loss := core.NewFamily("C05", "two-replicas", mergeLossless)
	core.Register(&core.Check{
		ID: "C05", Level: "model_checking",
		Rule: "every pair of replicas: common prefix x operations per side x every weak ordering of their timestamps (ties and clocks behind the prefix included); the real merge against multiset/subsequence/order oracles; outcome = merged visible state",
		Run: func(ctx *core.Ctx) {
			for _, p := range []string{"", "aA", "aA1A", "aA1AaB1B"} {
				alpha := "sdnm"
				if strings.Contains(p, "aB") {
					alpha = "sutnmd"
				}
				if p == "" {
					alpha = "nm"
				}
				loss.Explore(ctx, fmt.Sprintf("prefix %q, up to 2+2 operations over %q, times 0-3", p, alpha), func(y func(MergeCase) bool) {
					twoSides(p, 2, 2, alpha, "0123", false, y)
				})
				loss.Explore(ctx, fmt.Sprintf("prefix %q, up to 3+%d operations, times 1-4", p, ctx.Pick(1, 2)), func(y func(MergeCase) bool) {
					twoSides(p, 3, ctx.Pick(1, 2), alpha, "1234", false, y)
				})
				loss.Explore(ctx, fmt.Sprintf("prefix %q, up to 2+2 operations, clocks running backwards", p), func(y func(MergeCase) bool) {
					twoSides(p, 2, 2, alpha, "123", true, y)
				})
			}
			loss.Explore(ctx, "up to 4+4 set operations, all time interleavings", func(y func(MergeCase) bool) {
				twoSides("aA1A", 4, 4, "s", "12345678", false, y)
			})
			exploreLargeMerge(ctx, "C05")
			loss.Explore(ctx, "long common prefix, one change each side", func(y func(MergeCase) bool) {
				for n := 0; n < 150; n++ {
					if !twoSides("aA"+strings.Repeat("1A", n), 1, 1, "sn", "012", false, y) {
						return
					}
				}
			})
		},
	})
	conf := core.NewFamily("C07", "two-replicas", mergeConflicts)
	core.Register(&core.Check{
		ID: "C07", Level: "model_checking",
		Rule: "every pair of forked histories with deletions (distinct times across the sides) and every assignment of resolutions, complete and with each one missing, against a reference list of conflicts and a reference resolved log; outcome = conflict pattern",
		Run: func(ctx *core.Ctx) {
			exploreLargeMerge(ctx, "C07")
			for _, p := range []string{"", "aA", "aA1AaB1B", "aA1AaBxA", "aAaB1A1B1A"} {
				alpha := "sdun"
				if strings.Contains(p, "aB") {
					alpha = "sdtb"
				}
				if p == "" {
					alpha = "nm"
				}
				conf.Explore(ctx, fmt.Sprintf("prefix %q, up to 2+2 operations over %q, times 0-4", p, alpha), func(y func(MergeCase) bool) {
					twoSides(p, 2, 2, alpha, "01234", false, y)
				})
				conf.Explore(ctx, fmt.Sprintf("prefix %q, up to 3+2 operations, times 1-5", p), func(y func(MergeCase) bool) {
					twoSides(p, 3, 2, alpha, ctxDigits(ctx, "1234", "12345"), false, y)
				})
				conf.Explore(ctx, fmt.Sprintf("prefix %q, up to 1+%d operations, times 1-4", p, ctx.Pick(4, 5)), func(y func(MergeCase) bool) {
					twoSides(p, 1, ctx.Pick(4, 5), alpha, ctxDigits(ctx, "123", "1234"), false, y)
				})
			}
		},
	})
	c2 := core.NewFamily("C06", "two-replicas", mergeConverge2)
	c3 := core.NewFamily("C06", "three-replicas", mergeConverge3)
	hub := core.NewFamily("C06", "hub", hubRun)
	core.Register(&core.Check{
		ID: "C06", Level: "model_checking",
		Rule:        "two replicas: both argument orders, both conflict policies, re-merging; three replicas: all pairing orders and overlapping merges; hub: every schedule of edits and synchronisations followed by two synchronisation rounds, with in-order, lagging and coarse clocks; outcome = converged visible state",
		Assumptions: []string{"two replicas never produce the very same transaction (time, kind, entry, key, value) independently"},
		Run: func(ctx *core.Ctx) {
			for _, p := range []string{"", "aA", "aA1AaB1B"} {
				alpha := "sdn"
				if strings.Contains(p, "aB") {
					alpha = "sudtn"
				}
				if p == "" {
					alpha = "nm"
				}
				c2.Explore(ctx, fmt.Sprintf("prefix %q, up to 2+2 operations over %q, times 0-3", p, alpha), func(y func(MergeCase) bool) {
					twoSides(p, 2, 2, alpha, "0123", false, y)
				})
				c2.Explore(ctx, fmt.Sprintf("prefix %q, up to 3+2 operations, times 1-3", p), func(y func(MergeCase) bool) {
					twoSides(p, 3, 2, alpha, "123", false, y)
				})
				digits := ctxDigits(ctx, "12", "123")
				c3.Explore(ctx, fmt.Sprintf("prefix %q, three replicas, up to 2 operations each over %q, times %s", p, alpha, digits), func(y func(MergeCase) bool) {
					al := alpha
					if len(al) > 4 {
						al = "sdtn"
					}
					sp := [3][]sideSpec{sideSpecs(p, 0, 2, al, digits, false), sideSpecs(p, 1, 2, al, digits, false), sideSpecs(p, 2, 2, al, digits, false)}
					for i, a := range sp[0] {
						for j, b := range sp[1] {
							if j < i {
								continue
							}
							for k, c := range sp[2] {
								if k < j {
									continue
								}
								if !y(MergeCase{Prefix: p, Ops: []string{a.ops, b.ops, c.ops}, Times: []string{a.times, b.times, c.times}}) {
									return
								}
							}
						}
					}
				})
				c3.Explore(ctx, fmt.Sprintf("prefix %q, three replicas, 1 operation each, times 0-3", p), func(y func(MergeCase) bool) {
					sp := [3][]sideSpec{sideSpecs(p, 0, 1, alpha, "0123", false), sideSpecs(p, 1, 1, alpha, "0123", false), sideSpecs(p, 2, 1, alpha, "0123", false)}
					for _, a := range sp[0] {
						for _, b := range sp[1] {
							for _, c := range sp[2] {
								if !y(MergeCase{Prefix: p, Ops: []string{a.ops, b.ops, c.ops}, Times: []string{a.times, b.times, c.times}}) {
									return
								}
							}
						}
					}
				})
			}
			exploreLargeMerge(ctx, "C06")
			for _, n := range []int{2, 3} {
				depth := ctx.Pick(5, 6)
				letters := "stdny"
				if n == 3 {
					depth, letters = ctx.Pick(4, 5), "stdy"
				}
				for clock := 0; clock < 3; clock++ {
					for pol := 0; pol < 2; pol++ {
						hub.Explore(ctx, fmt.Sprintf("%d replicas and a hub, all schedules of %d steps over %q, clock model %d, policy %d", n, depth, letters, clock, pol), func(y func(HubCase) bool) {
							var rec func(w string, d int) bool
							rec = func(w string, d int) bool {
								if d == 0 {
									return y(HubCase{n, w, pol, clock})
								}
								for i := 0; i < n; i++ {
									for _, l := range letters {
										if !rec(w+string(rune('0'+i))+string(l), d-1) {
											return false
										}
									}
								}
								return true
							}
							rec("", depth)
						})
					}
				}
			}
		},
	})
}

func ctxDigits(ctx *core.Ctx, q, t string) string {
	if ctx.Thorough() {
		return t
	}
	return q
}
