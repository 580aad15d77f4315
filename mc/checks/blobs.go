package checks

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/txlogs"
)

// BOp is one operation on the password database.
type BOp struct {
	Op string `json:"op"`
	E  int    `json:"e,omitempty"` // entry (order of creation)
	A  string `json:"a,omitempty"`
	B  string `json:"b,omitempty"`
}

// BCase is a start state and a history of operations.
type BCase struct {
	Start int   `json:"start,omitempty"`
	Ops   []BOp `json:"ops"`
	// Stale bit i: the harness does not bring the snapshot up to date after operation i
	Stale int `json:"stale,omitempty"`
	// Look: the kind of lookup made first at the end
	Look int `json:"look,omitempty"`
}

type blobRun struct {
	x   *core.X
	b   blobformat.Blobs
	m   ref.State
	ids []string
	n   int
	c   BCase
	// quiet: skip comparisons (building a start state)
	quiet bool
}

const ghostID = "00000000-0000-4000-8000-000000000000"

func newBlobRun(x *core.X) *blobRun {
	return &blobRun{x: x, b: blobformat.Blobs{DB: new(txlogs.DB)}, m: ref.State{}}
}

func (r *blobRun) id(i int) string {
	if i >= 0 && i < len(r.ids) {
		return r.ids[i]
	}
	return ghostID
}

func (r *blobRun) live(i int) bool { _, ok := r.m[r.id(i)]; return ok }

func (r *blobRun) names() map[string]string { // name -> id
	o := map[string]string{}
	for u, e := range r.m {
		o[e["name"]] = u
	}
	return o
}

func isProtected(key string) bool {
	for _, p := range []string{"name", "updated", "iv", "salt", "mkey", "totp"} {
		if strings.EqualFold(p, key) {
			return true
		}
	}
	return false
}

// settle compares the database with the model.  touched is the entry whose update time must have
// been advanced to a moment between t0 and now ("" for none).
func (r *blobRun) settle(op BOp, touched string, t0 int64) {
	x := r.x
	if r.quiet {
		return
	}
	t1 := time.Now().UnixNano()
	st, n, ok := ref.Replay(r.b.Log)
	x.Check(ok, "after %v the log can not be replayed (at %d)", op, n)
	if touched != "" {
		e := st[touched]
		x.Check(e != nil, "after %v the entry is gone", op)
		u, err := strconv.ParseInt(e["updated"], 10, 64)
		x.Check(err == nil && u >= t0 && u <= t1, "%v: update time is %q, not the time of the edit [%d,%d]", op, e["updated"], t0, t1)
		r.m[touched]["updated"] = e["updated"]
	}
	var snap = map[string]txlogs.Entry{}
	for u, e := range st {
		snap[u] = e
	}
	x.Check(ref.Same(snap, r.m), "after %v the state is\n%s\nwant\n%s", op, st.Show(), r.m.Show())
	if r.c.Stale>>(r.n-1)&1 == 0 {
		x.Check(r.b.UpdateSnapshot() == nil, "snapshot fails after %v", op)
		x.Check(ref.Same(r.b.Snapshot, r.m), "after %v the snapshot is\n%s\nwant\n%s", op, ref.Of(r.b.Snapshot).Show(), r.m.Show())
	}
	seen := map[string]string{}
	for u, e := range r.m {
		if o, dup := seen[e["name"]]; dup {
			x.Failf("after %v entries %s and %s share the name %q", op, o, u, e["name"])
		}
		seen[e["name"]] = u
	}
	r.x.Step()
}

func (r *blobRun) created(op BOp, id string, err error, name string, t0 int64) {
	x := r.x
	x.Check(err == nil, "%v: free name refused: %v", op, err)
	x.Check(id != "", "%v: no id", op)
	_, dup := r.m[id]
	x.Check(!dup, "%v: id in use", op)
	r.ids = append(r.ids, id)
	r.m[id] = map[string]string{"name": name}
	r.settle(op, id, t0)
}

func (r *blobRun) apply(op BOp) {
	x := r.x
	r.n++
	t0 := time.Now().UnixNano()
	id := r.id(op.E)
	nlog := append([]txlogs.Tx(nil), r.b.Log...)
	refused := func(err error, want error) {
		x.Check(err != nil, "%v was not refused", op)
		if want != nil {
			x.Check(err == want, "%v: error %v, want %v", op, err, want)
		}
		x.Check(ref.EqualLogs(nlog, r.b.Log), "%v was refused but changed the log", op)
		r.settle(op, "", t0)
	}
	switch op.Op {
	case "new", "newuser":
		name := op.A
		var got string
		var err error
		if op.Op == "newuser" {
			name = "user/" + op.A
			got, err = r.b.NewUser(op.A)
		} else {
			got, err = r.b.New(op.A)
		}
		if _, taken := r.names()[name]; taken {
			x.Check(got == "", "%v: refused but gave an id", op)
			refused(err, blobformat.ErrNameNotUnique)
			x.Outcome("refused")
		} else {
			r.created(op, got, err, name, t0)
			x.Outcome("created")
		}
	case "newsync":
		got, err := r.b.NewSync(op.A)
		x.Check(err == nil && got != "", "%v: %v", op, err)
		st, _, _ := ref.Replay(r.b.Log)
		name := st[got]["name"]
		x.Check(strings.HasPrefix(name, "sync/"+op.A), "%v: name is %q", op, name)
		if _, taken := r.names()["sync/"+op.A]; !taken {
			x.Check(name == "sync/"+op.A, "%v: name is %q although sync/%s is free", op, name, op.A)
		}
		r.created(op, got, err, name, t0)
		x.Outcome("sync")
	case "rename":
		err := r.b.Rename(id, op.A)
		_, taken := r.names()[op.A]
		switch {
		case taken:
			if r.live(op.E) {
				refused(err, blobformat.ErrNameNotUnique)
			} else {
				refused(err, nil)
			}
			x.Outcome("rename taken")
		case !r.live(op.E):
			refused(err, nil)
			x.Outcome("rename absent")
		default:
			x.Check(err == nil, "%v: free name refused: %v", op, err)
			r.m[id]["name"] = op.A
			r.settle(op, id, t0)
			x.Outcome("renamed")
		}
	case "delete":
		if !r.live(op.E) {
			return
		}
		r.b.Delete(id)
		delete(r.m, id)
		r.settle(op, "", t0)
		x.Outcome("deleted")
	case "reload":
		data, err := r.b.Save()
		x.Check(err == nil, "save: %v", err)
		db, err := txlogs.New(data)
		x.Check(err == nil, "load: %v", err)
		if op.E == 1 {
			db.ResetSnapshot()
		}
		r.b.DB = db
		r.settle(op, "", t0)
	case "set":
		if !r.live(op.E) {
			return
		}
		err := r.b.Set(id, op.A, op.B)
		if isProtected(op.A) {
			refused(err, nil)
			x.Check(blobformat.IsKeyNotAllowed(err), "%v: refusal %v is not recognised as such", op, err)
			x.Outcome("set refused")
		} else {
			x.Check(err == nil, "%v: %v", op, err)
			r.m[id][op.A] = op.B
			r.settle(op, id, t0)
			x.Outcome("set")
		}
	case "delkey":
		if !r.live(op.E) {
			return
		}
		err := r.b.DeleteKey(id, op.A)
		k := strings.ToLower(op.A)
		switch {
		case k == "totp" && op.A != "totp": // no such field: either answer, but nothing may change
			if err != nil {
				refused(err, nil)
			} else {
				r.settle(op, id, t0)
			}
		case k != "totp" && isProtected(op.A):
			refused(err, nil)
			x.Check(blobformat.IsKeyNotAllowed(err), "%v: refusal %v is not recognised as such", op, err)
			x.Outcome("delkey refused")
		default:
			x.Check(err == nil, "%v: %v", op, err)
			delete(r.m[id], op.A)
			r.settle(op, id, t0)
			x.Outcome("delkey")
		}
	case "totp":
		if !r.live(op.E) {
			return
		}
		err := r.b.SetTwofactor(id, op.A)
		if op.B == "bad" {
			refused(err, nil)
			x.Outcome("totp refused")
			break
		}
		x.Check(err == nil, "%v: %v", op, err)
		st, _, _ := ref.Replay(r.b.Log)
		v := st[id]["totp"]
		if strings.HasPrefix(op.A, "otpauth://") {
			x.Check(v == op.A, "%v: stored %q", op, v)
		} else {
			x.Check(strings.HasPrefix(v, "otpauth://totp/") && strings.Contains(v, "secret="+op.A), "%v: stored %q", op, v)
		}
		r.m[id]["totp"] = v
		r.settle(op, id, t0)
		x.Outcome("totp")
	case "addlabel":
		if !r.live(op.E) {
			return
		}
		err := r.b.AddLabel(id, op.A)
		x.Check(err == nil, "%v: %v", op, err)
		l := r.m[id]["labels"]
		if l != "" {
			l += ","
		}
		r.m[id]["labels"] = l + op.A
		r.settle(op, id, t0)
		x.Outcome("addlabel")
	case "rmlabel":
		if !r.live(op.E) {
			return
		}
		i, _ := strconv.Atoi(op.A)
		err := r.b.RemoveLabel(id, i)
		var l []string
		if v := r.m[id]["labels"]; v != "" {
			l = strings.Split(v, ",")
		}
		if i < 0 || i >= len(l) {
			refused(err, nil)
			x.Outcome("rmlabel refused")
			break
		}
		x.Check(err == nil, "%v: %v", op, err)
		l = append(append([]string{}, l[:i]...), l[i+1:]...)
		if len(l) == 0 {
			// "no label": the field may be gone or empty
			st, _, _ := ref.Replay(r.b.Log)
			if v, has := st[id]["labels"]; has && v == "" {
				r.m[id]["labels"] = ""
			} else {
				delete(r.m[id], "labels")
			}
		} else {
			r.m[id]["labels"] = strings.Join(l, ",")
		}
		r.settle(op, id, t0)
		x.Outcome("rmlabel")
	case "unstamp": // an entry of another program, without update time
		if !r.live(op.E) {
			return
		}
		r.b.DB.DeleteKey(id, "updated")
		delete(r.m[id], "updated")
		r.settle(op, "", t0)
	case "look":
		r.lookups()
	}
}

// first makes one lookup, which must see everything in the log by itself.
func (r *blobRun) first() {
	x := r.x
	byName := r.names()
	var name, user string
	for n := range byName {
		name = max(name, n)
		if u, ok := strings.CutPrefix(n, "user/"); ok {
			user = max(user, u)
		}
	}
	switch r.c.Look {
	case 0:
		for i := range r.ids {
			b, err := r.b.Find(r.id(i))
			x.Check(err == nil && (b != nil) == r.live(i), "Find of entry %d: %v, %v (exists: %v)", i, b, err, r.live(i))
			break
		}
	case 1:
		for i := range r.ids {
			if r.live(i) {
				var b blobformat.Blob
				var err error
				p := panics(func() { b, err = r.b.MustFind(r.id(i)) })
				x.Check(p == nil && err == nil && b["name"] == r.m[r.id(i)]["name"], "MustFind of entry %d: %v, %v, %v", i, b, err, p)
				break
			}
		}
	case 2:
		u, _, err := r.b.FindByName(name)
		x.Check(err == nil && u == byName[name], "FindByName(%q) gives %q, %v", name, u, err)
	case 3:
		u, _, err := r.b.FindUser(user)
		x.Check(err == nil && u == byName["user/"+user], "FindUser(%q) gives %q, %v", user, u, err)
	case 4:
		if id, ok := byName["user/"+user]; ok {
			var u string
			var err error
			p := panics(func() { u, _, err = r.b.MustFindUser(user) })
			x.Check(p == nil && err == nil && u == id, "MustFindUser(%q) gives %q, %v, %v", user, u, err, p)
		}
	case 5:
		us, err := r.b.Users()
		n := 0
		for m := range byName {
			if strings.HasPrefix(m, "user/") {
				n++
			}
		}
		x.Check(err == nil && len(us) == n, "Users gives %v, %v", us, err)
	}
}

const lookKinds = 6

// lookups compares every kind of lookup with the model.
func (r *blobRun) lookups() {
	x := r.x
	r.first()
	same := func(what, id string, b blobformat.Blob) {
		x.Check(b != nil, "%s: not found", what)
		want := ref.State{id: r.m[id]}
		x.Check(ref.Same(map[string]txlogs.Entry{id: txlogs.Entry(b)}, want), "%s: got %v want %v", what, b, r.m[id])
	}
	for i := 0; i <= len(r.ids); i++ {
		id := r.id(i)
		b, err := r.b.Find(id)
		x.Check(err == nil, "Find: %v", err)
		if !r.live(i) {
			x.Check(b == nil, "Find(%s) found an absent entry", id)
			x.Check(panics(func() { r.b.MustFind(id) }) != nil, "MustFind of an absent entry did not panic")
			continue
		}
		same("Find", id, b)
		b, err = r.b.MustFind(id)
		x.Check(err == nil, "MustFind: %v", err)
		same("MustFind", id, b)
		x.Check(b.Name() == r.m[id]["name"], "Name is %q", b.Name())
		upd, err := b.Updated()
		stamp, stamped := r.m[id]["updated"]
		x.Check(err == nil && (strconv.FormatInt(upd.UnixNano(), 10) == stamp || !stamped && upd.IsZero()), "Updated gives %v, %v for %q", upd, err, r.m[id]["updated"])
		keys := b.Keys()
		sort.Strings(keys)
		var want []string
		for k := range r.m[id] {
			want = append(want, k)
			if !isProtected(k) {
				x.Check(b.Get(k) == r.m[id][k], "Get(%q) is %q", k, b.Get(k))
			}
		}
		sort.Strings(want)
		x.Check(strings.Join(keys, "\x00") == strings.Join(want, "\x00"), "Keys are %q, want %q", keys, want)
		x.Check(strings.Join(b.Labels(), ",") == r.m[id]["labels"], "Labels are %q", b.Labels())
		x.Check(b.Get("no such key") == "", "Get of an absent key")
	}
	byName := r.names()
	for _, n := range []string{"a", "b", "c", "A", "", "user/a", "user/b", "User/a", "x/user/a", "sync/file", "a ", "user/ a"} {
		u, b, err := r.b.FindByName(n)
		x.Check(err == nil, "FindByName: %v", err)
		if id, ok := byName[n]; ok {
			x.Check(u == id, "FindByName(%q) gives %q want %q", n, u, id)
			same("FindByName", id, b)
		} else {
			x.Check(u == "" && b == nil, "FindByName(%q) found %q", n, u)
		}
		if strings.HasPrefix(n, "user/") || n == "a" {
			un := strings.TrimPrefix(n, "user/")
			id, ok := byName["user/"+un]
			u, b, err := r.b.FindUser(un)
			x.Check(err == nil, "FindUser: %v", err)
			if ok {
				x.Check(u == id, "FindUser(%q) gives %q want %q", un, u, id)
				same("FindUser", id, b)
				u, b, err = r.b.MustFindUser(un)
				x.Check(err == nil && u == id, "MustFindUser(%q) gives %q, %v", un, u, err)
				same("MustFindUser", id, b)
			} else {
				x.Check(u == "" && b == nil, "FindUser(%q) found %q", un, u)
				x.Check(panics(func() { r.b.MustFindUser(un) }) != nil, "MustFindUser of an absent user did not panic")
			}
		}
	}
	us, err := r.b.Users()
	x.Check(err == nil, "Users: %v", err)
	for n, id := range byName {
		isUser := strings.HasPrefix(n, "user/")
		x.Check(blobformat.IsUserEntry(n) == isUser, "IsUserEntry(%q)", n)
		want := ""
		if isUser {
			want = n[5:]
		}
		x.Check(blobformat.SplitUsername(n) == want, "SplitUsername(%q) is %q", n, blobformat.SplitUsername(n))
		got, has := us[id]
		x.Check(has == isUser && (!has || got == n), "Users has %q=%q", id, got)
	}
	for id := range us {
		x.Check(r.m[id] != nil, "Users lists the absent entry %s", id)
	}
}

func runBlobs(x *core.X, c BCase) {
	r := newBlobRun(x)
	r.quiet = true
	switch c.Start {
	case 1: // an ordinary entry, a user entry with key material, a deleted entry
		for _, op := range []BOp{{Op: "new", A: "a"}, {Op: "set", E: 0, A: "user", B: "u"}, {Op: "set", E: 0, A: "pass", B: "p"}, {Op: "set", E: 0, A: "labels", B: "x,y"},
			{Op: "totp", E: 0, A: "JBSWY3DPEHPK3PXP"}, {Op: "newuser", A: "a"}, {Op: "new", A: "c"}, {Op: "delete", E: 2}} {
			r.apply(op)
		}
		for _, k := range []string{"salt", "iv", "mkey"} {
			r.b.DB.Set(r.ids[1], k, k+"-value")
			r.m[r.ids[1]][k] = k + "-value"
		}
		r.x.Check(r.b.UpdateSnapshot() == nil, "snapshot")
	case 2: // one entry for labels, one beside it
		for _, op := range []BOp{{Op: "new", A: "a"}, {Op: "new", A: "b"}, {Op: "addlabel", E: 1, A: "x"}} {
			r.apply(op)
		}
	}
	r.quiet = false
	r.c, r.n = c, 0
	if st, _, ok := ref.Replay(r.b.Log); c.Start > 0 {
		x.Check(ok, "start state")
		r.m = st
	}
	for _, op := range c.Ops {
		r.apply(op)
	}
	r.lookups()
	r.x.State(shape(r))
}

// shape is the state without ids and times.
func shape(r *blobRun) string {
	var l []string
	for i, id := range r.ids {
		e, ok := r.m[id]
		if !ok {
			l = append(l, fmt.Sprint(i, " gone"))
			continue
		}
		var ks []string
		for k, v := range e {
			if k == "updated" || (k == "totp") {
				v = ""
			}
			ks = append(ks, k+"="+v)
		}
		sort.Strings(ks)
		l = append(l, fmt.Sprint(i, ks))
	}
	return strings.Join(l, ";")
}

// opSeqs enumerates all sequences of length 1..n.
func opSeqs(ops []BOp, start, min, n int, y func(BCase) bool) bool {
	cur := make([]BOp, 0, n)
	var rec func() bool
	rec = func() bool {
		if len(cur) >= min && !y(BCase{Start: start, Ops: append([]BOp(nil), cur...)}) {
			return false
		}
		if len(cur) == n {
			return true
		}
		for _, o := range ops {
			cur = append(cur, o)
			if !rec() {
				return false
			}
			cur = cur[:len(cur)-1]
		}
		return true
	}
	return rec()
}

// masks runs every case with each of the given sets of operations without a fresh snapshot.
func masks(ms ...int) func(func(BCase) bool) func(BCase) bool {
	return func(y func(BCase) bool) func(BCase) bool {
		return func(c BCase) bool {
			for _, m := range ms {
				c.Stale = m
				if !y(c) {
					return false
				}
			}
			return true
		}
	}
}

func subsets(n int, y func(BCase) bool) func(BCase) bool {
	var ms []int
	for m := 0; m < 1<<n; m++ {
		ms = append(ms, m)
	}
	return masks(ms...)(y)
}

// ---------------------------------------------------------------------------------------------
// duplicates

// DupCase: names of entries that arrived from two replicas (side of entry i is bit i).
type DupCase struct {
	Names []string `json:"names"`
	Sides int      `json:"sides"`
	Rev   bool     `json:"rev,omitempty"`
}

func runDups(x *core.X, c DupCase) {
	var sides [2][]txlogs.Tx
	orig := map[string]string{}
	for i, n := range c.Names {
		id := fmt.Sprintf("%08d-0000-4000-8000-000000000000", i)
		if c.Rev {
			id = fmt.Sprintf("%08d-0000-4000-8000-000000000000", 90-i)
		}
		s := c.Sides >> i & 1
		orig[id] = n
		t := int64(1000 + 10*i)
		sides[s] = append(sides[s], txlogs.Tx{Time: t, Kind: txlogs.TxAdd, UUID: id}, txlogs.Tx{Time: t + 1, Kind: txlogs.TxSetKey, UUID: id, Key: "updated", Value: "5"},
			txlogs.Tx{Time: t + 2, Kind: txlogs.TxSetKey, UUID: id, Key: "name", Value: n}, txlogs.Tx{Time: t + 3, Kind: txlogs.TxSetKey, UUID: id, Key: "pass", Value: "pw" + id})
	}
	base := []txlogs.Tx{{Time: 1, Kind: txlogs.TxAdd, UUID: "base"}, {Time: 2, Kind: txlogs.TxSetKey, UUID: "base", Key: "name", Value: "base"}}
	log, conf := txlogs.Merge(cat(base, sides[0]), cat(base, sides[1]), nil)
	x.Check(len(conf) == 0, "conflicts %v", conf)
	b := blobformat.Blobs{DB: &txlogs.DB{Log: log}}
	n0 := len(log)
	before, _, ok := ref.Replay(log)
	x.Check(ok && len(before) == len(c.Names)+1, "the merge lost entries")
	t0 := time.Now().UnixNano()
	renames, err := b.RenameDuplicates()
	x.Check(err == nil, "RenameDuplicates: %v", err)
	x.Step()
	after, _, ok := ref.Replay(b.Log)
	x.Check(ok && ref.EqualLogs(b.Log[:n0], log[:n0]), "log damaged")
	x.Check(len(after) == len(before), "repairing lost entries: %s", after.Show())
	x.Check(b.UpdateSnapshot() == nil && ref.Same(b.Snapshot, after), "the snapshot does not show the repair")
	seen := map[string]bool{}
	kept := map[string]int{}
	groups := map[string]int{"base": 1}
	for _, n := range c.Names {
		groups[n]++
	}
	renamed := map[string]string{}
	for id, e := range after {
		n := e["name"]
		x.Check(!seen[n], "name %q still twice: %s", n, after.Show())
		seen[n] = true
		was := before[id]
		if was["name"] == n {
			kept[n]++
			x.Check(e["updated"] == was["updated"], "update time of the untouched %s changed", id)
		} else {
			x.Check(groups[was["name"]] > 1, "%q was unique but renamed to %q", was["name"], n)
			renamed[n] = was["name"]
			u, err := strconv.ParseInt(e["updated"], 10, 64)
			x.Check(err == nil && u >= t0, "renamed entry has update time %q", e["updated"])
		}
		x.Check(e["pass"] == was["pass"], "fields lost")
	}
	for g := range groups {
		x.Check(kept[g] == 1, "%d of the entries named %q kept their name", kept[g], g)
	}
	x.Check(len(renames) == len(renamed), "reported %v, renamed %v", renames, renamed)
	for n, o := range renamed {
		x.Check(renames[n] == o, "reported %v, renamed %v", renames, renamed)
	}
	again, err := b.RenameDuplicates()
	x.Check(err == nil && len(again) == 0, "a second repair renamed again: %v", again)
	x.Outcome(fmt.Sprint(renames))
}

// ---------------------------------------------------------------------------------------------
// searches

// SearchCase: a set of entry names (indices into a fixed list) or label lists, and a query.
type SearchCase struct {
	Set    string   `json:"set"`
	Query  string   `json:"query"`
	Labels []string `json:"labels,omitempty"`
	By     string   `json:"by"`
}

type entrySet struct {
	names  []string
	labels []string
}

var entrySets = map[string]*entrySet{}

func buildSet(s *entrySet) *txlogs.DB {
	db := new(txlogs.DB)
	for i, n := range s.names {
		id := "id" + strconv.Itoa(i)
		db.Log = append(db.Log, txlogs.Tx{Time: int64(i), Kind: txlogs.TxAdd, UUID: id}, txlogs.Tx{Time: int64(i), Kind: txlogs.TxSetKey, UUID: id, Key: "name", Value: n})
		if i < len(s.labels) && s.labels[i] != "" {
			db.Log = append(db.Log, txlogs.Tx{Time: int64(i), Kind: txlogs.TxSetKey, UUID: id, Key: "labels", Value: s.labels[i]})
		}
	}
	return db
}

func refSearch(name, q string) bool {
	if q == "" {
		return true
	}
	if !strings.Contains(q, "/") {
		return refMatch(name, q, false)
	}
	qs, ns := strings.Split(q, "/"), strings.Split(name, "/")
	if len(ns) < len(qs) {
		return false
	}
	for i := range qs {
		if !refMatch(ns[i], qs[i], false) {
			return false
		}
	}
	return true
}

func refLabels(labels string, want []string) bool {
	have := map[string]bool{}
	if labels != "" {
		for _, l := range strings.Split(labels, ",") {
			have[l] = true
		}
	}
	for _, w := range want {
		if !have[w] {
			return false
		}
	}
	return true
}

func checkResults(x *core.X, what string, got blobformat.SearchResults, err error, want map[string]string) {
	x.Check(err == nil, "%s: %v", what, err)
	for id, n := range got {
		w, ok := want[id]
		x.Check(ok, "%s found %q, which does not match", what, n)
		x.Check(w == n, "%s gives the name %q for %q", what, n, w)
	}
	for id, n := range want {
		_, ok := got[id]
		x.Check(ok, "%s did not find %q", what, n)
	}
	names, ids := got.Names(), got.UUIDs()
	x.Check(len(names) == len(want) && len(ids) == len(want), "%s: %d names, %d ids for %d results", what, len(names), len(ids), len(want))
	sort.Strings(names)
	sort.Strings(ids)
	var wn, wi []string
	for id, n := range want {
		wn, wi = append(wn, n), append(wi, id)
	}
	sort.Strings(wn)
	sort.Strings(wi)
	x.Check(strings.Join(wn, "\x00") == strings.Join(names, "\x00"), "%s: names %q want %q", what, names, wn)
	x.Check(strings.Join(wi, "\x00") == strings.Join(ids, "\x00"), "%s: ids %q want %q", what, ids, wi)
	x.Step()
}

func runSearch(x *core.X, c SearchCase) {
	s := entrySets[c.Set]
	b := blobformat.Blobs{DB: buildSet(s)}
	want := map[string]string{}
	for i, n := range s.names {
		id := "id" + strconv.Itoa(i)
		ok := false
		switch c.By {
		case "name":
			ok = refSearch(n, c.Query)
		case "labels":
			l := ""
			if i < len(s.labels) {
				l = s.labels[i]
			}
			ok = refLabels(l, c.Labels)
		case "users":
			ok = strings.HasPrefix(n, "user/")
		}
		if ok {
			want[id] = n
		}
	}
	for round := 0; round < 2; round++ {
		switch c.By {
		case "name":
			got, err := b.Search(c.Query)
			checkResults(x, fmt.Sprintf("search %q", c.Query), got, err, want)
		case "labels":
			got, err := b.SearchLabels(c.Labels...)
			checkResults(x, fmt.Sprintf("label search %q", c.Labels), got, err, want)
		case "users":
			got, err := b.Users()
			checkResults(x, "users", got, err, want)
		}
	}
	x.Outcome(fmt.Sprint(len(want)))
}

// runSearchOps: searches after every step of a history.
func runSearchOps(x *core.X, c BCase) {
	r := newBlobRun(x)
	byName := func() {
		for _, q := range []string{"", "a", "b", "ab", "u/a", "/", "A", "sr/"} {
			want := map[string]string{}
			for u, e := range r.m {
				if refSearch(e["name"], q) {
					want[u] = e["name"]
				}
			}
			got, err := r.b.Search(q)
			checkResults(x, fmt.Sprintf("search %q", q), got, err, want)
		}
	}
	byLabels := func() {
		for _, q := range [][]string{nil, {"x"}, {"y"}, {"x", "y"}, {"x", "x"}, {"y", "x", "y"}} {
			want := map[string]string{}
			for u, e := range r.m {
				if refLabels(e["labels"], q) {
					want[u] = e["name"]
				}
			}
			got, err := r.b.SearchLabels(q...)
			checkResults(x, fmt.Sprintf("label search %q", q), got, err, want)
		}
	}
	byUsers := func() {
		want := map[string]string{}
		for u, e := range r.m {
			if strings.HasPrefix(e["name"], "user/") {
				want[u] = e["name"]
			}
		}
		got, err := r.b.Users()
		checkResults(x, "users", got, err, want)
	}
	// each kind in turn is the first to see the new log
	kinds := []func(){byName, byLabels, byUsers}
	look := func() {
		for i := range kinds {
			kinds[(i+c.Look)%len(kinds)]()
		}
	}
	look()
	for _, op := range c.Ops {
		// operations on the raw database so that only the searches refresh the snapshot
		id := r.id(op.E)
		switch op.Op {
		case "new":
			if _, taken := r.names()[op.A]; taken {
				return
			}
			id, _ = r.b.DB.Add()
			r.ids = append(r.ids, id)
			r.b.DB.Set(id, "name", op.A)
			r.m[id] = map[string]string{"name": op.A}
		case "set":
			if !r.live(op.E) {
				return
			}
			if _, taken := r.names()[op.B]; op.A == "name" && taken {
				return
			}
			r.b.DB.Set(id, op.A, op.B)
			r.m[id][op.A] = op.B
		case "delkey":
			if !r.live(op.E) {
				return
			}
			r.b.DB.DeleteKey(id, op.A)
			delete(r.m[id], op.A)
		case "delete":
			if !r.live(op.E) {
				return
			}
			r.b.DB.Delete(id)
			delete(r.m, id)
		case "undo":
			before := len(r.b.Log)
			if before == 0 {
				return
			}
			if err := r.b.DB.RollbackN(1); err != nil {
				x.Failf("RollbackN(1): %v", err)
			}
			st, _, ok := ref.Replay(r.b.Log)
			x.Check(ok, "undo")
			for _, e := range st {
				if _, named := e["name"]; !named {
					return
				}
			}
			r.m = st
		}
		look()
	}
	x.State(shape(r))
}

func strs(alpha []string, n int) []string {
	out := []string{""}
	lvl := []string{""}
	for i := 0; i < n; i++ {
		var nx []string
		for _, s := range lvl {
			for _, a := range alpha {
				nx = append(nx, s+a)
			}
		}
		out = append(out, nx...)
		lvl = nx
	}
	return out
}

func lists[T any](alpha []T, n int) [][]T {
	out := [][]T{nil}
	lvl := [][]T{nil}
	for i := 0; i < n; i++ {
		var nx [][]T
		for _, s := range lvl {
			for _, a := range alpha {
				nx = append(nx, append(append([]T{}, s...), a))
			}
		}
		out = append(out, nx...)
		lvl = nx
	}
	return out
}

func init() {
	names13 := core.NewFamily("C13", "names", runBlobs)
	dups := core.NewFamily("C13", "duplicates", runDups)
	crowd := core.NewFamily("C13", "many names", func(x *core.X, n int) {
		b := blobformat.Blobs{DB: new(txlogs.DB)}
		ids := map[string]string{}
		var names []string
		for i := 0; i < n; i++ {
			name := fmt.Sprint("e", i)
			id, err := b.New(name)
			x.Check(err == nil && id != "" && ids[id] == "", "name %d of %d: %v", i, n, err)
			ids[id] = name
			names = append(names, name)
		}
		ln := len(b.DB.Log)
		for i, name := range names {
			id, err := b.New(name)
			x.Check(err != nil && id == "", "a second %q among %d names", name, n)
			found, blob, err := b.FindByName(name)
			x.Check(err == nil && ids[found] == name && blob.Name() == name, "%q is not found among %d names", name, n)
			if i > 0 {
				x.Check(b.Rename(found, names[i-1]) != nil, "a rename to the taken %q among %d names", names[i-1], n)
			}
			x.Step()
		}
		x.Check(len(b.DB.Log) == ln, "refused names change the database")
		for i := range names[:n/2] {
			id, _, _ := b.FindByName(names[i])
			x.Check(b.Rename(id, names[i]+"x") == nil, "rename fails")
			names[i] += "x"
		}
		st, _, ok := ref.Replay(b.DB.Log)
		x.Check(ok && len(st) == n, "%d entries instead of %d", len(st), n)
		seen := map[string]bool{}
		for _, e := range st {
			x.Check(!seen[e["name"]], "two entries are called %q", e["name"])
			seen[e["name"]] = true
		}
		for _, name := range names {
			x.Check(seen[name], "no entry is called %q", name)
		}
		x.State(fmt.Sprint(n))
		x.Outcome("names")
	})
	core.Register(&core.Check{
		ID: "C13", Level: "model_checking",
		Rule: "one execution is a history of New, NewUser, NewSync, Rename, Delete, reload on the real database, compared after every step with a model of the live names; or a merged log with duplicate names repaired by RenameDuplicates",
		Run: func(ctx *core.Ctx) {
			var ops []BOp
			for _, n := range []string{"a", "user/a", "sync/file", "sync/file1"} {
				ops = append(ops, BOp{Op: "new", A: n})
				for e := 0; e < ctx.Pick(2, 3); e++ {
					ops = append(ops, BOp{Op: "rename", E: e, A: n})
				}
			}
			ops = append(ops, BOp{Op: "newuser", A: "a"}, BOp{Op: "newsync", A: "file"}, BOp{Op: "reload"}, BOp{Op: "reload", E: 1})
			for e := 0; e < ctx.Pick(2, 3); e++ {
				ops = append(ops, BOp{Op: "delete", E: e})
			}
			d := ctx.Pick(4, 5)
			names13.Explore(ctx, fmt.Sprintf("all sequences of length %d over %d operations (4 colliding names, %d entries, reload with and without snapshot), every prefix compared, the snapshot brought up to date by the harness after every operation or after none", d, len(ops), ctx.Pick(2, 3)), func(y func(BCase) bool) {
				opSeqs(ops, 0, d, d, masks(0, -1)(y))
			})
			names13.Explore(ctx, fmt.Sprintf("all sequences of length %d, the snapshot brought up to date by the harness after every subset of the operations", d-1), func(y func(BCase) bool) {
				opSeqs(ops, 0, d-1, d-1, subsets(d-1, y))
			})
			var near []BOp
			for _, n := range []string{"a", " a", "a ", "A", "a/", "a\t", "user/a", "user/ a", "User/a"} {
				near = append(near, BOp{Op: "new", A: n}, BOp{Op: "rename", E: 0, A: n})
			}
			near = append(near, BOp{Op: "newuser", A: " a"}, BOp{Op: "newuser", A: "a"}, BOp{Op: "newuser", A: "A"}, BOp{Op: "delete", E: 0})
			names13.Explore(ctx, fmt.Sprintf("all sequences of length 3 over %d operations with names that differ in case and white space only", len(near)), func(y func(BCase) bool) {
				opSeqs(near, 0, 3, 3, masks(0, -1)(y))
			})
			crowd.Explore(ctx, "numbers of entries up to 1030", func(y func(int) bool) {
				for _, n := range []int{1, 2, 9, 10, 11, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 300, 512, 1001, 1030} {
					if !y(n) {
						return
					}
				}
			})
			names13.Explore(ctx, "up to 30 sync accounts, one of which is deleted or renamed", func(y func(BCase) bool) {
				for _, kind := range []string{"file", "scp"} {
					for n := 1; n <= 30; n++ {
						for _, o := range []string{"", "delete", "rename"} {
							var q []BOp
							for i := 0; i < n; i++ {
								q = append(q, BOp{Op: "newsync", A: kind})
							}
							for e := 0; e < n && (o != "" || e == 0); e += 1 + n/5 {
								c := q
								if o != "" {
									c = append(append([]BOp{}, q...), BOp{Op: o, E: e, A: "x"}, BOp{Op: "newsync", A: kind}, BOp{Op: "newsync", A: kind})
								}
								if !masks(0, -1)(y)(BCase{Ops: c}) {
									return
								}
							}
						}
					}
				}
			})
			k := ctx.Pick(4, 5)
			dups.Explore(ctx, fmt.Sprintf("all assignments of names {a,a1,a11,base,b} to 1..%d entries, all distributions over two replicas, both id orders", k), func(y func(DupCase) bool) {
				for _, l := range lists([]string{"a", "a1", "a11", "base", "b"}, k) {
					for s := 0; s < 1<<len(l); s++ {
						for _, rev := range []bool{false, true} {
							if len(l) > 0 && !y(DupCase{Names: l, Sides: s, Rev: rev}) {
								return
							}
						}
					}
				}
			})
			shellNames(ctx)
		},
	})

	fields := core.NewFamily("C14", "fields", runBlobs)
	core.Register(&core.Check{
		ID: "C14", Level: "model_checking",
		Rule: "one execution is a history of Set, DeleteKey, SetTwofactor, AddLabel, RemoveLabel, Rename on a database with ordinary, user and deleted entries, compared after every step with a model of all fields and update times; all lookups are compared at the end",
		Run: func(ctx *core.Ctx) {
			var ops, few []BOp
			prot := []string{"name", "updated", "iv", "salt", "mkey", "totp"}
			variants := func(k string) []string {
				// every letter case of the word
				out := []string{""}
				for _, c := range k {
					var nx []string
					for _, o := range out {
						nx = append(nx, o+string(c), o+strings.ToUpper(string(c)))
					}
					out = nx
				}
				// other letters that are the same in the other case
				for _, f := range [][2]string{{"s", "ſ"}, {"k", "\u212a"}} {
					if v := strings.Replace(k, f[0], f[1], 1); v != k {
						out = append(out, v, strings.ToUpper(k[:1])+strings.Replace(k[1:], f[0], f[1], 1))
					}
				}
				return out
			}
			for e := 0; e < 2; e++ {
				for _, p := range prot {
					for i, v := range variants(p) {
						set, del := BOp{Op: "set", E: e, A: v, B: "evil"}, BOp{Op: "delkey", E: e, A: v}
						ops = append(ops, set, del)
						if i == 0 || (i == 1 && e == 0) {
							few = append(few, set, del)
						}
					}
				}
				for _, k := range []string{"user", "pass", "notes", "labels", "custom", "User", "names", "na me", "", "é", "privkey", "sync", "url"} {
					set, del := BOp{Op: "set", E: e, A: k, B: "v\n,\"\x00é"}, BOp{Op: "delkey", E: e, A: k}
					ops = append(ops, set, del, BOp{Op: "set", E: e, A: k, B: ""})
					if k == "user" || (e == 0 && (k == "notes" || k == "User" || k == "names")) {
						few = append(few, set, del)
					}
				}
				few = append(few, BOp{Op: "totp", E: e, A: "GEZDGNBV"}, BOp{Op: "totp", E: e, A: "not base32!", B: "bad"}, BOp{Op: "addlabel", E: e, A: "z"}, BOp{Op: "rename", E: e, A: "b"}, BOp{Op: "rename", E: e, A: "user/a"})
			}
			few = append(few, BOp{Op: "new", A: "c"}, BOp{Op: "new", A: "x/user/a"}, BOp{Op: "reload"}, BOp{Op: "rmlabel", E: 0, A: "0"}, BOp{Op: "unstamp"}, BOp{Op: "look"})
			fields.Explore(ctx, fmt.Sprintf("all pairs of %d operations (every letter case of the protected names, 2 entries)", len(ops)), func(y func(BCase) bool) {
				opSeqs(ops, 1, 1, 1, masks(0, -1)(y))
				opSeqs(ops[:len(ops)/2], 1, 2, 2, masks(0, -1)(y))
			})
			fields.Explore(ctx, fmt.Sprintf("all pairs of %d operations, snapshot brought up to date by the harness between them or not, each of %d lookups made first afterwards", len(few), lookKinds), func(y func(BCase) bool) {
				for l := 0; l < lookKinds; l++ {
					opSeqs(few, 1, 1, 2, masks(0, -1)(func(c BCase) bool { c.Look = l; return y(c) }))
				}
			})
			d := ctx.Pick(3, 4)
			fields.Explore(ctx, fmt.Sprintf("all sequences of length %d over %d operations", d, len(few)), func(y func(BCase) bool) { opSeqs(few, 1, d, d, masks(0, -1)(y)) })
			shellFields(ctx)
		},
	})

	search := core.NewFamily("C15", "search", runSearch)
	searchOps := core.NewFamily("C15", "search-history", runSearchOps)
	mkSets := func() {
		// all names up to length 4 over an alphabet
		entrySets["names"] = &entrySet{names: strs([]string{"a", "b", "A", "/", "é"}, 4)}
		s := &entrySet{}
		for i, l := range lists([]string{"x", "y", "xy", "X"}, 4) {
			s.names = append(s.names, "e"+strconv.Itoa(i))
			s.labels = append(s.labels, strings.Join(l, ","))
		}
		entrySets["labels"] = s
		entrySets["empty"] = &entrySet{}
		entrySets["users"] = &entrySet{names: strs([]string{"user", "/", "a", "s", "User"}, 4)}
	}
	mkSets()
	core.Register(&core.Check{
		ID: "C15", Level: "model_checking",
		Rule: "one execution is a query over a database holding every name (or every label list) up to a length, or a history with every kind of query after every step, compared with reference matching over the model",
		Run: func(ctx *core.Ctx) {
			n := ctx.Pick(4, 5)
			search.Explore(ctx, fmt.Sprintf("all queries up to length %d over {a,b,A,/,é} against all %d names up to length 4", n, len(entrySets["names"].names)), func(y func(SearchCase) bool) {
				for _, q := range strs([]string{"a", "b", "A", "/", "é"}, n) {
					if !y(SearchCase{Set: "names", Query: q, By: "name"}) {
						return
					}
				}
				for _, q := range []string{"", "a", "/"} {
					for _, s := range []string{"empty", "users"} {
						y(SearchCase{Set: s, Query: q, By: "name"})
					}
				}
			})
			search.Explore(ctx, fmt.Sprintf("all label queries up to %d labels (with repetitions) over {x,y,xy,X,z,''} against all %d label lists up to length 4; user lists", ctx.Pick(4, 5), len(entrySets["labels"].names)), func(y func(SearchCase) bool) {
				for _, q := range lists([]string{"x", "y", "xy", "X", "z", ""}, ctx.Pick(4, 5)) {
					if !y(SearchCase{Set: "labels", Labels: q, By: "labels"}) {
						return
					}
				}
				for _, s := range []string{"empty", "users", "names"} {
					y(SearchCase{Set: s, By: "users"})
				}
				y(SearchCase{Set: "empty", By: "labels", Labels: []string{"x"}})
				y(SearchCase{Set: "empty", By: "labels"})
			})
			ops := []BOp{{Op: "new", A: "a"}, {Op: "new", A: "user/ab"}, {Op: "new", A: "b"}, {Op: "undo"}}
			for e := 0; e < 2; e++ {
				ops = append(ops, BOp{Op: "set", E: e, A: "name", B: "ab"}, BOp{Op: "set", E: e, A: "name", B: "user/A"}, BOp{Op: "set", E: e, A: "labels", B: "x,y"}, BOp{Op: "set", E: e, A: "labels", B: "y"},
					BOp{Op: "set", E: e, A: "labels", B: ""}, BOp{Op: "delkey", E: e, A: "labels"}, BOp{Op: "delete", E: e})
			}
			d := ctx.Pick(4, 5)
			searchOps.Explore(ctx, fmt.Sprintf("all histories of length %d over %d operations, 15 queries after each step, starting with searches by name, by label or for users", d, len(ops)), func(y func(BCase) bool) {
				for l := 0; l < 3; l++ {
					opSeqs(ops, 0, d, d, func(c BCase) bool { c.Look = l; return y(c) })
				}
			})
			shellSearch(ctx)
		},
	})

	labels := core.NewFamily("C16", "labels", runBlobs)
	core.Register(&core.Check{
		ID: "C16", Level: "model_checking",
		Rule: "one execution is a history of label additions and removals (all indices, inside and outside) on the real database compared after every step with a model; or a history of shell label commands",
		Run: func(ctx *core.Ctx) {
			var ops []BOp
			for _, l := range []string{"x", "y", "é"} {
				ops = append(ops, BOp{Op: "addlabel", E: 0, A: l})
			}
			for i := -2; i <= 4; i++ {
				ops = append(ops, BOp{Op: "rmlabel", E: 0, A: strconv.Itoa(i)})
			}
			ops = append(ops, BOp{Op: "reload"}, BOp{Op: "rmlabel", E: 1, A: "0"})
			d := ctx.Pick(5, 6)
			labels.Explore(ctx, fmt.Sprintf("all histories of length %d over %d operations", d, len(ops)), func(y func(BCase) bool) { opSeqs(ops, 2, d, d, masks(0, -1)(y)) })
			if shellLabels != nil {
				shellLabels(ctx)
			}
		},
	})
}

var shellLabels func(*core.Ctx)
