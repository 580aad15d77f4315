package checks

import (
	"encoding/json"
	"fmt"
	"strings"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/txlogs"
)

// awkward are strings that serialisers like to get wrong (all valid UTF-8).
var awkward = []string{
	"", "a", " ", "\x00", "\n", "\r\n", "\t", "\"", "\\", "\\u0041", "<script>&amp;", "null", "0", "-1", "1e400", "true",
	"é", "\u2028\u2029", "日本語", "\U0001f511", "\u0000\u001f\u007f\u0080", "\ufeff", "\ufffd", "e\u0301", "{\"log\":[]}", "'", "%s%d", "a,b;c", strings.Repeat("x", 5000),
}

// SaveCase is a history over awkward strings: each op is a letter and indices into awkward.
type SaveCase struct {
	Ops  string `json:"ops"`
	K, V int    `json:"k"`
}

type strPair struct{ K, V int }

func init() {
	vals := core.NewFamily("C04", "awkward-strings", func(x *core.X, c strPair) {
		k, v := awkward[c.K], awkward[c.V]
		for _, snap := range []bool{false, true} {
			db := new(txlogs.DB)
			id, err := db.Add()
			x.Check(err == nil, "add: %v", err)
			db.Set(id, k, v)
			db.Set(id, k+"2", v)
			db.DeleteKey(id, k+"2")
			id2, _ := db.Add()
			db.Set(id2, v, k)
			if snap {
				x.Check(db.UpdateSnapshot() == nil, "update")
			}
			roundTrip(x, db)
		}
		x.State(k + "\x00" + v)
	})
	ops := core.NewFamily("C04", "reload-anywhere", func(x *core.X, c OpsCase) {
		// twin execution: one database is saved and reloaded after every operation, the other never
		a, b := new(txlogs.DB), new(txlogs.DB)
		var ida, idb []string
		pick := func(ids []string, i int) string {
			if i < len(ids) {
				return ids[i]
			}
			return "ghost"
		}
		for i := 0; i < len(c.Ops); i++ {
			do := func(db *txlogs.DB, ids *[]string) (err error) {
				switch c.Ops[i] {
				case 'a':
					var id string
					id, err = db.Add()
					*ids = append(*ids, id)
				case '1':
					db.Set(pick(*ids, 0), "k", fmt.Sprint(i))
				case '2':
					db.Set(pick(*ids, 0), "l", "é\n\"")
				case '3':
					db.Set(pick(*ids, 1), "k", fmt.Sprint(i))
				case '5':
					db.DeleteKey(pick(*ids, 0), "k")
				case 'x':
					db.Delete(pick(*ids, 0))
				case 's':
					err = db.UpdateSnapshot()
				case 'U':
					err = db.RollbackN(1)
				case 'B':
					err = db.Do(func() error { db.Set(pick(*ids, 0), "t", "1"); return fmt.Errorf("no") })
				}
				return err
			}
			ea, eb := do(a, &ida), do(b, &idb)
			x.Check((ea == nil) == (eb == nil), "after reload %c gives %v, without %v", c.Ops[i], ea, eb)
			a = roundTrip(x, a)
			x.Check(len(a.Log) == len(b.Log), "log lengths differ after reload: %d %d", len(a.Log), len(b.Log))
			for j := range a.Log {
				s, t := a.Log[j], b.Log[j]
				s.UUID, t.UUID, s.Time, t.Time = "", "", 0, 0
				x.Check(s == t, "transaction %d differs after reload: %+v %+v", j, a.Log[j], b.Log[j])
			}
			x.Step()
		}
		_, _, ok := ref.Replay(a.Log)
		x.Check((a.UpdateSnapshot() == nil) == ok, "final update")
		x.Outcome(fmt.Sprint(len(a.Log), len(a.Snapshot)))
		x.State(c.Ops)
	})
	bad := core.NewFamily("C04", "malformed-data", func(x *core.X, c []byte) {
		db, err := txlogs.New(c)
		log, lerr := txlogs.NewLog(c)
		if !json.Valid(c) {
			x.Check(err != nil && lerr != nil, "malformed data %q accepted (New err=%v, NewLog err=%v)", c, err, lerr)
		}
		if err == nil && db != nil {
			x.Check(lerr == nil && ref.EqualLogs(db.Log, log), "NewLog disagrees with New on %q: %v", c, lerr)
			if len(db.Snapshot) == 0 && db.Version == 0 {
				db = roundTrip(x, db)
			}
			x.Outcome("ok")
		} else {
			if err == nil && string(trimJSON(c)) != "null" {
				x.Failf("New(%q) returned neither a database nor an error", c)
			}
			x.Outcome("error")
		}
		var top any
		if json.Unmarshal(c, &top) == nil {
			if _, obj := top.(map[string]any); !obj && top != nil {
				x.Check(err != nil && lerr != nil, "non-object %q accepted", c)
			}
		}
		x.State(string(c))
		x.Step()
	})
	core.Register(&core.Check{
		ID: "C04", Level: "model_checking",
		Rule: "(a) every pair of awkward strings as key and value, with and without snapshot; (b) every operation sequence executed twice, once saving+reloading after every step; (c) every truncation, single-byte deletion and replacement of serialised databases; outcome = accepted/refused or final size",
		Run: func(ctx *core.Ctx) {
			vals.Explore(ctx, "all pairs of 29 awkward strings", func(y func(strPair) bool) {
				for k := range awkward {
					for v := range awkward {
						if !y(strPair{k, v}) {
							return
						}
					}
				}
			})
			exploreLarge(ctx, largeSave, 255, 256, 257, 1000, 1024, 1025, 4097, 10001, 65535, 65536, 65537, 70000)
			alpha := "a1235xsUB"
			for n := 0; n <= ctx.Pick(5, 6); n++ {
				n := n
				ops.Explore(ctx, fmt.Sprintf("all sequences of length %d over %q", n, alpha), func(y func(OpsCase) bool) {
					words(alpha, n, nil, y)
				})
			}
			seeds := []string{
				`{"version":2,"snapshot":{"A":{"k":"v"}},"log":[{"time":1,"kind":"add","uuid":"A"},{"time":2,"kind":"setk","uuid":"A","key":"k","value":"v"}]}`,
				`{"log":[{"time":-9223372036854775808,"kind":"add","uuid":"A"},{"time":9223372036854775807,"kind":"delk","uuid":"A","key":"k"},{"time":3,"kind":"del","uuid":"A"}]}`,
				`{}`, `null`, ``, `[]`, `"x"`, `7`, `{"log":null}`, `{"log":{}}`, `{"log":[null]}`, `{"snapshot":null,"version":0}`, `{"version":-1}`, `{"log":[{}]}`, ` {"log":[]} `, `{"log":[]}{"log":[]}`, `{"LOG":[{"time":1}]}`,
			}
			bytesAll := []byte("\x00\x01\x7f\x80\xff{}[]\":,0a \\-.e")
			bad.Explore(ctx, "truncations, deletions and replacements of seed documents", func(y func([]byte) bool) {
				for _, s := range seeds {
					b := []byte(s)
					if !y(b) {
						return
					}
					for i := range b {
						if !y(b[:i]) || !y(append(append([]byte{}, b[:i]...), b[i+1:]...)) {
							return
						}
						for _, r := range bytesAll {
							m := append([]byte{}, b...)
							m[i] = r
							if !y(m) {
								return
							}
						}
					}
				}
			})
		},
	})
}

func trimJSON(b []byte) []byte { return []byte(strings.Trim(string(b), " \t\r\n")) }

func roundTrip(x *core.X, db *txlogs.DB) *txlogs.DB {
	want := append([]txlogs.Tx(nil), db.Log...)
	state, version := ref.Of(db.Snapshot), db.Version
	b, err := db.Save()
	x.Check(err == nil, "save: %v", err)
	x.Check(ref.EqualLogs(db.Log, want) && ref.Same(db.Snapshot, state) && db.Version == version, "save changed the database")
	got, err := txlogs.New(b)
	x.Check(err == nil && got != nil, "New: %v", err)
	x.Check(ref.EqualLogs(got.Log, want), "log after reload %s, want %s", ref.ShowLog(got.Log), ref.ShowLog(want))
	l, err := txlogs.NewLog(b)
	x.Check(err == nil && ref.EqualLogs(l, want), "NewLog: %v %s, want %s", err, ref.ShowLog(l), ref.ShowLog(want))
	pre, _, ok := ref.Replay(want[:min(int(got.Version), len(want))])
	x.Check(int(got.Version) <= len(want) && ok && ref.Same(got.Snapshot, pre), "reloaded snapshot (version %d) is not the replay of its log", got.Version)
	full, _, ok := ref.Replay(want)
	if ok {
		err := got.UpdateSnapshot()
		x.Check(err == nil && ref.Same(got.Snapshot, full), "state after reload %s, want %s (%v)", ref.Of(got.Snapshot).Show(), full.Show(), err)
		// keep the snapshot as it was loaded
		got, _ = txlogs.New(b)
	}
	return got
}
