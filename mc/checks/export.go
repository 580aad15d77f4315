package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/txlogs"
)

// ---------------------------------------------------------------------------------------------
// C28: exporting

// ExCase is an export.
type ExCase struct {
	Ents  [][]string `json:"ents,omitempty"`  // key, value, ... of each entry
	Hist  []int      `json:"hist,omitempty"`  // or a history, see exHist
	Snap  int        `json:"snap"`            // version of the saved snapshot, -1 none
	Multi bool       `json:"multi,omitempty"` // file with users
	Time  int        `json:"time,omitempty"`  // open after that many changes (0: now)
	Form  string     `json:"form,omitempty"`  // "", "CSV" or others
	Out   string     `json:"out,omitempty"`   // kind of the output
	Plan  string     `json:"plan,omitempty"`  // disturbance of the output
}

func runExport(x *core.X, c ExCase) {
	a := newApp(x)
	var log []txlogs.Tx
	if c.Hist != nil {
		log = exHist(c.Hist)
	} else {
		var es []Ent
		for i, f := range c.Ents {
			es = append(es, Ent{uid(i), f})
		}
		log = mkTxs(1000, es...)
	}
	// times in seconds so that one can open the past
	for i := range log {
		log[i].Time = int64(1e18) + int64(i)*int64(10e9)
		if log[i].Key == "updated" {
			log[i].Value = fmt.Sprint(log[i].Time)
		}
	}
	user, pass := "", "pw"
	f := ref.File{Pass: "pw"}
	if c.Multi {
		user, pass = "u1", "p1"
		var ue []Ent
		for i, u := range shUsers {
			ue = append(ue, userEntry(uid(100+i), u, shMaster))
		}
		log = append(mkTxs(100, ue...), log...)
		f = ref.File{Users: shUsers, Master: shMaster}
	}
	if c.Snap > len(log) {
		c.Snap = len(log)
	}
	f.Payload = payloadOf(log, c.Snap)
	a.write(f.Encode(ref.StubKDF))
	before := a.bytes()
	dir := filepath.Join(a.Dir, "outdir")
	os.Mkdir(dir, 0o777)
	os.Chmod(dir, 0o777)
	out := filepath.Join(dir, "e.csv")
	fails := false
	argOut := out
	old := "old contents that are longer than what is written " + strings.Repeat("x", 20000)
	switch c.Out {
	case "old":
		os.WriteFile(out, []byte(old), 0o600)
	case "rel":
		argOut = "outdir/e.csv"
	case "dir":
		os.Mkdir(out, 0o777)
		fails = true
	case "nodir":
		argOut = filepath.Join(dir, "x", "e.csv")
		fails = true
	case "full":
		argOut, fails = "/dev/full", len(log) > 0
	case "denied":
		os.WriteFile(out, []byte(old), 0o400)
		a.Uid = 65534
		fails = true
		os.Chown(a.File, 65534, 65534)
		os.Chmod(a.Dir, 0o777)
	case "link":
		os.Symlink("e2.csv", out)
	case "self", "selfrel", "selflink":
		argOut = a.File
		if c.Out == "selfrel" {
			argOut = "./vault.bp"
		} else if c.Out == "selflink" {
			os.Symlink(a.File, out)
			argOut = out
		}
		fails = true
	}
	if c.Form != "" && c.Form != "CSV" && c.Form != "csv" {
		fails = true
	}
	a.Sub = []string{"export"}
	if c.Form != "" {
		a.Sub = append(a.Sub, "--format="+strings.TrimSuffix(c.Form, "\x00"))
	}
	a.Sub = append(a.Sub, argOut)
	seen := log
	if c.Time > 0 && c.Time <= len(log) {
		t := log[c.Time-1].Time
		sec := t / 1e9
		if t%1e9 != 0 {
			core.Harness("time %d", t)
		}
		a.Args = append(a.Args, "-t", time.Unix(sec, 0).UTC().Format("2006-01-02 15:04:05"))
		seen = log[:c.Time]
	}
	trace := ""
	if c.Plan != "" {
		trace = filepath.Join(a.Dir, "trace")
		a.Pre = []string{filepath.Join(os.Getenv("MC_TOOLS"), "ftrace"), trace, dir, c.Plan}
	}
	s := a.Start().Open(user, pass)
	s.Check(s.Cur.Kind == "exit", "asks %v", s.Cur)
	s.NoCrash()
	// the file
	b := a.bytes()
	s.Check(b != nil, "the file is gone")
	if c.Time > 0 {
		s.Check(bytes.Equal(b, before), "the file opened in the past was changed")
	}
	_, d, err := readFile(b, user, pass)
	s.Check(err == nil, "the file can not be read any more: %v", err)
	s.Check(ref.EqualLogs(d.Log, log), "the history was changed:\n%s", ref.ShowLog(d.Log))
	var got []byte
	switch c.Out {
	case "full":
	case "rel":
		got, err = os.ReadFile(out)
	default:
		got, err = os.ReadFile(argOut)
	}
	msg := strings.TrimSpace(s.Out())
	if len(c.Plan) > 1 {
		// disturbed: success only if all is there
		if s.Code != 0 {
			s.Check(msg != "", "fails silently")
			x.Outcome("disturbed, failed")
			return
		}
		x.Outcome("disturbed, succeeded")
	}
	x.State(fmt.Sprint(c.Out, c.Form, s.Code))
	if fails {
		s.Check(s.Code != 0, "the export fails with success")
		s.Check(msg != "", "nothing is reported")
		if c.Form != "" && c.Out == "old" {
			s.Check(string(got) == old, "the refused export destroyed the output file")
		}
		x.Outcome("refused")
		return
	}
	if c.Form == "csv" && s.Code != 0 {
		return
	}
	if c.Out == "full" {
		return // nothing to write
	}
	s.Check(s.Code == 0, "status %d", s.Code)
	s.Check(err == nil, "no output: %v", err)
	// compare
	state := stateOf(x, seen)
	recs, ok := csvParse(string(got))
	s.Check(ok, "the output is not well-formed:\n%s", got)
	if c.Time > 0 {
		// an entry whose creation is under way at that moment may be left out
		n := 0
		for u, e := range state {
			if len(e) == 0 {
				delete(state, u)
				n++
			}
		}
		if n > 0 {
			var full [][]string
			for i, r := range recs {
				if i == 0 || strings.Join(r, "") != "" {
					full = append(full, r)
				}
			}
			s.Check(len(recs)-len(full) <= n, "%d empty rows", len(recs)-len(full))
			recs = full
		}
	}
	if len(state) == 0 {
		for i, r := range recs {
			for _, f := range r {
				s.Check(i == 0, "rows for no entries: %q", f)
			}
		}
		x.Outcome("empty")
		return
	}
	s.Check(len(recs) > 0, "no header")
	head := recs[0]
	keys := map[string]bool{}
	for _, e := range state {
		for k := range e {
			keys[k] = true
		}
	}
	seenKey := map[string]bool{}
	for _, h := range head {
		s.Check(!seenKey[h], "%q is twice in the header", h)
		seenKey[h] = true
	}
	for k := range keys {
		s.Check(seenKey[k], "key %q is not in the header %q", k, head)
	}
	var rows, want []string
	for _, r := range recs[1:] {
		s.Check(len(r) == len(head), "a row has %d fields, the header has %d: %q", len(r), len(head), r)
		rows = append(rows, exRow(head, func(i int) string { return r[i] }))
	}
	for u, e := range state {
		want = append(want, exRow(head, func(i int) string {
			if !keys[head[i]] {
				for j := range recs[1:] {
					// a column of its own, say the identifier
					if recs[1+j][i] == u {
						return u
					}
				}
			}
			return e[head[i]]
		}))
	}
	sort.Strings(rows)
	sort.Strings(want)
	s.Check(strings.Join(rows, "\n") == strings.Join(want, "\n"), "the rows are\n%s\nwant\n%s", strings.Join(rows, "\n"), strings.Join(want, "\n"))
	x.Outcome(fmt.Sprintf("%d rows", min(len(rows), 5)))
}

func exRow(head []string, f func(int) string) string {
	var o []string
	for i, h := range head {
		o = append(o, fmt.Sprintf("%q=%q", h, f(i)))
	}
	sort.Strings(o)
	return strings.Join(o, " ")
}

const exOps = 7

// exHist builds a history: changes, deletions and new entries.
func exHist(ops []int) (log []txlogs.Tx) {
	add := func(k txlogs.TxKind, u, key, v string) {
		log = append(log, txlogs.Tx{Kind: k, UUID: u, Key: key, Value: v})
	}
	live := map[int]bool{}
	for n, o := range ops {
		v := fmt.Sprint("v", n)
		switch o {
		case 0, 1: // new entry
			if !live[o] {
				live[o] = true
				add(txlogs.TxAdd, uid(o), "", "")
				add(txlogs.TxSetKey, uid(o), "name", fmt.Sprint("n", o))
				continue
			}
			add(txlogs.TxSetKey, uid(o), "name", "m"+v)
		case 2, 3:
			if live[o-2] {
				add(txlogs.TxSetKey, uid(o-2), fmt.Sprint("k", o), v)
			}
		case 4:
			if live[0] {
				add(txlogs.TxSetKey, uid(0), "k3", v)
			}
		case 5:
			if live[0] {
				add(txlogs.TxDeleteKey, uid(0), "k2", "")
			}
		case 6:
			if live[0] {
				add(txlogs.TxDelete, uid(0), "", "")
				live[0] = false
			}
		}
	}
	return log
}

func init() {
	fam := core.NewFamily("C28", "exports", runExport)
	core.Register(&core.Check{
		ID: "C28", Level: "model_checking",
		Rule:        "one execution is an export run of the real program (terminal and key derivation replaced) on a file made by an independent codec with any saved snapshot; the output is parsed by an independent reader and compared with the replayed history; state = kind of output, format and status",
		Assumptions: []string{"the order of rows and columns is free", "a missing key and an empty value look the same in the output"},
		Run: func(ctx *core.Ctx) {
			vals := []string{"", "v", "a,b", `q"q`, `"`, "l1\nl2", "\n", " lead", "trail ", "cr\r\nlf", "\r", `\.`, "é日", "=1+1", "\x00", "\t", "'", ";", "\u2028"}
			fam.Explore(ctx, "two entries, pairs of awkward values", func(y func(ExCase) bool) {
				for _, v := range vals {
					for _, w := range vals {
						for _, sn := range []int{-1, 4, 99} {
							if !y(ExCase{Ents: [][]string{{"name", "a", "k", v, "notes", w}, {"name", "b,\"" + w, "k", w, "z", v}}, Snap: sn}) {
								return
							}
						}
					}
				}
			})
			fam.Explore(ctx, "awkward keys", func(y func(ExCase) bool) {
				for _, k := range []string{"", "k", "a,b", `"`, "l\nl", " k", "K", "Name", "é", `\.`, "#", "\r", "'"} {
					for _, k2 := range []string{"k", "k ", "a", "b\n", "", "Z"} {
						if !y(ExCase{Ents: [][]string{{"name", "a", k, "v1"}, {"name", "b", k2, "v2", "o", "3"}}, Snap: 99}) {
							return
						}
					}
				}
			})
			fam.Explore(ctx, "every set of keys of three entries", func(y func(ExCase) bool) {
				for m := 0; m < 512; m++ {
					c := ExCase{Snap: 99}
					for e := 0; e < 3; e++ {
						f := []string{"name", fmt.Sprint("n", e)}
						for k := 0; k < 3; k++ {
							if m>>(3*e+k)&1 != 0 {
								f = append(f, fmt.Sprint("k", 2-k), fmt.Sprint("v", e, k))
							}
						}
						c.Ents = append(c.Ents, f)
					}
					if !y(c) {
						return
					}
				}
			})
			d := ctx.Pick(3, 4)
			fam.Explore(ctx, fmt.Sprintf("all histories of up to %d steps, snapshots of every version, opened at every change", d), func(y func(ExCase) bool) {
				for n := 0; n <= d; n++ {
					for _, q := range intSeqs(exOps, n) {
						if n > 0 && q[0] > 1 {
							continue
						}
						l := len(exHist(q))
						for sn := -1; sn <= l; sn++ {
							if sn == 0 {
								continue
							}
							for t := 0; t <= l; t++ {
								if t > 0 && n == 4 && sn != -1 && sn != l {
									continue
								}
								if !y(ExCase{Hist: append([]int{}, q...), Snap: sn, Time: t}) {
									return
								}
							}
						}
					}
				}
			})
			es := [][]string{{"name", "a", "k", "v,1"}, {"name", "b", "pass", "p\"1"}, {"name", "c"}}
			fam.Explore(ctx, "outputs and formats", func(y func(ExCase) bool) {
				for _, e := range [][][]string{nil, es} {
					for _, mu := range []bool{false, true} {
						for _, o := range []string{"", "old", "rel", "dir", "nodir", "full", "denied", "link", "self", "selfrel", "selflink"} {
							for _, f := range []string{"", "CSV", "csv", "JSON", "json", "Csv\x00", "CSV ", "tsv", "C"} {
								for _, t := range []int{0, 3} {
									if t > 0 && (mu || e == nil) {
										continue
									}
									if f == "Csv\x00" {
										continue
									}
									if !y(ExCase{Ents: e, Multi: mu, Out: o, Form: f, Time: t, Snap: 99}) {
										return
									}
								}
							}
						}
					}
				}
			})
			fam.Explore(ctx, "an error or a short transfer at every operation on the output", func(y func(ExCase) bool) {
				big := [][]string{{"name", "a", "k", strings.Repeat("0123456789", 900)}, {"name", "b", "pass", "p\"1"}}
				for _, e := range [][][]string{es, big} {
					for k := 1; k <= 12; k++ {
						for _, p := range []string{"e5", "e28", "e13", "e9", "s1", "s100"} {
							for _, o := range []string{"", "old"} {
								if !y(ExCase{Ents: e, Out: o, Plan: fmt.Sprintf("%d:%s", k, p), Snap: 99}) {
									return
								}
							}
						}
					}
				}
			})
			if ctx.Thorough() {
				fam.Explore(ctx, "many entries", func(y func(ExCase) bool) {
					for _, n := range []int{10, 100, 1000} {
						for _, sn := range []int{-1, 7, 99999} {
							c := ExCase{Snap: sn}
							for i := 0; i < n; i++ {
								c.Ents = append(c.Ents, []string{"name", fmt.Sprint("n", i), fmt.Sprint("k", i%17), fmt.Sprint("v", i)})
							}
							if !y(c) {
								return
							}
						}
					}
				})
			}
		},
	})
}
