package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/txlogs"
)

// ---------------------------------------------------------------------------------------------
// C27: importing from lastpass

const lpHeader = "url,username,password,extra,name,grouping,fav"

// LpRec is a record: url, username, password, extra, name, grouping, fav.
type LpRec [7]string

func csvField(f string, quoteAll bool) string {
	if quoteAll || strings.ContainsAny(f, ",\"\r\n") || strings.HasPrefix(f, " ") {
		return `"` + strings.ReplaceAll(f, `"`, `""`) + `"`
	}
	return f
}

func lpText(recs []LpRec, nl string, quoteAll bool) string {
	t := lpHeader + nl
	for _, r := range recs {
		var fs []string
		for _, f := range r {
			fs = append(fs, csvField(f, quoteAll))
		}
		t += strings.Join(fs, ",") + nl
	}
	return t
}

// csvParse reads well-formed comma separated values.
func csvParse(b string) (recs [][]string, ok bool) {
	i := 0
	for i < len(b) {
		var rec []string
		for {
			f := ""
			if i < len(b) && b[i] == '"' {
				i++
				for {
					if i >= len(b) {
						return recs, false
					}
					if b[i] == '"' {
						if i+1 < len(b) && b[i+1] == '"' {
							f += `"`
							i += 2
							continue
						}
						i++
						break
					}
					f += b[i : i+1]
					i++
				}
				if i < len(b) && b[i] != ',' && b[i] != '\n' && !strings.HasPrefix(b[i:], "\r\n") {
					return recs, false
				}
			} else {
				for i < len(b) && b[i] != ',' && b[i] != '\n' && !strings.HasPrefix(b[i:], "\r\n") {
					if b[i] == '"' {
						return recs, false
					}
					f += b[i : i+1]
					i++
				}
			}
			rec = append(rec, f)
			if i < len(b) && b[i] == ',' {
				i++
				continue
			}
			break
		}
		if strings.HasPrefix(b[i:], "\r\n") {
			i += 2
		} else if i < len(b) {
			i++
		}
		recs = append(recs, rec)
	}
	return recs, true
}

// LpCase is an import.
type LpCase struct {
	DB   string  `json:"db"` // new, empty, some, a1, multi
	Recs []LpRec `json:"recs,omitempty"`
	Form string  `json:"form,omitempty"` // lf, crlf, nonl, quoted
	Ans  string  `json:"ans,omitempty"`
	// disturbances
	Cut    int    `json:"cut,omitempty"`   // bytes of the output missing at the end
	Out    string `json:"out,omitempty"`   // the output instead
	Err    string `json:"err,omitempty"`   // on the error stream
	Exit   string `json:"exit,omitempty"`  // status, "kill", "missing", "noexec"
	Time   string `json:"time,omitempty"`  // open in the past
	Twice  bool   `json:"twice,omitempty"` // import again
	Accept bool   `json:"accept,omitempty"`
}

func lpRecs(c LpCase) (string, []LpRec, string) {
	text := c.Out
	if text == "" && len(c.Recs) > 0 {
		switch c.Form {
		case "crlf":
			text = lpText(c.Recs, "\r\n", false)
		case "quoted":
			text = lpText(c.Recs, "\n", true)
		case "nonl":
			text = strings.TrimSuffix(lpText(c.Recs, "\n", false), "\n")
		default:
			text = lpText(c.Recs, "\n", false)
		}
	} else if text == "" && c.Form == "header" {
		text = lpHeader + "\n"
	}
	text = text[:len(text)-c.Cut]
	parsed, ok := csvParse(text)
	if !ok || len(parsed) == 0 {
		return text, nil, "fail"
	}
	verdict := "ok"
	for len(parsed) > 1 && len(parsed[0]) == 1 && parsed[0][0] == "" {
		parsed = parsed[1:]
		verdict = "either"
	}
	if strings.Join(parsed[0], ",") != lpHeader {
		return text, nil, "fail"
	}
	var recs []LpRec
	for _, p := range parsed[1:] {
		if len(p) == 1 && p[0] == "" {
			continue // empty line
		}
		if len(p) != 7 {
			return text, nil, "fail"
		}
		if p[6] != "0" && p[6] != "1" {
			verdict = "either" // nobody knows
		}
		var r LpRec
		copy(r[:], p)
		recs = append(recs, r)
	}
	return text, recs, verdict
}

func lpName(n string) string { return strings.ReplaceAll(strings.ToLower(n), " ", "_") }

func runLpass(x *core.X, c LpCase) {
	a := newApp(x)
	text, recs, verdict := lpRecs(c)
	if c.Exit != "" && c.Exit != "0" {
		verdict = "fail"
	}
	os.WriteFile(filepath.Join(a.Dir, "lp.out"), []byte(text), 0o600)
	os.WriteFile(filepath.Join(a.Dir, "lp.err"), []byte(c.Err), 0o600)
	end := "exit " + c.Exit
	switch c.Exit {
	case "":
		end = "exit 0"
	case "kill":
		end = "kill -9 $$"
	}
	if c.Exit != "missing" {
		p := a.Script("lpass", fmt.Sprintf("#!/bin/sh\necho \"$@\" >> %[1]s/lp.args\n/bin/cat %[1]s/lp.err >&2\n/bin/cat %[1]s/lp.out\n%[2]s\n", a.Dir, end))
		if c.Exit == "noexec" {
			os.WriteFile(p, []byte("#!/nonexistent\n"), 0o755)
		}
	}
	user := ""
	pass := "pw"
	var log []txlogs.Tx
	switch c.DB {
	case "empty":
		a.write(ref.File{Pass: "pw", Payload: []byte("{}")}.Encode(ref.StubKDF))
	case "some":
		log = mkTxs(1000, Ent{uid(1), []string{"name", "a", "user", "old", "labels", "l"}}, Ent{uid(2), []string{"name", "b_c", "pass", "x"}})
		a.put("pw", log)
	case "a1":
		log = mkTxs(1000, Ent{uid(1), []string{"name", "a"}}, Ent{uid(2), []string{"name", "a1"}})
		a.put("pw", log)
	case "nosnap":
		log = mkTxs(1000, Ent{uid(1), []string{"name", "a", "user", "old", "labels", "l"}}, Ent{uid(2), []string{"name", "b_c", "pass", "x"}})
		a.write(ref.File{Pass: "pw", Payload: payloadOf(log, -1)}.Encode(ref.StubKDF))
	case "multi":
		_, log = a.putUsers(shUsers, shMaster, shLog())
		user, pass = "u1", "p1"
	}
	before := a.bytes()
	if c.Time != "" {
		a.Args = append(a.Args, "-t", c.Time)
	}
	a.Sub = []string{"lpassimport"}
	runs := 1
	if c.Twice {
		runs = 2
	}
	for k := 0; k < runs; k++ {
		fresh := a.bytes() == nil
		s := a.Start().Open(user, pass)
		if fresh {
			s.Check(s.Cur.Kind == "hidden", "no verification of the new passphrase but %v", s.Cur)
			s.Send(pass)
		}
		asked := false
		yes := fresh
		if s.Cur.Kind == "line" {
			asked = true
			ans := c.Ans
			if ans == "" {
				ans = "y"
			}
			yes = ans == "y" || ans == "Y"
			if ans == "-" {
				ans = ""
			}
			_, err := os.Stat(filepath.Join(a.Dir, "lp.args"))
			s.Check(err != nil || k > 0, "lastpass is asked before the user agreed")
			s.Send(ans)
		}
		s.Check(s.Cur.Kind == "exit", "asks %v", s.Cur)
		s.NoCrash()
		if !fresh && c.Time == "" {
			s.Check(asked, "imports into an existing file without asking")
		}
		b := a.bytes()
		st := DBState{Log: log}
		if b != nil {
			_, d, err := readFile(b, user, pass)
			s.Check(err == nil, "the file can not be read any more: %v", err)
			st = d
		}
		x.Outcome(fmt.Sprintf("%s code=%d asked=%v", verdict, s.Code, asked))
		x.State(fmt.Sprint(c.DB, ref.ShowLog(st.Log) != ref.ShowLog(log), s.Code))
		if c.Time != "" {
			s.Check(bytes.Equal(b, before), "the file opened in the past was changed")
			s.Check(s.Code != 0, "importing into the past succeeds")
			return
		}
		if !yes {
			s.Check(ref.EqualLogs(st.Log, log), "importing was declined, but the file was changed")
			_, err := os.Stat(filepath.Join(a.Dir, "lp.args"))
			s.Check(err != nil, "importing was declined, but lastpass was asked")
			return
		}
		if verdict == "fail" || verdict == "either" && s.Code != 0 {
			s.Check(s.Code != 0, "importing what is not an export succeeds")
			s.Check(bytes.Equal(b, before), "the failed import changed the file")
			s.Check(strings.TrimSpace(s.Out()) != "", "nothing is reported")
			return
		}
		s.Check(s.Code == 0, "import fails with status %d", s.Code)
		s.Check(len(st.Log) >= len(log) && ref.EqualLogs(st.Log[:len(log)], log), "history was rewritten")
		old := stateOf(x, log)
		all := stateOf(x, st.Log)
		s.Check(ref.Same(st.Snapshot, stateOf(x, st.Log[:min(int(st.Version), len(st.Log))])), "the snapshot is not the replayed log")
		for u, e := range old {
			s.Check(ref.State{u: all[u]}.Show() == ref.State{u: e}.Show(), "entry %q was changed:\n%s", e["name"], ref.State{u: all[u]}.Show())
		}
		// each record is one new entry
		names := map[string]bool{}
		var got []string
		for u, e := range all {
			s.Check(!names[e["name"]], "two entries are named %q", e["name"])
			names[e["name"]] = true
			if old[u] != nil {
				continue
			}
			got = append(got, lpShow(e, ""))
		}
		oldNames := map[string]bool{}
		for _, e := range old {
			oldNames[e["name"]] = true
		}
		// in order of the records the names are only extended if they are taken
		var want []string
		for _, r := range recs {
			e := map[string]string{}
			for i, k := range []string{"url", "user", "pass", "notes"} {
				if r[i] != "" {
					e[k] = r[i]
				}
			}
			var lb []string
			if r[5] != "" {
				lb = append(lb, strings.ToLower(r[5]))
			}
			if r[6] == "1" {
				lb = append(lb, "lpfav")
			}
			if lb != nil {
				e["labels"] = strings.Join(lb, ",")
			}
			e["name"] = lpName(r[4])
			want = append(want, lpShow(e, "?"))
		}
		s.Check(len(got) == len(want), "%d records became %d entries:\n%s\nwant\n%s", len(recs), len(got), strings.Join(got, "\n"), strings.Join(want, "\n"))
		// match: fields must be equal, names must extend the record's
		used := make([]bool, len(got))
		var match func(i int) bool
		match = func(i int) bool {
			if i == len(recs) {
				return true
			}
			base := lpName(recs[i][4])
			for j := range got {
				if used[j] {
					continue
				}
				gn, gf, _ := strings.Cut(got[j], "\x00")
				_, wf, _ := strings.Cut(want[i], "\x00")
				if gf != wf || !strings.HasPrefix(gn, base) {
					continue
				}
				used[j] = true
				if match(i + 1) {
					return true
				}
				used[j] = false
			}
			return false
		}
		s.Check(match(0), "the entries are\n%s\nwant\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"))
		// a free name is taken as it is
		for _, r := range recs {
			b := lpName(r[4])
			if !oldNames[b] && b != "" {
				s.Check(names[b], "no entry is named %q", b)
			}
		}
		log = st.Log
		// and the shell sees them
		if len(recs) > 0 && k == runs-1 && c.Accept {
			a.Sub = nil
			s := a.Start().MustOpen(user, pass)
			d := s.Dump()
			s.Check(ref.EqualLogs(d.Log, log), "the shell sees another history")
			s.MustExit()
		}
	}
}

// lpShow shows the fields of an entry after its name.
func lpShow(e map[string]string, _ string) string {
	var ks []string
	for k := range e {
		if k != "name" && k != "updated" {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	o := e["name"] + "\x00"
	for _, k := range ks {
		v := e[k]
		if k == "labels" {
			// whatever becomes of characters that a label can not have
			v = strings.Map(func(r rune) rune {
				if r == ' ' || r == '_' || r == '-' || r == ',' || r == '\\' || r == '/' || r == '\n' || r == '\t' {
					return -1
				}
				return r
			}, v)
		}
		o += fmt.Sprintf(" %s=%q", k, v)
	}
	return o
}

func init() {
	fam := core.NewFamily("C27", "imports", runLpass)
	core.Register(&core.Check{
		ID: "C27", Level: "model_checking",
		Rule:        "one execution is a lpassimport run of the real program (terminal and key derivation replaced, lpass is a script) on a new or existing file; the file is read with an independent codec and the new entries are compared with the records; state = kind of file and what became of it",
		Assumptions: []string{"a carriage return before a line feed inside a value is not exercised", "characters of a folder's name that a label can not have may be dropped or replaced"},
		Run: func(ctx *core.Ctx) {
			base := LpRec{"https://x.y", "u", "p", "n", "site", "work", "0"}
			fam.Explore(ctx, "one record: all combinations of field values", func(y func(LpCase) bool) {
				fs := [7][]string{
					{"", "https://x.y/?a=1,2&b=\"q\"", "http://sn"}, {"", "u,1"}, {"", `p"q' `, " lead\n,x"}, {"", "NoteType:Server\nHost:h,\"i\"\n\nend"},
					{"Site", "a", "Two Words", "é/Ü", `q"x`, " B  c "}, {"", "Work", "Two Words", `A\B`}, {"0", "1"},
				}
				if ctx.Thorough() {
					fs[0] = append(fs[0], "é")
					fs[2] = append(fs[2], "\\", strings.Repeat("long ", 2000))
					fs[4] = append(fs[4], "user/x", "  x", "")
					fs[5] = append(fs[5], "a,b", "é")
				}
				dbs := []string{"some"}
				if ctx.Thorough() {
					dbs = []string{"new", "some", "multi"}
				}
				for _, db := range dbs {
					ix := [7]int{}
					for {
						var r LpRec
						for i := range r {
							r[i] = fs[i][ix[i]]
						}
						if !y(LpCase{DB: db, Recs: []LpRec{r}}) {
							return
						}
						i := 0
						for ; i < 7; i++ {
							ix[i]++
							if ix[i] < len(fs[i]) {
								break
							}
							ix[i] = 0
						}
						if i == 7 {
							break
						}
					}
				}
			})
			names := []string{"a", "A", "a1", "a b", "a_b", "a11", "B c"}
			fam.Explore(ctx, fmt.Sprintf("all lists of up to 3 of %d colliding names", len(names)), func(y func(LpCase) bool) {
				for _, db := range []string{"new", "some", "a1"} {
					for n := 0; n <= 3; n++ {
						if n == 3 && !ctx.Thorough() && db == "new" {
							continue
						}
						for _, q := range intSeqs(len(names), n) {
							c := LpCase{DB: db, Form: "header"}
							for i, k := range q {
								c.Recs = append(c.Recs, LpRec{"", fmt.Sprint("u", i), "", "", names[k], "", "0"})
							}
							if !y(c) {
								return
							}
						}
					}
				}
			})
			fam.Explore(ctx, "up to 12 (thorough 40) records of one name, into files with and without it", func(y func(LpCase) bool) {
				for _, db := range []string{"new", "some", "a1"} {
					for n := 4; n <= ctx.Pick(12, 40); n++ {
						for _, nm := range []string{"a", "A b", "new"} {
							c := LpCase{DB: db, Form: "header", Accept: true}
							for i := 0; i < n; i++ {
								c.Recs = append(c.Recs, LpRec{"", fmt.Sprint("u", i), "", "", nm, "", "0"})
							}
							if !y(c) {
								return
							}
						}
					}
				}
			})
			two := []LpRec{{"https://x", "u1", `p"1`, "l1\nl2", "One", "Gr", "1"}, {"", "u2", "p,2", "", "Two", "", "0"}}
			fam.Explore(ctx, "files, forms and answers", func(y func(LpCase) bool) {
				for _, db := range []string{"new", "empty", "some", "a1", "nosnap", "multi"} {
					for _, f := range []string{"lf", "crlf", "nonl", "quoted", "header"} {
						for _, tw := range []bool{false, true} {
							for _, an := range []string{"y", "Y", "n", "-", "yes", "N", "q", ctrlD, ctrlC, termErr} {
								c := LpCase{DB: db, Form: f, Recs: two, Twice: tw && (an == "y"), Ans: an, Accept: true}
								if f == "header" {
									c.Recs = nil
								}
								if !y(c) {
									return
								}
							}
						}
					}
				}
			})
			fam.Explore(ctx, "every truncation of the output, with and without failure", func(y func(LpCase) bool) {
				n := len(lpText(two, "\n", false))
				for _, db := range []string{"new", "some"} {
					for cut := 0; cut <= n; cut++ {
						for _, e := range []string{"0", "1"} {
							if !y(LpCase{DB: db, Recs: two, Cut: cut, Exit: e}) {
								return
							}
						}
					}
				}
			})
			fam.Explore(ctx, "failing, missing, noisy and unknown output", func(y func(LpCase) bool) {
				good := lpText(two, "\n", false)
				var outs []string
				for _, h := range []string{"", "url,username,password,totp,extra,name,grouping,fav", "url,username,password,extra,name,grouping", "URL,username,password,extra,name,grouping,fav",
					"url,username,password,extra,name,grouping,fav,x", " url,username,password,extra,name,grouping,fav", "username,url,password,extra,name,grouping,fav", "url;username;password;extra;name;grouping;fav", "<html>",
					"Error: Could not find decryption key. Perhaps you need to login with `lpass login`."} {
					outs = append(outs, strings.Replace(good, lpHeader, h, 1), h+"\n", h+"\n,,,,,,\n")
				}
				outs = append(outs, "\n", "\n\n", "garbage", "\x00\xff", good+"a,b\n", good+"a,b,c,d,e,f,g,h\n", good+"\"open", good+"x\"y,,,,,,\n", good+"\"x\"y,,,,,,\n", "\n"+good, good+"\n\n", strings.Replace(good, "\n", "\n\n", 1))
				for _, db := range []string{"new", "some", "multi"} {
					for _, o := range outs {
						if !y(LpCase{DB: db, Out: o}) {
							return
						}
					}
					for _, e := range []string{"1", "2", "127", "255", "kill", "missing", "noexec"} {
						for _, r := range [][]LpRec{nil, two} {
							for _, er := range []string{"", "Error: not logged in\n"} {
								if !y(LpCase{DB: db, Recs: r, Form: "header", Exit: e, Err: er}) {
									return
								}
							}
						}
					}
					for _, er := range []string{"warning: x\n", "w,a,r,n,i,n,g\n", "no newline", lpHeader + "\n", "\"", "\n"} {
						if !y(LpCase{DB: db, Recs: two, Err: er}) {
							return
						}
					}
					for _, f := range []string{"2", "2x"} { // odd favourites
						r := base
						r[6] = f
						if !y(LpCase{DB: db, Recs: []LpRec{r}}) {
							return
						}
					}
					if !y(LpCase{DB: db, Recs: two, Time: "2010-01-01 00:00:00"}) || !y(LpCase{DB: db, Recs: two, Time: "2100-01-01 00:00:00"}) {
						return
					}
				}
			})
			{
				fam.Explore(ctx, "many and large records", func(y func(LpCase) bool) {
					for _, n := range []int{2, 50, 130, 260, 520, 1030} {
						for _, sz := range []int{1, 300, 5000, 70000} {
							if n*sz > ctx.Pick(300000, 5000000) {
								continue
							}
							var rs []LpRec
							for i := 0; i < n; i++ {
								rs = append(rs, LpRec{"", fmt.Sprint("u", i), "", strings.Repeat("x", sz), fmt.Sprint("n", i%40), "", "0"})
							}
							if !y(LpCase{DB: "some", Recs: rs, Accept: true}) {
								return
							}
						}
					}
				})
			}
		},
	})
}
