package checks

import (
	"fmt"
	"strings"

	"bpassmc/core"
	"bpassmc/ref"
)

// Properties of the library that the shell shows as well: the same sessions as for C32, over the
// lines that exercise one property.

// shSeqs are all sequences of up to n of the lines on the given databases.
func shSeqs(ctx *core.Ctx, fam *core.Family[ShCase], what string, n int, dbs []string, ls []ShLine) {
	fam.Explore(ctx, fmt.Sprintf("shell, %s: all sequences of %d out of %d lines on %q", what, n, len(ls), dbs), func(y func(ShCase) bool) {
		var rec func(db string, cur []ShLine) bool
		rec = func(db string, cur []ShLine) bool {
			if len(cur) == n {
				return y(ShCase{db, append([]ShLine{}, cur...)})
			}
			for _, l := range ls {
				if !rec(db, append(cur, l)) {
					return false
				}
			}
			return true
		}
		for _, db := range dbs {
			if !rec(db, nil) {
				return
			}
		}
	})
}

// shBatch types many lines into few sessions.
func shBatch(ctx *core.Ctx, fam *core.Family[ShCase], what, db string, size int, ls []ShLine) {
	fam.Explore(ctx, fmt.Sprintf("shell, %s: %d lines on %q", what, len(ls), db), func(y func(ShCase) bool) {
		for i := 0; i < len(ls); i += size {
			if !y(ShCase{db, ls[i:min(i+size, len(ls)):min(i+size, len(ls))]}) {
				return
			}
		}
	})
}

func plain(ls ...string) (out []ShLine) {
	for _, l := range ls {
		f := strings.Fields(l)
		var al []string
		cmd := ""
		if len(f) > 0 {
			cmd, al = f[0], f[1:]
		}
		out = append(out, ShLine{L: l, A: shAnswers(cmd, al)})
	}
	return
}

// casings are all letter cases of a word.
func casings(k string) []string {
	out := []string{""}
	for _, c := range k {
		var nx []string
		for _, o := range out {
			nx = append(nx, o+string(c), o+strings.ToUpper(string(c)))
		}
		out = nx
	}
	return out
}

// C03: what "show ENTRY N" shows
var famC03 = core.NewFamily("C03", "shell", runShell)

func shellHistory(ctx *core.Ctx) {
	fam := famC03
	var ls []ShLine
	for _, e := range []string{"a", "ab", "b/c", "Zé"} {
		for n := -3; n <= 30; n++ {
			ls = append(ls, ShLine{L: fmt.Sprintf("show %s %d", e, n)})
		}
	}
	shBatch(ctx, fam, "every number of versions ago of every entry", "single", 20, ls)
	ops := plain("set a k new", "rmk a user", "mv a c", "rm ab", "add ab", "label a", "rmlabel a l1", "set a pass q")
	fam.Explore(ctx, "shell, history after edits", func(y func(ShCase) bool) {
		for _, seq := range lists(ops, ctx.Pick(2, 3)) {
			c := append([]ShLine{}, seq...)
			for _, e := range []string{"a", "ab", "c"} {
				for _, n := range []int{0, 1, 2, 3, 4, 5, 6, 14, 20} {
					c = append(c, ShLine{L: fmt.Sprintf("show %s %d", e, n)})
				}
			}
			if !y(ShCase{"single", c}) {
				return
			}
		}
	})
}

// C13: names stay unique whatever is typed
var famC13 = core.NewFamily("C13", "shell", func(x *core.X, c ShCase) {
	a, s, m := shOpen(x, c.DB)
	for _, l := range c.Lines {
		shLine(x, a, s, m, l)
		d := s.Dump()
		seen := map[string]bool{}
		for _, e := range stateOf(x, d.Log) {
			s.Check(!seen[e["name"]], "two entries are called %q", e["name"])
			seen[e["name"]] = true
		}
	}
})

func shellNames(ctx *core.Ctx) {
	fam := famC13
	ls := plain("add a", "add c", "mv a c", "mv c a", "mv ab a", "mv a b/c", "rm a", "rm ab", "addsync file", "mv sync/file a", "mv a sync/file", "rm sync/file", "set a name ab", "add A", "mv a A")
	ls = append(ls, ShLine{L: "add a", A: []string{"", "", "m", "x", "x"}}, ShLine{L: "add c", A: []string{ctrlD}})
	shSeqs(ctx, fam, "creating, renaming and deleting", ctx.Pick(2, 3), []string{"single"}, ls)
	shSeqs(ctx, fam, "creating, renaming and deleting", ctx.Pick(3, 4), []string{"empty"}, plain("add a", "add c", "mv a c", "mv c a", "rm a", "addsync file", "mv sync/file a"))
	shSeqs(ctx, fam, "users", 2, []string{"multi"}, plain("adduser u2", "adduser u3", "adduser", "add user/u3", "mv user/u2 user/u3", "mv user/u2 user/u1", "rm user/u2", "mv a user/u2", "mv user/u2 a"))
}

// C14: protected keys and lookups
var famC14 = core.NewFamily("C14", "shell", runShell)

func shellFields(ctx *core.Ctx) {
	fam := famC14
	var root, in []ShLine
	in = append(in, ShLine{L: "cd a"})
	for _, k := range []string{"name", "updated", "iv", "salt", "mkey", "totp", "pass", "url", "notes", "labels", "sync"} {
		vs := casings(k)
		if len(k) > 4 && !ctx.Thorough() {
			vs = []string{k, strings.ToUpper(k), strings.ToUpper(k[:1]) + k[1:], k[:len(k)-1] + strings.ToUpper(k[len(k)-1:])}
		}
		for _, v := range vs {
			root = append(root, plain("set a "+v+" 5", "rmk a "+v, "set ab "+v+" x:1", "rmk ab "+v)...)
			in = append(in, plain("set "+v+" 5", "rmk "+v)...)
		}
	}
	shBatch(ctx, fam, "set and rmk of system keys in all letter cases", "single", 12, root)
	// every session of the second kind starts inside the entry
	fam.Explore(ctx, fmt.Sprintf("shell, the same inside the entry: %d lines", len(in)-1), func(y func(ShCase) bool) {
		for i := 1; i < len(in); i += 12 {
			if !y(ShCase{"single", append([]ShLine{in[0]}, in[i:min(i+12, len(in))]...)}) {
				return
			}
		}
	})
	var us []ShLine
	for _, k := range []string{"name", "updated", "iv", "salt", "mkey", "IV", "Salt", "MKEY", "totp"} {
		for _, u := range []string{"user/u1", "user/u2"} {
			us = append(us, plain("set "+u+" "+k+" 00", "rmk "+u+" "+k, "edit "+u+" "+k)...)
		}
	}
	shBatch(ctx, fam, "keys of users", "multi", 6, us)
	shSeqs(ctx, fam, "edits", 2, []string{"single"}, plain("set a k v1", "set a k v1", "set b/c k v", "rmk a k", "rmk a none", "set a user", "set a notes", "mv a c", "set c k x", "cd a", "set k y", "rmk user", "get a k", "get k"))
}

// C15: what ls and labels list
var famC15 = core.NewFamily("C15", "shell", runShell)

func shellSearch(ctx *core.Ctx) {
	fam := famC15
	var ls []ShLine
	for _, q := range strs([]string{"a", "b", "c", "/", "Z", "z", "é", "A"}, ctx.Pick(3, 4)) {
		ls = append(ls, ShLine{L: "ls " + q})
	}
	for _, q := range argLists([]string{"l1", "l2", "l3", "l", "L1", "l1,l2", ",", "zz"}, 3) {
		ls = append(ls, ShLine{L: strings.Join(append([]string{"labels"}, q...), " ")})
	}
	shBatch(ctx, fam, "queries", "single", 60, ls)
	qs := plain("ls", "ls a", "ls c", "ls b/", "labels l1", "labels l2 l1", "labels new")
	ops := plain("add c", "add b/d", "mv a c", "rm a", "rm b/c", "label ab", "rmlabel b/c l1", "rmlabel a l2", "mv b/c b/a")
	fam.Explore(ctx, "shell, queries after edits", func(y func(ShCase) bool) {
		for _, seq := range lists(ops, ctx.Pick(2, 3)) {
			var c []ShLine
			for _, o := range seq {
				c = append(append(c, o), qs...)
			}
			if !y(ShCase{"single", c}) {
				return
			}
		}
	})
}

// C16: the label commands
func init() {
	fam := core.NewFamily("C16", "shell", runShell)
	shellLabels = func(ctx *core.Ctx) {
		var ls []ShLine
		for _, e := range []string{"a", "ab", "b/c", "Zé"} {
			ls = append(ls, ShLine{L: "label " + e, A: []string{"x", ""}}, ShLine{L: "label " + e, A: []string{"l1", "y", "x", "."}})
			for _, l := range []string{"l1", "l2", "l3", "x"} {
				ls = append(ls, ShLine{L: "rmlabel " + e + " " + l})
			}
		}
		ls = append(ls, plain("rmlabel a l", "rmlabel a L1", "rmlabel a l1,l2", "rmlabel a", "rmlabel zz l1", "label zz", "label", "rmlabel")...)
		shSeqs(ctx, fam, "labels of four entries", 2, []string{"single"}, ls)
		var one []ShLine
		for _, l := range []string{"l1", "l2", "x", "y"} {
			one = append(one, ShLine{L: "label", A: []string{l, ""}}, ShLine{L: "rmlabel " + l})
		}
		one = append(one, ShLine{L: "label", A: []string{"x", "y", "z", ""}})
		fam.Explore(ctx, "shell, labels of the entered entry", func(y func(ShCase) bool) {
			for _, e := range []string{"a", "b/c", "Zé"} {
				for _, seq := range lists(one, ctx.Pick(3, 4)) {
					if len(seq) == ctx.Pick(3, 4) && !y(ShCase{"single", append([]ShLine{{L: "cd " + e}}, seq...)}) {
						return
					}
				}
			}
		})
		// lists that were set by hand
		odd := []string{"x", " x", "x ", "X", "xx", "", "l1"}
		fam.Explore(ctx, "shell, labels that were set as a list", func(y func(ShCase) bool) {
			for _, l := range lists(odd, 3) {
				for _, o := range []ShLine{{L: "rmlabel a x"}, {L: "rmlabel a X"}, {L: "rmlabel a xx"}, {L: "label a", A: []string{"x", ""}}, {L: "label a", A: []string{"xx", ""}}} {
					if len(l) > 0 && !y(ShCase{"single", []ShLine{{L: "set a labels " + strings.Join(l, ",")}, o}}) {
						return
					}
				}
			}
		})
		// every label of odd shape, alone and between good ones; every end of input
		words := []string{"x", "l1", "X", "xY", "É", "é", "x y", " x", "x ", "x,y", ",", ",x", "\t", "x\ty", "İ", "ß", "\u00a0x", "0", "-", "l1l2", "l", strings.Repeat("q", 300)}
		ends := []string{"", ".", ctrlD, ctrlC, termErr}
		fam.Explore(ctx, fmt.Sprintf("shell, what is offered as labels: pairs of %d texts and %d ends", len(words), len(ends)), func(y func(ShCase) bool) {
			for _, e := range []string{"a", "Zé"} {
				for _, w := range argLists(words, 2) {
					for _, end := range ends {
						if end != "" && len(w) > 1 && !ctx.Thorough() {
							continue
						}
						if !y(ShCase{"single", []ShLine{{L: "label " + e, A: append(append([]string{}, w...), end)}, {L: "show " + e}}}) {
							return
						}
					}
				}
			}
		})
	}
}

// C17: two-factor secrets and codes in the shell
var famC17 = core.NewFamily("C17", "shell", runShell)

func shellTotp(ctx *core.Ctx) {
	fam := famC17
	var ls []ShLine
	for _, e := range []string{"a", "ab"} {
		for _, v := range []string{"", " JBSWY3DPEHPK3PXP", " otpauth://totp/x?secret=JBSWY3DPEHPK3PXP&digits=8", " otpauth://hotp/x?secret=JBSWY3DPEHPK3PXP", " 1", " otpauth://totp/x"} {
			ls = append(ls, ShLine{L: "set " + e + " totp" + v})
		}
		ls = append(ls, plain("rmk "+e+" totp", "totp "+e, "cp "+e+" totp", "get "+e+" totp", "login "+e)...)
	}
	ls = append(ls, plain("totp b/c", "totp", "cd a", "cd ab", "set totp JBSWY3DPEHPK3PXP", "rmk totp")...)
	shSeqs(ctx, fam, "secrets and codes", 2, []string{"single"}, ls)
	if ctx.Thorough() {
		shSeqs(ctx, fam, "secrets and codes", 3, []string{"single"}, ls)
	}
}

// C09: the program and damaged files
var famC09 = core.NewFamily("C09", "program", runDamaged)

func init() {
	us := []ref.FileUser{{Name: "u0", Pass: "pw"}, {Name: "u1", Pass: "pw1"}}
	log := shLog()[:4]
	damageFiles["db"] = ref.File{Pass: "pw", Payload: payloadOf(log, len(log))}
	mlog := append(mkTxs(100, userEntry(uid(100), us[0], shMaster), userEntry(uid(101), us[1], shMaster)), log...)
	damageFiles["mdb"] = ref.File{Users: us, Master: shMaster, Payload: payloadOf(mlog, -1)}
}

func runDamaged(x *core.X, c DamageCase) {
	a := newApp(x)
	b := applyDamage(c)
	good := string(b) == string(damageFile(c.File))
	a.write(b)
	s := a.Start()
	for n := 0; n < 3 && s.Cur.Kind != "exit" && !s.Cur.Main(); n++ {
		if s.Cur.Kind == "line" && strings.Contains(s.Cur.Text, "user") {
			s.Send("u0")
		} else {
			s.Send("pw")
		}
	}
	s.NoCrash()
	if good {
		s.Check(s.Cur.Main(), "the undamaged file is not opened")
		s.Send(ctrlC)
		x.Outcome("opened")
		return
	}
	s.Check(!s.Cur.Main(), "the damaged file is opened")
	if s.Cur.Kind != "exit" {
		s.Send(ctrlC)
	}
	s.Check(s.Cur.Kind == "exit" && s.Code != 0, "damaged file: %v, status %d", s.Cur, s.Code)
	s.Check(strings.TrimSpace(s.All()) != "", "nothing is reported")
	s.Check(string(b) == string(a.bytes()), "the damaged file was changed")
	x.State(fmt.Sprint(c))
	x.Outcome("refused")
}

func programDamage(ctx *core.Ctx) {
	for _, f := range []string{"db", "mdb"} {
		n := len(damageFile(f))
		famC09.Explore(ctx, f+" opened with the program: changes of every byte, every truncation", func(y func(DamageCase) bool) {
			for i := 0; i < n; i++ {
				for _, v := range []int{1, 128, 255} {
					if v != 1 && !ctx.Thorough() && i >= 16 {
						continue
					}
					if !y(DamageCase{f, "xor", i, v}) {
						return
					}
				}
				if !y(DamageCase{f, "truncate", i, 0}) {
					return
				}
			}
			for k := 0; k <= 33; k++ {
				y(DamageCase{f, "append", k, 0})
			}
		})
	}
}
