package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/txlogs"
)

// ---------------------------------------------------------------------------------------------
// C29: the external editor

// EdCase is a list of edits of one key.
type EdCase struct {
	Key  string   `json:"key"`
	Old  string   `json:"old"` // "" not set
	New  []string `json:"new"`
	How  []string `json:"how"`            // what the editor does, see edHow
	Env  string   `json:"env,omitempty"`  // how the editor is chosen
	Plan string   `json:"plan,omitempty"` // disturbance of the operations on the temporary directory
	In   bool     `json:"in,omitempty"`   // from within the entry
	TMP  string   `json:"tmp,omitempty"`  // state of the temporary directory
	Uid  bool     `json:"uid,omitempty"`  // not as root
}

var edHow = map[string]string{
	"write":    `/bin/cat $N > "$1"`,
	"append":   `/bin/cat $N >> "$1"`,
	"keep":     `:`,
	"empty":    `: > "$1"`,
	"delete":   `/bin/rm -f "$1"`,
	"replace":  `/bin/cp $N "$1.n"; /bin/ln "$1.n" $E/link2; /bin/mv "$1.n" "$1"`,
	"backup":   `/bin/mv "$1" "$1~"; /bin/cat $N > "$1"; /bin/ln "$1" $E/link2; /bin/rm "$1~"`,
	"failkeep": `exit 1`,
	"fail":     `/bin/cat $N > "$1"; F="exit 3"`,
	"killed":   `/bin/cat $N > "$1"; F="kill -9 $$"`,
	"faildel":  `/bin/rm -f "$1"; F="exit 1"`,
	"failrepl": `/bin/cp $N "$1.n"; /bin/ln "$1.n" $E/link2; /bin/mv "$1.n" "$1"; F="exit 1"`,
	"dir":      `/bin/rm -f "$1"; /bin/mkdir "$1"`,
	"symlink":  `/bin/rm -f "$1"; /bin/ln -s $E/other "$1"`,
	"fifo":     `/bin/rm -f "$1"; /usr/bin/mkfifo "$1"`,
	"ro":       `/bin/cat $N > "$1"; /bin/chmod 400 "$1"`,
	"noperm":   `/bin/cat $N > "$1"; /bin/chmod 0 "$1"`,
	"int":      `trap '' INT; kill -INT 0; /bin/cat $N > "$1"`,
	"intdie":   `/bin/cat $N > "$1"; L; kill -INT 0`,
	"shrink":   `printf s > "$1"`,
}

// edScript is the editor.  It leaves evidence outside of the temporary directory.
func edScript(e, tmp, how string, i int) string {
	return fmt.Sprintf(`#!/bin/sh
E=%[1]s/%[4]d; N=%[1]s/new%[4]d
/bin/mkdir -p $E
/bin/chmod 777 $E
echo "$#" > $E/args
/usr/bin/stat -c '%%a %%F %%h' "$1" > $E/stat
/bin/ls -A %[2]s > $E/ls
/bin/cat "$1" > $E/seen
/bin/ln "$1" $E/link
F="exit 0"
L() { [ -f "$1" ] && [ ! -L "$1" ] && /bin/cat "$1" > $E/left; [ -f $E/link2 ] && /bin/cat $E/link2 > $E/left2; /bin/cat $E/link > $E/leftl; : > %[2]s.marker; }
set -- "$1"
%[3]s
[ -p "$1" ] || { [ -f "$1" ] && [ ! -L "$1" ] && /bin/cat "$1" > $E/left; }
/bin/cat $E/link > $E/leftl
[ -f $E/link2 ] && /bin/cat $E/link2 > $E/left2
: > %[2]s/.marker; /bin/rm %[2]s/.marker
$F
`, e, tmp, strings.ReplaceAll(how, " L;", " :;"), i)
}

// leaks says whether b has some of secret left.
func leaks(b, secret []byte) bool {
	if len(secret) == 0 {
		return false
	}
	if len(secret) < 8 {
		return bytes.Contains(b, secret)
	}
	for i := 0; i+5 <= len(secret); i++ {
		if bytes.Contains(b, secret[i:i+5]) {
			return true
		}
	}
	return false
}

func runEdit(x *core.X, c EdCase) {
	a := newApp(x)
	id := uid(1)
	f := []string{"name", "a", "user", "usr", "totp", shSecret}
	proc := false
	for i := 0; i < len(f); i += 2 {
		if f[i] == c.Key {
			if c.Old == "" && c.Key != "name" {
				c.Old = f[i+1]
			}
			proc = c.Key != "user"
			if !proc {
				f[i+1] = c.Old
			}
		}
	}
	prot := shProtected[strings.ToLower(c.Key)]
	if c.Old != "" && !proc && c.Key != "user" {
		f = append(f, c.Key, c.Old)
	}
	log := mkTxs(1000, Ent{id, f}, Ent{uid(2), []string{"name", "b", "k", "other"}})
	a.put("pw", log)
	ev := filepath.Join(a.Dir, "ev")
	tmp := filepath.Join(a.Dir, "tmp")
	os.Mkdir(ev, 0o777)
	os.Chmod(ev, 0o777)
	other := []byte("the contents of another file")
	for i := range c.How {
		os.WriteFile(filepath.Join(ev, fmt.Sprint("new", i)), []byte(c.New[i]), 0o644)
		os.Mkdir(filepath.Join(ev, fmt.Sprint(i)), 0o777)
		os.Chmod(filepath.Join(ev, fmt.Sprint(i)), 0o777)
		os.WriteFile(filepath.Join(ev, fmt.Sprint(i), "other"), other, 0o666)
	}
	if c.Uid {
		a.Uid = 65534
		os.Chown(a.File, 65534, 65534)
		os.Chmod(a.Dir, 0o777)
	}
	trace := ""
	if c.Plan != "" {
		trace = filepath.Join(a.Dir, "trace")
		a.Pre = []string{filepath.Join(os.Getenv("MC_TOOLS"), "ftrace"), trace, tmp, c.Plan}
	}
	name, runs := "ed", true
	switch c.Env {
	case "", "space":
		if c.Env == "space" {
			name = "my ed"
		}
		a.Env = append(a.Env, "EDITOR="+filepath.Join(a.Dir, "bin", name))
	case "path": // found in PATH
		a.Env = append(a.Env, "EDITOR=ed")
	case "vim", "code", "atom", "sublime", "emacs", "nano":
		name = c.Env
	case "none":
		runs = false
	case "missing":
		runs = false
		a.Env = append(a.Env, "EDITOR="+filepath.Join(a.Dir, "bin", "nothing"))
	case "noexec":
		runs = false
		os.WriteFile(filepath.Join(a.Dir, "bin", "noexec"), []byte("x"), 0o644)
		a.Env = append(a.Env, "EDITOR="+filepath.Join(a.Dir, "bin", "noexec"))
	case "badexec":
		runs = false
		a.Script("badexec", "#!/nonexistent\n")
		a.Env = append(a.Env, "EDITOR="+filepath.Join(a.Dir, "bin", "badexec"))
	case "dir":
		runs = false
		a.Env = append(a.Env, "EDITOR="+a.Dir)
	}
	switch c.TMP {
	case "missing":
		runs = false
		a.Env = append(a.Env, "TMPDIR="+filepath.Join(a.Dir, "nothing"))
	case "file":
		runs = false
		a.Env = append(a.Env, "TMPDIR="+a.File)
	}
	s := a.Start().MustOpen("", "pw")
	d := s.Dump()
	s.Check(ref.EqualLogs(d.Log, log), "opening shows another history")
	if c.In {
		s.Do("cd a")
	}
	cur := c.Old
	for i, how := range c.How {
		if c.Env != "none" && c.Env != "missing" {
			a.Script(name, edScript(ev, tmp, edHow[how], i))
		}
		before := noTimes(stateOf(x, d.Log))
		s.Out()
		line := "edit a " + c.Key
		if c.In {
			line = "edit " + c.Key
		}
		s.Send(line)
		s.Check(s.Cur.Main(), "%q with an editor that does %q: %v (status %d)", line, how, s.Cur, s.Code)
		out := s.Out()
		e := filepath.Join(ev, fmt.Sprint(i))
		rd := func(n string) ([]byte, bool) {
			b, err := os.ReadFile(filepath.Join(e, n))
			return b, err == nil
		}
		seen, ran := rd("seen")
		left, hasLeft := rd("left")
		args, _ := rd("args")
		st, _ := rd("stat")
		ls, _ := rd("ls")
		d2 := s.Dump()
		s.Check(len(d2.Log) >= len(d.Log) && ref.EqualLogs(d2.Log[:len(d.Log)], d.Log), "history was rewritten")
		after := noTimes(stateOf(x, d2.Log))
		plain := c.Plan == "" || c.Plan == "-"
		if plain && !prot {
			s.Check(ran == runs, "the editor was run: %v, should be: %v", ran, runs)
		}
		if ran {
			s.Check(strings.TrimSpace(string(args)) == "1", "the editor is called with %s arguments", args)
			if plain {
				s.Check(strings.HasPrefix(string(st), "600 regular"), "the temporary file is %s", st)
			}
			s.Check(string(seen) == cur || !plain && len(seen) == 0, "the editor sees %q instead of %q", tail(string(seen), 200), tail(cur, 200))
			s.Check(len(strings.Fields(string(ls))) <= 1, "the temporary directory has %q", ls)
		}
		// what is stored
		stored := ran && hasLeft && !strings.HasPrefix(how, "fail") && how != "killed"
		maybe := how == "noperm" && c.Uid || how == "ro" && c.Uid || how == "symlink" || strings.HasPrefix(how, "int") || !plain
		want := noTimes(stateOf(x, d.Log))
		same := sameState(after, want)
		switch {
		case prot:
			ok := same
			if c.Key == "totp" && len(left) == 0 && hasLeft {
				delete(want[id], "totp")
				ok = ok || sameState(after, want)
			}
			s.Check(ok, "editing %q changed it:\n%s", c.Key, after.Show())
			s.Check(len(strings.TrimSpace(out)) > 0, "the refusal is silent")
			s.Check(!strings.Contains(out, "set "+c.Key), "claims to have set %q", c.Key)
			want = after
		case !plain:
			// the editor is disturbed as well
			v, ok := after[id][c.Key]
			fine := same || v == c.New[i] && ok || hasLeft && v == string(left)
			want[id][c.Key] = v
			if !ok {
				delete(want[id], c.Key)
			}
			s.Check(fine && sameState(after, want), "the value is %q, the editor left %q", tail(v, 300), left)
			if same && cur != c.New[i] {
				s.Check(strings.TrimSpace(out) != "", "nothing is reported")
			}
		case stored:
			if len(left) == 0 {
				delete(want[id], c.Key)
			} else {
				want[id][c.Key] = string(left)
			}
			if maybe && same {
				s.Check(!plain || strings.TrimSpace(out) != "", "nothing is reported")
				if string(left) != cur {
					s.Check(strings.TrimSpace(out) != "", "nothing is reported")
				}
				want = before
			} else {
				s.Check(sameState(after, want), "the value is %q instead of %q", tail(after[id][c.Key], 300), tail(string(left), 300))
			}
		case how == "symlink" && ran:
			want[id][c.Key] = string(other)
			s.Check(same || sameState(after, want), "the value is %q", after[id][c.Key])
			want = after
		default:
			s.Check(same, "the editor failed (%s), but there are changes:\n%s", how, after.Show())
			s.Check(strings.TrimSpace(out) != "", "nothing is reported")
		}
		cur = after[id][c.Key]
		_ = want
		// nothing is left behind
		unlinkFails := false
		if trace != "" && !plain {
			for _, o := range readOps(trace) {
				if strings.HasPrefix(o.Name, "unlink") && o.Ret < 0 {
					unlinkFails = true
				}
			}
		}
		des, _ := os.ReadDir(tmp)
		for _, de := range des {
			if de.Name() == filepath.Base(tmp)+".marker" || unlinkFails {
				continue
			}
			b, _ := os.ReadFile(filepath.Join(tmp, de.Name()))
			s.Fail("the editor did %q: %q is left in the temporary directory: %q", how, de.Name(), tail(string(b), 100))
		}
		if plain && ran {
			for _, l := range [][2]string{{"link", "leftl"}, {"link2", "left2"}} {
				b, ok := rd(l[0])
				was, _ := rd(l[1])
				if !ok {
					continue
				}
				s.Check(!leaks(b, was), "the editor did %q: the removed file %s still has %q", how, l[0], tail(string(b), 200))
			}
		}
		if o, ok := rd("other"); ok {
			s.Check(bytes.Equal(o, other), "another file was overwritten")
		}
		if c.Plan == "-" {
			edOverwritten(s, readOps(trace), left, hasLeft)
		}
		x.Outcome(fmt.Sprintf("%s stored=%v ran=%v", how, stored && !same, ran))
		x.State(fmt.Sprint(how, prot, ran, hasLeft, same, len(cur) == 0))
		d = d2
	}
	if c.In {
		s.Do("cd")
	}
	s.MustExit()
	_, st, err := readFile(a.bytes(), "", "pw")
	s.Check(err == nil && ref.EqualLogs(st.Log, d.Log), "the file has another history")
	_ = txlogs.TxAdd
}

// edOverwritten checks in the record of operations that the contents are overwritten and not only
// cut off before the file is removed.
func edOverwritten(s *Sess, ops []fsOp, left []byte, has bool) {
	mark := -1
	for i, o := range ops {
		if strings.HasSuffix(o.Path, ".marker") {
			mark = i
		}
	}
	if mark < 0 || !has || len(left) == 0 {
		return
	}
	covered := int64(0)
	for _, o := range ops[mark:] {
		switch {
		case strings.Contains(o.Name, "write") && o.Ret > 0 && strings.HasSuffix(o.Path, ".txt"):
			if leaks(o.Data, left) {
				continue
			}
			off := o.Off
			if off <= covered && off+o.Ret > covered {
				covered = off + o.Ret
			}
		case strings.HasPrefix(o.Name, "unlink") && o.Ret == 0 && !strings.HasSuffix(o.Path, ".marker"):
			s.Check(covered >= int64(len(left)), "only %d of %d bytes were overwritten before %s was removed", covered, len(left), filepath.Base(o.Path))
			return
		}
	}
	s.Fail("the file is not removed:\n%v", ops)
}

func init() {
	fam := core.NewFamily("C29", "edits", runEdit)
	core.Register(&core.Check{
		ID: "C29", Level: "fault_enumeration",
		Rule:        "one execution is a session of the real program (terminal and key derivation replaced) with edits through an editor stand-in that keeps links to the files it is given; state = editor's behaviour and what became of the value",
		Assumptions: []string{"values are valid UTF-8", "the program is not killed while the editor runs (an interrupt for the editor is covered)"},
		Run: func(ctx *core.Ctx) {
			vals := []string{"", "x", "oldvalue-0123456789", "two\nlines\n", "no end\nnewline", "é日本 \t\"\\", " lead trail ", " ", "\n", " \t\r\n", "x\n", "\x00nul", strings.Repeat("0123456789abcdef\n", 600), strings.Repeat("0123456789abcdef\n", 4200)}
			var hows []string
			for h := range edHow {
				hows = append(hows, h)
			}
			hows = sorted(hows)
			fam.Explore(ctx, "every pair of values written, appended, replaced", func(y func(EdCase) bool) {
				for _, k := range []string{"k", "notes", "pass"} {
					for _, h := range []string{"write", "append", "replace", "backup", "keep", "fail", "failrepl"} {
						for _, o := range vals {
							for _, n := range vals {
								if k != "k" && h != "write" && !ctx.Thorough() {
									continue
								}
								if !y(EdCase{Key: k, Old: o, New: []string{n}, How: []string{h}}) {
									return
								}
							}
						}
					}
				}
			})
			fam.Explore(ctx, "every behaviour on every kind of key", func(y func(EdCase) bool) {
				for _, k := range []string{"k", "notes", "pass", "user", "labels", "url", "email", "sync", "name", "totp", "updated", "iv", "salt", "mkey", "Name", "TOTP", "uPdated", "é", "-k", "*"} {
					for _, h := range hows {
						for _, in := range []bool{false, true} {
							for _, u := range []bool{false, true} {
								for _, o := range []string{"", "longer old value"} {
									if (in || u) && o == "" && !ctx.Thorough() {
										continue
									}
									if prot := shProtected[strings.ToLower(k)]; prot && o != "" && k != "name" && k != "totp" {
										continue
									}
									if k == "name" {
										o = "a"
									} else if k == "totp" {
										o = shSecret
									} else if k == "updated" {
										continue
									}
									if !y(EdCase{Key: k, Old: o, New: []string{"new-value-that-is-much-longer-than-the-old-one"}, How: []string{h}, In: in, Uid: u}) {
										return
									}
								}
							}
						}
					}
				}
			})
			fam.Explore(ctx, "all pairs of edits in one session", func(y func(EdCase) bool) {
				for _, h1 := range hows {
					for _, h2 := range hows {
						for _, o := range []string{"", "longer old value"} {
							if o == "" && !ctx.Thorough() {
								continue
							}
							if !y(EdCase{Key: "k", Old: o, New: []string{"first new value, longer than the other", "second one"}, How: []string{h1, h2}}) {
								return
							}
						}
					}
				}
			})
			fam.Explore(ctx, "choice of the editor and temporary directories", func(y func(EdCase) bool) {
				for _, e := range []string{"", "space", "path", "vim", "code", "atom", "sublime", "emacs", "nano", "none", "missing", "noexec", "badexec", "dir"} {
					for _, t := range []string{"", "missing", "file"} {
						for _, o := range []string{"", "old value"} {
							if !y(EdCase{Key: "k", Old: o, New: []string{"new value"}, How: []string{"write"}, Env: e, TMP: t}) {
								return
							}
						}
					}
				}
			})
			fam.Explore(ctx, "contents are overwritten, from the record of operations", func(y func(EdCase) bool) {
				for _, h := range []string{"write", "append", "keep", "replace", "fail", "failkeep", "shrink", "killed", "failrepl"} {
					for _, o := range vals {
						if !y(EdCase{Key: "k", Old: o, New: []string{"new value, longer than the old"}, How: []string{h}, Plan: "-"}) {
							return
						}
					}
				}
			})
			fam.Explore(ctx, "an error or a short transfer at every operation on the temporary directory", func(y func(EdCase) bool) {
				hs := []string{"write", "keep"}
				if ctx.Thorough() {
					hs = []string{"write", "keep", "replace", "fail", "append"}
				}
				for _, h := range hs {
					for k := 1; k <= 40; k++ {
						for _, p := range []string{"e5", "e28", "e13", "s1"} {
							for _, o := range []string{"", "old value, not short"} {
								if !y(EdCase{Key: "k", Old: o, New: []string{"new"}, How: []string{h}, Plan: fmt.Sprintf("%d:%s", k, p)}) {
									return
								}
							}
						}
					}
				}
			})
		},
	})
}
