package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"bpassmc/core"
	"bpassmc/ref"
)

// ---------------------------------------------------------------------------------------------
// C35: the file that is asked for is opened, and no other

// WhCase: which files there are, and how one is asked for.
type WhCase struct {
	Flag []string `json:"flag,omitempty"` // arguments; D, E, F stand for the three files, ~ for the home directory, . for the current
	Env  *string  `json:"env,omitempty"`  // $BPASS, likewise
	Want string   `json:"want"`           // D, E or F
	Have string   `json:"have"`           // the files that are there
	Cmd  string   `json:"cmd"`            // shell, look, export, import, past, version, gen, wrong
	Home string   `json:"home,omitempty"` // unset
	Link string   `json:"link,omitempty"` // the wanted file is a link to it, or is a directory
	Name string   `json:"name,omitempty"` // of the files E and F, {H} is the home directory
}

func runWhich(x *core.X, c WhCase) {
	a := newApp(x)
	home := filepath.Join(a.Dir, "home")
	base := c.Name
	if base == "" {
		base = "vault.bp"
	}
	path := map[string]string{"D": filepath.Join(home, ".bpass"), "E": filepath.Join(a.Dir, "env", base), "F": filepath.Join(a.Dir, "flag", base)}
	if c.Home == "unset" {
		path["D"] = filepath.Join(a.Dir, ".bpass")
		a.Env = append(a.Env, "HOME=")
	}
	for _, d := range []string{"env", "flag"} {
		os.Mkdir(filepath.Join(a.Dir, d), 0o777)
	}
	sub := func(s string) string {
		r := strings.NewReplacer("{D}", path["D"], "{E}", path["E"], "{F}", path["F"], "{rD}", "home/.bpass", "{rE}", "env/"+base, "{rF}", "./flag/../flag/"+base, "{lD}", filepath.Join(home)+"/./.bpass")
		if s = r.Replace(s); c.Link == "updir" {
			s = strings.ReplaceAll(s, "/../flag", "/.")
		}
		return s
	}
	log := func(k string) []Ent {
		return []Ent{{uid(1), []string{"name", "only in " + k, "k", "v" + k}}}
	}
	old := map[string][]byte{}
	others := map[string]bool{}
	for _, k := range []string{"D", "E", "F"} {
		if !strings.Contains(c.Have, k) {
			continue
		}
		txs := mkTxs(1000, log(k)...)
		b := ref.File{Pass: "pass" + k, Payload: payloadOf(txs, len(txs))}.Encode(ref.StubKDF)
		old[k] = b
		p := path[k]
		if c.Link == "updir" && k == c.Want { // a link below a linked directory, upwards
			d := filepath.Dir(p)
			os.RemoveAll(d)
			os.MkdirAll(filepath.Join(a.Dir, "deep", "er"), 0o777)
			os.Symlink(filepath.Join("deep", "er"), d)
			os.Symlink(filepath.Join("..", "target.bp"), p)
			p = filepath.Join(a.Dir, "deep", "target.bp")
		}
		if c.Link == "link" && k == c.Want {
			p = filepath.Join(a.Dir, "target.bp")
			os.Symlink(p, path[k])
		}
		if err := os.WriteFile(p, b, 0o600); err != nil {
			core.Harness("%v", err)
		}
	}
	if c.Link == "dir" {
		os.Mkdir(path[c.Want], 0o777)
	}
	if strings.Contains(c.Have, "X") { // files that nobody asks for
		for _, n := range []string{"", "home", "env", "flag", "bin"} {
			for _, f := range []string{".bpass", "bpass", "vault.bp", ".bpass.bak", "vault", "xdg"} {
				p := filepath.Join(a.Dir, n, f)
				if p == path["D"] || p == path["E"] || p == path["F"] {
					continue
				}
				txs := mkTxs(1000, log(p)...)
				os.WriteFile(p, ref.File{Pass: "passX", Payload: payloadOf(txs, len(txs))}.Encode(ref.StubKDF), 0o600)
				others[p] = true
			}
		}
	}
	a.NoFile = true
	for _, f := range c.Flag {
		a.Args = append(a.Args, sub(f))
	}
	if c.Env != nil {
		a.Env = append(a.Env, "BPASS="+sub(*c.Env))
	}
	csv := filepath.Join(a.Dir, "e.csv")
	switch c.Cmd {
	case "export":
		a.Sub = []string{"export", csv}
	case "import":
		a.Script("lpass", "#!/bin/sh\necho "+lpHeader+"\necho ',u,p,,imported,,0'\n")
		a.Sub = []string{"lpassimport"}
	case "past":
		a.Args = append(a.Args, "-t", "2100-01-01 00:00:00")
	case "version", "gen":
		a.Sub = []string{c.Cmd}
	}
	before := scFiles(a.Dir)
	was := map[string]string{}
	for p := range others {
		b, _ := os.ReadFile(p)
		was[p] = string(b)
	}
	s := a.Start()
	pass := "pass" + c.Want
	if c.Cmd == "wrong" {
		pass = "wrong"
	}
	created := old[c.Want] == nil
	added := ""
	if c.Link == "dir" {
		s.Check(c.Cmd == "version" || c.Cmd == "gen" || s.Cur.Kind == "exit" && s.Code != 0, "a directory is opened: %v, status %d", s.Cur, s.Code)
	}
	switch {
	case c.Cmd == "version":
		s.Check(s.Cur.Kind == "exit" && s.Code == 0, "version asks %v, status %d", s.Cur, s.Code)
	case c.Cmd == "gen":
		s.Check(s.Cur.Kind == "line", "gen: %v", s.Cur)
		s.Send("y")
		s.Check(s.Cur.Kind == "exit" && s.Code == 0, "gen asks %v, status %d", s.Cur, s.Code)
	case c.Link == "dir":
	default:
		s.Open("", pass)
		if created {
			s.Check(s.Cur.Kind == "hidden", "the new file's passphrase is not verified: %v", s.Cur)
			s.Send(pass)
		}
		switch c.Cmd {
		case "wrong":
			if created {
				s.Check(s.Cur.Main(), "new file: %v", s.Cur)
				s.Send(ctrlC)
			}
			s.Check(s.Cur.Kind == "exit" && s.Code != 0, "%v, status %d", s.Cur, s.Code)
		case "shell", "look", "past":
			s.Check(s.Cur.Main(), "the wanted file %s does not open with its passphrase: %v", c.Want, s.Cur)
			out, _, _ := s.Cmd("ls")
			if !created {
				s.Check(strings.TrimSpace(out) == "only in "+c.Want, "lists %q", out)
			}
			if c.Cmd == "shell" {
				s.Send("add new")
				for n := 0; !s.Cur.Main() && n < 5; n++ {
					v := ""
					if strings.HasPrefix(strings.TrimSpace(s.Cur.Text), "u/l/n") {
						v = "y"
					}
					s.Send(v)
				}
				s.Check(s.Cur.Main(), "add: %v", s.Cur)
				added = "new"
			}
			s.MustExit()
		default:
			for n := 0; s.Cur.Kind != "exit" && n < 5; n++ {
				s.Send("y")
			}
			s.Check(s.Cur.Kind == "exit" && s.Code == 0, "%v, status %d", s.Cur, s.Code)
			if c.Cmd == "import" {
				added = "imported"
			}
			if c.Cmd == "export" && !created {
				b, _ := os.ReadFile(csv)
				s.Check(bytes.Contains(b, []byte("v"+c.Want)), "the export has %q", b)
			}
		}
	}
	s.NoCrash()
	// what is there now
	saves := c.Cmd == "shell" || c.Cmd == "look" || c.Cmd == "import" || c.Cmd == "export"
	for k, p := range path {
		b, err := os.ReadFile(p)
		if k == c.Want && c.Link == "dir" {
			continue
		}
		if k != c.Want || !saves {
			if old[k] == nil {
				s.Check(os.IsNotExist(err), "the file %s (%s) was made", k, p)
			} else {
				s.Check(err == nil && bytes.Equal(b, old[k]), "the file %s (%s) was changed", k, p)
			}
			continue
		}
		if c.Link == "link" {
			t, err := os.Readlink(p)
			s.Check(err == nil && t == filepath.Join(a.Dir, "target.bp"), "the link was replaced")
		}
		if c.Link == "updir" {
			t, err := os.Readlink(p)
			s.Check(err == nil && t == filepath.Join("..", "target.bp"), "the link was replaced")
			_, err = os.Lstat(filepath.Join(a.Dir, "target.bp"))
			s.Check(os.IsNotExist(err), "the file was saved elsewhere")
		}
		s.Check(err == nil, "the wanted file %s is not there: %v", k, err)
		_, d, err := readFile(b, "", pass)
		s.Check(err == nil, "the wanted file can not be read: %v", err)
		names := []string{}
		for _, e := range stateOf(x, d.Log) {
			names = append(names, e["name"])
		}
		want := []string{}
		if !created {
			want = append(want, "only in "+k)
		}
		if added != "" {
			want = append(want, added)
		}
		got := strings.Join(sorted(names), ",")
		s.Check(got == strings.Join(sorted(want), ",") || c.Cmd == "import" && strings.Contains(got, "imported"), "the wanted file has %q instead of %q", got, want)
	}
	for p, o := range was {
		b, err := os.ReadFile(p)
		s.Check(err == nil && string(b) == o, "the file %s, which is not the wanted one, was changed", p)
	}
	for p := range scFiles(a.Dir) {
		known := p == csv && c.Cmd == "export" || saves && p == path[c.Want] || strings.HasPrefix(filepath.Base(p), "out") && filepath.Dir(p) == a.Dir
		_, was := before[p]
		s.Check(was || known, "the file %s was made", p)
	}
	x.State(fmt.Sprintf("%v %v %s %s %s", c.Flag, c.Env != nil, c.Want, c.Have, c.Cmd))
	x.Outcome(fmt.Sprint(c.Cmd, created, s.Code))
}

func init() {
	fam := core.NewFamily("C35", "files", runWhich)
	core.Register(&core.Check{
		ID: "C35", Level: "exploration",
		Rule:        "one execution is a run of the real program (terminal and key derivation replaced) with a set of files, a command line and an environment; which file was read and written is found out from distinguishable contents and passphrases; state = the configuration",
		Assumptions: []string{"an option on the command line goes before $BPASS, which goes before .bpass in the home directory (in the current one if there is no home); an empty $BPASS is as none"},
		Run: func(ctx *core.Ctx) {
			type ask struct {
				flag []string
				env  string
				set  bool
				want string
			}
			var asks []ask
			envs := []ask{{set: false, want: "D"}, {set: true, env: "", want: "D"}, {set: true, env: "{E}", want: "E"}, {set: true, env: "{rE}", want: "E"}, {set: true, env: "{D}", want: "D"}, {set: true, env: "{F}", want: "F"}}
			for _, e := range envs {
				asks = append(asks, e)
				for _, w := range []string{"D", "E", "F"} {
					for _, sp := range []string{"{" + w + "}", "{r" + w + "}"} {
						for _, f := range [][]string{{"-f", sp}, {"--file", sp}, {"-f=" + sp}, {"--file=" + sp}} {
							asks = append(asks, ask{f, e.env, e.set, w})
						}
					}
				}
			}
			asks = append(asks, ask{[]string{"-f", "{lD}"}, "{E}", true, "D"})
			cmds := []string{"shell", "look", "export", "import", "past", "version", "gen", "wrong"}
			gen := func(home, link string, haves func(want string) []string) func(y func(WhCase) bool) {
				return func(y func(WhCase) bool) {
					for _, k := range asks {
						var env *string
						if k.set {
							v := k.env
							env = &v
						}
						if home == "unset" && (strings.Contains(k.env, "rD") || len(k.flag) > 0 && strings.Contains(strings.Join(k.flag, ""), "rD") || strings.Contains(strings.Join(k.flag, ""), "lD")) {
							continue
						}
						for _, h := range haves(k.want) {
							for _, cmd := range cmds {
								if !y(WhCase{k.flag, env, k.want, h, cmd, home, link, ""}) {
									return
								}
							}
						}
					}
				}
			}
			all := func(string) []string { return []string{"", "D", "E", "F", "DE", "DF", "EF", "DEF"} }
			fam.Explore(ctx, fmt.Sprintf("%d ways to ask for one of three files, all sets of existing files, %d commands", len(asks), len(cmds)), gen("", "", all))
			fam.Explore(ctx, "with other files of similar names in all directories", gen("", "", func(string) []string { return []string{"X", "DEFX"} }))
			fam.Explore(ctx, "without a home directory", gen("unset", "", func(w string) []string { return []string{"", "DEF"} }))
			fam.Explore(ctx, "through a link", gen("", "link", func(w string) []string { return []string{"DEF", w} }))
			fam.Explore(ctx, "through a relative link below a linked directory", func(y func(WhCase) bool) {
				gen("", "updir", func(w string) []string { return []string{"DEF", w} })(func(c WhCase) bool {
					return c.Want == "D" || y(c)
				})
			})
			names := []string{}
			for _, n := range []string{"my ", "a$HOME", "${TMPDIR}", "$BPASS", "~", "~root", "*", "?", "[a]", "a,", "-f", "--", "-", "a=b", "VAULT", "é", "a\\b", `q"u'o`, " ", "a%20", "%s", "a#b?c=d", "file:", "user@host:", ".", "..", "(x)"} {
				names = append(names, n+"vault.bp")
			}
			names = append(names, "x.bpass", "vault.bp.bpass", "x .bpass", ".bpass")
			fam.Explore(ctx, fmt.Sprintf("%d unusual names", len(names)), func(y func(WhCase) bool) {
				for _, n := range names {
					gen("", "", func(w string) []string { return []string{"DEF", strings.ReplaceAll("DEF", w, "")} })(func(c WhCase) bool {
						c.Name = n
						f := strings.Join(c.Flag, " ")
						if !ctx.Thorough() && (c.Cmd != "shell" && c.Cmd != "export" || c.Env != nil && *c.Env == "{F}" || f != "" && f != "-f {F}" && f != "--file={rF}") {
							return true
						}
						return c.Want == "D" || y(c)
					})
				}
			})
			fam.Explore(ctx, "a directory in the wanted place", gen("", "dir", func(w string) []string { return []string{strings.ReplaceAll("DEF", w, "")} }))
		},
	})
}
