package checks

import (
	"fmt"
	"os"
	"strings"

	"bpassmc/core"
)

// ---------------------------------------------------------------------------------------------
// C22: passphrases are typed twice

// TwiceCase is a passphrase typed twice at one of the places that ask for a new one.
type TwiceCase struct {
	Where  string `json:"where"`
	First  string `json:"first"`
	Second string `json:"second"`
}

// where a passphrase is asked for: the command, and who it is for
var twiceWhere = map[string][3]string{
	"new":      {},
	"single":   {"single", "passwd", ""},
	"self":     {"multi", "passwd", "u1"},
	"other":    {"multi", "passwd u2", "u2"},
	"rekey u2": {"multi", "rekey u2", "u2"},
	"third":    {"multi", "adduser A", "A"},
}

func runTwice(x *core.X, c TwiceCase) {
	a := newApp(x)
	w := twiceWhere[c.Where]
	me := cred{"", "pw"}
	typed := c.First == c.Second && c.First != "" && len(c.First) > 0 && c.First != ctrlD && c.First != ctrlC && c.First != termErr
	log := mkTxs(1000, Ent{uid(1), []string{"name", "a", "k", "v"}})
	var s *Sess
	creds := map[cred]bool{}
	after := cred{w[2], c.First}
	switch w[0] {
	case "": // a new file
		s = a.Start()
		s.Check(s.Cur.Kind == "hidden", "asks %v", s.Cur)
		s.Send(c.First)
		if s.Cur.Kind == "hidden" {
			s.Send(c.Second)
		}
		if !typed {
			s.NoCrash()
			s.Check(s.Cur.Kind == "exit" && s.Code != 0, "typed %q and %q, goes on with %v, status %d", c.First, c.Second, s.Cur, s.Code)
			_, err := os.Lstat(a.File)
			s.Check(os.IsNotExist(err), "the file exists")
			x.Outcome("refused")
			return
		}
		s.Check(s.Cur.Main(), "typed the same twice, but it goes on with %v", s.Cur)
		me = after
	case "single":
		a.put("pw", log)
		s = a.Start().MustOpen("", "pw")
	case "multi":
		a.putUsers(shUsers, shMaster, log)
		me = cred{"u1", "p1"}
		creds[cred{"u2", "p2"}] = true
		s = a.Start().MustOpen("u1", "p1")
	}
	creds[me] = true
	asked := false
	if w[0] != "" {
		s.Send(w[1])
		l := []string{c.First, c.Second}
		for n := 0; !s.Cur.Main() && s.Cur.Kind != "exit"; n++ {
			s.Check(n < 20, "never stops asking")
			switch {
			case s.Cur.Kind == "hidden" && len(l) > 0:
				asked = true
				s.Send(l[0])
				l = l[1:]
			case s.Cur.Kind == "hidden":
				s.Send(ctrlD)
			case asked && !typed:
				s.Send(ctrlD)
			default:
				s.Send("m")
			}
		}
		s.NoCrash()
		s.Check(asked, "no passphrase is asked for")
		if s.Cur.Kind == "exit" {
			s.Check(c.First == ctrlC || c.Second == ctrlC || c.First == termErr || c.Second == termErr, "typed %q and %q, the session ended", c.First, c.Second)
		}
		if typed {
			for o := range creds {
				if o.user == after.user {
					delete(creds, o)
				}
			}
			creds[after] = true
		}
	}
	// who is in the session stays able to work
	if s.Cur.Kind != "exit" {
		if w[0] != "" {
			s.Do("set a z 1")
		}
		s.MustExit()
	}
	b := a.bytes()
	for _, u := range []string{"", "u1", "u2", "A"} {
		if (w[0] == "multi") != (u != "") {
			continue
		}
		for _, p := range []string{"pw", "p1", "p2", "", c.First, c.Second} {
			_, _, err := readFile(b, u, p)
			want := creds[cred{u, p}]
			s.Check((err == nil) == want, "typed %q and %q: %q opens the file with %q: %v, should be %v", c.First, c.Second, u, p, err == nil, want)
		}
	}
	x.Outcome(fmt.Sprint(typed))
}

var famTwice = core.NewFamily("C22", "typed twice", runTwice)

func exploreTwice(ctx *core.Ctx) {
	ps := []string{"", "x", "X", "xx", "x ", " x", " ", "\t", "é", "e\u0301", "pw", "p1", "p2", strings.Repeat("n", 100), ctrlD, ctrlC, termErr}
	famTwice.Explore(ctx, fmt.Sprintf("all pairs of %d passphrases at %d places that ask for a new one", len(ps), len(twiceWhere)), func(y func(TwiceCase) bool) {
		for _, w := range keysOf(twiceWhere) {
			for _, f := range ps {
				for _, s := range ps {
					if !y(TwiceCase{w, f, s}) {
						return
					}
				}
			}
		}
	})
}
